"""P2223 (successor of the P1516; table in src/sims/p1516.src/glob.cc).  Flags as in P1516, P and U
(bits 4, 5 of F) select pre/post and up/down of indexed access with a displacement; loads with a
displacement do the opposite of stores, so that a store and a load push and pop.
Don't-cares: undefined codes of the unconditional page, a load with write-back into its own address
register, the special function registers' own contents."""
from dsl import *
import isa_p1516 as p
from isa_p1516 import R, FL, W, fl, add, mem, REGS, IMM, S, CY, Z, O

CPU = p.cpu("P2223", "cl_p2223")
P, U = 4, 5
pc = PC0()


def zs(s, r): fl(s, b0=r.bit(31), b2=r.z())


def cond(c):
    z, cy, n, v = FL.bit(Z), FL.bit(CY), FL.bit(S), FL.bit(O)
    if c in (0, 15): return None
    t = {1: z, 3: cy, 5: n, 7: v, 9: cy & ~z, 11: ~(n ^ v), 13: ~z & ~(n ^ v)}
    return t[c] if c & 1 else ~t[c - 1]


def one(k, s, d):
    x, cy = R(d), FL.bit(CY)
    def sh(r, c):
        W(s, d, r)
        fl(s, b0=r.bit(31), b1=c, b2=r.z())
    if k == 0: W(s, d, x.tr(8).zx(32))
    elif k == 1: W(s, d, x.tr(16).zx(32))
    elif k == 2: W(s, d, x.tr(8).sx(32))
    elif k == 3: W(s, d, x.tr(16).sx(32))
    elif k == 4:
        W(s, d, ~x)
        zs(s, ~x)
    elif k == 5: W(s, d, add(s, C(32, 0), ~x, C(1, 1)))
    elif k == 6: sh(cat(cy, x.bits(31, 1)), x.bit(0))
    elif k == 7: sh(cat(x.bits(30, 0), cy), x.bit(31))
    elif k == 8: sh(cat(x.bits(30, 0), C(1, 0)), x.bit(31))
    elif k == 9: sh(cat(C(1, 0), x.bits(31, 1)), x.bit(0))
    elif k == 10: sh(cat(x.bit(31), x.bits(31, 1)), x.bit(0))
    elif k == 11: zs(s, x)
    elif k == 12: fl(s, b1=C(1, 1))
    elif k == 13: fl(s, b1=C(1, 0))
    elif k == 14: W(s, d, FL)
    elif k == 15: s.set("F", x)


def two(k, s, d, y, imm=None):
    """y: the operand; imm: the 16 bit constant"""
    x, cy = R(d), FL.bit(CY)
    u = y if imm is None else C(32, imm)
    if k == 0: W(s, d, y if imm is None else cat(x.bits(31, 16), C(16, imm)))
    elif k == 1: W(s, d, cat(C(16, imm), x.bits(15, 0)))
    elif k == 2: W(s, d, u)
    elif k == 3: W(s, d, y if imm is not None else y.bit(31).sx(32))
    elif k == 4: W(s, d, add(s, x, y, 0))
    elif k == 5: W(s, d, add(s, x, y, cy))
    elif k == 6: W(s, d, add(s, x, ~y, C(1, 1)))
    elif k == 7: W(s, d, add(s, x, ~y, cy))
    elif k == 8: add(s, x, ~y, C(1, 1))
    elif k == 9:
        W(s, d, x * y)
        zs(s, x * y)
    elif k == 10: W(s, d, x + y)
    elif k == 11:
        W(s, d, x & u)
        zs(s, x & u)
    elif k == 12: zs(s, x & u)
    else:
        r = x | u if k == 13 else x ^ u if k == 14 else x & (y if imm is None else C(32, 0xffff0000 | imm))
        W(s, d, r)
        zs(s, r)


def access(s, load, wb, d, a, disp, up, pre):
    base = R(a)
    chg = base + ite(up, C(32, 1), C(32, 0xffffffff))
    addr = (ite(pre, chg, base) if wb else base) + disp
    if load:
        W(s, d, mem(addr))
    else:
        s.write("rom", addr, R(d))
    if wb:
        W(s, a, chg)


def sx16(v): return C(32, v | (0xffff0000 if v & 0x8000 else 0))


def runs():
    t = p.Tab()
    for n, (d, a, b) in enumerate(REGS):
        D, A, B = d << 20, a << 16, b << 8
        for c in sorted({0, 1 + n % 14, (n + 5) % 15} | (set(range(15)) if n == 0 else set())):
            h, cd = c << 28, cond(c)
            for k in range(16):
                t.op(h | 0x02000000 | D | k << 16, cd, lambda s: one(k, s, d))
                if k not in (1, 2):
                    t.op(h | D | k << 16 | B, cd, lambda s: two(k, s, d, R(b)))
                im = IMM[(n + c + k) % len(IMM)]
                t.op(h | 0x01000000 | D | k << 16 | im, cd, lambda s: two(k, s, d, sx16(im), im))
            t.op(h | 0x04000000 | 0x5a5a5a ^ n << 8, cd, lambda s: (W(s, 14, pc.zx(32) + 1), W(s, 15, C(32, 0x5a5a5a ^ n << 8))))
            for off in (0x12345, 0x80001 + n, 0xfffff)[:2 + n % 2]:
                o = C(32, off | (0xfff00000 if off & 0x80000 else 0))
                t.op(h | 0x05000000 | D | off, cd, lambda s: (W(s, 15, R(d) + o), W(s, 14, pc.zx(32) + 1)))
            # memory
            for ld in (0, 1):
                for wb in (0, 1):
                    if wb and (ld and d == a or a == 15): continue
                    for m in (0, 0x4000, 0x8000, 0xc000):
                        up, pre = C(1, m >> 15), C(1, m >> 14 & 1)
                        t.op(h | 0x08000000 | ld << 25 | wb << 24 | D | A | B | m, cd, lambda s: access(s, ld, wb, d, a, R(b), up, pre))
                    im = IMM[(n + c + wb) % len(IMM)]
                    x = C(1, ld)
                    t.op(h | 0x0c000000 | ld << 25 | wb << 24 | D | A | im, cd, lambda s: access(s, ld, wb, d, a, sx16(im), FL.bit(U) ^ x, FL.bit(P) ^ x))
            im = IMM[(n + c) % len(IMM)]
            t.op(h | 0x06000000 | D | im, cd, lambda s: s.write("rom", C(32, im), R(d)))
            t.op(h | 0x07000000 | D | im, cd, lambda s: W(s, d, mem(C(32, im))))
            t.op(h | 0x06020000 | D | B, cd, lambda s: W(s, d, RD("sfr", C(32, b))))
            t.op(h | 0x07020000 | D | B, cd, lambda s: s.write("sfr", C(32, b), R(d)))
            # bytes
            for i in range(5):
                for ext in (0, 0x4000, 0x6000, -1):
                    w = h | 0x06010000 | (1 << 24 if ext < 0 else ext) | D | B | (0x8000 | i if i < 4 else a)
                    def g(s):
                        def sel(j):
                            x = R(b).bits(8 * j + 7, 8 * j)
                            if ext < 0:
                                v = R(b).tr(8)
                                parts = [R(d).bits(8 * q + 7, 8 * q) if q != j else v for q in (3, 2, 1, 0)]
                                return cat(*parts)
                            return x.sx(32) if ext == 0x6000 else x.zx(32) if ext else cat(R(d).bits(31, 8), x)
                        if i < 4:
                            W(s, d, sel(i))
                        else:
                            q = R(a).bits(1, 0)
                            W(s, d, ite(q.eq(0), sel(0), ite(q.eq(1), sel(1), ite(q.eq(2), sel(2), sel(3)))))
                    t.op(w, cd, g)
    for n, (d, a, b) in enumerate(REGS):
        t.op(0xf4000000 | 0x123456 ^ n << 12, None, lambda s: (W(s, 14, pc.zx(32) + 1), W(s, 15, C(32, 0x123456 ^ n << 12))))
        t.op(0xf5000000 | d << 20 | 0x80010, None, lambda s: (W(s, 15, R(d) + C(32, 0xfff80010)), W(s, 14, pc.zx(32) + 1)))
    return t.out
