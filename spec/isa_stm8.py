"""STM8 CPU programming manual PM0044.

Don't-cares: stack roll-over of particular devices, HALT/WFI/WFE/BREAK, results of
a division by zero, 24 bit effective addresses beyond 16M, JP/CALL with an
instruction or target that crosses its 64K section, a call through a pointer that its own
push overwrites, JRM/JRNM when the two I bits differ, unused condition code bit."""
from dsl import *
from uc import Cpu

CPU = Cpu("STM8", "stm8", "cl_stm8", ctor=["cpu_entry", "ptr"], pcbits=24, set={"cSP.rollover": 0, "sp_limit": 0, "sp_start": 0x17ff},
          opaque=["^cl_sim[a-z0-9]*::", "^dnow", "^cl_it_src::", "^cl_stm8::stack_check"])
IGN = [r"^vc\.", r"^inst_", r"^instPC$", r"^sp_most$", r"^cSP\."]
A, X_, Y, SP, CC = F("regs.A", 8), F("regs.X", 16), F("regs.Y", 16), F("regs.SP", 16), F("regs.CC", 8)
pc = PC0()
CM = 0xbf


def ad(a): return a.tr(24) if a.w > 24 else a.zx(24)
def rom(a): return RD("rom", ad(a))
def pcp(n): return (pc + n).tr(24)
def b(n): return rom(pcp(n))
def w(n): return cat(b(n), b(n + 1))
def rd16(a): return cat(rom(ad(a)), rom(ad(a) + 1))
def rd24(a): return cat(rom(ad(a)), rom(ad(a) + 1), rom(ad(a) + 2))


def fl(s, base=CC, **kw):
    pos = {"v": "b7", "i1": "b5", "h": "b4", "i0": "b3", "n": "b2", "z": "b1", "c": "b0"}
    s.set("regs.CC", setbits(base, **{pos[k]: v for k, v in kw.items()}), CM)


def nz(s, r, **kw): fl(s, n=r.n(), z=r.z(), **kw)


t = {}


def op(by, f, n=None):
    by = tuple(by)
    s = Spec(ret=0, ignore=IGN)
    f(s)
    if "PC" not in s.fields:
        s.set("PC", pcp(n if n is not None else len(by)))
    assert by not in t, by
    t[by] = [s]


def modes(pfx=True):
    """(prefix, high nibble, address, length) of the accumulator group's memory operands"""
    yield [], 0xB0, b(1), 2
    yield [], 0xC0, w(1), 3
    yield [], 0xD0, w(1).zx(24) + X_.zx(24), 3
    yield [], 0xE0, b(1).zx(24) + X_.zx(24), 2
    yield [], 0xF0, X_, 1
    yield [0x90], 0xD0, w(2).zx(24) + Y.zx(24), 4
    yield [0x90], 0xE0, b(2).zx(24) + Y.zx(24), 3
    yield [0x90], 0xF0, Y, 2
    yield [0x92], 0xC0, rd16(b(2)), 3
    yield [0x72], 0xC0, rd16(w(2)), 4
    yield [0x92], 0xD0, rd16(b(2)).zx(24) + X_.zx(24), 3
    yield [0x72], 0xD0, rd16(w(2)).zx(24) + X_.zx(24), 4
    yield [0x91], 0xD0, rd16(b(2)).zx(24) + Y.zx(24), 3


SPO = b(1).zx(24) + SP.zx(24)


def alu(k, v):
    def f(s):
        if k in (0, 1, 2):
            r, c, o, _ = subb(A, v, CC.bit(0) if k == 2 else 0, 8)
            nz(s, r, v=o, c=c)
        elif k in (9, 11):
            r, c, o, h = addc(A, v, CC.bit(0) if k == 9 else 0, 8)
            nz(s, r, v=o, c=c, h=h)
        else:
            r = {4: A & v, 5: A & v, 6: v, 8: A ^ v, 10: A | v}[k]
            nz(s, r)
        if k not in (1, 5):
            s.set("regs.A", r)
    return f


ALU = (0, 1, 2, 4, 5, 6, 8, 9, 10, 11)
for k in ALU:
    op([0xA0 + k], alu(k, b(1)), 2)
    op([0x10 + k if k != 6 else 0x7B], alu(k, rom(SPO)), 2)


def sta(ea):
    def f(s):
        s.write("rom", ad(ea), A)
        nz(s, A)
    return f


def push(s, n, v, k=0):
    """k bytes are on the stack already"""
    for i in range(n):
        s.write("rom", ad((SP - (k + i)).tr(16)), v.bits(8 * i + 7, 8 * i))
    s.set("regs.SP", SP - (k + n))


def pop(n, k=0):
    return cat(*[rom((SP + (k + 1 + i)).tr(16)) for i in range(n)])


sec = pc.tr(24).bits(23, 16)


def insec(s, ea):
    s.assume.append(pc.tr(16).ult(0xfff0))
    if ea.w > 16:
        s.assume.append(ea.bits(ea.w - 1, 16).z())
    return cat(sec, ea.tr(16))


for p, h, ea, n in modes():
    for k in ALU:
        op(p + [h + k], alu(k, rom(ea)), n)
    op(p + [h + 7], sta(ea), n)
    if (p, h) != ([], 0xB0):
        op(p + [h + 12], lambda s: s.set("PC", insec(s, ea)), n)

        def call(s):
            push(s, 2, pcp(n))
            s.set("PC", insec(s, ea))
        op(p + [h + 13], call, n)
op([0x6B], sta(SPO), 2)


# compare and load words: mode -> (register, address)
def cpw(r, v):
    def f(s):
        q, c, o, _ = subb(r, v, 0, 16)
        nz(s, q, v=o, c=c)
    return f


def ldw(name, v):
    def f(s):
        s.set(name, v)
        nz(s, v)
    return f


def stw(ea, r):
    def f(s):
        s.write("rom", ad(ea), r.bits(15, 8))
        s.write("rom", ad(ea) + 1, r.bits(7, 0))
        nz(s, r)
    return f


RX, RY = ("regs.X", X_), ("regs.Y", Y)
op([0xA3], cpw(X_, w(1)), 3)
op([0x90, 0xA3], cpw(Y, w(2)), 4)
op([0x13], cpw(X_, rd16(SPO)), 2)
op([0xAE], ldw("regs.X", w(1)), 3)
op([0x90, 0xAE], ldw("regs.Y", w(2)), 4)
op([0x1E], ldw("regs.X", rd16(SPO)), 2)
op([0x16], ldw("regs.Y", rd16(SPO)), 2)
op([0x1F], stw(SPO, X_), 2)
op([0x17], stw(SPO, Y), 2)
for p, h, ea, n in list(modes()) + [([0x90], 0xB0, b(2), 3), ([0x90], 0xC0, w(2), 4), ([0x91], 0xC0, rd16(b(2)), 3)]:
    direct = h in (0xB0, 0xC0)
    y = p in ([0x90], [0x91])
    (nm, r), (om, o) = (RY, RX) if y else (RX, RY)
    # direct operands go with the prefix's register, indexed compares and stores with the other one
    op(p + [h + 3], cpw(r if direct else o, rd16(ea)), n)
    op(p + [h + 14], ldw(nm, rd16(ea)), n)
    op(p + [h + 15], stw(ea, r if direct else o), n)


# read-modify-write group
def rmw(k, v, put):
    def f(s):
        wd = v.w
        c = CC.bit(0)
        top = wd - 1
        r = None
        if k == 0:
            r = (C(wd, 0) - v).tr(wd)
            nz(s, r, v=v.eq(1 << top), c=v.ne(0))
        elif k == 3:
            r = ~v
            nz(s, r, c=1)
        elif k in (4, 6, 7, 8, 9):
            r, cc = {4: (v >> 1, v.bit(0)), 6: (cat(c, v.bits(top, 1)), v.bit(0)), 7: (cat(v.bit(top), v.bits(top, 1)), v.bit(0)),
                     8: (v << 1, v.bit(top)), 9: (cat(v.bits(top - 1, 0), c), v.bit(top))}[k]
            nz(s, r, c=cc)
        elif k == 10:
            r = v - 1
            nz(s, r, v=v.eq(1 << top))
        elif k == 12:
            r = v + 1
            nz(s, r, v=v.eq((1 << top) - 1))
        elif k == 13:
            nz(s, v)
        elif k == 14:
            r = cat(v.bits(wd // 2 - 1, 0), v.bits(top, wd // 2))
            nz(s, r)
        elif k == 15:
            r = C(wd, 0)
            nz(s, r)
        if r is not None:
            put(s, r)
    return f


RMW = (0, 3, 4, 6, 7, 8, 9, 10, 12, 13, 14, 15)
for p, h, nm, v in (([], 0x40, "regs.A", A), ([], 0x50, "regs.X", X_), ([0x90], 0x50, "regs.Y", Y)):
    for k in RMW:
        op(p + [h + k], rmw(k, v, lambda s, r: s.set(nm, r)))
for p, h, ea, n in (([], 0x00, SPO, 2), ([], 0x30, b(1), 2), ([0x72], 0x50, w(2), 4), ([], 0x70, X_, 1), ([], 0x60, b(1).zx(24) + X_.zx(24), 2),
                    ([0x72], 0x40, w(2).zx(24) + X_.zx(24), 4), ([0x90], 0x70, Y, 2), ([0x90], 0x60, b(2).zx(24) + Y.zx(24), 3),
                    ([0x90], 0x40, w(2).zx(24) + Y.zx(24), 4), ([0x92], 0x30, rd16(b(2)), 3), ([0x72], 0x30, rd16(w(2)), 4),
                    ([0x92], 0x60, rd16(b(2)).zx(24) + X_.zx(24), 3), ([0x72], 0x60, rd16(w(2)).zx(24) + X_.zx(24), 4), ([0x91], 0x60, rd16(b(2)).zx(24) + Y.zx(24), 3)):
    for k in RMW:
        op(p + [h + k], rmw(k, rom(ea), lambda s, r: s.write("rom", ad(ea), r)), n)


def addw(nm, r, v, sub):
    def f(s):
        q, c, o, _ = (subb if sub else addc)(r, v, 0, 16)
        a, m = r.bits(7, 0).zx(9), v.bits(7, 0).zx(9)
        h = ((a - m) if sub else (a + m)).bit(8)
        s.set(nm, q)
        nz(s, q, v=o, c=c, h=h)
    return f


SP2 = b(2).zx(24) + SP.zx(24)
for nm, r, sub, imm, lng, spx in (("regs.X", X_, 0, [0x1C], 0xBB, 0xFB), ("regs.X", X_, 1, [0x1D], 0xB0, 0xF0),
                                  ("regs.Y", Y, 0, [0x72, 0xA9], 0xB9, 0xF9), ("regs.Y", Y, 1, [0x72, 0xA2], 0xB2, 0xF2)):
    op(imm, addw(nm, r, w(len(imm)), sub), len(imm) + 2)
    op([0x72, lng], addw(nm, r, rd16(w(2)), sub), 4)
    op([0x72, spx], addw(nm, r, rd16(SP2), sub), 3)
op([0x5B], lambda s: s.set("regs.SP", SP + b(1).zx(16)), 2)
op([0x52], lambda s: s.set("regs.SP", SP - b(1).zx(16)), 2)

for i in range(8):
    v = rom(w(2))
    pos = "b%d" % i
    op([0x72, 0x10 + 2 * i], lambda s: s.write("rom", ad(w(2)), setbits(v, **{pos: 1})), 4)
    op([0x72, 0x11 + 2 * i], lambda s: s.write("rom", ad(w(2)), setbits(v, **{pos: 0})), 4)
    op([0x90, 0x10 + 2 * i], lambda s: s.write("rom", ad(w(2)), setbits(v, **{pos: ~v.bit(i)})), 4)
    op([0x90, 0x11 + 2 * i], lambda s: s.write("rom", ad(w(2)), setbits(v, **{pos: CC.bit(0)})), 4)

    def btj(s, inv):
        bit = v.bit(i)
        s.set("PC", ite(~bit if inv else bit, pcp(5) + b(4).sx(24), pcp(5)))
        fl(s, c=bit)
    op([0x72, 2 * i], lambda s: btj(s, 0))
    op([0x72, 2 * i + 1], lambda s: btj(s, 1))
c, z, n_, i0, h, i1, v_ = [CC.bit(i) for i in (0, 1, 2, 3, 4, 5, 7)]
for k, cond in enumerate([C(1, 1), ~(c | z), ~c, ~z, ~v_, ~n_, ~(z | (n_ ^ v_)), ~(n_ ^ v_)]):
    op([0x20 + 2 * k], lambda s: s.set("PC", ite(cond, pcp(2) + b(1).sx(24), pcp(2))))
    op([0x21 + 2 * k], lambda s: s.set("PC", ite(~cond, pcp(2) + b(1).sx(24), pcp(2))))
# interrupt mask: levels with different I bits are left open
for o, cond in ((0x28, ~h), (0x29, h), (0x2C, ~(i0 & i1)), (0x2D, i0 & i1)):
    def jr90(s):
        s.set("PC", ite(cond, pcp(3) + b(2).sx(24), pcp(3)))
        if o & 4:
            s.assume.append(i0.eq(i1))
    op([0x90, o], jr90)


def callr(s):
    push(s, 2, pcp(2))
    s.assume.append(pc.tr(16).ult(0xfff0))
    s.set("PC", pcp(2) + b(1).sx(24))


op([0xAD], callr)


def ret(s):
    s.set("PC", cat(pcp(1).bits(23, 16), pop(2)))
    s.set("regs.SP", SP + 2)


def retf(s):
    s.set("PC", pop(3))
    s.set("regs.SP", SP + 3)


def iret(s):
    s.set("regs.CC", pop(1), CM)
    s.set("regs.A", pop(1, 1))
    s.set("regs.X", pop(2, 2))
    s.set("regs.Y", pop(2, 4))
    s.set("PC", pop(3, 6))
    s.set("regs.SP", SP + 9)


def trap(s):
    push(s, 3, pcp(1))
    push(s, 2, Y, 3)
    push(s, 2, X_, 5)
    push(s, 1, A, 7)
    push(s, 1, CC, 8)
    fl(s, i0=1, i1=1)
    s.set("PC", C(24, 0x8004))


op([0x81], ret)
op([0x87], retf)
op([0x80], iret)
op([0x83], trap)


def intv(s):
    s.set("PC", cat(b(1), b(2), b(3)))


ext = cat(b(1), b(2), b(3))
ext2 = cat(b(2), b(3), b(4))
op([0xAC], lambda s: s.set("PC", ext), 4)
op([0x92, 0xAC], lambda s: s.set("PC", rd24(w(2))), 4)


def callf(tgt, n):
    def f(s):
        push(s, 3, pcp(n))
        s.set("PC", tgt)
    return f


op([0x8D], callf(ext, 4))


def callfi(s):
    callf(rd24(w(2)), 4)(s)
    for i in range(3):
        for k in range(3):
            s.assume.append((ad(w(2)) + i).ne(ad((SP - k).tr(16))))


op([0x92, 0x8D], callfi)


def nowrap(s, base, ix): s.assume.append((base.zx(25) + ix.zx(25)).bit(24).eq(0))


def lda(base, ix):
    def f(s):
        if ix is not None:
            nowrap(s, base, ix)
        v = rom(base + ix.zx(24) if ix is not None else base)
        s.set("regs.A", v)
        nz(s, v)
    return f


def staf(base, ix):
    def f(s):
        if ix is not None:
            nowrap(s, base, ix)
        s.write("rom", base + ix.zx(24) if ix is not None else base, A)
        nz(s, A)
    return f


for fn, dir_, idx in ((lda, 0xBC, 0xAF), (staf, 0xBD, 0xA7)):
    op([dir_], fn(ext, None), 4)
    op([0x92, dir_], fn(rd24(w(2)), None), 4)
    op([idx], fn(ext, X_), 4)
    op([0x90, idx], fn(ext2, Y), 5)
    op([0x92, idx], fn(rd24(w(2)), X_), 4)
    op([0x91, idx], fn(rd24(w(2)), Y), 4)
op([0x88], lambda s: push(s, 1, A))
op([0x8A], lambda s: push(s, 1, CC))
op([0x4B], lambda s: push(s, 1, b(1)), 2)
op([0x3B], lambda s: push(s, 1, rom(w(1))), 3)
op([0x89], lambda s: push(s, 2, X_))
op([0x90, 0x89], lambda s: push(s, 2, Y))


def popr(nm, n, m=None):
    def f(s):
        s.set(nm, pop(n), m)
        s.set("regs.SP", SP + n)
    return f


def popm(s):
    s.write("rom", ad(w(1)), pop(1))
    s.set("regs.SP", SP + 1)


op([0x84], popr("regs.A", 1))
op([0x86], popr("regs.CC", 1, CM))
op([0x85], popr("regs.X", 2))
op([0x90, 0x85], popr("regs.Y", 2))
op([0x32], popm, 3)
op([0x35], lambda s: s.write("rom", ad(w(2)), b(1)), 4)
op([0x45], lambda s: s.write("rom", ad(b(2)), rom(b(1))), 3)
op([0x55], lambda s: s.write("rom", ad(w(3)), rom(w(1))), 5)


def exgm(s):
    s.set("regs.A", rom(w(1)))
    s.write("rom", ad(w(1)), A)


op([0x31], exgm, 3)


def setm(*l):
    def f(s):
        for nm, v in l:
            s.set(nm, v)
    return f


op([0x41], setm(("regs.A", X_.bits(7, 0)), ("regs.X", cat(X_.bits(15, 8), A))))
op([0x61], setm(("regs.A", Y.bits(7, 0)), ("regs.Y", cat(Y.bits(15, 8), A))))
op([0x51], setm(("regs.X", Y), ("regs.Y", X_)))
for p, nm, r, o in (([], "regs.X", X_, Y), ([0x90], "regs.Y", Y, X_)):
    op(p + [0x95], setm((nm, cat(A, r.bits(7, 0)))))
    op(p + [0x97], setm((nm, cat(r.bits(15, 8), A))))
    op(p + [0x9E], setm(("regs.A", r.bits(15, 8))))
    op(p + [0x9F], setm(("regs.A", r.bits(7, 0))))
    op(p + [0x93], setm((nm, o)))
    op(p + [0x94], setm(("regs.SP", r)))
    op(p + [0x96], setm((nm, SP)))

    def rrwa(s):
        q = cat(A, r.bits(15, 8))
        s.set(nm, q)
        s.set("regs.A", r.bits(7, 0))
        nz(s, q)

    def rlwa(s):
        q = cat(r.bits(7, 0), A)
        s.set(nm, q)
        s.set("regs.A", r.bits(15, 8))
        nz(s, q)

    def mul(s):
        s.set(nm, r.bits(7, 0).zx(16) * A.zx(16))
        fl(s, h=0, c=0)
    op(p + [0x01], rrwa)
    op(p + [0x02], rlwa)
    op(p + [0x42], mul)

    def div(s, q, m, dv, out):
        s.assume.append(dv.ne(0))
        s.set(nm, q)
        s.set(out, m)
        fl(s, v=0, h=0, n=0, c=0, z=q.z())

    def bad(s, dv, regs):
        s.assume.append(dv.eq(0))
        s.set("regs.CC", setbits(CC, b7=0, b4=0, b2=0, b0=1), CM & ~2)
        s.ignore += ["^%s$" % x for x in regs]
    a16 = A.zx(16)
    op(p + [0x62], lambda s: div(s, r.udiv(a16), r.urem(a16).tr(8), A, "regs.A"))
    s2 = Spec(ret=0, ignore=IGN)
    bad(s2, A, [nm, "regs.A"])
    s2.set("PC", pcp(len(p) + 1))
    t[tuple(p + [0x62])].append(s2)
    if not p:
        op([0x65], lambda s: div(s, X_.udiv(Y), X_.urem(Y), Y, "regs.Y"))
        s2 = Spec(ret=0, ignore=IGN)
        bad(s2, Y, ["regs.X", "regs.Y"])
        s2.set("PC", pcp(1))
        t[(0x65,)].append(s2)
op([0x98], lambda s: fl(s, c=0))
op([0x99], lambda s: fl(s, c=1))
op([0x8C], lambda s: fl(s, c=~c))
op([0x9C], lambda s: fl(s, v=0))
op([0x9A], lambda s: fl(s, i1=1, i0=0))
op([0x9B], lambda s: fl(s, i1=1, i0=1))
op([0x9D], lambda s: None)


def runs(): return [("".join("%02X" % x for x in o), list(o), specs) for o, specs in sorted(t.items())]
