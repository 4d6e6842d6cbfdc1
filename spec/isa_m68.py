"""Motorola M6800, MC6801 and M68HC11 programming reference.

Don't-cares: V after DAA, N and V of CPX on the 6800 when the low bytes borrow (the
6800 computes them from the high bytes alone), the S and X condition code bits of
the HC11 (not modelled), STOP, TEST, the low power states, registers after a
failed division where the manual leaves them open."""
from dsl import *
from uc import Cpu, const

IGN = [r"^vc\.", r"^inst_", r"^instPC$", r"^cI$", r"^cI\b", r"^mop16\.", r"^c[A-Z]+\."]
A, B, D, IX, IY, SP, CC = (F("acc.DAB.a8.Ar", 8), F("acc.DAB.a8.Br", 8), None, F("IX", 16), F("IY", 16), F("SP", 16),
                           F("CC.cc16.cc8.ccl", 8))
D = cat(A, B)
CCN, AN, BN = "CC.cc16.cc8.ccl", "acc.DAB.a8.Ar", "acc.DAB.a8.Br"
pc = PC0()
c, v_, z, n_, i_, h = (CC.bit(k) for k in range(6))


def rom(a): return RD("rom", a.tr(16) if a.w > 16 else a.zx(16))
def pcp(n): return (pc + n).tr(16)
def b(n): return rom(pcp(n))
def w(n): return cat(b(n), b(n + 1))
def rd16(a): return cat(rom(a), rom(a + 1))


def cpu(name, sim, cls): return Cpu(name, sim, cls, counters=[{"re": "^cl_it_src::request", "name": "swi", "opaque": True}])


def table(kind):
    """kind: 0 6800, 1 6801, 2 HC11"""
    t = {}
    top = 0xc0 if kind < 2 else 0
    PM = 0xff if kind < 2 else 0x3f

    def fl(s, base=CC, **kw):
        pos = {"c": "b0", "v": "b1", "z": "b2", "n": "b3", "i": "b4", "h": "b5"}
        s.set(CCN, setbits(base, **{pos[k]: x for k, x in kw.items()}) | top, PM)

    def nz(s, r, **kw): fl(s, n=r.n(), z=r.z(), **kw)

    def setd(s, r):
        s.set(AN, r.bits(15, 8))
        s.set(BN, r.bits(7, 0))

    def op(code, f, n=1, pre=None):
        by = ([pre] if pre else []) + [code]
        s = Spec(ret=0, ignore=IGN)
        s.assume.append((CC & 0xc0).eq(0xc0))
        f(s)
        if "PC" not in s.fields:
            s.set("PC", pcp(n))
        t.setdefault(tuple(by), []).append(s)

    def push16(s, r, to):
        s.write("rom", SP, r.bits(7, 0))
        s.write("rom", SP - 1, r.bits(15, 8))
        s.set("SP", SP - 2)
        s.set("PC", to)

    # inherent ----------------------------------------------------------
    op(0x01, lambda s: None)
    op(0x06, lambda s: s.set(CCN, A | top, PM))
    op(0x07, lambda s: s.set(AN, CC, PM))
    for code, bit, val in ((0x0a, "v", 0), (0x0b, "v", 1), (0x0c, "c", 0), (0x0d, "c", 1), (0x0e, "i", 0), (0x0f, "i", 1)):
        op(code, lambda s: fl(s, **{bit: val}))

    def idx1(f, rn, r, d):
        s = r + d
        f.set(rn, s)
        fl(f, z=s.z())
    op(0x08, lambda s: idx1(s, "IX", IX, 1))
    op(0x09, lambda s: idx1(s, "IX", IX, 0xffff))

    def alu2(s, dst, a, v, f, carry=0):
        if f == "add":
            r, cc, o, hc = addc(a, v, carry, a.w)
            if a.w == 8:
                nz(s, r, c=cc, v=o, h=hc)
            else:
                nz(s, r, c=cc, v=o)
        else:
            r, cc, o, _ = subb(a, v, carry, a.w)
            nz(s, r, c=cc, v=o)
        if dst == "D":
            setd(s, r)
        elif dst:
            s.set(dst, r)
    op(0x10, lambda s: alu2(s, AN, A, B, "sub"))
    op(0x11, lambda s: alu2(s, None, A, B, "sub"))

    def mv(s, dst, v):
        s.set(dst, v)
        nz(s, v, v=0)
    op(0x16, lambda s: mv(s, BN, A))
    op(0x17, lambda s: mv(s, AN, B))

    def daa(s):
        lo = A.bits(3, 0).ugt(9) | h
        hi = A.ugt(0x99) | c
        r = A + (ite(lo, C(8, 6), C(8, 0)) | ite(hi, C(8, 0x60), C(8, 0)))
        s.set(AN, r)
        s.set(CCN, setbits(CC, b3=r.n(), b2=r.z(), b0=hi), 0xfd & PM)
        # the cases the manual's table lists
        s.assume.append(~h | A.bits(3, 0).ule(3))
        s.assume.append(~c | A.bits(7, 4).ule(ite(A.bits(3, 0).ugt(9), C(4, 2), C(4, 3))))
    op(0x19, daa)
    op(0x1b, lambda s: alu2(s, AN, A, B, "add"))

    def bra(s, cond, n):
        s.set("PC", ite(cond, pcp(n) + b(n - 1).sx(16), pcp(n)))
    one = C(1, 1)
    ge = ~(n_ ^ v_)
    conds = [one, ~(c | z), ~c, ~z, ~v_, ~n_, ge, ge & ~z]
    for k, cond in enumerate(conds):
        op(0x20 + 2 * k, lambda s: bra(s, cond, 2))
        if k or kind:
            op(0x21 + 2 * k, lambda s: bra(s, ~cond, 2))
    for sfx, pre, r, rn in ((0, None, IX, "IX"),) + (((1, 0x18, IY, "IY"),) if kind == 2 else ()):
        o = 1 if sfx else 0
        op(0x30, lambda s: s.set(rn, SP + 1), 1 + o, pre)
        op(0x35, lambda s: s.set("SP", r - 1), 1 + o, pre)
    op(0x31, lambda s: s.set("SP", SP + 1))
    op(0x34, lambda s: s.set("SP", SP - 1))
    for o, rn, r in ((0, AN, A), (1, BN, B)):
        def pul(s):
            s.set(rn, rom(SP + 1))
            s.set("SP", SP + 1)

        def psh(s):
            s.write("rom", SP, r)
            s.set("SP", SP - 1)
        op(0x32 + o, pul)
        op(0x36 + o, psh)

    def rts(s):
        s.set("PC", rd16(SP + 1))
        s.set("SP", SP + 2)
    op(0x39, rts)

    def stack(s, base, ret):
        l = [ret.bits(7, 0), ret.bits(15, 8)] + ([IY.bits(7, 0), IY.bits(15, 8)] if kind == 2 else []) + \
            [IX.bits(7, 0), IX.bits(15, 8), A, B, CC]
        for k, x in enumerate(l):
            s.write("rom", SP - k, x)
        s.set("SP", SP - len(l))

    def rti(s):
        s.set(CCN, rom(SP + 1) | top, PM)
        s.set(BN, rom(SP + 2))
        s.set(AN, rom(SP + 3))
        s.set("IX", rd16(SP + 4))
        o = 6
        if kind == 2:
            s.set("IY", rd16(SP + o))
            o += 2
        s.set("PC", rd16(SP + o))
        s.set("SP", SP + o + 1)
    op(0x3b, rti)

    def wai(s):
        stack(s, SP, pcp(1))
        s.set("wai", C(8, 1))
        s.ignore.append("^state$")
    op(0x3e, wai)

    def swi(s):
        s.cnt["swi"] = C(32, 1)
    op(0x3f, swi)

    # operand modes: (code, effective address, length, prefix)
    def modes(imm, d, x, e, pre=None, xpre=None, n=0):
        """imm/d/x/e opcodes; n: prefix length"""
        o = 1 if pre else 0
        if d is not None:
            yield d, b(1 + o).zx(16), 2 + o, pre
        if x is not None:
            yield x, b(1 + o).zx(16) + (IY if pre in (0x18, 0xcd) else IX), 2 + o, pre
        if e is not None:
            yield e, w(1 + o), 3 + o, pre

    def rmw(k, v, put):
        def f(s):
            r = None
            if k == 0:
                r, cc, o, _ = subb(C(8, 0), v, 0, 8)
                nz(s, r, v=o, c=cc)
            elif k == 3:
                r = ~v
                nz(s, r, v=0, c=1)
            elif k in (4, 6, 7, 8, 9):
                r, cc = {4: (v >> 1, v.bit(0)), 6: (cat(c, v.bits(7, 1)), v.bit(0)), 7: (cat(v.bit(7), v.bits(7, 1)), v.bit(0)),
                         8: (v << 1, v.bit(7)), 9: (cat(v.bits(6, 0), c), v.bit(7))}[k]
                nz(s, r, c=cc, v=r.bit(7) ^ cc)
            elif k == 10:
                r = v - 1
                nz(s, r, v=v.eq(0x80))
            elif k == 12:
                r = v + 1
                nz(s, r, v=v.eq(0x7f))
            elif k == 13:
                nz(s, v, v=0, c=0)
            elif k == 15:
                r = C(8, 0)
                nz(s, r, v=0, c=0)
            if r is not None:
                put(s, r)
        return f
    KS = (0, 3, 4, 6, 7, 8, 9, 10, 12, 13, 15)
    for base, rn, r in ((0x40, AN, A), (0x50, BN, B)):
        for k in KS:
            op(base + k, rmw(k, r, lambda s, x: s.set(rn, x)))
    pres = (None, 0x18) if kind == 2 else (None,)
    for pre in pres:
        for code, ea, n, p in modes(None, None, 0x60, None if pre else 0x70, pre):
            for k in KS:
                op(code + k, rmw(k, rom(ea), lambda s, x: s.write("rom", ea, x)), n, p)
            op(code + 14, lambda s: s.set("PC", ea), n, p)

    def alu(k, v, rn, a):
        def f(s):
            if k in (0, 1, 2):
                alu2(s, None if k == 1 else rn, a, v, "sub", c if k == 2 else 0)
            elif k in (9, 11):
                alu2(s, rn, a, v, "add", c if k == 9 else 0)
            else:
                r = {4: a & v, 5: a & v, 6: v, 8: a ^ v, 10: a | v}[k]
                nz(s, r, v=0)
                if k != 5:
                    s.set(rn, r)
        return f

    def st(ea, r):
        def f(s):
            s.write("rom", ea, r)
            nz(s, r, v=0)
        return f

    def cmp16(s, a, v, lax=False):
        r, cc, o, _ = subb(a, v, 0, 16)
        if lax:
            nz(s, r, v=o)
            s.assume.append(a.bits(7, 0).uge(v.bits(7, 0)))
        else:
            nz(s, r, v=o, c=cc)

    def ld16(s, rn, v):
        if rn == "D":
            setd(s, v)
        else:
            s.set(rn, v)
        nz(s, v, v=0)

    def st16(s, ea, v):
        s.write("rom", ea, v.bits(15, 8))
        s.write("rom", ea + 1, v.bits(7, 0))
        nz(s, v, v=0)

    def m16(imm, d, x, e, f, pre=None, store=False):
        """f(s, value or address); imm.. opcodes"""
        o = 1 if pre else 0
        if imm is not None:
            op(imm, lambda s: f(s, w(1 + o)), 3 + o, pre)
        for code, ea, n, p in modes(None, d, x, e, pre):
            op(code, lambda s: f(s, ea if store else rd16(ea)), n, p)
    for base, rn, r in ((0x80, AN, A), (0xc0, BN, B)):
        for k in (0, 1, 2, 4, 5, 6, 8, 9, 10, 11):
            op(base + k, alu(k, b(1), rn, r), 2)
            for pre in pres:
                for code, ea, n, p in modes(None, None if pre else base + 0x10, base + 0x20, None if pre else base + 0x30, pre):
                    op(code + k, alu(k, rom(ea), rn, r), n, p)
        for pre in pres:
            for code, ea, n, p in modes(None, None if pre else base + 0x10, base + 0x20, None if pre else base + 0x30, pre):
                op(code + 7, st(ea, r), n, p)
    P2 = lambda x: tuple(x + k for k in (0, 0x10, 0x20, 0x30))
    m16(*P2(0x8c), lambda s, v: cmp16(s, IX, v, kind == 0))
    m16(*P2(0x8e), lambda s, v: ld16(s, "SP", v))
    m16(*P2(0xce), lambda s, v: ld16(s, "IX", v))
    S2 = lambda x: (None,) + tuple(x + k for k in (0x10, 0x20, 0x30))
    m16(*S2(0x8f), lambda s, a: st16(s, a, SP), store=True)
    m16(*S2(0xcf), lambda s, a: st16(s, a, IX), store=True)
    op(0x8d, lambda s: push16(s, pcp(2), pcp(2) + b(1).sx(16)))
    for pre in pres:
        for code, ea, n, p in modes(None, 0x9d if kind and not pre else None, 0xad, None if pre else 0xbd, pre):
            op(code, lambda s: push16(s, pcp(n), ea), n, p)
    op(0x7e, lambda s: s.set("PC", w(1)), 3) if (0x7e,) not in t else None
    if not kind:
        return t
    # 6801 and HC11 --------------------------------------------------------

    def lsrd(s):
        r = D >> 1
        setd(s, r)
        nz(s, r, c=D.bit(0), v=D.bit(0))

    def asld(s):
        r = D << 1
        setd(s, r)
        nz(s, r, c=D.bit(15), v=D.bit(15) ^ D.bit(14))
    op(0x04, lsrd)
    op(0x05, asld)

    def mul(s):
        r = A.zx(16) * B.zx(16)
        setd(s, r)
        fl(s, c=r.bit(7))
    op(0x3d, mul)
    for pre, r, rn in ((None, IX, "IX"),) + (((0x18, IY, "IY"),) if kind == 2 else ()):
        n = 2 if pre else 1

        def pulx(s):
            s.set(rn, rd16(SP + 1))
            s.set("SP", SP + 2)

        def pshx(s):
            s.write("rom", SP, r.bits(7, 0))
            s.write("rom", SP - 1, r.bits(15, 8))
            s.set("SP", SP - 2)
        op(0x38, pulx, n, pre)
        op(0x3a, lambda s: s.set(rn, r + B.zx(16)), n, pre)
        op(0x3c, pshx, n, pre)
    m16(*P2(0x83), lambda s, v: alu2(s, "D", D, v, "sub"))
    m16(*P2(0xc3), lambda s, v: alu2(s, "D", D, v, "add"))
    m16(*P2(0xcc), lambda s, v: ld16(s, "D", v))
    m16(None, 0xdd, 0xed, 0xfd, lambda s, a: st16(s, a, D), store=True)
    if kind == 1:
        return t
    # HC11 --------------------------------------------------------------------
    op(0x08, lambda s: idx1(s, "IY", IY, 1), 2, 0x18)
    op(0x09, lambda s: idx1(s, "IY", IY, 0xffff), 2, 0x18)
    m16(None, None, 0xa3, None, lambda s, v: alu2(s, "D", D, v, "sub"), 0x18)
    m16(None, None, 0xe3, None, lambda s, v: alu2(s, "D", D, v, "add"), 0x18)
    m16(None, None, 0xec, None, lambda s, v: ld16(s, "D", v), 0x18)
    m16(None, None, 0xed, None, lambda s, a: st16(s, a, D), 0x18, True)
    m16(None, None, 0xae, None, lambda s, v: ld16(s, "SP", v), 0x18)
    m16(None, None, 0xaf, None, lambda s, a: st16(s, a, SP), 0x18, True)
    m16(*P2(0x8c), lambda s, v: cmp16(s, IY, v), 0x18)
    m16(*P2(0xce), lambda s, v: ld16(s, "IY", v), 0x18)
    m16(*S2(0xcf), lambda s, a: st16(s, a, IY), 0x18, True)
    m16(*P2(0x83), lambda s, v: cmp16(s, D, v), 0x1a)
    m16(None, None, 0xac, None, lambda s, v: cmp16(s, IY, v), 0x1a)
    m16(None, None, 0xee, None, lambda s, v: ld16(s, "IY", v), 0x1a)
    m16(None, None, 0xef, None, lambda s, a: st16(s, a, IY), 0x1a, True)
    m16(None, None, 0xa3, None, lambda s, v: cmp16(s, D, v), 0xcd)
    m16(None, None, 0xac, None, lambda s, v: cmp16(s, IX, v), 0xcd)
    m16(None, None, 0xee, None, lambda s, v: ld16(s, "IX", v), 0xcd)
    m16(None, None, 0xef, None, lambda s, a: st16(s, a, IX), 0xcd, True)
    for pre, r, rn in ((None, IX, "IX"), (0x18, IY, "IY")):
        def xgd(s):
            setd(s, r)
            s.set(rn, D)
        op(0x8f, xgd, 2 if pre else 1, pre)
        o = 1 if pre else 0
        for base, ea in ((0x12, b(1).zx(16)), (0x1c, b(1 + o).zx(16) + r)):
            if pre and base == 0x12:
                continue
            m = b(2 + o)
            ks = {"brset": 0, "brclr": 1, "bset": 2, "bclr": 3} if base == 0x12 else {"bset": 0, "bclr": 1, "brset": 2, "brclr": 3}
            for nm, k in ks.items():
                def f(s):
                    v = rom(ea)
                    if nm in ("bset", "bclr"):
                        x = (v | m) if nm == "bset" else v & ~m
                        s.write("rom", ea, x)
                        nz(s, x, v=0)
                    else:
                        q = (~v & m) if nm == "brset" else v & m
                        bra(s, q.z(), 4 + o)
                op(base + k, f, 3 + o, pre)

    def idiv(s):
        q, r = D.udiv(IX), D.urem(IX)
        s.assume.append(IX.ne(0))
        s.set("IX", q)
        setd(s, r)
        fl(s, z=q.z(), v=0, c=0)

    def idiv0(s):
        s.assume.append(IX.eq(0))
        s.set("IX", C(16, 0xffff))
        s.ignore += ["^acc"]
        fl(s, z=0, v=0, c=1)
    op(0x02, idiv)
    op(0x02, idiv0)

    def fdiv(s):
        n = cat(D, C(16, 0))
        q, r = n.udiv(IX.zx(32)).tr(16), n.urem(IX.zx(32)).tr(16)
        s.assume.append(D.ult(IX))
        s.set("IX", q)
        setd(s, r)
        fl(s, z=q.z(), v=0, c=0)

    def fdiv0(s):
        s.assume.append(IX.ule(D))
        s.set("IX", C(16, 0xffff))
        s.ignore += ["^acc"]
        fl(s, z=0, v=1, c=IX.z())
    op(0x03, fdiv)
    op(0x03, fdiv0)
    return t


def runs_for(kind):
    return [("".join("%02X" % x for x in o), list(o), specs) for o, specs in sorted(table(kind).items())]
