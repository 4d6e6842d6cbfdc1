"""ST7 family programming manual PM0038.

Don't-cares: TRAP, HALT, WFI, the level of the interrupt pin (JRIL, JRIH), transfers to
the device dependent stack pointer, indexed addresses beyond 64K, a subroutine call
through a pointer its own push overwrites, a stack pointer outside page 1, unused bits of CC."""
from dsl import *
from uc import Cpu

CPU = Cpu("ST7", "st7", "cl_st7", ctor=["ptr"], set={"regs.VECTOR": 0}, same={"rom": "rom#2"}, opaque=["^cl_sim[a-z0-9]*::", "^dnow", "^cl_st7::stack_check"])
IGN = [r"^vc\.", r"^inst_", r"^instPC$"]
A, X_, Y, SP, CC = F("regs.A", 8), F("regs.X", 8), F("regs.Y", 8), F("regs.SP", 16), F("regs.CC", 8)
pc = PC0()
CM = 0x1f


def rom(a): return RD("rom", a.tr(16) if a.w > 16 else a.zx(16))
def pcp(n): return (pc + n).tr(16)
def b(n): return rom(pcp(n))
def w(n): return cat(b(n), b(n + 1))
def rd16(a): return cat(rom(a), rom(a.zx(16) + 1))


def fl(s, **kw):
    pos = {"h": "b4", "i": "b3", "n": "b2", "z": "b1", "c": "b0"}
    s.set("regs.CC", setbits(CC, **{pos[k]: v for k, v in kw.items()}), CM)


def nz(s, r, **kw): fl(s, n=r.n(), z=r.z(), **kw)


t = {}


def op(by, f, n=None):
    by = tuple(by)
    s = Spec(ret=0, ignore=IGN)
    f(s)
    if "PC" not in s.fields:
        s.set("PC", pcp(n if n is not None else len(by)))
    assert by not in t, by
    t[by] = [s]


class EA:
    """effective address with its no-overflow condition"""

    def __init__(self, a, ix=None):
        self.a = a.zx(16) if ix is None else a.zx(16) + ix.zx(16)
        self.ok = None if ix is None or a.w < 16 else (a.zx(17) + ix.zx(17)).bit(16).eq(0)

    def use(self, s):
        if self.ok is not None:
            s.assume.append(self.ok)
        return self.a


def modes(h):
    """(prefix, address, length) for one operand column; direct columns have Y register forms too"""
    if h == 0xB0:
        for p in ([], [0x90]):
            yield p, EA(b(1 + len(p))), 2 + len(p)
        for p in ([0x92], [0x91]):
            yield p, EA(rom(b(2))), 3
    elif h == 0xC0:
        for p in ([], [0x90]):
            yield p, EA(w(1 + len(p))), 3 + len(p)
        for p in ([0x92], [0x91]):
            yield p, EA(rd16(b(2))), 3
    elif h == 0xD0:
        yield [], EA(w(1), X_), 3
        yield [0x90], EA(w(2), Y), 4
        yield [0x92], EA(rd16(b(2)), X_), 3
        yield [0x91], EA(rd16(b(2)), Y), 3
    elif h == 0xE0:
        yield [], EA(b(1), X_), 2
        yield [0x90], EA(b(2), Y), 3
        yield [0x92], EA(rom(b(2)), X_), 3
        yield [0x91], EA(rom(b(2)), Y), 3
    elif h == 0xF0:
        yield [], EA(X_), 1
        yield [0x90], EA(Y), 2


def alu(k, get, reg="regs.A", rv=A):
    def f(s):
        v = get(s)
        if k in (0, 1, 2, 3):
            r, c, _, _ = subb(rv, v, CC.bit(0) if k == 2 else 0, 8)
            nz(s, r, c=c)
        elif k in (9, 11):
            r, c, _, h = addc(rv, v, CC.bit(0) if k == 9 else 0, 8)
            nz(s, r, c=c, h=h)
        else:
            r = {4: rv & v, 5: rv & v, 6: v, 8: rv ^ v, 10: rv | v, 14: v}[k]
            nz(s, r)
        if k not in (1, 3, 5):
            s.set(reg, r)
    return f


ALU = (0, 1, 2, 4, 5, 6, 8, 9, 10, 11)
for k in ALU:
    op([0xA0 + k], alu(k, lambda s: b(1)), 2)
for k in (3, 14):
    op([0xA0 + k], alu(k, lambda s: b(1), "regs.X", X_), 2)
    op([0x90, 0xA0 + k], alu(k, lambda s: b(2), "regs.Y", Y), 3)


def push(s, v, k=0):
    s.assume.append(SP.bits(15, 8).eq(1))
    for i in range(v.w // 8):
        s.write("rom", (SP - (k + i)).tr(16), v.bits(8 * i + 7, 8 * i))
    s.set("regs.SP", SP - (k + v.w // 8))


def pop(s, n, k=0):
    s.assume.append(SP.bits(15, 8).eq(1))
    return cat(*[rom((SP + (k + 1 + i)).tr(16)) for i in range(n)])


for h in (0xB0, 0xC0, 0xD0, 0xE0, 0xF0):
    for p, ea, n in modes(h):
        yreg = p in ([0x90], [0x91])
        if h in (0xD0, 0xE0, 0xF0) or not yreg:
            for k in ALU:
                op(p + [h + k], alu(k, lambda s: rom(ea.use(s))), n)

            def sta(s):
                s.write("rom", ea.use(s), A)
                nz(s, A)
            op(p + [h + 7], sta, n)
            op(p + [h + 12], lambda s: s.set("PC", ea.use(s)), n)

            def call(s):
                tgt = ea.use(s)
                push(s, pcp(n))
                s.set("PC", tgt)
            op(p + [h + 13], call, n)
        reg, rv = ("regs.Y", Y) if yreg else ("regs.X", X_)
        for k in (3, 14):
            op(p + [h + k], alu(k, lambda s: rom(ea.use(s)), reg, rv), n)

        def stx(s):
            s.write("rom", ea.use(s), rv)
            nz(s, rv)
        op(p + [h + 15], stx, n)


def rmw(k, v, put):
    def f(s):
        c = CC.bit(0)
        r = None
        if k == 0:
            r = (C(8, 0) - v).tr(8)
            nz(s, r, c=v.ne(0))
        elif k == 3:
            r = ~v
            nz(s, r, c=1)
        elif k in (4, 6, 7, 8, 9):
            r, cc = {4: (v >> 1, v.bit(0)), 6: (cat(c, v.bits(7, 1)), v.bit(0)), 7: (cat(v.bit(7), v.bits(7, 1)), v.bit(0)),
                     8: (v << 1, v.bit(7)), 9: (cat(v.bits(6, 0), c), v.bit(7))}[k]
            nz(s, r, c=cc)
        elif k in (10, 12):
            r = v - 1 if k == 10 else v + 1
            nz(s, r)
        elif k == 13:
            nz(s, v)
        elif k == 14:
            r = cat(v.bits(3, 0), v.bits(7, 4))
            nz(s, r)
        elif k == 15:
            r = C(8, 0)
            nz(s, r)
        if r is not None:
            put(s, r)
    return f


RMW = (0, 3, 4, 6, 7, 8, 9, 10, 12, 13, 14, 15)
for p, h, nm, v in (([], 0x40, "regs.A", A), ([], 0x50, "regs.X", X_), ([0x90], 0x50, "regs.Y", Y)):
    for k in RMW:
        op(p + [h + k], rmw(k, v, lambda s, r: s.set(nm, r)))
for p, h, ea, n in (([], 0x30, b(1).zx(16), 2), ([0x92], 0x30, rom(b(2)).zx(16), 3), ([], 0x60, b(1).zx(16) + X_.zx(16), 2), ([0x90], 0x60, b(2).zx(16) + Y.zx(16), 3),
                    ([0x92], 0x60, rom(b(2)).zx(16) + X_.zx(16), 3), ([0x91], 0x60, rom(b(2)).zx(16) + Y.zx(16), 3), ([], 0x70, X_.zx(16), 1), ([0x90], 0x70, Y.zx(16), 2)):
    for k in RMW:
        op(p + [h + k], rmw(k, rom(ea), lambda s, r: s.write("rom", ea, r)), n)
for i in range(8):
    for p in ([], [0x92]):
        q = len(p)
        ea = (rom(b(2)) if p else b(1)).zx(16)
        v = rom(ea)
        pos = "b%d" % i
        op(p + [0x10 + 2 * i], lambda s: s.write("rom", ea, setbits(v, **{pos: 1})), 2 + q)
        op(p + [0x11 + 2 * i], lambda s: s.write("rom", ea, setbits(v, **{pos: 0})), 2 + q)

        def btj(s, inv):
            bit = v.bit(i)
            s.set("PC", ite(~bit if inv else bit, pcp(3 + q) + b(2 + q).sx(16), pcp(3 + q)))
            fl(s, c=bit)
        op(p + [2 * i], lambda s: btj(s, 0))
        op(p + [2 * i + 1], lambda s: btj(s, 1))
c, z, n_, i_, h = [CC.bit(i) for i in range(5)]
for k, cond in enumerate([C(1, 1), ~(c | z), ~c, ~z, ~h, ~n_, ~i_]):
    for p in ([], [0x92]):
        q = len(p)
        ofs = rom(b(2)) if p else b(1)
        op(p + [0x20 + 2 * k], lambda s: s.set("PC", ite(cond, pcp(2 + q) + ofs.sx(16), pcp(2 + q))))
        op(p + [0x21 + 2 * k], lambda s: s.set("PC", ite(~cond, pcp(2 + q) + ofs.sx(16), pcp(2 + q))))
for p in ([], [0x92]):
    q = len(p)
    ofs = rom(b(2)) if p else b(1)

    def callr(s):
        push(s, pcp(2 + q))
        s.set("PC", pcp(2 + q) + ofs.sx(16))
    op(p + [0xAD], callr)


def iret(s):
    s.set("regs.CC", pop(s, 1), CM)
    s.set("regs.A", pop(s, 1, 1))
    s.set("regs.X", pop(s, 1, 2))
    s.set("PC", pop(s, 2, 3))
    s.set("regs.SP", SP + 5)


def ret(s):
    s.set("PC", pop(s, 2))
    s.set("regs.SP", SP + 2)


op([0x80], iret)
op([0x81], ret)


def popr(nm, m=None):
    def f(s):
        s.set(nm, pop(s, 1), m)
        s.set("regs.SP", SP + 1)
    return f


for p, o, nm, r, m in (([], 4, "regs.A", A, None), ([], 5, "regs.X", X_, None), ([], 6, "regs.CC", CC, CM), ([0x90], 5, "regs.Y", Y, None)):
    op(p + [0x80 + o], popr(nm, m))
    op(p + [0x84 + o], lambda s: push(s, r))


def setr(nm, v): return lambda s: s.set(nm, v)


op([0x93], setr("regs.X", Y))
op([0x90, 0x93], setr("regs.Y", X_))
op([0x97], setr("regs.X", A))
op([0x90, 0x97], setr("regs.Y", A))
op([0x9F], setr("regs.A", X_))
op([0x90, 0x9F], setr("regs.A", Y))
op([0x96], setr("regs.X", SP.bits(7, 0)))
op([0x90, 0x96], setr("regs.Y", SP.bits(7, 0)))
op([0x9E], setr("regs.A", SP.bits(7, 0)))
for p, nm, r in (([], "regs.X", X_), ([0x90], "regs.Y", Y)):
    def mul(s):
        q = r.zx(16) * A.zx(16)
        s.set(nm, q.bits(15, 8))
        s.set("regs.A", q.bits(7, 0))
        fl(s, h=0, c=0)
    op(p + [0x42], mul)
op([0x98], lambda s: fl(s, c=0))
op([0x99], lambda s: fl(s, c=1))
op([0x9A], lambda s: fl(s, i=0))
op([0x9B], lambda s: fl(s, i=1))
op([0x9C], lambda s: s.set("regs.SP", C(16, 0x17f)))
op([0x9D], lambda s: None)


def runs(): return [("".join("%02X" % x for x in o), list(o), specs) for o, specs in sorted(t.items())]
