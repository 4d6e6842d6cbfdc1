"""MOS 6502 programming manual: the documented instructions."""
from dsl import *
from uc import Cpu

CPU = Cpu("mos6502", "mos6502", "cl_mos6502", keep=["SPh"])
A, Xr, Y, SP, P = F("A", 8), F("X", 8), F("Y", 8), F("SP", 8), F("CC", 8)
pc = PC0()
SPH = C(16, 0x100)
IGN = [r"^i8d$", r"^vc\.", r"^inst_", r"^set_b$"]


def rom(a): return RD("rom", a.tr(16) if a.w > 16 else a.zx(16))
def pcp(n): return (pc + n).tr(16)
def b1(): return rom(pcp(1))
def w12(): return cat(rom(pcp(2)), rom(pcp(1)))
def stk(a): return a.tr(8).zx(16) + 0x100


def modes():
    z = b1()
    ip = (z + Xr).tr(8)
    return {
        "imm": (None, 2), "zp": (z.zx(16), 2), "zpx": ((z + Xr).tr(8).zx(16), 2), "zpy": ((z + Y).tr(8).zx(16), 2),
        "abs": (w12(), 3), "absx": (w12() + Xr.zx(16), 3), "absy": (w12() + Y.zx(16), 3),
        "indx": (cat(rom((ip + 1).tr(8)), rom(ip)), 2),
        "indy": (cat(rom((z + 1).tr(8)), rom(z)) + Y.zx(16), 2)}


def flags(**kw):
    pos = {"n": "b7", "v": "b6", "b": "b4", "d": "b3", "i": "b2", "z": "b1", "c": "b0"}
    return setbits(P, **{pos[k]: v for k, v in kw.items()})


def base():
    s = Spec(ret=0, ignore=IGN)
    return s


def nz(r, **kw): return flags(n=r.n(), z=r.z(), **kw)


def table():
    t = {}
    M = modes()

    def add(op, f, mode=None, n=None):
        s = base()
        if mode:
            ea, n = M[mode]
            val = b1() if mode == "imm" else rom(ea)
            r = f(s, ea, val)
        else:
            r = f(s)
        s.set("PC", pcp(n)) if "PC" not in s.fields else None
        t[op] = r if isinstance(r, list) else [s]

    # loads
    def ld(reg):
        def f(s, ea, v):
            s.set(reg, v)
            s.set("CC", nz(v))
        return f

    def st(reg):
        def f(s, ea, v): s.write("rom", ea, reg)
        return f
    for op, m in {0xA9: "imm", 0xA5: "zp", 0xB5: "zpx", 0xAD: "abs", 0xBD: "absx", 0xB9: "absy", 0xA1: "indx", 0xB1: "indy"}.items():
        add(op, ld("A"), m)
    for op, m in {0xA2: "imm", 0xA6: "zp", 0xB6: "zpy", 0xAE: "abs", 0xBE: "absy"}.items():
        add(op, ld("X"), m)
    for op, m in {0xA0: "imm", 0xA4: "zp", 0xB4: "zpx", 0xAC: "abs", 0xBC: "absx"}.items():
        add(op, ld("Y"), m)
    for op, m in {0x85: "zp", 0x95: "zpx", 0x8D: "abs", 0x9D: "absx", 0x99: "absy", 0x81: "indx", 0x91: "indy"}.items():
        add(op, st(A), m)
    for op, m in {0x86: "zp", 0x96: "zpy", 0x8E: "abs"}.items():
        add(op, st(Xr), m)
    for op, m in {0x84: "zp", 0x94: "zpx", 0x8C: "abs"}.items():
        add(op, st(Y), m)

    alu8 = {0x09: "imm", 0x05: "zp", 0x15: "zpx", 0x0D: "abs", 0x1D: "absx", 0x19: "absy", 0x01: "indx", 0x11: "indy"}

    def logic(fn):
        def f(s, ea, v):
            r = fn(A, v)
            s.set("A", r)
            s.set("CC", nz(r))
        return f

    def bcd_ok(x): return x.bits(3, 0).ult(10) & x.bits(7, 4).ult(10)

    def dec(x): return x.bits(7, 4).zx(32) * 10 + x.bits(3, 0).zx(32)

    def pack(x):
        q = x.udiv(10)
        return cat(q.tr(4), x.urem(10).tr(4))

    def adc(s, ea, v):
        c = P.bit(0)
        r, co, ov, h = addc(A, v, c, 8)
        s.set("A", r)
        s.set("CC", nz(r, c=co, v=ov))
        s.assume.append(~P.bit(3))
        d = base()
        d.assume += [P.bit(3), bcd_ok(A), bcd_ok(v)]
        sm = dec(A) + dec(v) + c.zx(32)
        d.set("A", pack(ite(sm.ugt(99), sm - 100, sm)))
        d.set("CC", flags(c=sm.ugt(99)), 0x3d)
        d.set("PC", None)
        return [s, d]

    def sbc(s, ea, v):
        c = P.bit(0)
        r, bo, ov, h = subb(A, v, ~c, 8)
        s.set("A", r)
        s.set("CC", nz(r, c=~bo, v=ov))
        s.assume.append(~P.bit(3))
        d = base()
        d.assume += [P.bit(3), bcd_ok(A), bcd_ok(v)]
        sm = dec(A) - dec(v) - (~c).zx(32)
        neg = sm.slt(0)
        d.set("A", pack(ite(neg, sm + 100, sm)))
        d.set("CC", flags(c=~neg), 0x3d)
        d.set("PC", None)
        return [s, d]

    def cmp_(reg):
        def f(s, ea, v):
            r, bo, _, _ = subb(reg, v, 0, 8)
            s.set("CC", nz(r, c=~bo))
        return f
    for o, m in alu8.items():
        add(o, logic(lambda a, b: a | b), m)
        add(o + 0x20, logic(lambda a, b: a & b), m)
        add(o + 0x40, logic(lambda a, b: a ^ b), m)
        add(o + 0x60, adc, m)
        add(o + 0xC0, cmp_(A), m)
        add(o + 0xE0, sbc, m)
    for o, m in {0xE0: "imm", 0xE4: "zp", 0xEC: "abs"}.items():
        add(o, cmp_(Xr), m)
        add(o - 0x20, cmp_(Y), m)
    for o, m in {0x24: "zp", 0x2C: "abs"}.items():
        add(o, lambda s, ea, v: s.set("CC", flags(n=v.bit(7), v=v.bit(6), z=(A & v).z())), m)

    # read-modify-write
    def rmw(fn):
        def f(s, ea, v):
            r, c = fn(v)
            s.write("rom", ea, r)
            s.set("CC", nz(r, c=c) if c is not None else nz(r))
        return f

    def acc(fn):
        def f(s):
            r, c = fn(A)
            s.set("A", r)
            s.set("CC", nz(r, c=c))
        return f
    sh = {0x00: lambda v: (cat(v.bits(6, 0), 0), v.bit(7)), 0x20: lambda v: (cat(v.bits(6, 0), P.bit(0)), v.bit(7)),
          0x40: lambda v: (cat(0, v.bits(7, 1)), v.bit(0)), 0x60: lambda v: (cat(P.bit(0), v.bits(7, 1)), v.bit(0))}
    for k, fn in sh.items():
        for o, m in {0x06: "zp", 0x16: "zpx", 0x0E: "abs", 0x1E: "absx"}.items():
            add(o + k, rmw(fn), m)
        add(0x0A + k, acc(fn), None, 1)
    for o, m in {0xE6: "zp", 0xF6: "zpx", 0xEE: "abs", 0xFE: "absx"}.items():
        add(o, rmw(lambda v: (v + 1, None)), m)
        add(o - 0x20, rmw(lambda v: (v - 1, None)), m)

    def reg(name, val, fl=True):
        def f(s):
            s.set(name, val)
            if fl:
                s.set("CC", nz(val))
        return f
    for o, n, v in [(0xE8, "X", Xr + 1), (0xC8, "Y", Y + 1), (0xCA, "X", Xr - 1), (0x88, "Y", Y - 1), (0xAA, "X", A),
                    (0xA8, "Y", A), (0x8A, "A", Xr), (0x98, "A", Y), (0xBA, "X", SP)]:
        add(o, reg(n, v), None, 1)
    add(0x9A, reg("SP", Xr, False), None, 1)
    for o, kw in {0x18: dict(c=0), 0x38: dict(c=1), 0x58: dict(i=0), 0x78: dict(i=1), 0xB8: dict(v=0), 0xD8: dict(d=0), 0xF8: dict(d=1)}.items():
        add(o, lambda s, kw=kw: s.set("CC", flags(**kw)), None, 1)
    add(0xEA, lambda s: None, None, 1)

    # branches
    for o, c in {0x10: ~P.bit(7), 0x30: P.bit(7), 0x50: ~P.bit(6), 0x70: P.bit(6), 0x90: ~P.bit(0), 0xB0: P.bit(0), 0xD0: ~P.bit(1), 0xF0: P.bit(1)}.items():
        add(o, lambda s, c=c: s.set("PC", ite(c, pcp(2) + b1().sx(16), pcp(2))), None, 2)
    add(0x4C, lambda s: s.set("PC", w12()), None, 3)
    # JMP (ind): the manual leaves a vector crossing a page open, so only the others are required
    def jmpi(s):
        p = w12()
        s.set("PC", cat(rom(p + 1), rom(p)))
        s.assume.append(p.bits(7, 0).ne(0xff))
    add(0x6C, jmpi, None, 3)

    # stack
    def jsr(s):
        r = pcp(2)
        s.write("rom", stk(SP), r.bits(15, 8))
        s.write("rom", stk(SP - 1), r.bits(7, 0))
        s.set("SP", SP - 2)
        s.set("PC", w12())
    add(0x20, jsr, None, 3)

    def rts(s):
        s.set("PC", cat(rom(stk(SP + 2)), rom(stk(SP + 1))) + 1)
        s.set("SP", SP + 2)
    add(0x60, rts, None, 1)

    def rti(s):
        s.set("PC", cat(rom(stk(SP + 3)), rom(stk(SP + 2))))
        s.set("SP", SP + 3)
        s.set("CC", rom(stk(SP + 1)), 0xcf)
    add(0x40, rti, None, 1)

    def pha(s):
        s.write("rom", stk(SP), A)
        s.set("SP", SP - 1)

    def php(s):
        s.write("rom", stk(SP), P | 0x30)
        s.set("SP", SP - 1)

    def pla(s):
        v = rom(stk(SP + 1))
        s.set("A", v)
        s.set("CC", nz(v))
        s.set("SP", SP + 1)

    def plp(s):
        s.set("CC", rom(stk(SP + 1)), 0xcf)
        s.set("SP", SP + 1)
    add(0x48, pha, None, 1)
    add(0x08, php, None, 1)
    add(0x68, pla, None, 1)
    add(0x28, plp, None, 1)
    for l in t.values():
        pcx = l[0].fields["PC"]
        for s in l[1:]:
            s.fields["PC"] = pcx
    return t


def runs():
    return [("%02X" % op, [op], specs) for op, specs in sorted(table().items())]
