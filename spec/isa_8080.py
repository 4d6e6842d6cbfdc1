"""Intel 8080 and 8085 assembly language programming manuals.

Don't-cares: the undocumented flag bits (1, 3, 5), the auxiliary carry of the
8080's AND instructions, input data of IN, interrupt enabling (not simulated),
and 16 bit accesses that start at the last address."""
from dsl import *
from uc import Cpu

KW = dict(prelude=["main"], opaque=["^cl_sim[a-z0-9]*::", "^dnow"])
IGN = [r"^vc\.", r"^inst_", r"^tick_shift$"]
A, Fl = F("rpAF.r.A", 8), F("rpAF.r.F", 8)
BC, DE, HL, SP = F("rpBC.BC", 16), F("rpDE.DE", 16), F("rpHL.HL", 16), F("rSP", 16)
AF = F("rpAF.AF", 16)
R8 = {0: ("rpBC.r.B"), 1: "rpBC.r.C", 2: "rpDE.r.D", 3: "rpDE.r.E", 4: "rpHL.r.H", 5: "rpHL.r.L", 7: "rpAF.r.A"}
R16 = {0: ("rpBC.BC", BC), 1: ("rpDE.DE", DE), 2: ("rpHL.HL", HL), 3: ("rSP", SP)}
FM = 0xd5
pc = PC0()
PARTS = {"rpBC.BC": ("rpBC.r.B", "rpBC.r.C"), "rpDE.DE": ("rpDE.r.D", "rpDE.r.E"), "rpHL.HL": ("rpHL.r.H", "rpHL.r.L")}


def rom(a): return RD("rom", a.zx(16))
def pcp(n): return (pc + n).tr(16)
def b1(): return rom(pcp(1))
def w12(): return cat(rom(pcp(2)), rom(pcp(1)))
def rd16(a): return cat(rom(a + 1), rom(a))
def par(x): return x.par()


def table(is85):
    t = {}

    def fl(sp, base=Fl, mask=FM, **kw):
        pos = {"s": "b7", "z": "b6", "a": "b4", "p": "b2", "c": "b0"}
        sp.set("rpAF.r.F", setbits(base, **{pos[k]: v for k, v in kw.items()}), mask)

    def szp(r): return dict(s=r.bit(7), z=r.z(), p=par(r))

    def op(code, f, n=1):
        s = Spec(ret=0, ignore=IGN)
        f(s)
        if "PC" not in s.fields:
            s.set("PC", pcp(n))
        t[code] = [s]

    def src(i): return rom(HL) if i == 6 else F(R8[i], 8)

    def dst(s, i, v):
        if i == 6:
            s.write("rom", HL, v)
        else:
            s.set(R8[i], v)

    def limit(s, a): s.assume.append(a.ne(0xffff))
    for d in range(8):
        for r in range(8):
            if (d, r) != (6, 6):
                op(0x40 + 8 * d + r, lambda s: dst(s, d, src(r)))
        op(0x06 + 8 * d, lambda s: dst(s, d, b1()), 2)

        def inr(s):
            v = src(d)
            r = v + 1
            dst(s, d, r)
            fl(s, a=v.bits(3, 0).eq(15), **szp(r))

        def dcr(s):
            v = src(d)
            r = v - 1
            dst(s, d, r)
            fl(s, a=v.bits(3, 0).ne(0), **szp(r))
        op(0x04 + 8 * d, inr)
        op(0x05 + 8 * d, dcr)

    def alu(k, v):
        def f(s):
            cy = Fl.bit(0)
            am = FM
            if k in (0, 1):
                r, c, _, h = addc(A, v, cy if k else 0, 8)
            elif k in (2, 3, 7):
                r, c, _, h = subb(A, v, cy if k == 3 else 0, 8)
                h = ~h
            elif k == 4:
                r, c, h = A & v, 0, 1
                am = FM if is85 else FM & ~0x10
            elif k == 5:
                r, c, h = A ^ v, 0, 0
            else:
                r, c, h = A | v, 0, 0
            if k != 7:
                s.set("rpAF.r.A", r)
            fl(s, c=c, a=h, mask=am, **szp(r))
        return f
    for k in range(8):
        for r in range(8):
            op(0x80 + 8 * k + r, alu(k, src(r)))
        op(0xC6 + 8 * k, alu(k, b1()), 2)
    for p in range(4):
        n, v = R16[p]
        op(0x01 + 16 * p, lambda s: s.set(n, w12()), 3)
        op(0x03 + 16 * p, lambda s: (s.set(n, v + 1), fl(s)))
        op(0x0B + 16 * p, lambda s: (s.set(n, v - 1), fl(s)))

        def dad(s):
            r, c, _, _ = addc(HL, v, 0, 16)
            s.set("rpHL.HL", r)
            fl(s, c=c)
        op(0x09 + 16 * p, dad)

        def push(s):
            x = v if p < 3 else cat(A, Fl)
            if p == 3:
                s.assume.append((Fl & 0x2a if is85 else Fl & 0x2a).eq(Fl & 2))
                s.assume.append(Fl.bit(1))
            s.write("rom", SP - 1, x.bits(15, 8))
            s.write("rom", SP - 2, x.bits(7, 0))
            s.set("rSP", SP - 2)
        op(0xC5 + 16 * p, push)

        def pop(s):
            x = cat(rom(SP + 1), rom(SP))
            s.set("rSP", SP + 2)
            if p < 3:
                s.set(n, x)
            else:
                s.set("rpAF.r.A", x.bits(15, 8))
                s.set("rpAF.r.F", x.bits(7, 0), FM)
        op(0xC1 + 16 * p, pop)
    op(0x3A, lambda s: s.set("rpAF.r.A", rom(w12())), 3)
    op(0x32, lambda s: s.write("rom", w12(), A), 3)

    def lhld(s):
        limit(s, w12())
        s.set("rpHL.HL", rd16(w12()))

    def shld(s):
        limit(s, w12())
        s.write("rom", w12(), HL.bits(7, 0))
        s.write("rom", w12() + 1, HL.bits(15, 8))
    op(0x2A, lhld, 3)
    op(0x22, shld, 3)
    for o, r in ((0x0A, BC), (0x1A, DE)):
        op(o, lambda s: s.set("rpAF.r.A", rom(r)))
        op(o - 8, lambda s: s.write("rom", r, A))
    op(0xEB, lambda s: (s.set("rpHL.HL", DE), s.set("rpDE.DE", HL)))
    op(0xF9, lambda s: s.set("rSP", HL))

    def xthl(s):
        limit(s, SP)
        s.set("rpHL.HL", rd16(SP))
        s.write("rom", SP, HL.bits(7, 0))
        s.write("rom", SP + 1, HL.bits(15, 8))
    op(0xE3, xthl)
    op(0xE9, lambda s: s.set("PC", HL))
    op(0xDB, lambda s: s.set("rpAF.r.A", A, 0), 2)
    op(0xD3, lambda s: None, 2)
    for o in (0x00, 0xFB, 0xF3):
        op(o, lambda s: None)

    def hlt(s): s.ret = 101
    op(0x76, hlt)

    def rot(r, c):
        def f(s):
            s.set("rpAF.r.A", r)
            fl(s, c=c)
        return f
    cy = Fl.bit(0)
    op(0x07, rot(cat(A.bits(6, 0), A.bit(7)), A.bit(7)))
    op(0x0F, rot(cat(A.bit(0), A.bits(7, 1)), A.bit(0)))
    op(0x17, rot(cat(A.bits(6, 0), cy), A.bit(7)))
    op(0x1F, rot(cat(cy, A.bits(7, 1)), A.bit(0)))
    op(0x2F, lambda s: s.set("rpAF.r.A", ~A))
    op(0x3F, lambda s: fl(s, c=~cy))
    op(0x37, lambda s: fl(s, c=1))

    def daa(s):
        l, h, ac = A.bits(3, 0), A.bits(7, 4), Fl.bit(4)
        lo = l.ugt(9) | ac
        hi = h.ugt(9) | cy | (h.uge(9) & l.ugt(9))
        corr = ite(lo, C(8, 6), C(8, 0)) | ite(hi, C(8, 0x60), C(8, 0))
        r, _, _, hc = addc(A, corr, 0, 8)
        s.set("rpAF.r.A", r)
        fl(s, c=hi, a=hc, **szp(r))
    op(0x27, daa)
    cc = [~Fl.bit(6), Fl.bit(6), ~cy, cy, ~Fl.bit(2), Fl.bit(2), ~Fl.bit(7), Fl.bit(7)]
    one = C(1, 1)

    def jmp(c):
        return lambda s: s.set("PC", ite(c, w12(), pcp(3)))

    def callto(c, tgt, n):
        def f(s):
            r = pcp(n)
            s.write("rom", SP - 1, r.bits(15, 8), c)
            s.write("rom", SP - 2, r.bits(7, 0), c)
            s.set("rSP", ite(c, SP - 2, SP))
            s.set("PC", ite(c, tgt, r))
        return f

    def ret(c):
        def f(s):
            s.set("PC", ite(c, cat(rom(SP + 1), rom(SP)), pcp(1)))
            s.set("rSP", ite(c, SP + 2, SP))
        return f
    op(0xC3, jmp(one))
    op(0xCD, callto(one, w12(), 3))
    op(0xC9, ret(one))
    for i in range(8):
        op(0xC2 + 8 * i, jmp(cc[i]))
        op(0xC4 + 8 * i, callto(cc[i], w12(), 3))
        op(0xC0 + 8 * i, ret(cc[i]))
        op(0xC7 + 8 * i, callto(one, C(16, 8 * i), 1))
    if is85:
        op(0x20, lambda s: s.set("rpAF.r.A", A, 0))
        op(0x30, lambda s: None)
        op(0x10, lambda s: (s.set("rpHL.HL", cat(HL.bit(15), HL.bits(15, 1))), fl(s, c=HL.bit(0))))
        op(0x18, lambda s: (s.set("rpDE.DE", cat(DE.bits(14, 0), cy)), fl(s, c=DE.bit(15))))

        def dsub(s):
            r, c, _, _ = subb(HL, BC, 0, 16)
            s.set("rpHL.HL", r)
            fl(s, c=c, z=r.z(), s=r.bit(15), mask=0xc1)
        op(0x08, dsub)
        op(0xCB, callto(Fl.bit(1), C(16, 0x40), 1))
        op(0xDD, jmp(~Fl.bit(5)))
        op(0xFD, jmp(Fl.bit(5)))
        op(0x28, lambda s: s.set("rpDE.DE", HL + b1().zx(16)), 2)
        op(0x38, lambda s: s.set("rpDE.DE", SP + b1().zx(16)), 2)

        def lhlx(s):
            limit(s, DE)
            s.set("rpHL.HL", rd16(DE))

        def shlx(s):
            limit(s, DE)
            s.write("rom", DE, HL.bits(7, 0))
            s.write("rom", DE + 1, HL.bits(15, 8))
        op(0xED, lhlx)
        op(0xD9, shlx)
    else:
        for o in range(0x08, 0x40, 8):
            t[o] = t[0x00]
        t[0xD9], t[0xCB], t[0xDD] = t[0xC9], t[0xC3], t[0xCD]
        t[0xED] = t[0xFD] = t[0xCD]
    return t


def runs_for(is85):
    return [("%02X" % o, [o], specs) for o, specs in sorted(table(is85).items())]
