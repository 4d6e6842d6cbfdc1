"""Sharp SM83 (Game Boy CPU), Game Boy CPU manual.

Don't-cares: STOP, HALT, calls that overwrite themselves."""
from dsl import *
from uc import Cpu, const

CPU = Cpu("SM83", "z80", "cl_gb80", ctor=[{"obj": "cpu_entry", "set": {"type": const("CPU_GB80")}}, "ptr"], same={"rom": "rom#2"},
          keep=["BIT_" + x for x in ("C", "N", "P", "A", "Z", "S", "ALL")], opaque=["^cl_sim[a-z0-9]*::", "^dnow", "::tickt"])
IGN = [r"^vc\.", r"^inst_", r"^instPC$", r"^iblock$", r"^cond_true$", r"^repeating$", r"^regs\.R$", r"^regs\.ralt_af\.aF$"]
A, Fl, AF = F("regs.raf.A", 8), F("regs.raf.F", 8), F("regs.AF", 16)
BC, DE, HL, SP = [F("regs." + x, 16) for x in ("BC", "DE", "HL", "SP")]
R8 = {0: "regs.bc.h", 1: "regs.bc.l", 2: "regs.de.h", 3: "regs.de.l", 4: "regs.hl.h", 5: "regs.hl.l", 7: "regs.raf.A"}
CY, N, H, Z = Fl.bit(4), Fl.bit(6), Fl.bit(5), Fl.bit(7)
pc = PC0()


def rom(a): return RD("rom", a.tr(16) if a.w > 16 else a.zx(16))
def pcp(n): return (pc + n).tr(16)
def b(n): return rom(pcp(n))
def w(n): return cat(b(n + 1), b(n))
def rd16(a): return cat(rom(a.zx(16) + 1), rom(a))
def reg(i): return F(R8[i], 8)


def fl(sp, **kw):
    pos = {"z": "b7", "n": "b6", "h": "b5", "c": "b4"}
    sp.set("regs.raf.F", setbits(cat(Fl.bits(7, 4), C(4, 0)), **{pos[k]: v for k, v in kw.items()}), 0xf0)


t = {}


def op(by, f, n=None):
    s = Spec(ret=0, ignore=IGN)
    f(s)
    if not any(k.startswith("regs.raf.F") or k == "regs.AF" for k in s.fields):
        s.set("regs.raf.F", Fl, 0xf0)
    if "PC" not in s.fields:
        s.set("PC", pcp(n if n is not None else len(by)))
    assert tuple(by) not in t, by
    t[tuple(by)] = [s]


def alu(k, v):
    def f(s):
        if k in (0, 1):
            r, c, _, h = addc(A, v, CY if k == 1 else 0, 8)
            fl(s, z=r.z(), h=h, n=0, c=c)
        elif k in (2, 3, 7):
            r, c, _, h = subb(A, v, CY if k == 3 else 0, 8)
            fl(s, z=r.z(), h=h, n=1, c=c)
        else:
            r = {4: A & v, 5: A ^ v, 6: A | v}[k]
            fl(s, z=r.z(), h=1 if k == 4 else 0, n=0, c=0)
        if k != 7:
            s.set("regs.raf.A", r)
    return f


def incdec(v, d, put):
    def f(s):
        r = v + 1 if not d else v - 1
        put(s, r)
        fl(s, z=r.z(), h=v.bits(3, 0).eq(0 if d else 15), n=d)
    return f


def rot(k, v, put, acc=False):
    def f(s):
        r, c = {0: (cat(v.bits(6, 0), v.bit(7)), v.bit(7)), 1: (cat(v.bit(0), v.bits(7, 1)), v.bit(0)),
                2: (cat(v.bits(6, 0), CY), v.bit(7)), 3: (cat(CY, v.bits(7, 1)), v.bit(0)),
                4: (v << 1, v.bit(7)), 5: (cat(v.bit(7), v.bits(7, 1)), v.bit(0)),
                6: (cat(v.bits(3, 0), v.bits(7, 4)), C(1, 0)), 7: (v >> 1, v.bit(0))}[k]
        put(s, r)
        fl(s, h=0, n=0, c=c, z=0 if acc else r.z())
    return f


def setr(nm, v): return lambda s: s.set(nm, v)
def putr(nm): return lambda s, r: s.set(nm, r)
def putm(a): return lambda s, r: s.write("rom", a.zx(16), r)


def apart(s, own):
    for q in own:
        for d in (1, 2):
            s.assume.append((SP - d).ne(pcp(q)))


def push(s, v, g=None):
    s.write("rom", SP - 1, v.bits(15, 8), g)
    s.write("rom", SP - 2, v.bits(7, 0), g)
    s.set("regs.SP", SP - 2 if g is None else ite(g, SP - 2, SP))


def call(s, tgt, n, own, g=None):
    apart(s, own)
    push(s, pcp(n), g)
    s.set("PC", tgt if g is None else ite(g, tgt, pcp(n)))


CC = [~Z, Z, ~CY, CY]
RP = [("regs.BC", BC), ("regs.DE", DE), ("regs.HL", HL), ("regs.SP", SP)]


def addhl(v):
    def f(s):
        r, c, _, _ = addc(HL, v, 0, 16)
        s.set("regs.HL", r)
        fl(s, h=(HL.bits(11, 0).zx(13) + v.bits(11, 0).zx(13)).bit(12), n=0, c=c)
    return f


op([0x00], lambda s: None)
for d in range(8):
    for r in range(8):
        if (d, r) != (6, 6):
            op([0x40 + 8 * d + r], (lambda s: s.write("rom", HL, reg(r))) if d == 6 else setr(R8[d], rom(HL) if r == 6 else reg(r)))
    v, put = (rom(HL), putm(HL)) if d == 6 else (reg(d), putr(R8[d]))
    op([0x06 + 8 * d], lambda s: put(s, b(1)), 2)
    op([0x04 + 8 * d], incdec(v, 0, put))
    op([0x05 + 8 * d], incdec(v, 1, put))
    for k in range(8):
        op([0x80 + 8 * k + d], alu(k, v))
        op([0xCB, 8 * k + d], rot(k, v, put))
        pos = "b%d" % k
        op([0xCB, 0x40 + 8 * k + d], lambda s: fl(s, z=~v.bit(k), h=1, n=0))
        op([0xCB, 0x80 + 8 * k + d], lambda s: put(s, setbits(v, **{pos: 0})))
        op([0xCB, 0xC0 + 8 * k + d], lambda s: put(s, setbits(v, **{pos: 1})))
for k in range(8):
    op([0xC6 + 8 * k], alu(k, b(1)), 2)
    op([0xC7 + 8 * k], lambda s: call(s, C(16, 8 * k), 1, []))
for k in range(4):
    op([0xC2 + 8 * k], lambda s: s.set("PC", ite(CC[k], w(1), pcp(3))))
    op([0xC4 + 8 * k], lambda s: call(s, w(1), 3, [1, 2], CC[k]))

    def retc(s):
        s.set("PC", ite(CC[k], rd16(SP), pcp(1)))
        s.set("regs.SP", ite(CC[k], SP + 2, SP))
    op([0xC0 + 8 * k], retc)
    op([0x07 + 8 * k], rot(k, A, putr("regs.raf.A"), acc=True))
    op([0x20 + 8 * k], lambda s: s.set("PC", ite(CC[k], pcp(2) + b(1).sx(16), pcp(2))))
    nm, rp = RP[k]
    op([0x01 + 16 * k], setr(nm, w(1)), 3)
    op([0x03 + 16 * k], setr(nm, rp + 1))
    op([0x0B + 16 * k], setr(nm, rp - 1))
    op([0x09 + 16 * k], addhl(rp))
    pn, pv = RP[k] if k < 3 else ("regs.AF", cat(A, Fl.bits(7, 4), C(4, 0)))

    def pushk(s):
        if k == 3:
            s.assume.append(Fl.bits(3, 0).eq(0))
        push(s, pv)
    op([0xC5 + 16 * k], pushk)

    def pop(s):
        if k == 3:
            s.set("regs.raf.A", rom(SP + 1))
            s.set("regs.raf.F", cat(rom(SP).bits(7, 4), C(4, 0)))
        else:
            s.set(pn, rd16(SP))
        s.set("regs.SP", SP + 2)
    op([0xC1 + 16 * k], pop)
op([0x18], lambda s: s.set("PC", pcp(2) + b(1).sx(16)))
for o, p in ((0x02, BC), (0x12, DE)):
    op([o], lambda s: s.write("rom", p, A))
    op([o + 8], setr("regs.raf.A", rom(p)))
for o, d in ((0x22, 1), (0x32, -1)):
    def sti(s):
        s.write("rom", HL, A)
        s.set("regs.HL", HL + d)

    def ldi(s):
        s.set("regs.raf.A", rom(HL))
        s.set("regs.HL", HL + d)
    op([o], sti)
    op([o + 8], ldi)


def stsp(s):
    s.write("rom", w(1), SP.bits(7, 0))
    s.write("rom", w(1) + 1, SP.bits(15, 8))


op([0x08], stsp, 3)
op([0xC3], lambda s: s.set("PC", w(1)))
op([0xCD], lambda s: call(s, w(1), 3, [1, 2]))


def ret(s):
    s.set("PC", rd16(SP))
    s.set("regs.SP", SP + 2)


def iff(s, v):
    s.set("IFF1", C(8, v))
    s.set("IFF2", C(8, v))


def reti(s):
    ret(s)
    iff(s, 1)


op([0xC9], ret)
op([0xD9], reti)
op([0xF3], lambda s: iff(s, 0))
op([0xFB], lambda s: iff(s, 1))
for o, a, n in ((0xE0, cat(C(8, 0xff), b(1)), 2), (0xE2, cat(C(8, 0xff), reg(1)), 1), (0xEA, w(1), 3)):
    op([o], lambda s: s.write("rom", a, A), n)
    op([o + 0x10], setr("regs.raf.A", rom(a)), n)


def spd(nm):
    def f(s):
        d = b(1)
        s.set(nm, SP + d.sx(16))
        l = SP.bits(7, 0)
        fl(s, z=0, n=0, h=(l.bits(3, 0).zx(5) + d.bits(3, 0).zx(5)).bit(4), c=(l.zx(9) + d.zx(9)).bit(8))
    return f


op([0xE8], spd("regs.SP"), 2)
op([0xF8], spd("regs.HL"), 2)
op([0xE9], lambda s: s.set("PC", HL))
op([0xF9], setr("regs.SP", HL))


def cpl(s):
    s.set("regs.raf.A", ~A)
    fl(s, h=1, n=1)


def daa(s):
    low = H | (~N & A.bits(3, 0).ugt(9))
    c = CY | (~N & A.ugt(0x99))
    adj = cat(C(1, 0), c, c, C(1, 0), C(1, 0), low, low, C(1, 0))
    r = ite(N, A - adj, A + adj)
    s.set("regs.raf.A", r)
    fl(s, z=r.z(), h=0, c=c)


op([0x27], daa)
op([0x2F], cpl)
op([0x37], lambda s: fl(s, h=0, n=0, c=1))
op([0x3F], lambda s: fl(s, h=0, n=0, c=~CY))


def runs(): return [("".join("%02X" % x for x in o), list(o), specs) for o, specs in sorted(t.items())]
