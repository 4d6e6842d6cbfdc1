"""Z80 CPU user manual UM0080.

Don't-cares: flag bits 3 and 5, R except in LD A,R, S and P after BIT, N, S, H and P after
block I/O, upper half of the I/O address, DAA after a subtraction whose operands were not
BCD, interrupt flip-flops after RETI, calls that overwrite themselves, HALT."""
from dsl import *
from uc import Cpu, const

CPU = Cpu("Z80", "z80", "cl_z80", ctor=[{"obj": "cpu_entry", "set": {"type": const("CPU_Z80")}}, "ptr"],
          keep=["BIT_" + x for x in ("C", "N", "P", "A", "Z", "S", "ALL")], same={"rom": "rom#2"}, opaque=["^cl_sim[a-z0-9]*::", "^dnow", "::tickt"])
IGN = [r"^vc\.", r"^inst_", r"^instPC$", r"^iblock$", r"^cond_true$", r"^repeating$", r"^regs\.R$"]
A, Fl, AF = F("regs.raf.A", 8), F("regs.raf.F", 8), F("regs.AF", 16)
BC, DE, HL, IX, IY, SP = [F("regs." + x, 16) for x in ("BC", "DE", "HL", "IX", "IY", "SP")]
R8 = {0: "regs.bc.h", 1: "regs.bc.l", 2: "regs.de.h", 3: "regs.de.l", 4: "regs.hl.h", 5: "regs.hl.l", 7: "regs.raf.A"}
FM = 0xd7
CY = Fl.bit(0)
pc = PC0()


def rom(a): return RD("rom", a.tr(16) if a.w > 16 else a.zx(16))
def pcp(n): return (pc + n).tr(16)
def b(n): return rom(pcp(n))
def w(n): return cat(b(n + 1), b(n))
def rd16(a): return cat(rom(a.zx(16) + 1), rom(a))
def reg(i): return F(R8[i], 8)


def wr16(s, a, v):
    s.write("rom", a.zx(16), v.bits(7, 0))
    s.write("rom", a.zx(16) + 1, v.bits(15, 8))


def fl(sp, base=Fl, mask=FM, **kw):
    pos = {"s": "b7", "z": "b6", "h": "b4", "p": "b2", "n": "b1", "c": "b0"}
    sp.set("regs.raf.F", setbits(base, **{pos[k]: v for k, v in kw.items()}), mask)


def szp(r): return dict(s=r.n(), z=r.z(), p=r.par())


t = {}


def op(by, f, n=None, key=None):
    key = tuple(key if key is not None else by)
    s = Spec(ret=0, ignore=IGN)
    f(s)
    if "PC" not in s.fields:
        s.set("PC", pcp(n if n is not None else len(by)))
    assert key not in t, key
    t[key] = [s]


def alu(k, v):
    def f(s):
        if k in (0, 1):
            r, c, o, h = addc(A, v, CY if k == 1 else 0, 8)
            fl(s, s=r.n(), z=r.z(), h=h, p=o, n=0, c=c)
        elif k in (2, 3, 7):
            r, c, o, h = subb(A, v, CY if k == 3 else 0, 8)
            fl(s, s=r.n(), z=r.z(), h=h, p=o, n=1, c=c)
        else:
            r = {4: A & v, 5: A ^ v, 6: A | v}[k]
            fl(s, h=1 if k == 4 else 0, n=0, c=0, **szp(r))
        if k != 7:
            s.set("regs.raf.A", r)
    return f


def incdec(v, d, put):
    def f(s):
        r = v + 1 if not d else v - 1
        put(s, r)
        if d:
            fl(s, s=r.n(), z=r.z(), h=v.bits(3, 0).eq(0), p=v.eq(0x80), n=1)
        else:
            fl(s, s=r.n(), z=r.z(), h=v.bits(3, 0).eq(15), p=v.eq(0x7f), n=0)
    return f


def rot(k, v, put, acc=False):
    def f(s):
        r, c = {0: (cat(v.bits(6, 0), v.bit(7)), v.bit(7)), 1: (cat(v.bit(0), v.bits(7, 1)), v.bit(0)),
                2: (cat(v.bits(6, 0), CY), v.bit(7)), 3: (cat(CY, v.bits(7, 1)), v.bit(0)),
                4: (v << 1, v.bit(7)), 5: (cat(v.bit(7), v.bits(7, 1)), v.bit(0)),
                6: (cat(v.bits(6, 0), C(1, 1)), v.bit(7)), 7: (v >> 1, v.bit(0))}[k]
        put(s, r)
        if acc:
            fl(s, h=0, n=0, c=c)
        else:
            fl(s, h=0, n=0, c=c, **szp(r))
    return f


def setr(nm, v): return lambda s: s.set(nm, v)
def putr(nm): return lambda s, r: s.set(nm, r)
def putm(a): return lambda s, r: s.write("rom", a.zx(16), r)
def both(a, nm):
    def f(s, r):
        s.write("rom", a.zx(16), r)
        s.set(nm, r)
    return f


def push(s, v):
    s.write("rom", (SP - 1), v.bits(15, 8))
    s.write("rom", (SP - 2), v.bits(7, 0))
    s.set("regs.SP", SP - 2)


def call(s, tgt, n, own):
    for q in own:
        for d in (1, 2):
            s.assume.append((SP - d).ne(pcp(q)))
    push(s, pcp(n))
    s.set("PC", tgt)


def condcall(s, cond, tgt, n, own):
    for q in own:
        for d in (1, 2):
            s.assume.append((SP - d).ne(pcp(q)))
    r = pcp(n)
    s.write("rom", (SP - 1), r.bits(15, 8), cond)
    s.write("rom", (SP - 2), r.bits(7, 0), cond)
    s.set("regs.SP", ite(cond, SP - 2, SP))
    s.set("PC", ite(cond, tgt, r))


def addw(nm, a, v):
    def f(s):
        r, c, _, _ = addc(a, v, 0, 16)
        h = (a.bits(11, 0).zx(13) + v.bits(11, 0).zx(13)).bit(12)
        s.set(nm, r)
        fl(s, h=h, n=0, c=c)
    return f


def aswhl(v, sub):
    def f(s):
        r, c, o, _ = (subb if sub else addc)(HL, v, CY, 16)
        x, y, z = HL.bits(11, 0).zx(13), v.bits(11, 0).zx(13), CY.zx(13)
        h = (x - y - z if sub else x + y + z).bit(12)
        s.set("regs.HL", r)
        fl(s, s=r.n(), z=r.z(), h=h, p=o, n=sub, c=c)
    return f


CC = [~Fl.bit(6), Fl.bit(6), ~CY, CY, ~Fl.bit(2), Fl.bit(2), ~Fl.bit(7), Fl.bit(7)]
RP = [("regs.BC", BC), ("regs.DE", DE), ("regs.HL", HL), ("regs.SP", SP)]


def ldm(d, a):
    return lambda s: s.set(R8[d], rom(a))


op([0x00], lambda s: None)
for d in range(8):
    for r in range(8):
        if (d, r) == (6, 6):
            continue
        if d == 6:
            op([0x70 + r], lambda s: s.write("rom", HL, reg(r)))
        else:
            op([0x40 + 8 * d + r], setr(R8[d], rom(HL) if r == 6 else reg(r)))
    v, put = (rom(HL), putm(HL)) if d == 6 else (reg(d), putr(R8[d]))
    op([0x06 + 8 * d], lambda s: put(s, b(1)), 2)
    op([0x04 + 8 * d], incdec(v, 0, put))
    op([0x05 + 8 * d], incdec(v, 1, put))
    for k in range(8):
        op([0x80 + 8 * k + d], alu(k, v))
        op([0xCB, 8 * k + d], rot(k, v, put))
        op([0xCB, 0x40 + 8 * k + d], lambda s: fl(s, mask=0x53, z=~v.bit(k), h=1, n=0))
        pos = "b%d" % k
        op([0xCB, 0x80 + 8 * k + d], lambda s: put(s, setbits(v, **{pos: 0})))
        op([0xCB, 0xC0 + 8 * k + d], lambda s: put(s, setbits(v, **{pos: 1})))
for k in range(8):
    op([0xC6 + 8 * k], alu(k, b(1)), 2)
    op([0xC7 + 8 * k], lambda s: call(s, C(16, 8 * k), 1, []))
    op([0xC2 + 8 * k], lambda s: s.set("PC", ite(CC[k], w(1), pcp(3))))
    op([0xC4 + 8 * k], lambda s: condcall(s, CC[k], w(1), 3, [1, 2]))

    def retc(s):
        s.set("PC", ite(CC[k], rd16(SP), pcp(1)))
        s.set("regs.SP", ite(CC[k], SP + 2, SP))
    op([0xC0 + 8 * k], retc)
    if k < 4:
        op([0x07 + 8 * k], rot(k, A, putr("regs.raf.A"), acc=True))
        op([0x20 + 8 * k], lambda s: s.set("PC", ite(CC[k], pcp(2) + b(1).sx(16), pcp(2))))
        nm, rp = RP[k]
        op([0x01 + 16 * k], setr(nm, w(1)), 3)
        op([0x03 + 16 * k], setr(nm, rp + 1))
        op([0x0B + 16 * k], setr(nm, rp - 1))
        op([0x09 + 16 * k], addw("regs.HL", HL, rp))
        op([0xED, 0x42 + 16 * k], aswhl(rp, 1))
        op([0xED, 0x4A + 16 * k], aswhl(rp, 0))
        op([0xED, 0x43 + 16 * k], lambda s: wr16(s, w(2), rp), 4)
        op([0xED, 0x4B + 16 * k], setr(nm, rd16(w(2))), 4)
        pn, pv = RP[k] if k < 3 else ("regs.AF", AF)
        op([0xC5 + 16 * k], lambda s: push(s, pv))

        def pop(s):
            s.set(pn, rd16(SP))
            s.set("regs.SP", SP + 2)
        op([0xC1 + 16 * k], pop)
op([0x18], lambda s: s.set("PC", pcp(2) + b(1).sx(16)))


def djnz(s):
    r = reg(0) - 1
    s.set(R8[0], r)
    s.set("PC", ite(r.ne(0), pcp(2) + b(1).sx(16), pcp(2)))


op([0x10], djnz)
for o, p in ((0x02, BC), (0x12, DE)):
    op([o], lambda s: s.write("rom", p, A))
    op([o + 8], setr("regs.raf.A", rom(p)))
op([0x32], lambda s: s.write("rom", w(1), A), 3)
op([0x3A], setr("regs.raf.A", rom(w(1))), 3)
op([0xC3], lambda s: s.set("PC", w(1)))
op([0xCD], lambda s: call(s, w(1), 3, [1, 2]))


def ret(s):
    s.set("PC", rd16(SP))
    s.set("regs.SP", SP + 2)


op([0xC9], ret)
op([0xD3], lambda s: s.write("outputs", b(1).zx(16), A), 2)
op([0xDB], lambda s: s.set("regs.raf.A", RD("inputs", b(1).zx(16))), 2)


def swap(*pairs):
    def f(s):
        for x, y in pairs:
            s.set("regs." + x, F("regs." + y, 16))
            s.set("regs." + y, F("regs." + x, 16))
    return f


op([0x08], swap(("AF", "aAF")))
op([0xD9], swap(("BC", "aBC"), ("DE", "aDE"), ("HL", "aHL")))
op([0xEB], swap(("DE", "HL")))


def cpl(s):
    s.set("regs.raf.A", ~A)
    fl(s, h=1, n=1)


op([0x2F], cpl)
op([0x37], lambda s: fl(s, h=0, n=0, c=1))
op([0x3F], lambda s: fl(s, h=CY, n=0, c=~CY))


def iff(v):
    def f(s):
        s.set("IFF1", C(8, v))
        s.set("IFF2", C(8, v))
        if v:
            s.set("iblock", C(8, 1))
    return f


op([0xF3], iff(0))
op([0xFB], iff(1))


def daa(s):
    n, h, lo, hi = Fl.bit(1), Fl.bit(4), A.bits(3, 0), A.bits(7, 4)
    low = h | lo.ugt(9)
    c = CY | A.ugt(0x99)
    adj = cat(C(1, 0), c, c, C(1, 0), C(1, 0), low, low, C(1, 0))
    r = ite(n, A - adj, A + adj)
    s.set("regs.raf.A", r)
    fl(s, h=ite(n, h & lo.ult(6), lo.ugt(9)), c=c, **szp(r))
    s.assume.append(~n | ite(CY, ite(h, hi.uge(6) & lo.uge(6), hi.uge(7) & lo.ule(9)), ite(h, hi.ule(8) & lo.uge(6), hi.ule(9) & lo.ule(9))))


op([0x27], daa)

for p, nm, I, hi, lo in (([], "regs.HL", HL, None, None), ([0xDD], "regs.IX", IX, "regs.ix.h", "regs.ix.l"), ([0xFD], "regs.IY", IY, "regs.iy.h", "regs.iy.l")):
    q = len(p)
    op(p + [0x22], lambda s: wr16(s, w(1 + q), I), 3 + q)
    op(p + [0x2A], setr(nm, rd16(w(1 + q))), 3 + q)
    op(p + [0xF9], setr("regs.SP", I))
    op(p + [0xE9], lambda s: s.set("PC", I))

    def exsp(s):
        s.set(nm, rd16(SP))
        wr16(s, SP, I)
    op(p + [0xE3], exsp)
    if not p:
        continue
    op(p + [0x21], setr(nm, w(2)), 4)
    op(p + [0x23], setr(nm, I + 1))
    op(p + [0x2B], setr(nm, I - 1))
    op(p + [0xE5], lambda s: push(s, I))

    def popi(s):
        s.set(nm, rd16(SP))
        s.set("regs.SP", SP + 2)
    op(p + [0xE1], popi)
    for k, rp in enumerate([BC, DE, I, SP]):
        op(p + [0x09 + 16 * k], addw(nm, I, rp))
    ea = I + b(2).sx(16)
    op(p + [0x36], lambda s: s.write("rom", ea, b(3)), 4)
    op(p + [0x34], incdec(rom(ea), 0, putm(ea)), 3)
    op(p + [0x35], incdec(rom(ea), 1, putm(ea)), 3)
    half = {4: hi, 5: lo}
    for i in (4, 5):
        h = half[i]
        op(p + [0x06 + 8 * i], setr(h, b(2)), 3)
        op(p + [0x04 + 8 * i], incdec(F(h, 8), 0, putr(h)))
        op(p + [0x05 + 8 * i], incdec(F(h, 8), 1, putr(h)))
    for d in range(8):
        if d == 6:
            continue
        op(p + [0x46 + 8 * d], setr(R8[d], rom(ea)), 3)
        op(p + [0x70 + d], lambda s: s.write("rom", ea, reg(d)), 3)
        for r in range(8):
            if r == 6 or (d not in half and r not in half):
                continue
            op(p + [0x40 + 8 * d + r], setr(half.get(d, R8[d]), F(half.get(r, R8[r]), 8)))
    for k in range(8):
        op(p + [0x86 + 8 * k], alu(k, rom(ea)), 3)
        for i in (4, 5):
            op(p + [0x80 + 8 * k + i], alu(k, F(half[i], 8)))
        for d in range(8):
            put = putm(ea) if d == 6 else both(ea, R8[d])
            v = rom(ea)
            pos = "b%d" % k
            X_ = p + [0xCB, None]
            for o, f in ((8 * k + d, rot(k, v, put)), (0x40 + 8 * k + d, lambda s: fl(s, mask=0x53, z=~v.bit(k), h=1, n=0)),
                         (0x80 + 8 * k + d, lambda s: put(s, setbits(v, **{pos: 0}))), (0xC0 + 8 * k + d, lambda s: put(s, setbits(v, **{pos: 1})))):
                if d == 6 or o & 0xC0 != 0x40:  # the other codes of BIT are undocumented
                    op(X_ + [o], f)

# ED page
def inrc(r):
    def f(s):
        v = RD("inputs", reg(1).zx(16))
        if r != 6:
            s.set(R8[r], v)
        fl(s, h=0, n=0, **szp(v))
    return f


for r in range(8):
    op([0xED, 0x40 + 8 * r], inrc(r))
    op([0xED, 0x41 + 8 * r], lambda s: s.write("outputs", reg(1).zx(16), C(8, 0) if r == 6 else reg(r)))


def neg(s):
    r, c, o, h = subb(C(8, 0), A, 0, 8)
    s.set("regs.raf.A", r)
    fl(s, s=r.n(), z=r.z(), h=h, p=o, n=1, c=c)


def retn(s):
    ret(s)
    s.set("IFF1", F("IFF2", 8), 1)


def reti(s):
    ret(s)
    s.ignore.append("^IFF1$")


op([0xED, 0x44], neg)
op([0xED, 0x45], retn)
op([0xED, 0x4D], reti)
for o, m in ((0x46, 0), (0x56, 1), (0x5E, 2)):
    op([0xED, o], setr("imode", C(32, m)))
op([0xED, 0x47], setr("regs.iv", A))
op([0xED, 0x4F], setr("regs.R", A))


def lda(nm, fin):
    def f(s):
        v = FIN(nm, 8) if fin else F(nm, 8)
        s.set("regs.raf.A", v)
        fl(s, s=v.n(), z=v.z(), h=0, n=0, p=F("IFF2", 8).bit(0))
    return f


op([0xED, 0x57], lda("regs.iv", 0))
op([0xED, 0x5F], lda("regs.R", 1))


def rxd(left):
    def f(s):
        v = rom(HL)
        a, m = (cat(A.bits(7, 4), v.bits(7, 4)), cat(v.bits(3, 0), A.bits(3, 0))) if left else (cat(A.bits(7, 4), v.bits(3, 0)), cat(A.bits(3, 0), v.bits(7, 4)))
        s.write("rom", HL, m)
        s.set("regs.raf.A", a)
        fl(s, h=0, n=0, **szp(a))
    return f


op([0xED, 0x67], rxd(0))
op([0xED, 0x6F], rxd(1))
for dr, base in ((1, 0xA0), (-1, 0xA8)):
    for rep in (0, 1):
        def fin(s, again):
            if rep:
                s.set("PC", ite(again, pc.tr(16), pcp(2)))

        def ld(s):
            n = BC - 1
            s.write("rom", DE, rom(HL))
            s.set("regs.BC", n)
            s.set("regs.DE", DE + dr)
            s.set("regs.HL", HL + dr)
            fl(s, h=0, n=0, p=n.ne(0))
            fin(s, n.ne(0))

        def cp(s):
            n = BC - 1
            r, _, _, h = subb(A, rom(HL), 0, 8)
            s.set("regs.BC", n)
            s.set("regs.HL", HL + dr)
            fl(s, s=r.n(), z=r.z(), h=h, n=1, p=n.ne(0))
            fin(s, n.ne(0) & r.ne(0))

        def ini(s):
            n = reg(0) - 1
            s.write("rom", HL, RD("inputs", reg(1).zx(16)))
            s.set(R8[0], n)
            s.set("regs.HL", HL + dr)
            fl(s, mask=0x41, z=n.z())
            fin(s, n.ne(0))

        def out(s):
            n = reg(0) - 1
            s.write("outputs", reg(1).zx(16), rom(HL))
            s.set(R8[0], n)
            s.set("regs.HL", HL + dr)
            fl(s, mask=0x41, z=n.z())
            fin(s, n.ne(0))
        for k, f in enumerate((ld, cp, ini, out)):
            op([0xED, base + 16 * rep + k], f)


def runs():
    # the displacement byte of DDCB and FDCB is arbitrary
    return [("".join("--" if x is None else "%02X" % x for x in o), [-1 if x is None else x for x in o], specs) for o, specs in sorted(t.items(), key=lambda kv: [-1 if x is None else x for x in kv[0]])]
