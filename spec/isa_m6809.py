"""Motorola MC6809 programming manual.

Don't-cares: H after subtract, NEG and shifts; V after DAA; undefined register codes
and mixed sizes in EXG/TFR; undefined index postbytes; SYNC; the NMI enable latch."""
from dsl import *
from uc import Cpu

CPU = Cpu("m6809", "m6809", "cl_m6809", same={"rom": "rom#2"}, keep=["reg8_ptr[]", "reg16_ptr[]"])
IGN = [r"^vc\.", r"^inst_", r"^instPC$", r"^en_nmi$"]
pc = PC0()
W16 = {"X": "reg.X", "Y": "reg.Y", "U": "reg.U", "S": "reg.S"}
W8 = {"A": "reg.acc.a8.rA", "B": "reg.acc.a8.rB", "DP": "reg.DP", "CC": "reg.CC"}


def rom(a): return RD("rom", a.tr(16) if a.w > 16 else a.zx(16))
def rd16(a): return cat(rom(a), rom(a + 1))


class St:
    """registers as they evolve within one instruction"""

    def __init__(s, code):
        s.spec = Spec(ret=0, ignore=IGN)
        s.r = {n: F(f, 16) for n, f in W16.items()}
        s.r.update({n: F(f, 8) for n, f in W8.items()})
        s.n = len(code)
        s.hmask = 0xff
        s.log = []
        s.pcv = None

    def __getitem__(s, n):
        return cat(s.r["A"], s.r["B"]) if n == "D" else s.pc() if n == "PC" else s.r[n]

    def __setitem__(s, n, v):
        if n == "D":
            s.r["A"], s.r["B"] = v.bits(15, 8), v.bits(7, 0)
        elif n == "PC":
            s.pcv = v
        else:
            s.r[n] = v

    def pc(s): return s.pcv if s.pcv is not None else (pc + s.n).tr(16)

    def b(s):
        s.n += 1
        return rom((pc + s.n - 1).tr(16))

    def w(s):
        h = s.b()
        return cat(h, s.b())

    def wr(s, a, v): s.log.append((a, v))

    def wr16(s, a, v):
        s.wr(a, v.bits(15, 8))
        s.wr(a + 1, v.bits(7, 0))

    def push(s, st, v):
        for x in ([v] if v.w == 8 else [v.bits(7, 0), v.bits(15, 8)]):
            s[st] = s[st] - 1
            s.wr(s[st], x)

    def pull(s, st, w):
        v = rom(s[st]) if w == 8 else rd16(s[st])
        s[st] = s[st] + w // 8
        return v

    def fl(s, **kw):
        pos = {"c": "b0", "v": "b1", "z": "b2", "n": "b3", "i": "b4", "h": "b5", "f": "b6", "e": "b7"}
        s.r["CC"] = setbits(s.r["CC"], **{pos[k]: x for k, x in kw.items() if x is not None})
        for k, x in kw.items():
            if x is None:
                s.hmask &= ~(1 << int(pos[k][1]))

    def nz(s, r, **kw): s.fl(n=r.n(), z=r.z(), **kw)
    def cc(s, k): return s.r["CC"].bit("cvznihfe".index(k))

    def end(s):
        for n, f in W16.items():
            if s.r[n] is not F(f, 16):
                s.spec.set(f, s.r[n])
        for n, f in W8.items():
            if s.r[n] is not F(f, 8):
                s.spec.set(f, s.r[n], s.hmask if n == "CC" else 0xff)
        for a, v in s.log:
            s.spec.write("rom", a, v)
        s.spec.set("PC", s.pc())
        return s.spec


def index(s, pb):
    """effective address of the postbyte, None when undefined"""
    reg = "XYUS"[pb >> 5 & 3]
    r = s[reg]
    if not pb & 0x80:
        return r + ((pb & 0x1f) | (0xffe0 if pb & 0x10 else 0))
    m, ind = pb & 15, pb & 16
    if m in (7, 10, 14) or (ind and m in (0, 2)) or (m == 15 and pb not in (0x9f,)):
        return None
    if m in (0, 1):
        ea = r
        s[reg] = r + (m + 1)
    elif m in (2, 3):
        ea = s[reg] = r - (m - 1)
    elif m == 4:
        ea = r
    elif m in (5, 6):
        ea = r + s["B" if m == 5 else "A"].sx(16)
    elif m in (8, 12):
        o = s.b().sx(16)
        ea = (r if m == 8 else s.pc()) + o
    elif m in (9, 13):
        o = s.w()
        ea = (r if m == 9 else s.pc()) + o
    elif m == 11:
        ea = r + s["D"]
    else:
        ea = s.w()
    return rd16(ea) if ind else ea


SOME = (0x1f, 0x70, 0xA1, 0xC6, 0x94, 0x8D, 0x9F, 0xE3, 0xB9, 0x85, 0xC0, 0xA2)


def conds(s):
    c, v, z, n = (s.cc(k) for k in "cvzn")
    one = C(1, 1)
    ge = ~(n ^ v)
    return [one, ~(c | z), ~c, ~z, ~v, ~n, ge, ge & ~z]


def gen():
    out = []

    def op(code, f, tag="", fix=()):
        """one instruction; fix: the values of the operand bytes that are fixed"""
        s = St(code)
        if f(s) is not False:
            by = list(code) + list(fix)
            out.append(("".join("%02X" % x for x in by) + tag, by, [s.end()]))

    def modes(code, f, d=None, x=None, e=None, every=False):
        """f(s, ea): direct, indexed and extended forms"""
        pre = list(code)
        if d is not None:
            op(pre + [d], lambda s: f(s, cat(s["DP"], s.b())))
        if e is not None:
            op(pre + [e], lambda s: f(s, s.w()))
        if x is not None:
            for pb in range(256) if every else SOME:
                def g(s):
                    s.n += 1
                    ea = index(s, pb)
                    if ea is None:
                        return False
                    f(s, ea)
                op(pre + [x], g, fix=[pb])

    def rmw(k):
        def f(s, v):
            c = s.cc("c")
            if k == 0:
                r, cc, o, _ = subb(C(8, 0), v, 0, 8)
                s.nz(r, v=o, c=cc, h=None)
            elif k == 3:
                r = ~v
                s.nz(r, v=0, c=1)
            elif k in (4, 6):
                r = v >> 1 if k == 4 else cat(c, v.bits(7, 1))
                s.nz(r, c=v.bit(0))
            elif k == 7:
                r = cat(v.bit(7), v.bits(7, 1))
                s.nz(r, c=v.bit(0), h=None)
            elif k in (8, 9):
                r = v << 1 if k == 8 else cat(v.bits(6, 0), c)
                s.nz(r, c=v.bit(7), v=v.bit(7) ^ v.bit(6))
                if k == 8:
                    s.fl(h=None)
            elif k == 10:
                r = v - 1
                s.nz(r, v=v.eq(0x80))
            elif k == 12:
                r = v + 1
                s.nz(r, v=v.eq(0x7f))
            elif k == 13:
                r = None
                s.nz(v, v=0)
            else:
                r = C(8, 0)
                s.fl(n=0, z=1, v=0, c=0)
            return r
        return f
    for k in (0, 3, 4, 6, 7, 8, 9, 10, 12, 13, 15):
        g = rmw(k)

        def m(s, ea):
            r = g(s, rom(ea))
            if r is not None:
                s.wr(ea, r)

        def a(s, n):
            r = g(s, s[n])
            if r is not None:
                s[n] = r
        modes([], m, k, 0x60 + k, 0x70 + k)
        op([0x40 + k], lambda s: a(s, "A"))
        op([0x50 + k], lambda s: a(s, "B"))

    def jmp(s, ea): s["PC"] = ea
    modes([], jmp, 0x0e, 0x6e, 0x7e)

    def alu8(k, n):
        def f(s, v):
            a = s[n]
            if k in (0, 1, 2):
                r, c, o, _ = subb(a, v, s.cc("c") if k == 2 else 0, 8)
                s.nz(r, v=o, c=c, h=None)
            elif k in (9, 11):
                r, c, o, h = addc(a, v, s.cc("c") if k == 9 else 0, 8)
                s.nz(r, v=o, c=c, h=h)
            else:
                r = {4: a & v, 5: a & v, 6: v, 8: a ^ v, 10: a | v}[k]
                s.nz(r, v=0)
            if k not in (1, 5):
                s[n] = r
        return f
    for base, n in ((0x80, "A"), (0xc0, "B")):
        for k in (0, 1, 2, 4, 5, 6, 8, 9, 10, 11):
            f = alu8(k, n)
            op([base + k], lambda s: f(s, s.b()))
            modes([], lambda s, ea: f(s, rom(ea)), base + 0x10 + k, base + 0x20 + k, base + 0x30 + k, every=base + k == 0x86)

        def st8(s, ea):
            s.wr(ea, s[n])
            s.nz(s[n], v=0)
        modes([], st8, base + 0x17, base + 0x27, base + 0x37)

    def w16(pre, base, f, imm=True):
        if imm:
            op(pre + [base], lambda s: f(s, s.w()))
        modes(pre, lambda s, ea: f(s, rd16(ea)), base + 0x10, base + 0x20, base + 0x30)

    def ar(n, sub, store):
        def f(s, v):
            if sub:
                r, c, o, _ = subb(s[n], v, 0, 16)
            else:
                r, c, o, _ = addc(s[n], v, 0, 16)
            s.nz(r, v=o, c=c)
            if store:
                s[n] = r
        return f

    def ld(n):
        def f(s, v):
            s[n] = v
            s.nz(v, v=0)
        return f

    def st(pre, base, n):
        def f(s, ea):
            v = s[n]
            s.wr16(ea, v)
            s.nz(v, v=0)
        modes(pre, f, base + 0x10, base + 0x20, base + 0x30)
    w16([], 0x83, ar("D", 1, 1))
    w16([], 0xc3, ar("D", 0, 1))
    w16([], 0x8c, ar("X", 1, 0))
    w16([0x10], 0x83, ar("D", 1, 0))
    w16([0x10], 0x8c, ar("Y", 1, 0))
    w16([0x11], 0x83, ar("U", 1, 0))
    w16([0x11], 0x8c, ar("S", 1, 0))
    for pre, base, n in (([], 0x8e, "X"), ([0x10], 0x8e, "Y"), ([], 0xce, "U"), ([0x10], 0xce, "S"), ([], 0xcc, "D")):
        w16(pre, base, ld(n))
        st(pre, base + 1, n)

    def bsr(s, ofs, cond=None):
        o = (s.b() if ofs == 8 else s.w()).sx(16)
        if cond is None:
            s.push("S", s.pc())
        s["PC"] = s.pc() + o if cond is None else ite(cond, s.pc() + o, s.pc())
    op([0x8d], lambda s: bsr(s, 8))
    op([0x17], lambda s: bsr(s, 16))
    op([0x16], lambda s: bsr(s, 16, C(1, 1)))

    def jsr(s, ea):
        s.push("S", s.pc())
        s["PC"] = ea
    modes([], jsr, 0x9d, 0xad, 0xbd)
    for k in range(8):
        op([0x20 + 2 * k], lambda s: bsr(s, 8, conds(s)[k]))
        op([0x21 + 2 * k], lambda s: bsr(s, 8, ~conds(s)[k]))
        if k:
            op([0x10, 0x20 + 2 * k], lambda s: bsr(s, 16, conds(s)[k]))
        op([0x10, 0x21 + 2 * k], lambda s: bsr(s, 16, ~conds(s)[k]))
    op([0x12], lambda s: None)

    def daa(s):
        A = s["A"]
        lo = A.bits(3, 0).ugt(9) | s.cc("h")
        hi = A.ugt(0x99) | s.cc("c")
        r = A + (ite(lo, C(8, 6), C(8, 0)) | ite(hi, C(8, 0x60), C(8, 0)))
        s["A"] = r
        s.spec.assume.append(~s.cc("h") | A.bits(3, 0).ule(3))
        s.nz(r, c=hi, v=None)
    op([0x19], daa)

    def cc(s, f): s["CC"] = f(s["CC"], s.b())
    op([0x1a], lambda s: cc(s, lambda a, b: a | b))
    op([0x1c], lambda s: cc(s, lambda a, b: a & b))

    def sex(s):
        s["D"] = s["B"].sx(16)
        s.fl(n=s["B"].n(), z=s["B"].z())
    op([0x1d], sex)
    names = {0: "D", 1: "X", 2: "Y", 3: "U", 4: "S", 5: "PC", 8: "A", 9: "B", 10: "CC", 11: "DP"}
    for a, an in names.items():
        for b, bn in names.items():
            if (a ^ b) & 8:
                continue

            def exg(s, both):
                s.n += 1
                va, vb = s[an], s[bn]
                s[bn] = va
                if both:
                    s[an] = vb
            op([0x1e], lambda s: exg(s, 1), fix=[a << 4 | b])
            op([0x1f], lambda s: exg(s, 0), fix=[a << 4 | b])
    for k, n in enumerate("XYSU"):
        def lea(s, ea):
            s[n] = ea
            if n in "XY":
                s.fl(z=ea.z())
        modes([], lea, x=0x30 + k, every=True)
    LIST = ["PC", None, "Y", "X", "DP", "B", "A", "CC"]

    def stk(me, other):
        l = [other if n is None else n for n in LIST]

        def psh(m):
            def f(s):
                s.n += 1
                vals = [(s[n]) for k, n in enumerate(l) if m & (0x80 >> k)]
                for v in vals:
                    s.push(me, v)
            return f

        def pul(m):
            def f(s):
                s.n += 1
                for k in reversed(range(8)):
                    if m & (0x80 >> k):
                        s[l[k]] = s.pull(me, 16 if k < 4 else 8)
            return f
        return psh, pul
    for o, me, other in ((0x34, "S", "U"), (0x36, "U", "S")):
        psh, pul = stk(me, other)
        for m in range(256):
            op([o], psh(m), fix=[m])
            op([o + 1], pul(m), fix=[m])

    def rts(s): s["PC"] = s.pull("S", 16)
    op([0x39], rts)

    def abx(s): s["X"] = s["X"] + s["B"].zx(16)
    op([0x3a], abx)

    def mul(s):
        r = s["A"].zx(16) * s["B"].zx(16)
        s["D"] = r
        s.fl(z=r.z(), c=r.bit(7))
    op([0x3d], mul)
    ENTIRE = ["PC", "U", "Y", "X", "DP", "B", "A", "CC"]

    def swi(vec, mask):
        def f(s):
            s.fl(e=1)
            for n in ENTIRE:
                s.push("S", s[n])
            if mask:
                s.fl(i=1, f=1)
            s.spec.assume.append(s["S"].ult(0xff00))
            s.spec.assume.append(F("reg.S", 16).ult(0xff00))
            s["PC"] = rd16(C(16, vec))
        return f
    op([0x3f], swi(0xfffa, 1))
    op([0x10, 0x3f], swi(0xfff4, 0))
    op([0x11, 0x3f], swi(0xfff2, 0))

    def cwai(s):
        s["CC"] = s["CC"] & s.b()
        s.fl(e=1)
        for n in ENTIRE:
            s.push("S", s[n])
        s.spec.set("cwai", C(8, 1))
        s.spec.ignore.append("^state$")
    op([0x3c], cwai)

    def rti(e):
        def f(s):
            c = rom(s["S"])
            s.spec.assume.append(c.bit(7).eq(e))
            s["CC"] = s.pull("S", 8)
            if e:
                for n in ("A", "B", "DP", "X", "Y", "U"):
                    s[n] = s.pull("S", 8 if n in W8 else 16)
            s["PC"] = s.pull("S", 16)
        return f
    op([0x3b], rti(1), "_e")
    op([0x3b], rti(0), "_f")
    return out


def runs(): return gen()
