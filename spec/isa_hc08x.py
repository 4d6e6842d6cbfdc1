"""Freescale CPU08 Reference Manual and HCS08 Family Reference Manual.

Don't-cares: BIH/BIL (pin level), STOP and WAIT power states, BGND, the
contents of A and H and the N, V flags after a failed division, unused flag bits."""
from dsl import *
from uc import Cpu, const

IGN = [r"^vc\.", r"^inst_", r"^instPC$"]
A, H, X_, SP, P = F("regs.A", 8), F("regs.H", 8), F("regs.X", 8), F("regs.SP", 16), F("regs.P", 8)
HX = cat(H, X_)
pc = PC0()
PM = 0x9f


def cpu(name, cls, ty):
    return Cpu(name, "m68hc08", cls, ctor=[{"obj": "cpu_entry", "set": {"type": const(ty)}}, "ptr"], set={"regs.VECTOR": 0},
               opaque=["^cl_sim[a-z0-9]*::", "^dnow"])


def rom(a): return RD("rom", a.tr(16) if a.w > 16 else a.zx(16))
def pcp(n): return (pc + n).tr(16)
def b(n): return rom(pcp(n))
def w(n): return cat(b(n), b(n + 1))
def rd16(a): return cat(rom(a), rom(a + 1))


def table(s08):
    t = {}

    def fl(s, base=P, **kw):
        pos = {"v": "b7", "h": "b4", "i": "b3", "n": "b2", "z": "b1", "c": "b0"}
        s.set("regs.P", setbits(base, **{pos[k]: v for k, v in kw.items()}), PM)

    def nz(s, r, **kw): fl(s, n=r.n(), z=r.z(), **kw)

    def op(code, f, n=1, **kw):
        by = [code] if code < 0x100 else [code >> 8, code & 255]
        s = Spec(ret=0, ignore=IGN)
        f(s)
        if "PC" not in s.fields:
            s.set("PC", pcp(n))
        t[tuple(by)] = [s]

    def push(s, r):
        s.write("rom", SP, r.bits(7, 0))
        s.write("rom", SP - 1, r.bits(15, 8))
        s.set("regs.SP", SP - 2)

    # the register/memory group: (opcode high nibble, operand, length)
    def modes():
        yield 0xA0, None, b(1), 2
        yield 0xB0, b(1).zx(16), None, 2
        yield 0xC0, w(1), None, 3
        yield 0xD0, w(1) + HX, None, 3
        yield 0xE0, b(1).zx(16) + HX, None, 2
        yield 0xF0, HX, None, 1
        yield 0x9ED0, w(2) + SP, None, 4
        yield 0x9EE0, b(2).zx(16) + SP, None, 3

    def alu(k, v):
        def f(s):
            reg, a = ("regs.X", X_) if k in (3, 14) else ("regs.A", A)
            if k in (0, 1, 2, 3):
                r, c, o, _ = subb(a, v, P.bit(0) if k == 2 else 0, 8)
                nz(s, r, v=o, c=c)
                if k in (0, 2):
                    s.set(reg, r)
            elif k in (9, 11):
                r, c, o, h = addc(a, v, P.bit(0) if k == 9 else 0, 8)
                nz(s, r, v=o, c=c, h=h)
                s.set(reg, r)
            else:
                r = {4: a & v, 5: a & v, 6: v, 8: a ^ v, 10: a | v, 14: v}[k]
                nz(s, r, v=0)
                if k != 5:
                    s.set(reg, r)
        return f

    def st(ea, r):
        def f(s):
            s.write("rom", ea, r)
            nz(s, r, v=0)
        return f
    for base, ea, imm, n in modes():
        for k in (0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 14):
            op(base + k, alu(k, imm if ea is None else rom(ea)), n)
        if ea is not None:
            op(base + 7, st(ea, A), n)
            op(base + 15, st(ea, X_), n)
            if base < 0x100:
                op(base + 12, lambda s: s.set("PC", ea), n)

                def jsr(s):
                    push(s, pcp(n))
                    s.set("PC", ea)
                op(base + 13, jsr, n)

    def rel(n): return b(n).sx(16)

    def bra(s, c, n): s.set("PC", ite(c, pcp(n) + rel(n - 1), pcp(n)))

    def bsr(s):
        push(s, pcp(2))
        s.set("PC", pcp(2) + rel(1))
    op(0xAD, bsr)
    op(0xA7, lambda s: s.set("regs.SP", SP + rel(1)), 2)

    def sethx(s, v):
        s.set("regs.H", v.bits(15, 8))
        s.set("regs.X", v.bits(7, 0))
    op(0xAF, lambda s: sethx(s, HX + rel(1)), 2)

    # read-modify-write group
    def rmw(k, v, put):
        def f(s):
            c = P.bit(0)
            if k == 0:
                r, cc, o, _ = subb(C(8, 0), v, 0, 8)
                nz(s, r, v=o, c=cc)
            elif k == 3:
                r = ~v
                nz(s, r, v=0, c=1)
            elif k in (4, 6, 7, 8, 9):
                r, cc = {4: (v >> 1, v.bit(0)), 6: (cat(c, v.bits(7, 1)), v.bit(0)), 7: (cat(v.bit(7), v.bits(7, 1)), v.bit(0)),
                         8: (v << 1, v.bit(7)), 9: (cat(v.bits(6, 0), c), v.bit(7))}[k]
                nz(s, r, c=cc, v=r.bit(7) ^ cc)
            elif k == 10:
                r = v - 1
                nz(s, r, v=v.eq(0x80))
            elif k == 12:
                r = v + 1
                nz(s, r, v=v.eq(0x7f))
            elif k == 13:
                r = None
                nz(s, v, v=0)
            elif k == 15:
                r = C(8, 0)
                nz(s, r, v=0)
            if r is not None:
                put(s, r)
        return f

    def rmodes():
        yield 0x30, b(1).zx(16), 2
        yield 0x40, "regs.A", 1
        yield 0x50, "regs.X", 1
        yield 0x60, b(1).zx(16) + HX, 2
        yield 0x70, HX, 1
        yield 0x9E60, b(2).zx(16) + SP, 3
    for base, ea, n in rmodes():
        if isinstance(ea, str):
            v = F(ea, 8)
            put = lambda s, r: s.set(ea, r)
        else:
            v = rom(ea)
            put = lambda s, r: s.write("rom", ea, r)
        for k in (0, 3, 4, 6, 7, 8, 9, 10, 12, 13, 15):
            op(base + k, rmw(k, v, put), n)

        def dbnz(s):
            put(s, v - 1)
            # the branch offset is fetched before or after the store: no overlap assumed
            bra(s, (v - 1).ne(0), n + 1)
            if not isinstance(ea, str):
                s.assume.append(ea.ne(pcp(n)))
        op(base + 11, dbnz)

        def cbeq(s):
            if base == 0x40 or base == 0x50:
                bra(s, v.eq(b(1)), 3)
            else:
                bra(s, rom(ea).eq(A), n + 1)
                if base in (0x60, 0x70):
                    sethx(s, HX + 1)
        op(base + 1, cbeq)
    for i in range(8):
        m = b(1)

        def br(s, clr):
            bit = rom(m.zx(16)).bit(i)
            bra(s, ~bit if clr else bit, 3)
            fl(s, c=bit)

        def bs(s, clr):
            v = rom(m.zx(16))
            s.write("rom", m.zx(16), (v & ~(1 << i) & 255) if clr else (v | (1 << i)))
        for clr in (0, 1):
            op(0x00 + 2 * i + clr, lambda s: br(s, clr))
            op(0x10 + 2 * i + clr, lambda s: bs(s, clr), 2)
    c, z, n_, i_, h, v_ = P.bit(0), P.bit(1), P.bit(2), P.bit(3), P.bit(4), P.bit(7)
    one = C(1, 1)
    for k, cond in enumerate([one, ~(c | z), ~c, ~z, ~h, ~n_, ~i_]):
        op(0x20 + 2 * k, lambda s: bra(s, cond, 2))
        op(0x21 + 2 * k, lambda s: bra(s, ~cond, 2))
    ge = ~(n_ ^ v_)
    for o, cond in ((0x90, ge), (0x91, ~ge), (0x92, ge & ~z), (0x93, ~ge | z)):
        op(o, lambda s: bra(s, cond, 2))

    def mul(s):
        r = A.zx(16) * X_.zx(16)
        s.set("regs.A", r.bits(7, 0))
        s.set("regs.X", r.bits(15, 8))
        fl(s, c=0, h=0)
    op(0x42, mul)

    def div(s):
        num = cat(H, A)
        s.assume.append(H.ult(X_))
        q, r = num.udiv(X_.zx(16)), num.urem(X_.zx(16))
        s.set("regs.A", q.bits(7, 0))
        s.set("regs.H", r.bits(7, 0))
        fl(s, c=0, z=q.bits(7, 0).z())
    op(0x52, div)
    bad = Spec(ret=0, ignore=IGN + ["^regs.A$", "^regs.H$"])
    bad.assume.append(X_.ule(H))
    bad.set("regs.P", C(8, 1), 1)
    bad.set("PC", pcp(1))
    t[(0x52,)].append(bad)
    op(0x62, lambda s: s.set("regs.A", cat(A.bits(3, 0), A.bits(7, 4))))

    def daa(s):
        lo = A.bits(3, 0).ugt(9) | h
        hi = A.ugt(0x99) | c
        r = A + (ite(lo, C(8, 6), C(8, 0)) | ite(hi, C(8, 0x60), C(8, 0)))
        s.set("regs.A", r)
        s.set("regs.P", setbits(P, b2=r.n(), b1=r.z(), b0=hi), 0x1f)
    op(0x72, daa)

    def rti(s):
        s.set("regs.P", rom(SP + 1), PM)
        s.set("regs.A", rom(SP + 2))
        s.set("regs.X", rom(SP + 3))
        s.set("PC", rd16(SP + 4))
        s.set("regs.SP", SP + 5)
    op(0x80, rti)

    def rts(s):
        s.set("PC", rd16(SP + 1))
        s.set("regs.SP", SP + 2)
    op(0x81, rts)

    def swi(s):
        push(s, pcp(1))
        s.write("rom", SP - 2, X_)
        s.write("rom", SP - 3, A)
        s.write("rom", SP - 4, P | 0x60)
        s.assume.append((P & 0x60).eq(0x60))
        s.set("regs.SP", SP - 5)
        fl(s, i=1)
        s.assume.append((SP - 4).ult(0xfff0) & SP.ult(0xfff0))
        s.set("PC", rd16(C(16, 0xfffc)))
    op(0x83, swi)
    op(0x84, lambda s: s.set("regs.P", A, PM))
    op(0x85, lambda s: s.set("regs.A", P | 0x60, PM))
    op(0x94, lambda s: s.set("regs.SP", HX - 1))
    op(0x95, lambda s: sethx(s, SP + 1))
    op(0x97, lambda s: s.set("regs.X", A))
    op(0x9F, lambda s: s.set("regs.A", X_))
    for o, r, rv in ((0x86, "regs.A", A), (0x88, "regs.X", X_), (0x8a, "regs.H", H)):
        def pul(s):
            s.set(r, rom(SP + 1))
            s.set("regs.SP", SP + 1)

        def psh(s):
            s.write("rom", SP, rv)
            s.set("regs.SP", SP - 1)
        op(o, pul)
        op(o + 1, psh)

    def clrh(s):
        s.set("regs.H", C(8, 0))
        fl(s, v=0, n=0, z=1)
    op(0x8c, clrh)
    op(0x8e, lambda s: fl(s, i=0))
    op(0x8f, lambda s: fl(s, i=0))
    op(0x98, lambda s: fl(s, c=0))
    op(0x99, lambda s: fl(s, c=1))
    op(0x9a, lambda s: fl(s, i=0))
    op(0x9b, lambda s: fl(s, i=1))
    op(0x9c, lambda s: s.set("regs.SP", C(16, 0xff)))
    op(0x9d, lambda s: None)

    def mov(src, dst, inc, n):
        def f(s):
            s.write("rom", dst, src)
            nz(s, src, v=0)
            if inc:
                sethx(s, HX + 1)
        return f
    op(0x4e, mov(rom(b(1)), b(2).zx(16), 0, 3), 3)
    op(0x5e, mov(rom(b(1)), HX, 1, 2), 2)
    op(0x6e, mov(b(1), b(2).zx(16), 0, 3), 3)
    op(0x7e, mov(rom(HX), b(1).zx(16), 1, 2), 2)

    def sthx(ea):
        def f(s):
            s.write("rom", ea, H)
            s.write("rom", ea + 1, X_)
            fl(s, v=0, n=H.n(), z=HX.z())
        return f

    def ldhx(v):
        def f(s):
            sethx(s, v)
            fl(s, v=0, n=v.n(), z=v.z())
        return f

    def cphx(v):
        def f(s):
            r, cc, o, _ = subb(HX, v, 0, 16)
            fl(s, v=o, c=cc, n=r.n(), z=r.z())
        return f
    op(0x35, sthx(b(1).zx(16)), 2)
    op(0x45, ldhx(w(1)), 3)
    op(0x55, ldhx(rd16(b(1).zx(16))), 2)
    op(0x65, cphx(w(1)), 3)
    op(0x75, cphx(rd16(b(1).zx(16))), 2)
    if s08:
        op(0x96, sthx(w(1)), 3)
        op(0x9EFF, sthx(b(2).zx(16) + SP), 3)
        op(0x32, ldhx(rd16(w(1))), 3)
        op(0x9EAE, ldhx(rd16(HX)), 2)
        op(0x9EBE, ldhx(rd16(w(2) + HX)), 4)
        op(0x9ECE, ldhx(rd16(b(2).zx(16) + HX)), 3)
        op(0x9EFE, ldhx(rd16(b(2).zx(16) + SP)), 3)
        op(0x3e, cphx(rd16(w(1))), 3)
        op(0x9EF3, cphx(rd16(b(2).zx(16) + SP)), 3)
    return t


def runs_for(s08):
    return [("".join("%02X" % x for x in o), list(o), specs) for o, specs in sorted(table(s08).items())]
