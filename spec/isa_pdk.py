"""Padauk 13, 14, 15 and 16 bit cores: one FPP without its surrounding chip (puc = NULL).

FLAG is I/O register 0 (Z, C, AC, OV in bits 0-3), SP I/O register 2; the stack grows upwards, low
byte first.  The bits above OV in FLAG are assumed to be clear, the program counter to be below the
end of the program, the stack not to wrap.  Don't-cares: Z after mov a,M and
mov a,IO; all flags but Z after nadd; ldspt*, ldtab*, T16 access, high byte of mul, interrupt
control, pmode, stop, reset, delay and wait, swapc on FLAG itself, pcN access, cycle counts."""
from dsl import *
from uc import Cpu, const

IGN = [r"^vc\.", r"^inst_", r"^instPC$", r"^result$", r"^sp_"]
Z, CY, AC, OV = range(4)
pc = PC0()
nxt = pc.zx(32) + 1
skp = pc.zx(32) + 2


def cpu(n):
    return Cpu("Padauk PDK%d" % n, "pdk", "cl_fpp%d" % n,
               ctor=[0, None, {"obj": "cpu_entry", "set": {"type": const("CPU_PDK%d" % n)}}, "ptr"],
               opaque=["^cl_sim[a-z0-9]*::", "^dnow"],
               inline=["^cl_fpp"],
               aliases=[{"from": "regs8", "to": "regs8", "lo": a, "hi": a, "field": f} for a, f in ((0, "rF"), (2, "rSP"))],
               set={"rF": "sym:4:flags"}, pcbits={13: 9, 14: 10, 15: 11, 16: 12}[n])


A, FL, SP = F("rA", 8), SYM("flags", 4).zx(8), F("rSP", 8)


def R(a): return RD("ram", C(32, a) if isinstance(a, int) else a.zx(32))


def IO(a): return FL if a == 0 else SP if a == 2 else RD("regs8", C(32, a))


class Tab:
    def __init__(self, ram, io):
        self.out, self.seen, self.mb, self.ib = [], set(), ram, io
        self.msel = sorted({0, 1, 2, 3, 5, (1 << ram) - 1} | {1 << i for i in range(ram)} | {0x155 & (1 << ram) - 1, 0x6b & (1 << ram) - 1})
        self.isel = sorted({0, 1, 2, 3, 5, 8, 9, (1 << io) - 1} | {1 << i for i in range(io)})

    def op(self, w, f):
        if w in self.seen:
            raise Exception("twice: %04x" % w)
        self.seen.add(w)
        s = Spec(ret=0, ignore=IGN)
        f(s)
        if "PC" not in s.fields:
            s.set("PC", nxt)
        self.out.append(("%04X" % w, [w], [s]))

    def io(self, s, a, v):
        if a == 0: s.set("rF", v)
        elif a == 2: s.set("rSP", v)
        else: s.write("regs8", C(32, a), v)

    # operations: each takes the operands, gives (result, flags to set)
    def m_(self, base, f):
        for m in self.msel:
            self.op(base | m, lambda s: f(s, R(m), lambda v: s.write("ram", C(32, m), v)))

    def m1(self, base, f):
        """result to memory"""
        self.m_(base, lambda s, v, put: put(self.fl(s, f(v))))

    def am(self, base, f): self.m_(base, lambda s, v, put: s.set("rA", self.fl(s, f(A, v))))
    def ma(self, base, f): self.m_(base, lambda s, v, put: put(self.fl(s, f(v, A))))
    def a(self, w, f): self.op(w, lambda s: s.set("rA", self.fl(s, f(A))))

    def ak(self, base, f):
        for k in range(256):
            self.op(base | k, lambda s: s.set("rA", self.fl(s, f(A, C(8, k)))))

    def fl(self, s, rf):
        r, d = rf
        if "any" in d:
            s.ignore = s.ignore + ["^rF$"]
        elif d:
            s.set("rF", setbits(FL, **d))
        return r

    def skip(self, s, c): s.set("PC", ite(c, skp, nxt))

    def bits(self, base, kind, sel, sh, fn):
        for a in sel:
            for n in range(8):
                self.op(base | n << sh | a, lambda s: fn(s, a, n))


def az(f): return lambda a, b=None: (lambda r: (r, {"b0": r.z()}))(f(a) if b is None else f(a, b))
def plain(f): return lambda *a: (f(*a), {})


def arith(fn, carry=False):
    def g(a, b):
        r, c, v, h = fn(a, b, FL.bit(CY) if carry else 0, 8)
        return r, {"b0": r.z(), "b1": c, "b2": h, "b3": v}
    return g


add, sub, adc, sbc = arith(addc), arith(subb), arith(addc, 1), arith(subb, 1)
def inc(a): return add(a, C(8, 1))
def dec(a): return sub(a, C(8, 1))
def addcy(a): return adc(a, C(8, 0))
def subcy(a): return sbc(a, C(8, 0))
def sr(a): return cat(C(1, 0), a.bits(7, 1)), {"b1": a.bit(0)}
def sl(a): return cat(a.bits(6, 0), C(1, 0)), {"b1": a.bit(7)}
def src(a): return cat(FL.bit(CY), a.bits(7, 1)), {"b1": a.bit(0)}
def slc(a): return cat(a.bits(6, 0), FL.bit(CY)), {"b1": a.bit(7)}
def swap(a): return cat(a.bits(3, 0), a.bits(7, 4)), {}
def nadd(a, b): return b - a, {"any": 1}
inv, neg = az(lambda a: ~a), az(lambda a: C(8, 0) - a)
and_z, or_z, xor_z = az(lambda a, b: a & b), az(lambda a, b: a | b), az(lambda a, b: a ^ b)


def stack(s):
    s.assume += [SP.uge(2), SP.ult(0xfc)]


def push16(s, lo, hi):
    stack(s)
    s.write("ram", SP.zx(32), lo)
    s.write("ram", SP.zx(32) + 1, hi)
    s.set("rSP", SP + 2)


def pop16(s):
    stack(s)
    s.set("rSP", SP - 2)
    return R(SP - 2), R(SP - 1)


def common(t, base):
    """operations on the accumulator, stack and flow, the same codes in all cores up to an offset"""
    b = base
    t.op(0x0000, lambda s: None)
    t.a(b + 0x10, addcy)
    t.a(b + 0x11, subcy)
    for w, f in ((0x12, inc), (0x13, dec)):
        def g(s):
            r = t.fl(s, f(A))
            s.set("rA", r)
            t.skip(s, r.z())
        t.op(b + w, g)
    t.op(b + 0x17, lambda s: s.set("PC", pc.zx(32) + A.zx(32)))
    for w, f in ((0x18, inv), (0x19, neg), (0x1a, sr), (0x1b, sl), (0x1c, src), (0x1d, slc), (0x1e, swap)):
        t.a(b + w, f)
    b = 0x60 if base else 0x20

    def ret(s):
        l, h = pop16(s)
        s.set("PC", cat(h, l).zx(32))
    t.op(b + 0x1a, ret)

    def popaf(s):
        l, h = pop16(s)
        s.set("rA", l)
        s.set("rF", h)
    t.op(b + 0x12, lambda s: push16(s, A, FL))
    t.op(b + 0x13, popaf)
    t.op(b + 0x1c, lambda s: s.set("rA", (A.zx(16) * IO(8).zx(16)).tr(8)))


def cmpskip(t, base, wrap, f, want):
    """compare and skip on (in)equality"""
    def g(s, a, b):
        t.fl(s, f(a, b))
        t.skip(s, a.eq(b) if want else a.ne(b))
    wrap(base, g)


def flow(t, goto, call, bits):
    top = (1 << bits) - 1
    for a in sorted({0, 1, top, top // 3, top // 3 * 2} | {1 << i for i in range(bits)} | {(i * 307 + 11) & top for i in range(12)}):
        t.op(goto | a, lambda s: s.set("PC", C(32, a)))
        def cl(s):
            push16(s, nxt.tr(8), nxt.bits(15, 8))
            s.set("PC", C(32, a))
        t.op(call | a, cl)


def retk(t, base):
    def g(s, k):
        s.set("rA", C(8, k))
        l, h = pop16(s)
        s.set("PC", cat(h, l).zx(32))
    for k in sorted({0, 0x55, 0xaa, 255} | {1 << i for i in range(8)}):
        t.op(base | k, lambda s: g(s, k))


def ops_m(t, base_ma, base_am, un, cneq):
    """two-operand groups M,a and a,M and the one-operand group of the 13 to 15 bit cores"""
    w = t.mb
    for i, f in enumerate((add, sub, adc, sbc, and_z, or_z, xor_z)):
        t.ma(base_ma + (i << w), f)
        t.am(base_am + (i << w), f)
    t.m_(base_ma + (7 << w), lambda s, v, put: put(A))
    t.m_(base_am + (7 << w), lambda s, v, put: (s.set("rA", v), t.zfree(s, v)))
    for i, f in ((0, addcy), (1, subcy), (4, inc), (5, dec), (8, inv), (9, neg), (10, sr), (11, sl), (12, src), (13, slc)):
        t.m1(un + (i << w), f)
    t.m_(un + (6 << w), lambda s, v, put: put(C(8, 0)))
    t.m_(un + (7 << w), lambda s, v, put: (put(A), s.set("rA", v)))
    mskip(t, un + (2 << w), inc)
    mskip(t, un + (3 << w), dec)
    cmpskip(t, un + (14 << w), lambda b, g: t.m_(b, lambda s, v, put: g(s, A, v)), sub, 1)
    if cneq:
        cmpskip(t, un + (15 << w), lambda b, g: t.m_(b, lambda s, v, put: g(s, A, v)), sub, 0)


def mskip(t, base, f):
    def g(s, v, put):
        r = t.fl(s, f(v))
        put(r)
        t.skip(s, r.z())
    t.m_(base, g)


def zfree(s, v):
    """Z may follow the value or stay"""
    x = SYM("zfree", 1)
    s.ignore = s.ignore + ["^rF$"]


Tab.zfree = staticmethod(zfree)


def aks(t, base, cneq):
    for i, f in ((0, add), (1, sub), (4, and_z), (5, or_z), (6, xor_z), (7, plain(lambda a, k: k))):
        t.ak(base + (i << 8), f)
    for i, want in ((2, 1), (3, 0)):
        if want or cneq:
            def wrap(b, g):
                for k in range(256):
                    t.op(b | k, lambda s: g(s, A, C(8, k)))
            cmpskip(t, base + (i << 8), wrap, sub, want)


def bitops(t, io, msel, m, sh):
    """io, m: codes of t0sn, t1sn, set0, set1 (swapc)"""
    def sets(n, v, x): return setbits(v, **{"b%d" % n: C(1, x)})
    for i in range(4):
        if i < 2:
            t.bits(io[i], "io", t.isel, sh, lambda s, a, n: t.skip(s, IO(a).bit(n).eq(i)))
        else:
            t.bits(io[i], "io", t.isel, sh, lambda s, a, n: t.io(s, a, sets(n, IO(a), i - 2)))
    if len(io) > 4:
        def sw(s, a, n):
            s.set("rF", setbits(FL, b1=IO(a).bit(n)))
            t.io(s, a, setbits(IO(a), **{"b%d" % n: FL.bit(CY)}))
        t.bits(io[4], "io", [a for a in t.isel if a], sh, sw)
    if m:
        shm, m = m
        for i in range(4):
            if i < 2:
                t.bits(m[i], "m", msel, shm, lambda s, a, n: t.skip(s, R(a).bit(n).eq(i)))
            else:
                t.bits(m[i], "m", msel, shm, lambda s, a, n: s.write("ram", C(32, a), sets(n, R(a), i - 2)))


def ios(t, st, ld, xst, xld=None):
    for a in t.isel:
        t.op(st | a, lambda s: t.io(s, a, A))
        t.op(ld | a, lambda s: (s.set("rA", IO(a)), t.zfree(s, None)))
        t.op(xst | a, lambda s: t.io(s, a, A ^ IO(a)))
        if xld is not None:
            t.op(xld | a, lambda s: s.set("rA", t.fl(s, xor_z(A, IO(a)))))


def idx(t, base, top, word):
    for m in [x for x in t.msel if not x & 1 and x < top]:
        ptr = cat(R(m + 1), R(m)) if word else R(m)
        def ok(s):
            if word:
                s.assume.append(ptr.ult(0x200))
        def ld(s):
            ok(s)
            s.set("rA", R(ptr))
        def st(s):
            ok(s)
            s.write("ram", ptr.zx(32), A)
        t.op(base | m | 1, ld)
        t.op(base | m, st)


def table(n):
    if n == 16:
        t = Tab(9, 6)
        common(t, 0)
        aks16(t)
        return t.out
    t = Tab(*{13: (6, 5), 14: (7, 6), 15: (8, 7)}[n])
    common(t, 0 if n == 13 else 0x50)
    u = 1 << t.mb
    ops_m(t, u * 16, u * 24, u * 32, n > 13)
    aks(t, {13: 0x1000, 14: 0x2800, 15: 0x5000}[n], n > 13)
    retk(t, 0x0100 if n == 13 else 0x0200)
    if n == 13:
        bitops(t, (0x0c00, 0x0d00, 0x0e00, 0x0f00), [x for x in t.msel if x < 16], (5, (0x200, 0x210, 0x300, 0x310)), 5)
        ios(t, 0x80, 0xa0, 0x60)
        idx(t, 0xe0, 0x20, 0)
        flow(t, 0x1800, 0x1c00, 10)
    else:
        k = t.ib
        if n == 14:
            bitops(t, (0x1800, 0x1a00, 0x1c00, 0x1e00, 0x0400), [x for x in t.msel if x < 64], (6, (0x2000, 0x2200, 0x2400, 0x2600)), 6)
            ios(t, 0x180, 0x1c0, 0xc0)
            idx(t, 0x380, 0x80, 0)
            flow(t, 0x3000, 0x3800, 11)
        else:
            bitops(t, (0x3000, 0x3400, 0x3800, 0x3c00, 0x5c00), [x for x in t.msel if x < 128], (7, (0x4000, 0x4400, 0x4800, 0x4c00)), 7)
            ios(t, 0x100, 0x180, 0x80)
            idx(t, 0x700, 0x100, 0)
            flow(t, 0x6000, 0x7000, 12)
        cb = 0x600 if n == 14 else 0xc00
        t.m_(cb, lambda s, v, put: t.fl(s, sub(A, v)))
        t.m_(cb + u, lambda s, v, put: t.fl(s, sub(v, A)))
        t.am(cb + 2 * u, nadd)
        t.ma(cb + 3 * u, nadd)
    return t.out


def aks16(t):
    for base, f in ((0x1800, add), (0x1900, sub), (0x1c00, and_z), (0x1d00, or_z), (0x1e00, xor_z), (0x1f00, plain(lambda a, k: k))):
        t.ak(base, f)
    def wrap(b, g):
        for k in range(256):
            t.op(b | k, lambda s: g(s, A, C(8, k)))
    cmpskip(t, 0x1a00, wrap, sub, 1)
    cmpskip(t, 0x1b00, wrap, sub, 0)
    retk(t, 0x0f00)
    ios(t, 0x80, 0xc0, 0x1000, 0x1040)
    t.m_(0x5c00, lambda s, v, put: put(A))
    t.m_(0x5e00, lambda s, v, put: (s.set("rA", v), t.zfree(s, v)))
    t.m_(0x3200, lambda s, v, put: (put(C(8, 0) - A), t.zfree(s, v)))
    t.am(0x3000, az(lambda a, m: C(8, 0) - m))
    t.m_(0x6e00, lambda s, v, put: (put(A), s.set("rA", v)))
    t.m_(0x6c00, lambda s, v, put: put(C(8, 0)))
    for am, ma, f in ((0x4200, 0x4000, add), (0x4a00, 0x4800, adc), (0x3400, 0x3600, nadd), (0x4600, 0x4400, sub), (0x4e00, 0x4c00, sbc),
                      (0x5200, 0x5000, and_z), (0x5600, 0x5400, or_z), (0x5a00, 0x5800, xor_z)):
        t.am(am, f)
        t.ma(ma, f)
    for b, f in ((0x6000, addcy), (0x6200, subcy), (0x6800, inc), (0x6a00, dec), (0x7400, sr), (0x7800, src), (0x7600, sl), (0x7a00, slc),
                 (0x7c00, swap), (0x7000, inv), (0x7200, neg)):
        t.m1(b, f)
    t.m_(0x3c00, lambda s, v, put: t.fl(s, sub(A, v)))
    t.m_(0x3e00, lambda s, v, put: t.fl(s, sub(v, A)))
    for b, rev, want in ((0x3800, 0, 1), (0x3a00, 1, 1), (0x1600, 0, 0), (0x1400, 1, 0)):
        cmpskip(t, b, lambda b, g: t.m_(b, lambda s, v, put: g(s, v, A) if rev else g(s, A, v)), sub, want)
    mskip(t, 0x6400, inc)
    mskip(t, 0x6600, dec)
    bitops(t, (0x2000, 0x2200, 0x2400, 0x2600, 0x2e00), t.msel, (9, (0x8000, 0x9000, 0xa000, 0xb000)), 6)
    idx(t, 0x800, 0x200, 1)
    for m in [x for x in t.msel if not x & 1]:
        w = cat(R(m + 1), R(m))
        t.op(0x600 | m, lambda s: s.set("PC", w.zx(32)))
        def icall(s):
            stack(s)
            s.assume += [SP.ne(m), SP.ne(m + 1), (SP + 1).ne(m)] if m < 256 else []
            push16(s, nxt.tr(8), nxt.bits(15, 8))
            s.set("PC", w.zx(32))
        t.op(0x600 | m | 1, icall)
        t.op(0x400 | m | 1, lambda s: push16(s, R(m), R(m + 1)))
        def popw(s):
            l, h = pop16(s)
            s.write("ram", C(32, m), l)
            s.write("ram", C(32, m + 1), h)
        t.op(0x400 | m, popw)
    flow(t, 0xc000, 0xe000, 13)
