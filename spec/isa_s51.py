"""MCS-51 programmer's guide and instruction set (8052: 256 bytes of internal RAM).

Registers R0-R7 are a window of the internal RAM chosen by PSW.4-3, bits 00-7F lie in
internal RAM 20-2F, bits 80-FF in the special function registers.  Reading a port as a
source gives the pins, read-modify-write instructions read the latch.
Don't-cares: PSW.0 after an instruction that writes PSW, MOV A,ACC, the high address of
MOVX @Ri (a configurable source), direct byte addresses that overlay the instruction's
own implicit operands in an order the guide does not define."""
from dsl import *
from uc import Cpu

PORTS = (0x80, 0x90, 0xa0, 0xb0)
CPU = Cpu("8051", "s51", "cl_uc52", ctor=[{"obj": "cpu_entry"}, "ptr"], keep=["uc_itab[]", "def_result"],
          opaque=["^cl_timer", "^cl_serial", "^cl_port", "^cl_interrupt", "^cl_wdt", "^cl_pca"],
          counters=[{"re": "high_movxri", "name": "himovx", "opaque": True, "ret": "?P2HI"}],
          aliases=[dict({"from": "sfr", "to": "pins", "lo": p, "hi": p, "base": p, "readonly": True}) for p in PORTS] + [
              {"from": "regs", "to": "iram", "base": 0, "hi": 7, "bank_space": "sfr", "bank_addr": 0xd0, "bank_mask": 0x18},
              {"from": "bits", "to": "iram", "lo": 0, "hi": 127, "base": 0x20, "stride": 1, "bit": True},
              {"from": "bits", "to": "sfr", "lo": 128, "hi": 255, "base": 0x80, "stride": 8, "bit": True},
              {"from": "dptr", "to": "sfr", "lo": 0, "hi": 1, "base": 0x82}],
          parity=[{"space": "sfr", "src": 0xe0, "dst": 0xd0, "bit": 0}])
IGN = [r"^vc\.", r"^inst_", r"^instPC$", r"^result$", r"^sp_", r"^rom#", r"^SP$"]
ACC, PSW, SP_, B_, DPL, DPH = 0xe0, 0xd0, 0x81, 0xf0, 0x82, 0x83


def raw(sp, a, w=8): return RD(sp, a if isinstance(a, X) else C(32, a), w)
def sfr(a): return raw("sfr", a)
def iram(a): return raw("iram", a.zx(32))


A, P, SP, B = sfr(ACC), sfr(PSW), sfr(SP_), sfr(B_)
CY = P.bit(7)
bank = P.zx(32) & 0x18
pc = PC0()


def pcp(n): return (pc + n).tr(16)
def by_(n): return RD("rom", pcp(n).zx(32))


class St:
    """the machine state while an instruction runs: later reads see earlier writes"""

    def __init__(s, spec):
        s.spec, s.m = spec, {}
        s.log = []      # (space, addr, value)

    def rd(s, space, a):
        a = a if isinstance(a, X) else C(32, a)
        v = raw(space, a)
        for sp, ad, val in s.log:
            if sp == space:
                v = ite(ad.eq(a), val, v)
        return v

    def wr(s, space, a, v):
        a = a if isinstance(a, X) else C(32, a)
        s.log.append((space, a, v))

    def end(s):
        for sp, a, v in s.log:
            s.spec.write(sp, a, v)


def gen():
    out = []

    def op(id, by, f, n=None):
        s = Spec(ret=0, ignore=IGN)
        st = St(s)
        f(s, st)
        st.end()
        if "PC" not in s.fields:
            s.set("PC", pcp(n if n is not None else len(by)))
        out.append((id, list(by), [s]))

    def setacc(st, v):
        st.wr("sfr", ACC, v)
        p = st.rd("sfr", PSW)
        st.wr("sfr", PSW, setbits(p, b0=~v.par()))

    def psw(st, **kw):
        st.wr("sfr", PSW, setbits(st.rd("sfr", PSW), **kw))

    def putdir(st, d, v):
        if d < 0x80:
            st.wr("iram", d, v)
        elif d == ACC:
            setacc(st, v)
        else:
            st.wr("sfr", d, v)

    def getdir(st, d, rmw=False):
        if d < 0x80:
            return st.rd("iram", d)
        if d in PORTS and not rmw:
            return RD("pins", C(32, d))
        return st.rd("sfr", d)

    def rn(i): return bank + i

    # operand forms: (suffix, opcode low, extra bytes, read, write)
    DIR = list(range(256))

    def srcs(base):
        yield base + 4, (-1,), lambda st: by_(1), 2
        for d in DIR:
            yield base + 5, (d,), (lambda st, d=d: getdir(st, d)), 2
        for i in (0, 1):
            yield base + 6 + i, (), (lambda st, i=i: st.rd("iram", st.rd("iram", rn(i)).zx(32))), 1
        for i in range(8):
            yield base + 8 + i, (), (lambda st, i=i: st.rd("iram", rn(i))), 1

    def nm(o, ex): return "%02X" % o + "".join("%02X" % e if e >= 0 else "nn" for e in ex)

    def alu(base, f):
        for o, ex, src, n in srcs(base):
            op(nm(o, ex), [o] + list(ex), lambda s, st: f(st, src(st)), n)

    def add(st, v, c=0, sub=False):
        r, cy, ov, ac = (subb if sub else addc)(A, v, CY if c else 0, 8)
        setacc(st, r)
        psw(st, b7=cy, b6=ac, b2=ov)
    alu(0x20, lambda st, v: add(st, v))
    alu(0x30, lambda st, v: add(st, v, 1))
    alu(0x90, lambda st, v: add(st, v, 1, True))
    for base, fn in ((0x40, lambda a, b: a | b), (0x50, lambda a, b: a & b), (0x60, lambda a, b: a ^ b)):
        alu(base, lambda st, v, fn=fn: setacc(st, fn(A, v)))
        for d in DIR:
            def la(s, st, d=d, fn=fn): putdir(st, d, fn(getdir(st, d, True), A))
            op(nm(base + 2, (d,)), [base + 2, d], la)
            def li(s, st, d=d, fn=fn): putdir(st, d, fn(getdir(st, d, True), by_(2)))
            op(nm(base + 3, (d, -1)), [base + 3, d, -1], li, 3)
    # MOV A,src
    for o, ex, src, n in srcs(0xe0):
        if o == 0xe4 or (o == 0xe5 and ex[0] == ACC):
            continue
        op(nm(o, ex), [o] + list(ex), lambda s, st: setacc(st, src(st)), n)
    op("74nn", [0x74, -1], lambda s, st: setacc(st, by_(1)), 2)
    op("E4", [0xe4], lambda s, st: setacc(st, C(8, 0)))
    op("F4", [0xf4], lambda s, st: setacc(st, ~A))
    op("03", [3], lambda s, st: setacc(st, cat(A.bit(0), A.bits(7, 1))))
    op("23", [0x23], lambda s, st: setacc(st, cat(A.bits(6, 0), A.bit(7))))
    def rrc(s, st):
        setacc(st, cat(CY, A.bits(7, 1)))
        psw(st, b7=A.bit(0))
    op("13", [0x13], rrc)
    def rlc(s, st):
        setacc(st, cat(A.bits(6, 0), CY))
        psw(st, b7=A.bit(7))
    op("33", [0x33], rlc)
    op("C4", [0xc4], lambda s, st: setacc(st, cat(A.bits(3, 0), A.bits(7, 4))))
    def da(s, st):
        lo = (A.bits(3, 0).ugt(9)) | P.bit(6)
        a1 = A.zx(9) + ite(lo, C(9, 6), C(9, 0))
        c1 = CY | a1.bit(8)
        hi = a1.bits(7, 4).ugt(9) | c1
        a2 = a1.tr(8).zx(9) + ite(hi, C(9, 0x60), C(9, 0))
        setacc(st, a2.tr(8))
        psw(st, b7=c1 | a2.bit(8))
    op("D4", [0xd4], da)
    def mul(s, st):
        r = A.zx(16) * B.zx(16)
        setacc(st, r.bits(7, 0))
        st.wr("sfr", B_, r.bits(15, 8))
        psw(st, b7=0, b2=~r.bits(15, 8).z())
    op("A4", [0xa4], mul)
    # division: the quotient and remainder are undefined when B is zero
    def div(s, st):
        z = B.z()
        d = ite(z, C(8, 1), B)
        q, r = A.udiv(d), A.urem(d)
        s.assume.append(~z)
        setacc(st, q)
        st.wr("sfr", B_, r)
        psw(st, b7=0, b2=0)
    op("84", [0x84], div)

    # INC, DEC
    for base, k in ((0x00, 1), (0x10, -1)):
        op("%02X" % (base + 4), [base + 4], lambda s, st: setacc(st, A + k if k > 0 else A - 1))
        def one(v): return v + 1 if k > 0 else v - 1
        for d in DIR:
            op(nm(base + 5, (d,)), [base + 5, d], lambda s, st: putdir(st, d, one(getdir(st, d, True))))
        for i in (0, 1):
            def f(s, st):
                a = iram(rn(i)).zx(32)
                st.wr("iram", a, one(iram(a)))
            op("%02X" % (base + 6 + i), [base + 6 + i], f)
        for i in range(8):
            op("%02X" % (base + 8 + i), [base + 8 + i], lambda s, st: st.wr("iram", rn(i), one(iram(rn(i)))))
    def incdptr(s, st):
        r = cat(sfr(DPH), sfr(DPL)) + 1
        st.wr("sfr", DPH, r.bits(15, 8))
        st.wr("sfr", DPL, r.bits(7, 0))
    op("A3", [0xa3], incdptr)

    # MOV to memory
    for d in DIR:
        op(nm(0x75, (d, -1)), [0x75, d, -1], lambda s, st: putdir(st, d, by_(2)), 3)
        op(nm(0xf5, (d,)), [0xf5, d], lambda s, st: putdir(st, d, A))
        for i in (0, 1):
            op(nm(0x86 + i, (d,)), [0x86 + i, d], lambda s, st: putdir(st, d, iram(iram(rn(i)).zx(32))))
            op(nm(0xa6 + i, (d,)), [0xa6 + i, d], lambda s, st: st.wr("iram", iram(rn(i)).zx(32), getdir(st, d)))
        for i in (range(8) if d % 37 in (0, 7) or d in PORTS + (ACC, PSW, SP_, B_) else (d % 8,)):
            op(nm(0x88 + i, (d,)), [0x88 + i, d], lambda s, st: putdir(st, d, iram(rn(i))))
            op(nm(0xa8 + i, (d,)), [0xa8 + i, d], lambda s, st: st.wr("iram", rn(i), getdir(st, d)))
        for d2 in (d ^ 0x55, d, 0x10, 0x90, ACC, PSW):
            op(nm(0x85, (d, d2)) + ("." if d2 != d ^ 0x55 else ""), [0x85, d, d2], lambda s, st: putdir(st, d2, getdir(st, d)))
        # XCH A,direct
        def xch(s, st):
            v = getdir(st, d)
            setacc(st, v)
            putdir(st, d, A)
        op(nm(0xc5, (d,)), [0xc5, d], xch)
        # PUSH, POP
        def push(s, st):
            v = getdir(st, d) if d != SP_ else None
            n = SP + 1
            st.wr("sfr", SP_, n)
            st.wr("iram", n.zx(32), v if v is not None else n)
        if d != SP_:
            op(nm(0xc0, (d,)), [0xc0, d], push)
        def pop(s, st):
            v = iram(SP)
            st.wr("sfr", SP_, SP - 1)
            putdir(st, d, v)
        op(nm(0xd0, (d,)), [0xd0, d], pop)
    for i in (0, 1):
        op("%02Xnn" % (0x76 + i), [0x76 + i, -1], lambda s, st: st.wr("iram", iram(rn(i)).zx(32), by_(1)), 2)
        op("%02X" % (0xf6 + i), [0xf6 + i], lambda s, st: st.wr("iram", iram(rn(i)).zx(32), A))
        def xchi(s, st):
            a = iram(rn(i)).zx(32)
            v = iram(a)
            setacc(st, v)
            st.wr("iram", a, A)
        op("%02X" % (0xc6 + i), [0xc6 + i], xchi)
        def xchd(s, st):
            a = iram(rn(i)).zx(32)
            v = iram(a)
            setacc(st, cat(A.bits(7, 4), v.bits(3, 0)))
            st.wr("iram", a, cat(v.bits(7, 4), A.bits(3, 0)))
        op("%02X" % (0xd6 + i), [0xd6 + i], xchd)
        hi = SYM("P2HI", 32)
        xa = (hi * 256 + iram(rn(i)).zx(32))
        op("%02X" % (0xe2 + i), [0xe2 + i], lambda s, st: setacc(st, RD("xram", xa)))
        op("%02X" % (0xf2 + i), [0xf2 + i], lambda s, st: s.write("xram", xa, A))
    for i in range(8):
        op("%02Xnn" % (0x78 + i), [0x78 + i, -1], lambda s, st: st.wr("iram", rn(i), by_(1)), 2)
        op("%02X" % (0xf8 + i), [0xf8 + i], lambda s, st: st.wr("iram", rn(i), A))
        def xchr(s, st):
            v = iram(rn(i))
            setacc(st, v)
            st.wr("iram", rn(i), A)
        op("%02X" % (0xc8 + i), [0xc8 + i], xchr)
    dp = cat(sfr(DPH), sfr(DPL))
    op("E0", [0xe0], lambda s, st: setacc(st, RD("xram", dp.zx(32))))
    op("F0", [0xf0], lambda s, st: s.write("xram", dp.zx(32), A))
    op("93", [0x93], lambda s, st: setacc(st, RD("rom", (dp + A.zx(16)).zx(32))))
    op("83", [0x83], lambda s, st: setacc(st, RD("rom", (pcp(1).tr(16) + A.zx(16)).zx(32))))
    def movdptr(s, st):
        st.wr("sfr", DPH, by_(1))
        st.wr("sfr", DPL, by_(2))
    op("90nnnn", [0x90, -1, -1], movdptr, 3)

    # branches
    def rel(n, k, cond): return ite(cond, (pc + n + by_(k).sx(32)).tr(16), pcp(n)) if cond is not None else (pc + n + by_(k).sx(32)).tr(16)
    def br(id, by, cond):
        n = len(by)
        op(id, by, lambda s, st: s.set("PC", rel(n, n - 1, cond)))
    br("80", [0x80, -1], None)
    br("40", [0x40, -1], CY)
    br("50", [0x50, -1], ~CY)
    br("60", [0x60, -1], A.z())
    br("70", [0x70, -1], ~A.z())
    op("02", [2, -1, -1], lambda s, st: s.set("PC", cat(by_(1), by_(2))))
    op("73", [0x73], lambda s, st: s.set("PC", dp + A.zx(16)))
    for k in range(8):
        def tgt(n=2): return cat(pcp(2).bits(15, 11), C(3, k), by_(1))
        op("%02X" % (k * 32 + 1), [k * 32 + 1, -1], lambda s, st: s.set("PC", tgt()))
        def acall(s, st):
            r = pcp(2)
            st.wr("iram", (SP + 1).zx(32), r.bits(7, 0))
            st.wr("iram", (SP + 2).zx(32), r.bits(15, 8))
            st.wr("sfr", SP_, SP + 2)
            s.set("PC", tgt())
        op("%02X" % (k * 32 + 0x11), [k * 32 + 0x11, -1], acall)
    def lcall(s, st):
        r = pcp(3)
        st.wr("iram", (SP + 1).zx(32), r.bits(7, 0))
        st.wr("iram", (SP + 2).zx(32), r.bits(15, 8))
        st.wr("sfr", SP_, SP + 2)
        s.set("PC", cat(by_(1), by_(2)))
    op("12", [0x12, -1, -1], lcall)
    def ret(s, st):
        st.wr("sfr", SP_, SP - 2)
        s.set("PC", cat(iram(SP), iram(SP - 1)))
    op("22", [0x22], ret)
    op("32", [0x32], ret)
    # CJNE
    def cjne(id, by, x, y):
        def f(s, st):
            a, b = x(st), y(st)
            psw(st, b7=a.ult(b))
            s.set("PC", rel(3, 2, a.ne(b)))
        op(id, by, f)
    cjne("B4", [0xb4, -1, -1], lambda st: A, lambda st: by_(1))
    for d in DIR:
        cjne(nm(0xb5, (d,)), [0xb5, d, -1], lambda st: A, lambda st: getdir(st, d))
        def djd(s, st):
            v = getdir(st, d, True) - 1
            putdir(st, d, v)
            s.set("PC", rel(3, 2, ~v.z()))
        op(nm(0xd5, (d,)), [0xd5, d, -1], djd)
    for i in (0, 1):
        cjne("%02X" % (0xb6 + i), [0xb6 + i, -1, -1], lambda st: iram(iram(rn(i)).zx(32)), lambda st: by_(1))
    for i in range(8):
        cjne("%02X" % (0xb8 + i), [0xb8 + i, -1, -1], lambda st: iram(rn(i)), lambda st: by_(1))
        def djr(s, st):
            v = iram(rn(i)) - 1
            st.wr("iram", rn(i), v)
            s.set("PC", rel(2, 1, ~v.z()))
        op("%02X" % (0xd8 + i), [0xd8 + i, -1], djr)
    # bits
    def byte(b): return 0x20 + b // 8 if b < 0x80 else b & 0xf8
    for b in range(256):
        d, k = byte(b), b & 7
        def gb(st, rmw=False): return getdir(st, d, rmw).bit(k)
        def pb(st, v): putdir(st, d, setbits(getdir(st, d, True), **{"b%d" % k: v}))
        op(nm(0xc2, (b,)), [0xc2, b], lambda s, st: pb(st, 0))
        op(nm(0xd2, (b,)), [0xd2, b], lambda s, st: pb(st, 1))
        op(nm(0xb2, (b,)), [0xb2, b], lambda s, st: pb(st, ~gb(st, True)))
        op(nm(0x92, (b,)), [0x92, b], lambda s, st: pb(st, CY))
        op(nm(0xa2, (b,)), [0xa2, b], lambda s, st: psw(st, b7=gb(st)))
        op(nm(0x72, (b,)), [0x72, b], lambda s, st: psw(st, b7=CY | gb(st)))
        op(nm(0xa0, (b,)), [0xa0, b], lambda s, st: psw(st, b7=CY | ~gb(st)))
        op(nm(0x82, (b,)), [0x82, b], lambda s, st: psw(st, b7=CY & gb(st)))
        op(nm(0xb0, (b,)), [0xb0, b], lambda s, st: psw(st, b7=CY & ~gb(st)))
        op(nm(0x20, (b,)), [0x20, b, -1], lambda s, st: s.set("PC", rel(3, 2, gb(st))))
        op(nm(0x30, (b,)), [0x30, b, -1], lambda s, st: s.set("PC", rel(3, 2, ~gb(st))))
        def jbc(s, st):
            c = gb(st, True)
            s.set("PC", rel(3, 2, c))
            old = P
            pb(st, 0)
            if d == ACC:    # nothing is written when the bit is clear
                st.wr("sfr", PSW, ite(c, st.rd("sfr", PSW), old))
        op(nm(0x10, (b,)), [0x10, b, -1], jbc)
    op("C3", [0xc3], lambda s, st: psw(st, b7=0))
    op("D3", [0xd3], lambda s, st: psw(st, b7=1))
    op("B3", [0xb3], lambda s, st: psw(st, b7=~CY))
    op("00", [0], lambda s, st: None)
    return out


def runs():
    r = gen()
    ids = {}
    for id, by, sp in r:
        while id in ids:
            id += "'"
        ids[id] = (id, by, sp)
    return list(ids.values())
