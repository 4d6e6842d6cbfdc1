"""AVR instruction set manual, the instructions of the AT90S core this model decodes (16 bit
program counter, registers R0-R31 at data addresses 0-31, SP at 5D/5E, SREG at 5F).

Don't-cares: a pointer register pair as the data operand of its own pre/post-modified access,
a stack or post-modified store that hits the pointer itself, MOVW, MULS/FMUL*, LPM Rd,
ELPM, SPM, EIJMP, EICALL (later cores; the model accepts the codes without an effect),
skipping over a word that is no instruction.  The operand fields of the opcode word are
covered value by value, not in all combinations."""
from dsl import *
from uc import Cpu

CPU = Cpu("avr", "avr", "cl_avr", same={"rom": "rom#2"}, keep=["disass_avr[]"])
IGN = [r"^vc\.", r"^inst_", r"^instPC$", r"^result$", r"^sp_", r"^rom#"]
SPL, SPH, SREG = 0x5d, 0x5e, 0x5f
XL, YL, ZL = 26, 28, 30
FL = dict(C=0, Z=1, N=2, V=3, S=4, H=5, T=6, I=7)
pc = PC0()


def A32(a): return C(32, a) if isinstance(a, int) else a.zx(32)
def raw(a): return RD("ram", A32(a))
def pcp(n): return (pc + n).tr(16)
def word(n): return RD("rom", pcp(n).zx(32), 16)


class St:
    def __init__(s, spec):
        s.spec, s.log = spec, []

    def rd(s, a):
        a = A32(a)
        v = raw(a)
        for ad, val in s.log:
            v = ite(ad.eq(a), val, v)
        return v

    def wr(s, a, v): s.log.append((A32(a), v))
    def p(s, a): return cat(s.rd(a + 1), s.rd(a))

    def wp(s, a, v):
        s.wr(a + 1, v.bits(15, 8))
        s.wr(a, v.bits(7, 0))

    def flags(s, **kw):
        s.wr(SREG, setbits(s.rd(SREG), **{"b%d" % FL[k]: v for k, v in kw.items()}))

    def notat(s, a, *bad):
        for b in bad:
            s.spec.assume.append(a.zx(32).ne(b))

    def end(s):
        for ad, v in s.log:
            s.spec.write("ram", ad, v)


def gen():
    out, seen = [], set()

    def op(w, f, ext=(), n=None):
        id = "%04X" % w + "".join("_%04X" % e if e >= 0 else "_kkkk" for e in ext)
        if id in seen:
            return
        seen.add(id)
        s = Spec(ret=0, ignore=IGN)
        st = St(s)
        f(s, st)
        st.end()
        if "PC" not in s.fields:
            s.set("PC", pcp(n if n is not None else 1 + len(ext)))
        out.append((id, [w] + list(ext), [s]))

    def rr():
        for d in range(32):
            for r in {d, (d * 7 + 3) % 32, 31 - d, (d + 16) % 32}:
                yield d, r, ((r & 16) << 5) | (d << 4) | (r & 15)

    def dk():
        for k in range(256):
            d = (k * 5 + k // 16) % 16
            yield 16 + d, k, ((k & 0xf0) << 4) | (d << 4) | (k & 15)

    def addsub(st, a, b, c, sub, keepz=False):
        r, cy, v, h = (subb if sub else addc)(a, b, c, 8)
        z = r.z() & st.rd(SREG).bit(1) if keepz else r.z()
        st.flags(C=cy, Z=z, N=r.n(), V=v, S=r.n() ^ v, H=h)
        return r

    def logic(st, r): st.flags(Z=r.z(), N=r.n(), V=0, S=r.n())

    CYF = raw(SREG).bit(0)
    for d, r, e in rr():
        D, R = raw(d), raw(r)
        def f(fn, wb=True):
            def g(s, st):
                # registers are read before the flags are changed, results written independently
                v = fn(st)
                if wb:
                    st.wr(d, v)
            return g
        op(0x0c00 | e, f(lambda st: addsub(st, D, R, 0, 0)))
        op(0x1c00 | e, f(lambda st: addsub(st, D, R, CYF, 0)))
        op(0x1800 | e, f(lambda st: addsub(st, D, R, 0, 1)))
        op(0x0800 | e, f(lambda st: addsub(st, D, R, CYF, 1, True)))
        op(0x1400 | e, f(lambda st: addsub(st, D, R, 0, 1), False))
        op(0x0400 | e, f(lambda st: addsub(st, D, R, CYF, 1, True), False))
        def lg(fn):
            def g(st):
                v = fn(D, R)
                logic(st, v)
                return v
            return f(g)
        op(0x2000 | e, lg(lambda a, b: a & b))
        op(0x2400 | e, lg(lambda a, b: a ^ b))
        op(0x2800 | e, lg(lambda a, b: a | b))
        op(0x2c00 | e, f(lambda st: R))
        def mul(s, st):
            v = D.zx(16) * R.zx(16)
            st.wp(0, v)
            st.flags(C=v.bit(15), Z=v.z())
        op(0x9c00 | e, mul)
    for d, k, e in dk():
        D, K = raw(d), C(8, k)
        def im(fn, wb=True):
            def g(s, st):
                v = fn(st)
                if wb:
                    st.wr(d, v)
            return g
        op(0x3000 | e, im(lambda st: addsub(st, D, K, 0, 1), False))
        op(0x5000 | e, im(lambda st: addsub(st, D, K, 0, 1)))
        op(0x4000 | e, im(lambda st: addsub(st, D, K, CYF, 1, True)))
        def lo(fn):
            def g(st):
                v = fn(D, K)
                logic(st, v)
                return v
            return im(g)
        op(0x6000 | e, lo(lambda a, b: a | b))
        op(0x7000 | e, lo(lambda a, b: a & b))
        op(0xe000 | e, im(lambda st: K))
    for d in range(32):
        D, e = raw(d), d << 4
        def un(fn):
            def g(s, st):
                st.wr(d, fn(st))
            return g
        def com(st):
            v = ~D
            st.flags(C=1, Z=v.z(), N=v.n(), V=0, S=v.n())
            return v
        op(0x9400 | e, un(com))
        def neg(st):
            v = C(8, 0) - D
            o = v.eq(0x80)
            st.flags(C=~v.z(), Z=v.z(), N=v.n(), V=o, S=v.n() ^ o, H=(v | D).bit(3))
            return v
        op(0x9401 | e, un(neg))
        op(0x9402 | e, un(lambda st: cat(D.bits(3, 0), D.bits(7, 4))))
        def incdec(k):
            def g(st):
                v = D + k if k > 0 else D - 1
                o = v.eq(0x80 if k > 0 else 0x7f)
                st.flags(Z=v.z(), N=v.n(), V=o, S=v.n() ^ o)
                return v
            return g
        op(0x9403 | e, un(incdec(1)))
        op(0x940a | e, un(incdec(-1)))
        def shr(top):
            def g(st):
                v = cat(top, D.bits(7, 1))
                c = D.bit(0)
                st.flags(C=c, Z=v.z(), N=v.n(), V=v.n() ^ c, S=c)
                return v
            return g
        op(0x9405 | e, un(shr(D.bit(7))))
        op(0x9406 | e, un(shr(C(1, 0))))
        op(0x9407 | e, un(shr(CYF)))
        # loads and stores
        def ld(ptr, pre, post):
            def g(s, st):
                a = st.p(ptr)
                if pre:
                    a = a - 1
                    st.wp(ptr, a)
                v = st.rd(a)
                if post:
                    st.wp(ptr, a + 1)
                st.wr(d, v)
            return g
        def sto(ptr, pre, post):
            def g(s, st):
                v = raw(d)
                a = st.p(ptr)
                if pre or post:
                    st.notat((a - 1) if pre else a, ptr, ptr + 1)
                if pre:
                    a = a - 1
                    st.wp(ptr, a)
                st.wr(a, v)
                if post:
                    st.wp(ptr, a + 1)
            return g
        for lo4, ptr, pre, post in ((1, ZL, 0, 1), (2, ZL, 1, 0), (9, YL, 0, 1), (10, YL, 1, 0), (12, XL, 0, 0), (13, XL, 0, 1), (14, XL, 1, 0)):
            if (pre or post) and d in (ptr, ptr + 1):
                continue
            op(0x9000 | e | lo4, ld(ptr, pre, post))
            op(0x9200 | e | lo4, sto(ptr, pre, post))
        def pop(s, st):
            a = st.p(SPL) + 1
            v = st.rd(a)
            st.wp(SPL, a)
            st.wr(d, v)
        op(0x900f | e, pop)
        def push(s, st):
            a = st.p(SPL)
            st.notat(a, SPL, SPH)
            st.wr(a, D)
            st.wp(SPL, a - 1)
        op(0x920f | e, push)
        op(0x9000 | e, lambda s, st: st.wr(d, raw(word(1))), (-1,))
        op(0x9200 | e, lambda s, st: st.wr(word(1), D), (-1,))
    for q in range(64):
        qe = ((q & 32) << 8) | ((q & 24) << 7) | (q & 7)
        for d in {(q * 11) % 32, 31 - q // 2}:
            for b, ptr in ((0, ZL), (8, YL)):
                a = cat(raw(ptr + 1), raw(ptr)) + q
                op(0x8000 | b | qe | d << 4, lambda s, st: st.wr(d, raw(a)))
                op(0x8200 | b | qe | d << 4, lambda s, st: st.wr(a, raw(d)))
    for p in range(64):
        pe = ((p & 48) << 5) | (p & 15)
        for d in {(p * 5 + 1) % 32, p // 2}:
            op(0xb000 | pe | d << 4, lambda s, st: st.wr(d, raw(p + 32)))
            op(0xb800 | pe | d << 4, lambda s, st: st.wr(p + 32, raw(d)))
    # length of the skipped instruction
    NEXT = [(0x0000, 1), (0x0c01, 1), (0x9000, 2), (0x91f0, 2), (0x9200, 2), (0x93f0, 2), (0x940c, 2), (0x95fd, 2), (0x940e, 2),
            (0x95ff, 2), (0x9409, 1), (0xc000, 1), (0xffff & 0xfe07, 1), (0x9001, 1), (0x920f, 1), (0xef0f, 1), (0x8000, 1)]
    def skip(w, cond, i):
        for k, (nx, ln) in enumerate(NEXT):
            if k % 4 == i % 4 or i < 2:
                op(w, lambda s, st: s.set("PC", ite(cond, pcp(1 + ln), pcp(1))), (nx,))
    for p in range(32):
        for b in {p % 8, (p // 4) ^ 5}:
            e = p << 3 | b
            v = raw(p + 32)
            op(0x9800 | e, lambda s, st: st.wr(p + 32, setbits(v, **{"b%d" % b: 0})))
            op(0x9a00 | e, lambda s, st: st.wr(p + 32, setbits(v, **{"b%d" % b: 1})))
            skip(0x9900 | e, ~v.bit(b), p)
            skip(0x9b00 | e, v.bit(b), p)
    for d in range(32):
        for b in {d % 8, (d // 4) ^ 3}:
            e = d << 4 | b
            op(0xf800 | e, lambda s, st: st.wr(d, setbits(raw(d), **{"b%d" % b: raw(SREG).bit(6)})))
            op(0xfa00 | e, lambda s, st: st.flags(T=raw(d).bit(b)))
            skip(0xfc00 | e, ~raw(d).bit(b), d)
            skip(0xfe00 | e, raw(d).bit(b), d)
    for i, (d, r, e) in enumerate(rr()):
        skip(0x1000 | e, raw(d).eq(raw(r)), i)
    for dl in range(4):
        for k in range(64):
            if (k % 4) != dl and k not in (0, 1, 31, 32, 63):
                continue
            a = 24 + 2 * dl
            P = cat(raw(a + 1), raw(a))
            e = ((k & 48) << 2) | (k & 15) | dl << 4
            def wid(sub):
                def g(s, st):
                    w = P - k if sub else P + k
                    v = (P & ~w if sub else ~P & w).bit(15)
                    c = (w & ~P if sub else ~w & P).bit(15)
                    st.wp(a, w)
                    st.flags(C=c, Z=w.z(), N=w.n(), V=v, S=w.n() ^ v)
                return g
            op(0x9600 | e, wid(0))
            op(0x9700 | e, wid(1))
    for b in range(8):
        op(0x9408 | b << 4, lambda s, st: st.wr(SREG, setbits(raw(SREG), **{"b%d" % b: 1})))
        op(0x9488 | b << 4, lambda s, st: st.wr(SREG, setbits(raw(SREG), **{"b%d" % b: 0})))
        for k in range(128):
            if k % 8 != b and k not in (0, 1, 63, 64, 127):
                continue
            t = pcp(1 + (k - 128 if k > 63 else k))
            e = k << 3 | b
            op(0xf000 | e, lambda s, st: s.set("PC", ite(raw(SREG).bit(b), t, pcp(1))))
            op(0xf400 | e, lambda s, st: s.set("PC", ite(raw(SREG).bit(b), pcp(1), t)))

    def call(s, st, target, ret):
        a = st.p(SPL)
        st.notat(a, SPL, SPH)
        st.notat(a - 1, SPL, SPH)
        st.wr(a, ret.bits(15, 8))
        st.wr(a - 1, ret.bits(7, 0))
        st.wp(SPL, a - 2)
        s.set("PC", target)
    for k in sorted({0, 1, 2, 0x7ff, 0x800, 0xfff, 0xffe} | {(i * 37) & 0xfff for i in range(0, 110)} | {1 << i for i in range(12)}):
        t = pcp(1 + (k - 4096 if k > 2047 else k))
        op(0xc000 | k, lambda s, st: s.set("PC", t))
        op(0xd000 | k, lambda s, st: call(s, st, t, pcp(1)))
    for hi in range(64):
        e = ((hi & 0x3e) << 3) | (hi & 1)
        op(0x940c | e, lambda s, st: s.set("PC", word(1)), (-1,))
        op(0x940e | e, lambda s, st: call(s, st, word(1), pcp(2)), (-1,))
    Z = cat(raw(ZL + 1), raw(ZL))
    op(0x9409, lambda s, st: s.set("PC", Z))
    def icall(s, st):
        st.notat(st.p(SPL), 30, 31)
        st.notat(st.p(SPL) - 1, 30, 31)
        call(s, st, Z, pcp(1))
    op(0x9509, icall)
    def ret(i):
        def g(s, st):
            a = st.p(SPL)
            s.set("PC", cat(raw(a + 2), raw(a + 1)))
            st.wp(SPL, a + 2)
            if i:
                st.flags(I=1)
        return g
    op(0x9508, ret(0))
    op(0x9518, ret(1))
    def lpm(s, st):
        w = RD("rom", cat(0, Z.bits(15, 1)).zx(32), 16)
        st.wr(0, ite(Z.bit(0), w.bits(15, 8), w.bits(7, 0)))
    op(0x95c8, lpm)
    op(0x0000, lambda s, st: None)
    op(0x95a8, lambda s, st: None)
    op(0x9588, lambda s, st: s.set("sleep_executed", C(32, 1)))
    return out


def runs(): return gen()
