"""P1516 (instruction set of the author's 32 bit training CPU, table in src/sims/p1516.src/glob.cc).
Sixteen registers, R15 is the program counter, R14 the link register; S C Z O in bits 0-3 of F;
every instruction may be conditional on one flag; subtraction sets C when there is no borrow.
Don't-cares: undefined ALU codes, DIV, what peripherals mapped into the memory do; register numbers
and the operand fields are covered by representatives."""
from dsl import *
from uc import Cpu, const

IGN = [r"^vc\.", r"^inst_", r"^instPC$", r"^result$", r"^sp_"]
S, CY, Z, O = range(4)
FL = F("F", 32)
pc = PC0()
REGS = [(3, 5, 9), (0, 0, 0), (7, 7, 2), (8, 1, 8), (11, 12, 12), (15, 4, 6), (6, 15, 10), (2, 13, 15), (10, 14, 1), (14, 10, 3), (13, 2, 4), (1, 6, 13), (4, 8, 7), (12, 3, 11), (5, 9, 14), (9, 11, 0)]


def cpu(name, cls):
    return Cpu(name, "p1516", cls, opaque=["^cl_sim[a-z0-9]*::", "^dnow", "^cl_(porto|porti|timer|uart|clock|n4|bool|logsys|brd_ctrl|dreg|port_ui|port_data|fpga|led|seg|btn|sw)[a-z_]*::"],
               init=("cl_p1516::init",), aliases=[{"from": "regs", "to": "regs", "lo": i, "hi": i, "field": "R[%d]" % i} for i in range(16)], pc="R[15]", pcbits=17)


def R(n): return pc.zx(32) + 1 if n == 15 else F("R[%d]" % n, 32)
def mem(a): return RD("rom", a)


class Tab:
    def __init__(self): self.out, self.n = [], 0

    def op(self, w, cond, f):
        """one instruction word; cond is the condition or None"""
        s = Spec(ret=0, ignore=IGN)
        t = Spec()
        f(t)
        self.n += 1
        s.assume += t.assume
        if cond is None:
            cond = C(1, 1)
        regs = {n: x for n, x in t.fields.items() if n != "F"}
        for n, x in regs.items():
            s.set(n, ite(cond, x, pc.zx(32) + 1 if n == "R[15]" else F(n, 32)))
        if "R[15]" not in s.fields:
            s.set("R[15]", pc.zx(32) + 1)
        s.set("PC", s.fields["R[15]"])
        if "F" in t.fields:
            s.set("F", ite(cond, t.fields["F"], FL))
        for sp, l in t.mem.items():
            for g, a, v in l:
                s.write(sp, a, v, cond if g is None else g & cond)
        s.ret = t.ret if t.ret is not None else s.ret
        self.out.append(("%08X" % (w & 0xffffffff), [w & 0xffffffff], [s]))


def W(s, d, x): s.set("R[%d]" % d, x)


def fl(s, **kw): s.set("F", setbits(FL, **kw))


def add(s, a, b, c):
    """overflow: the carry into the sign bit differs from the carry out of it"""
    c = (C(1, 0) if isinstance(c, int) else c).zx(64)
    big = a.zx(64) + b.zx(64) + c
    low = a.bits(30, 0).zx(64) + b.bits(30, 0).zx(64) + c
    r = big.tr(32)
    fl(s, b0=r.bit(31), b1=big.bit(32), b2=r.z(), b3=low.bit(31) ^ big.bit(32))
    return r


def conds(code):
    """the condition of the upper four bits"""
    if not code & 1:
        return None
    b = FL.bit({0: S, 1: CY, 2: Z, 3: O}[code >> 2])
    return b if code & 2 else ~b


def alu(k, s, d, a, b):
    x, y, cy = R(a), R(b), FL.bit(CY)
    def logic(r):
        W(s, d, r)
        fl(s, b2=r.z())
    def sh(r, c):
        W(s, d, r)
        fl(s, b1=c, b2=r.z())
    one = C(32, 1)
    if k == 0: W(s, d, add(s, x, y, 0))
    elif k == 1: W(s, d, add(s, x, y, cy))
    elif k == 2: W(s, d, add(s, x, ~y, C(1, 1)))
    elif k == 3: W(s, d, add(s, x, ~y, cy))
    elif k == 4: W(s, d, add(s, x, one, 0))
    elif k == 5: W(s, d, add(s, x, ~one, C(1, 1)))
    elif k == 6: logic(x & y)
    elif k == 7: logic(x | y)
    elif k == 8: logic(x ^ y)
    elif k == 9: sh(cat(x.bits(30, 0), C(1, 0)), x.bit(31))
    elif k == 10: sh(cat(C(1, 0), x.bits(31, 1)), x.bit(0))
    elif k == 16: sh(cat(x.bit(31), x.bits(31, 1)), x.bit(0))
    elif k == 11: sh(cat(x.bits(30, 0), cy), x.bit(31))
    elif k == 12: sh(cat(cy, x.bits(31, 1)), x.bit(0))
    elif k in (13, 19):
        r = x * y if k == 13 else (x.zx(64) * y.zx(64)).bits(63, 32)
        W(s, d, r)
        fl(s, b0=r.bit(31), b2=r.z())
    elif k == 17: fl(s, b1=C(1, 1))
    elif k == 18: fl(s, b1=C(1, 0))
    elif k == 15: add(s, x, ~y, C(1, 1))


IMM = [0, 1, 0x8000, 0xffff, 0x1234, 0xa55a]


def table():
    t = Tab()
    for n, (d, a, b) in enumerate(REGS):
        e = d << 20 | a << 16 | b << 12
        cc = {n, (n + 7) % 16} | (set(range(16)) if n == 0 else set())
        for c in sorted(cc):
            h, cd = c << 28, conds(c)
            t.op(h, cd, lambda s: None)
            t.op(h | 0x01000000 | e, cd, lambda s: W(s, d, mem(R(a))))
            t.op(h | 0x02000000 | e, cd, lambda s: s.write("rom", R(a), R(d)))
            t.op(h | 0x03000000 | e, cd, lambda s: W(s, d, R(a)))
            im = IMM[(n + c) % len(IMM)]
            t.op(h | 0x04000000 | d << 20 | im, cd, lambda s: W(s, d, C(32, im)))
            t.op(h | 0x05000000 | d << 20 | im, cd, lambda s: W(s, d, cat(R(d).bits(31, 16), C(16, im))))
            t.op(h | 0x06000000 | d << 20 | im, cd, lambda s: W(s, d, cat(C(16, im), R(d).bits(15, 0))))
            for k in list(range(14)) + [15, 16, 17, 18, 19]:
                t.op(h | 0x07000000 | e | k << 7, cd, lambda s: alu(k, s, d, a, b))
            to = [0, 0x7ffffff, 0x5555555, 0x2aaaaaa, 1 << (n % 27), 0x12345][(c + n) % 6]
            t.op(h | 0x08000000 | to, cd, lambda s: (W(s, 14, pc.zx(32) + 1), W(s, 15, C(32, to))))
    return t.out


CPU = cpu("P1516", "cl_p1516")
def runs(): return table()
