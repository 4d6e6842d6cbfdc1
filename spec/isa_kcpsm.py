"""PicoBlaze (KCPSM3 user guide UG129, KCPSM6 user guide): 18 bit instruction words, sixteen
registers (two banks in KCPSM6), flags C and Z, interrupt enable, call stack.

The registers are cells 0-15 (bank A) and 16-31 (bank B) of the model's sfr space, C, Z and the
interrupt enable are bits 0-2 of its cell 20, the stack pointer its cell 21; a stack entry holds
the address before the return address.  Don't-cares: stack overflow and underflow, scratch pad
addresses beyond 63, words that are no instruction (and STAR sX,kk of later KCPSM6 releases),
programs beyond the ROM.  The operand fields of the instruction word are covered value by
value, not in all combinations."""
from dsl import *
from uc import Cpu, const

FLAGS, SP = 0x20, 0x21
pc = PC0()
IGN = [r"^vc\.", r"^inst_", r"^instPC$", r"^result$", r"^sp_"]


def cpu(name, k6, **kw):
    return Cpu(name, "pblaze", "cl_pblaze", ctor=[{"obj": "cpu_entry", "set": {"type": const("CPU_PBLAZE_6" if k6 else "CPU_PBLAZE_3")}}, "ptr"],
               opaque=["^cl_sim[a-z0-9]*::", "^dnow", "^TiXml", "^cl_pblaze::read_", "^isprint"], pcbits=12 if k6 else 10, same={"rom": "rom#2"},
               set={"interrupt": "obj:cl_interrupt:interrupt", "port_id": "obj:cl_port_id:port_id", "input_port": "obj:cl_input_port:input_port", "output_port": "obj:cl_output_port:output_port"},
               keep=["ram_size", "rom_size"],
               counters=[{"re": "^cl_output_port::add_output", "name": "outp", "arg": 1, "opaque": True},
                         {"re": "^cl_output_port::add_output", "name": "outv", "arg": 3, "opaque": True},
                         {"re": "^cl_input_port::get_input", "name": "inp", "arg": 1, "opaque": True, "ret": "?IN"}], **kw)


def table(k6): return sum((bank_table(k6, b) for b in ((1, 2) if k6 else (1,))), [])


def bank_table(k6, nbank):
    out, seen = [], set()
    M = 0xfff if k6 else 0x3ff
    W = 12 if k6 else 10
    nxt = (pc + 1).tr(W)

    def A(a): return C(32, a) if isinstance(a, int) else a.zx(32)
    def raw(a): return RD("sfr", A(a))
    FL = raw(FLAGS)
    cy, zf = FL.bit(0), FL.bit(1)
    bank, other = (C(32, 16), C(32, 0)) if nbank == 2 else (C(32, 0), C(32, 16))
    def ra(r): return bank + r
    def reg(r): return raw(ra(r))

    def op(w, f):
        if w in seen:
            return
        seen.add(w)
        s = Spec(ret=0, ignore=IGN)
        for c in ("outp", "outv", "inp"):
            s.cnt[c] = C(32, 0)
        f(s)
        if "PC" not in s.fields:
            s.set("PC", nxt.zx(32))
        if "active_regbank" not in s.fields:
            s.set("active_regbank", C(32, nbank))
        out.append(("%05X" % w + ("/B" if nbank == 2 else ""), [w], [s], {"set": {"active_regbank": nbank}}))

    def flags(s, c=None, z=None, i=None):
        kw = {k: v for k, v in (("b0", c), ("b1", z), ("b2", i)) if v is not None}
        s.write("sfr", A(FLAGS), setbits(FL, **kw))

    def rr():
        for x in range(16):
            for y in sorted({x, (x * 7 + 3) % 16, 15 - x, (x + 1) % 16}):
                yield x, y, x << 8 | y << 4

    def kk():
        for k in range(256):
            if k % 3 == 0 or k in (1, 2, 4, 7, 8, 16, 31, 32, 64, 127, 128, 254, 255) or k6 and k % 2:
                x = (k * 5 + k // 16) % 16
                yield x, k, x << 8 | k

    def both(r, k, f):
        """an operation on a register and a register or constant"""
        for x, y, e in rr():
            op(r | e, lambda s: f(s, x, reg(x), reg(y)))
        for x, c, e in kk():
            op(k | e, lambda s: f(s, x, reg(x), C(8, c)))

    def arith(sub, carry, wb):
        def g(s, x, a, b):
            r, c, v, h = (subb if sub else addc)(a, b, cy if carry else 0, 8)
            flags(s, c=c, z=r.z() & zf if carry and k6 else r.z())
            if wb:
                s.write("sfr", ra(x), r)
        return g

    def logic(fn):
        def g(s, x, a, b):
            r = fn(a, b)
            flags(s, c=0, z=r.z())
            s.write("sfr", ra(x), r)
        return g

    def test(carry):
        def g(s, x, a, b):
            r = a & b
            odd = ~r.par()
            flags(s, c=odd ^ cy if carry else odd, z=r.z() & zf if carry else r.z())
        return g

    def load(s, x, a, b): s.write("sfr", ra(x), b)

    def push(s):
        sp = raw(SP)
        s.assume.append(sp.ult(30))
        s.write("stack", sp.zx(32), nxt.zx(12) - 1)
        s.write("sfr", A(SP), sp + 1)

    def pop(s):
        sp = raw(SP)
        s.assume.append(sp.uge(1) & sp.ule(30))
        s.write("sfr", A(SP), sp - 1)
        return (RD("stack", (sp - 1).zx(32), 12) + 1).tr(W).zx(32)

    def cond(s, c, f):
        """f gives the taken PC; its stack effects are guarded"""
        t = Spec()
        p = f(t)
        s.assume += t.assume
        for sp_, l in t.mem.items():
            for g, a, v in l:
                s.write(sp_, a, v, g & c)
        s.set("PC", ite(c, p, nxt.zx(32)))

    conds = {"": C(1, 1), "Z": zf, "NZ": ~zf, "C": cy, "NC": ~cy}

    def addr(bits):
        return sorted({0, 1, (1 << bits) - 1, 0x155, 0x2aa} | {1 << i for i in range(bits)} | {(i * 307 + 11) & ((1 << bits) - 1) for i in range(40)})

    def flow(jmp, call, ret):
        for n, c in conds.items():
            for a in addr(W):
                op(jmp[n] | a, lambda s: cond(s, c, lambda t: C(32, a)))
                def cl(t):
                    push(t)
                    return C(32, a)
                op(call[n] | a, lambda s: cond(s, c, cl))
            op(ret[n], lambda s: cond(s, c, pop))

    def returni(e):
        def g(s):
            s.set("PC", pop(s))
            def fb(n): return F(n, 8).ne(0)
            for n in ("interrupt>preserved_flag_c", "interrupt>preserved_flag_z"):
                s.assume.append(F(n, 8).ult(2))
            flags(s, c=fb("interrupt>preserved_flag_c"), z=fb("interrupt>preserved_flag_z"), i=e)
            if k6:
                s.set("active_regbank", F("interrupt>preserved_regbank", 32))
                s.assume.append(F("interrupt>preserved_regbank", 32).eq(1) | F("interrupt>preserved_regbank", 32).eq(2))
        return g

    def shift(left, kind):
        def g(s, x):
            v = reg(x)
            if left:
                i = {"0": C(1, 0), "1": C(1, 1), "A": cy, "X": v.bit(0), "R": v.bit(7)}[kind]
                r, c = cat(v.bits(6, 0), i), v.bit(7)
            else:
                i = {"0": C(1, 0), "1": C(1, 1), "A": cy, "X": v.bit(7), "R": v.bit(0)}[kind]
                r, c = cat(i, v.bits(7, 1)), v.bit(0)
            flags(s, c=c, z=r.z())
            s.write("sfr", ra(x), r)
        return g

    def shifts(base):
        for x in range(16):
            for code, l, k in ((2, 1, "R"), (6, 1, "0"), (7, 1, "1"), (0, 1, "A"), (4, 1, "X"), (0xc, 0, "R"), (0xe, 0, "0"), (0xf, 0, "1"), (8, 0, "A"), (0xa, 0, "X")):
                op(base | x << 8 | code, lambda s: shift(l, k)(s, x))

    def ramok(s, a): s.assume.append(a.ult(64))
    def fetch(s, x, a, b):
        ramok(s, b)
        s.write("sfr", ra(x), RD("ram", b.zx(32)))
    def store(s, x, a, b):
        ramok(s, b)
        s.write("ram", b.zx(32), a)
    def mem(r, k, f):
        for x, y, e in rr():
            op(r | e, lambda s: f(s, x, reg(x), reg(y)))
        for c in range(64):
            x = (c * 5 + c // 16) % 16
            op(k | x << 8 | c, lambda s: f(s, x, reg(x), C(8, c)))

    def inp(s, x, a, b):
        s.cnt["inp"] = b.zx(32)
        s.write("sfr", ra(x), SYM("IN", 32).tr(8))
        s.set("input_port>value", SYM("IN", 32).tr(8))
        s.set("port_id>value", b)
    def outp(s, x, a, b):
        s.cnt["outp"], s.cnt["outv"] = b.zx(32), a.zx(32)
        s.set("output_port>value", a)
        s.set("port_id>value", b)

    if k6:
        both(0x10000, 0x11000, arith(0, 0, 1))
        both(0x12000, 0x13000, arith(0, 1, 1))
        both(0x18000, 0x19000, arith(1, 0, 1))
        both(0x1a000, 0x1b000, arith(1, 1, 1))
        both(0x1c000, 0x1d000, arith(1, 0, 0))
        both(0x1e000, 0x1f000, arith(1, 1, 0))
        both(0x00000, 0x01000, load)
        both(0x02000, 0x03000, logic(lambda a, b: a & b))
        both(0x04000, 0x05000, logic(lambda a, b: a | b))
        both(0x06000, 0x07000, logic(lambda a, b: a ^ b))
        both(0x0c000, 0x0d000, test(0))
        both(0x0e000, 0x0f000, test(1))
        mem(0x0a000, 0x0b000, fetch)
        mem(0x2e000, 0x2f000, store)
        both(0x08000, 0x09000, inp)
        both(0x2c000, 0x2d000, outp)
        for k in range(256):
            p = (k * 3 + k // 16) % 16
            op(0x2b000 | k << 4 | p, lambda s: outp(s, 0, C(8, k), C(8, p)))
        shifts(0x14000)
        for x in range(16):
            def hwb(s):
                k = F("hw_constant", 8)
                s.write("sfr", ra(x), k)
                flags(s, c=1, z=k.z())
            op(0x14080 | x << 8, hwb)
        for x in range(16):
            for y in range(16):
                e = x << 8 | y << 4
                op(0x16000 | e, lambda s: s.write("sfr", other + x, reg(y)))
                t = cat(reg(x).bits(3, 0), reg(y)).zx(32)
                op(0x26000 | e, lambda s: s.set("PC", t))
                def cat_(s):
                    push(s)
                    s.set("PC", t)
                op(0x24000 | e, cat_)
        flow({"": 0x22000, "Z": 0x32000, "NZ": 0x36000, "C": 0x3a000, "NC": 0x3e000},
             {"": 0x20000, "Z": 0x30000, "NZ": 0x34000, "C": 0x38000, "NC": 0x3c000},
             {"": 0x25000, "Z": 0x31000, "NZ": 0x35000, "C": 0x39000, "NC": 0x3d000})
        for x, c, e in kk():
            def lr(s):
                s.set("PC", pop(s))
                s.write("sfr", ra(x), C(8, c))
            op(0x21000 | e, lr)
        op(0x28000, lambda s: flags(s, i=0))
        op(0x28001, lambda s: flags(s, i=1))
        op(0x29000, returni(0))
        op(0x29001, returni(1))
        op(0x37000, lambda s: s.set("active_regbank", C(32, 1)))
        op(0x37001, lambda s: s.set("active_regbank", C(32, 2)))
    else:
        both(0x19000, 0x18000, arith(0, 0, 1))
        both(0x1b000, 0x1a000, arith(0, 1, 1))
        both(0x1d000, 0x1c000, arith(1, 0, 1))
        both(0x1f000, 0x1e000, arith(1, 1, 1))
        both(0x15000, 0x14000, arith(1, 0, 0))
        both(0x01000, 0x00000, load)
        both(0x0b000, 0x0a000, logic(lambda a, b: a & b))
        both(0x0d000, 0x0c000, logic(lambda a, b: a | b))
        both(0x0f000, 0x0e000, logic(lambda a, b: a ^ b))
        both(0x13000, 0x12000, test(0))
        mem(0x07000, 0x06000, fetch)
        mem(0x2f000, 0x2e000, store)
        both(0x05000, 0x04000, inp)
        both(0x2d000, 0x2c000, outp)
        shifts(0x20000)
        flow({"": 0x34000, "Z": 0x35000, "NZ": 0x35400, "C": 0x35800, "NC": 0x35c00},
             {"": 0x30000, "Z": 0x31000, "NZ": 0x31400, "C": 0x31800, "NC": 0x31c00},
             {"": 0x2a000, "Z": 0x2b000, "NZ": 0x2b400, "C": 0x2b800, "NC": 0x2bc00})
        op(0x3c000, lambda s: flags(s, i=0))
        op(0x3c001, lambda s: flags(s, i=1))
        op(0x38000, returni(0))
        op(0x38001, returni(1))
    return out


def interrupts(k6):
    """the step between two instructions"""
    W = 12 if k6 else 10
    s = Spec(ignore=IGN)
    FL, sp = RD("sfr", C(32, FLAGS)), RD("sfr", C(32, SP))
    req, bank = F("interrupt>interrupt_request", 8), F("active_regbank", 32)
    s.assume += [req.ult(2), sp.ult(30)]
    t = FL.bit(2) & req.ne(0)
    s.set("PC", ite(t, F("interrupt_vector", 32).tr(W).zx(32), pc))
    s.set("interrupt>interrupt_request", ite(FL.bit(2), C(8, 0), req))
    for n, b in (("c", 0), ("z", 1)):
        s.set("interrupt>preserved_flag_" + n, ite(t, FL.bit(b).zx(8), F("interrupt>preserved_flag_" + n, 8)))
    s.set("active_regbank", bank)
    if k6:
        s.set("interrupt>preserved_regbank", ite(t, bank, F("interrupt>preserved_regbank", 32)))
    s.write("stack", sp.zx(32), pc.tr(W).zx(12) - 1, t)
    s.write("sfr", C(32, SP), sp + 1, t)
    s.write("sfr", C(32, FLAGS), setbits(FL, b2=0), t)
    s.ret = ite(t, C(32, 2), C(32, 0))
    return [("irq", [], [s])]
