"""MCS-48 user's manual (8048/8049/8050 family).

R0-R7 are internal RAM 0-7 or 24-31 chosen by PSW.4; the stack is internal RAM 8-23
indexed by PSW.2-0; PC.11 changes only through JMP/CALL (from the memory bank flip-flop)
and returns, and is held 0 while an interrupt is served; conditional jumps stay in the
256-byte page of the byte that follows.  The port expander, the bus latch and the timer are
seen through the operations the instruction performs on them.
Don't-cares: PSW.3 (reads as 1), MOVP3 in the upper bank."""
from dsl import *
from uc import Cpu

CPU = Cpu("MCS-48", "i8048", "cl_i8048", ctor=["top", 4096, 256], pcbits=12,
          keep=["uc_itab[]", "def_result", "info_ch", "ram_size", "rom_size", "p1", "p2"],
          set={"inner_rom": 4096, "timer": "obj:cl_timer:timer", "cpu": "obj:cl_i8048_cpu:cpu", "ints": "obj:cl_ints:ints", "bus": "obj:cl_bus:bus", "pext": "obj:cl_pext:pext"}, inline=["cl_hw::register_cell", "cl_timer"],
          counters=[{"re": "^cl_hw::register_cell\\(cl_address_space\\*, unsigned int\\)", "name": "regcell", "opaque": True, "ret": "cell"},
                    {"re": "^cl_bus::latch", "name": "buslatch", "arg": 1, "opaque": True}, {"re": "^cl_bus::orl", "name": "busorl", "arg": 1, "opaque": True},
                    {"re": "^cl_bus::anl", "name": "busanl", "arg": 1, "opaque": True}] +
                   [{"re": "^cl_pext::" + f, "name": f + "a", "arg": 1, "opaque": True} for f in ("out", "orl", "anl")] +
                   [{"re": "^cl_pext::" + f, "name": f + "v", "arg": 2, "opaque": True} for f in ("out", "orl", "anl")] +
                   [{"re": "^cl_pext::in", "name": "inp", "arg": 1, "opaque": True, "ret": "?PEXT"},
                    {"re": "^cl_hw::cfg_write", "name": "cfgw", "arg": 2, "opaque": True},
                    {"re": "^cl_hw::cfg_write", "name": "cfga", "arg": 1, "opaque": True},
                    {"re": "^cl_hw::cfg_read", "name": "cfgr", "arg": 1, "opaque": True, "ret": "?CFG"}],
          aliases=[{"from": "aspsw", "to": "aspsw", "field": "psw", "or": 8},
                   {"from": "regs", "to": "iram", "lo": 0, "hi": 7, "base": 0, "bank_field": "psw", "bank_mask": 0x10, "bank_add": 24}])

IGN = [r"^vc\.", r"^inst_", r"^instPC$", r"^result$", r"^sp_", r"^rom#", r"^SP$"]
CNTS = ["buslatch", "busorl", "busanl", "outa", "outv", "orla", "orlv", "anla", "anlv", "inp", "cfgw", "cfga", "cfgr"]
PCX, A, PSW, MB, F1 = F("PC", 32), F("rA", 8), F("psw", 8), F("mb", 8), F("flagF1", 8)
CFG, PEXT = SYM("CFG", 32), SYM("PEXT", 8)
CY, AC, BS = PSW.bit(7), PSW.bit(6), PSW.bit(4)
SPF = PSW.bits(2, 0)


def pcp(n): return PC0() & 0x800 | ((PC0() + n) & 0x7ff)


def by_(n): return RD("rom", pcp(n).zx(32))
def iram(a): return RD("iram", a.zx(32))
def ra(r): return ite(BS, C(32, 24 + r), C(32, r))


OBJF = [("timer>int_enabled", 8), ("timer>int_request", 8), ("timer>overflow_flag", 8), ("timer>timer_flag", 8), ("timer>tmr", 32), ("in_isr", 8), ("mb", 8), ("flagF1", 8), ("psw", 8), ("rA", 8)]


def runs():
    out = []

    def op(id, by, f, n=None):
        s = Spec(ret=0, ignore=IGN)
        two = {"JTF": "timer>timer_flag", "CPL F1": "flagF1", "CLR F1": "flagF1", "JF1": "flagF1", "JMP": "in_isr", "CALL": "in_isr"}  # two-valued fields
        s.assume = [F(f, 8).ult(C(8, 2)) for i, f in two.items() if id.startswith(i)]
        for c in CNTS:
            s.cnt[c] = C(32, 0)
        f(s)
        for n_, w in OBJF:
            if n_ not in s.fields:
                s.set(n_, F(n_, w))
        if "PC" not in s.fields:
            s.set("PC", pcp(n if n is not None else len(by)).zx(32))
        out.append((id, list(by), [s]))

    def page(s, cond, n=2):
        s.set("PC", ite(cond, (pcp(n) & 0xf00) | by_(1).zx(32), pcp(n)))

    imm = by_(1)
    # operands: name, code bytes, value, store
    ops = [("R%d" % r, [r + 8], iram(ra(r)), ra(r)) for r in range(8)] + [("@R%d" % r, [r], iram(iram(ra(r))), iram(ra(r)).zx(32)) for r in range(2)]

    def alu(name, base, immop, f):
        for nm, c, v, ad in ops:
            op("%s A,%s" % (name, nm), [base + c[0]], lambda s, v=v: f(s, v))
        if immop is not None:
            op("%s A,#" % name, [immop, -1], lambda s: f(s, imm))

    def add(c):
        def g(s, v):
            r, cy, ov, h = addc(A, v, c, 8)
            s.set("rA", r)
            s.set("psw", setbits(PSW, b7=cy, b6=h) | 8)
        return g
    alu("ADD", 0x60, 0x03, add(C(1, 0)))
    alu("ADDC", 0x70, 0x13, add(CY))
    alu("ANL", 0x50, 0x53, lambda s, v: s.set("rA", A & v))
    alu("ORL", 0x40, 0x43, lambda s, v: s.set("rA", A | v))
    alu("XRL", 0xd0, 0xd3, lambda s, v: s.set("rA", A ^ v))
    alu("MOV", 0xf0, 0x23, lambda s, v: s.set("rA", v))
    for nm, c, v, ad in ops:
        op("INC " + nm, [0x10 + c[0]], lambda s, v=v, ad=ad: s.write("iram", ad, v + 1))
        op("MOV %s,A" % nm, [0xa0 + c[0]], lambda s, ad=ad: s.write("iram", ad, A))
        op("MOV %s,#" % nm, [0xb0 + c[0], -1], lambda s, ad=ad: s.write("iram", ad, imm))

        def xch(s, v=v, ad=ad):
            s.set("rA", v)
            s.write("iram", ad, A)
        op("XCH A," + nm, [0x20 + c[0]], xch)
        if nm[0] == "R":
            op("DEC " + nm, [0xc0 + c[0]], lambda s, v=v, ad=ad: s.write("iram", ad, v - 1))

            def dj(s, v=v, ad=ad):
                s.write("iram", ad, v - 1)
                page(s, (v - 1).ne(0))
            op("DJNZ " + nm, [0xe0 + c[0], -1], dj)
        else:
            def xd(s, v=v, ad=ad):
                s.set("rA", (A & 0xf0) | (v & 0xf))
                s.write("iram", ad, (v & 0xf0) | (A & 0xf))
            op("XCHD A," + nm, [0x30 + c[0]], xd)
    for r in range(2):
        a = iram(ra(r))

        def mx(s, a=a):
            s.set("rA", RD("xram", a.zx(32)))
            s.cnt["buslatch"] = a.sx(32)
        op("MOVX A,@R%d" % r, [0x80 + r], mx)

        def mw(s, a=a):
            s.write("xram", a.zx(32), A)
            del s.cnt["buslatch"]
        op("MOVX @R%d,A" % r, [0x90 + r], mw)
    op("INC A", [0x17], lambda s: s.set("rA", A + 1))
    op("DEC A", [0x07], lambda s: s.set("rA", A - 1))
    op("CLR A", [0x27], lambda s: s.set("rA", C(8, 0)))
    op("CPL A", [0x37], lambda s: s.set("rA", ~A))
    op("SWAP A", [0x47], lambda s: s.set("rA", cat(A.bits(3, 0), A.bits(7, 4))))

    def psw(s, x): s.set("psw", x | 8)

    def da(s):
        lo = or_(A.bits(3, 0).ugt(C(4, 9)), AC)
        t = A.zx(9) + ite(lo, C(9, 6), C(9, 0))
        c1 = or_(CY, t.bit(8))
        hi = or_(t.bits(7, 4).ugt(C(4, 9)), c1)
        s.set("rA", t.tr(8) + ite(hi, C(8, 0x60), C(8, 0)))
        psw(s, setbits(PSW, b7=hi))
    op("DA A", [0x57], da)
    op("RL A", [0xe7], lambda s: s.set("rA", cat(A.bits(6, 0), A.bit(7))))
    op("RR A", [0x77], lambda s: s.set("rA", cat(A.bit(0), A.bits(7, 1))))

    def rlc(s):
        s.set("rA", cat(A.bits(6, 0), CY))
        psw(s, setbits(PSW, b7=A.bit(7)))
    op("RLC A", [0xf7], rlc)

    def rrc(s):
        s.set("rA", cat(CY, A.bits(7, 1)))
        psw(s, setbits(PSW, b7=A.bit(0)))
    op("RRC A", [0x67], rrc)
    op("CLR C", [0x97], lambda s: psw(s, PSW & 0x7f))
    op("CPL C", [0xa7], lambda s: psw(s, PSW ^ 0x80))
    op("CLR F0", [0x85], lambda s: psw(s, PSW & 0xdf))
    op("CPL F0", [0x95], lambda s: psw(s, PSW ^ 0x20))
    op("CLR F1", [0xa5], lambda s: s.set("flagF1", C(8, 0)))
    op("CPL F1", [0xb5], lambda s: s.set("flagF1", F1 ^ 1))
    op("SEL RB0", [0xc5], lambda s: psw(s, PSW & 0xef))
    op("SEL RB1", [0xd5], lambda s: psw(s, PSW | 0x10))
    op("SEL MB0", [0xe5], lambda s: s.set("mb", C(8, 0)))
    op("SEL MB1", [0xf5], lambda s: s.set("mb", C(8, 1)))
    op("MOV A,PSW", [0xc7], lambda s: s.set("rA", PSW))
    op("MOV PSW,A", [0xd7], lambda s: psw(s, A))
    op("NOP", [0x00], lambda s: None)
    op("ENT0 CLK", [0x75], lambda s: None)
    # program memory tables
    op("MOVP A,@A", [0xa3], lambda s: s.set("rA", RD("rom", (pcp(1) & 0xf00) | A.zx(32))))

    def mp3(s):
        s.assume.append(PC0().ult(C(32, 0x7ff)))
        s.set("rA", RD("rom", C(32, 0x300) | A.zx(32)))
    op("MOVP3 A,@A", [0xe3], mp3)
    op("JMPP @A", [0xb3], lambda s: s.set("PC", (pcp(1) & 0xf00) | RD("rom", (pcp(1) & 0xf00) | A.zx(32)).zx(32)))
    # jumps and calls
    isr = F("in_isr", 8).ne(0)
    bank = ite(and_(MB.ne(0), ~isr), C(32, 0x800), C(32, 0))
    for k in range(8):
        tgt = C(32, k << 8) | imm.zx(32) | bank
        op("JMP %x00" % k, [0x04 + 0x20 * k, -1], lambda s, tgt=tgt: s.set("PC", tgt))

        def call(s, tgt=tgt):
            ret = pcp(2)
            b = C(32, 8) + (SPF.zx(32) << 1)
            s.write("iram", b, ret.tr(8))
            s.write("iram", b + 1, cat(PSW.bits(7, 4), ret.bits(11, 8)))
            s.set("psw", cat(PSW.bits(7, 4), C(1, 1), SPF + 1))
            s.set("PC", tgt)
        op("CALL %x00" % k, [0x14 + 0x20 * k, -1], call)
        op("JB%d" % k, [0x12 + 0x20 * k, -1], lambda s, k=k: page(s, A.bit(k)))

    def ret(restore):
        def g(s):
            n = SPF - 1
            b = C(32, 8) + (n.zx(32) << 1)
            lo, hi = iram(b), iram(b + 1)
            s.set("PC", cat(hi.bits(3, 0), lo).zx(32))
            s.set("psw", cat(hi.bits(7, 4) if restore else PSW.bits(7, 4), C(1, 1), n))
            if restore:
                s.set("in_isr", C(8, 0))
        return g
    op("RET", [0x83], ret(False))
    op("RETR", [0x93], ret(True))
    op("JC", [0xf6, -1], lambda s: page(s, CY))
    op("JNC", [0xe6, -1], lambda s: page(s, ~CY))
    op("JZ", [0xc6, -1], lambda s: page(s, A.z()))
    op("JNZ", [0x96, -1], lambda s: page(s, ~A.z()))
    op("JF0", [0xb6, -1], lambda s: page(s, PSW.bit(5)))
    op("JF1", [0x76, -1], lambda s: page(s, F1.ne(0)))
    T0, T1 = 1, 2

    def pin(c, on, f):
        def g(s):
            s.cnt["cfgr"] = C(32, c)
            page(s, CFG.ne(0) if on else CFG.eq(0))
        return g
    W = lambda n: n
    op("JT0", [0x36, -1], pin(T0, True, 0))
    op("JNT0", [0x26, -1], pin(T0, False, 0))
    op("JT1", [0x56, -1], pin(T1, True, 0))
    op("JNT1", [0x46, -1], pin(T1, False, 0))
    op("JNI", [0x86, -1], lambda s: page(s, (F("cpu>ipins", 8) & 4).z()))

    def jtf(s):
        page(s, F("timer>timer_flag", 8).ne(0))
        s.set("timer>timer_flag", C(8, 0))
    op("JTF", [0x16, -1], jtf)
    # timer and interrupt control
    op("MOV A,T", [0x42], lambda s: s.set("rA", F("timer>tmr", 32).tr(8)))

    def cfg(a, v):
        def g(s):
            s.cnt["cfga"] = C(32, a)
            s.cnt["cfgw"] = v
        return g
    op("MOV T,A", [0x62], cfg(4, A.zx(32)))
    op("STRT CNT", [0x45], cfg(1, C(32, 1)))
    op("STRT T", [0x55], cfg(1, C(32, 2)))
    op("STOP TCNT", [0x65], cfg(1, C(32, 0)))
    op("EN TCNTI", [0x25], lambda s: s.set("timer>int_enabled", C(8, 1)))

    def dist(s):
        for f in ("int_enabled", "int_request", "overflow_flag"):
            s.set("timer>" + f, C(8, 0))
    op("DIS TCNTI", [0x35], dist)
    op("EN I", [0x05], lambda s: s.set("ints>ene", C(8, 1)))
    op("DIS I", [0x15], lambda s: s.set("ints>ene", C(8, 0)))
    # ports
    for p in (1, 2):
        P = RD("ports", C(32, p))
        op("IN A,P%d" % p, [0x08 + p], lambda s, P=P: s.set("rA", P))
        op("OUTL P%d,A" % p, [0x38 + p], lambda s, p=p: s.write("ports", C(32, p), A))
        op("ORL P%d,#" % p, [0x88 + p, -1], lambda s, p=p, P=P: s.write("ports", C(32, p), P | imm))
        op("ANL P%d,#" % p, [0x98 + p, -1], lambda s, p=p, P=P: s.write("ports", C(32, p), P & imm))
    op("INS A,BUS", [0x08], lambda s: (s.cnt.__setitem__("cfgr", C(32, 1)), s.set("rA", CFG.tr(8))))
    op("OUTL BUS,A", [0x02], lambda s: s.cnt.__setitem__("buslatch", A.sx(32)))
    op("ORL BUS,#", [0x88, -1], lambda s: s.cnt.__setitem__("busorl", imm.sx(32)))
    op("ANL BUS,#", [0x98, -1], lambda s: s.cnt.__setitem__("busanl", imm.sx(32)))
    for k in range(4):
        op("MOVD A,P%d" % (4 + k), [0x0c + k], lambda s, k=k: (s.cnt.__setitem__("inp", C(32, 4 + k)), s.set("rA", PEXT)))
        for f, b, n in (("out", 0x3c, "MOVD"), ("orl", 0x8c, "ORLD"), ("anl", 0x9c, "ANLD")):
            def g(s, f=f, k=k):
                s.cnt[f + "a"] = C(32, 4 + k)
                del s.cnt[f + "v"]
                s.vals.append((f + "v", CNT(f + "v").tr(4), A.tr(4)))
            op("%s P%d,A" % (n, 4 + k), [b + k], g)
    return out
