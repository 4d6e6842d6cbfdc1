"""State after reset, and the effect of setting the program counter, per processor.

Each entry names what the processor's manual defines after RESET; everything else is left to the
simulator.  `pc` of each description is the field from which the executor fetches (the instruction
set properties start from it)."""
import copy, importlib
from types import SimpleNamespace
from dsl import *
from uc import Cpu, const

GO = SYM("stGO", 32)


def be16(space, a): return cat(RD(space, C(32, a)), RD(space, C(32, a + 1)))
def le16(space, a): return cat(RD(space, C(32, a + 1)), RD(space, C(32, a)))


def entry(base, name=None, pc=0, fields=(), mem=(), cls=None, setpc=True, clear=(), vector=None, pcobj=None, **kw):
    c = copy.copy(base)
    c.kw = dict(base.kw)
    for k, v in kw.items():
        c.kw[k] = v
    if name: c.name = name
    if cls: c.cls = cls
    c.name += " reset"

    def runs():
        s = Spec(frame=False)
        w = 32
        p = C(32, pc) if isinstance(pc, int) else pc
        if p is not None:
            s.set("PC", p.zx(32))
            s.set(c.kw.get("pc", "PC"), p.zx(32))
        s.set("state", C(32, 0))
        for f, v, *m in fields:
            s.set(f, C(32, v), *m)
        for sp, a, v in mem:
            s.vals.append(("%s[0x%x]" % (sp, a), RDFIN(sp, C(32, a)), C(8, v)))
        out = [] if pcobj else [("reset", [], [s], {"call": "reset"})]
        if setpc:
            t = Spec(frame=False)
            a = SYM("addr", c.pcbits).zx(32)
            t.set("PC", a)
            t.set(pcobj or c.kw.get("pc", "PC"), a)
            for f in clear:
                t.set(f, C(32, 0))
            out.append(("set_PC", [-1], [t], {"call": "set_PC", "args": ["sym:%d:addr" % c.pcbits]}))
        if vector:
            v = Spec(frame=False)
            v.set("PC", vector.zx(32))
            v.set("regs.VECTOR", C(32, 0))
            out.append(("vector", [], [v], {"call": "exec_inst", "set": {"regs.VECTOR": 1}}))
        return out
    return SimpleNamespace(CPU=c, runs=runs, ARCH=[])


def cpus():
    I = lambda m: importlib.import_module(m).CPU
    yield entry(I("isa_6502"), pc=le16("rom", 0xfffc), fields=[("CC", 4, 4)])
    yield entry(I("isa_6502"), name="65C02", cls="cl_mos65c02", pc=le16("rom", 0xfffc), fields=[("CC", 4, 0xc)])
    yield entry(I("isa_i8080"))
    yield entry(I("isa_i8085"))
    yield entry(I("isa_z80"), fields=[("IFF1", 0), ("IFF2", 0), ("imode", 0), ("regs.iv", 0), ("regs.R", 0)])
    yield entry(I("isa_gb80"), fields=[("IFF1", 0)])
    for m in ("isa_hc08", "isa_hcs08"):
        yield entry(I(m), pc=None, fields=[("regs.SP", 0xff), ("regs.H", 0), ("regs.P", 8, 8), ("regs.VECTOR", 1)], clear=["regs.VECTOR"], vector=be16("rom", 0xfffe))
    yield entry(I("isa_st7"), pc=None, fields=[("regs.CC", 8, 8), ("regs.VECTOR", 1)], clear=["regs.VECTOR"], vector=be16("rom", 0xfffe))
    yield entry(I("isa_stm8"), pc=0x8000, fields=[("regs.A", 0), ("regs.X", 0), ("regs.Y", 0), ("regs.CC", 0x28)])
    for m in ("isa_m6800", "isa_m6801"):
        yield entry(I(m), pc=be16("rom", 0xfffe), fields=[("CC.cc16.cc8.ccl", 0x10, 0x10), ("wai", 0)], keep=["RESET_AT"])
    yield entry(I("isa_m68hc11"), pc=be16("rom", 0xfffe), fields=[("CC.cc16.cc8.ccl", 0xd0, 0xd0), ("wai", 0)], keep=["RESET_AT"])
    yield entry(I("isa_m6809"), pc=be16("rom", 0xfffe), fields=[("reg.DP", 0), ("reg.CC", 0x50, 0x50), ("en_nmi", 0), ("cwai", 0)])
    yield entry(I("isa_i8048"), fields=[("psw", 0, 0xf7), ("mb", 0, 1), ("flagF1", 0, 1), ("in_isr", 0)])
    yield entry(I("isa_s51"), mem=[("sfr", a, 0) for a in (0xe0, 0xf0, 0xd0, 0x82, 0x83, 0x88, 0x89, 0x8a, 0x8b, 0x8c, 0x8d, 0x98, 0xc8, 0xca, 0xcb, 0xcc, 0xcd)] +
                [("sfr", 0x81, 7)] + [("sfr", p, 0xff) for p in (0x80, 0x90, 0xa0, 0xb0)])
    yield entry(I("isa_avr"), mem=[("ram", 0x5f, 0)])
    yield entry(I("isa_kcpsm3"), mem=[("sfr", 0x20, 0)])
    yield entry(I("isa_kcpsm6"), mem=[("sfr", 0x20, 0)], fields=[("active_regbank", 1)])
    for n in (13, 14, 15, 16):
        b = Cpu("Padauk PDK%d" % n, "pdk", "cl_pdk", ctor=[{"obj": "cpu_entry", "set": {"type": const("CPU_PDK%d" % n)}}, "ptr"], opaque=["^cl_sim[a-z0-9]*::", "^dnow"])
        e = entry(b, pc=None, setpc=True, pcobj="fpp>PC", set={"act": 0, "fpps[0]": "obj:cl_fpp%d:fpp" % n})
        yield e
    for m in ("isa_p1516", "isa_p2223"):
        yield entry(I(m), fields=[("F", 0)])
    o = ["^cl_sim[a-z0-9]*::", "^dnow"]
    yield entry(Cpu("MC68HC12", "m68hc12", "cl_m68hc12", ctor=["sim"], opaque=o, keep=["RESET_AT"]), pc=be16("rom", 0xfffe), fields=[("CC.cc16.cc8.ccl", 0xd0, 0xd0), ("wai", 0)])
    yield entry(Cpu("MISC16", "oisc", "cl_misc16", ctor=["sim"], opaque=o), pc=0x10)
    yield entry(Cpu("Rabbit 2000", "rxk", "cl_r2k", ctor=["sim"], opaque=o), fields=[("rIP", 0xff), ("rIIR", 0), ("rEIR", 0)])
    yield entry(Cpu("TLCS-870/C", "tlcs", "cl_t870c", ctor=["sim"], opaque=o), pc=le16("rom", 0xfffe), fields=[("imf", 0), ("rSP", 0xff)])
    yield entry(Cpu("F8", "f8", "cl_f8", ctor=["sim"], opaque=o), pc=0x4000)
