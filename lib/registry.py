"""property id -> the function that decides it"""
import os, re
from concurrent.futures import ThreadPoolExecutor
import drv
import isa
import length
import reset
from extract import AnalysisError, VERIF


def isa_check(*mods):
    def f(rep):
        per = {}
        rounds = 1500 if rep.tier == "thorough" else None
        if callable(mods[0]):
            with ThreadPoolExecutor(4) as ex:
                done = list(ex.map(lambda m: isa.check(m, rounds=rounds), list(mods[0]())))
        else:
            done = (isa.check(m, rounds=rounds) for m in mods)
        for m, res in done:
            tot, vio, und = isa.deviations(res)
            rep.ok(tot["eq"] + tot["exh"])
            for id, t, v in und:
                rep.undecided("%s %s %s" % (m.CPU.name, id, t))
            for id, t, w in vio:
                rep.bad("%s %s %s" % (m.CPU.name, id, t), "instruction %s of %s leaves %s different from its description" % (id, m.CPU.name, t), w)
            per[m.CPU.name] = {"instructions": len(res), "identical_normal_forms": tot["eq"], "equal_by_complete_truth_table": tot["exh"],
                               "undecided_sampled": tot["samp"], "undecided_unknown": tot["unk"], "different": tot["ne"],
                               "functions_not_entered": sorted({o for r in res.values() for o in r.get("opaque", [])})[:40],
                               "unresolved_calls": sorted({o for r in res.values() for o in r.get("unknown_calls", [])})[:20]}
            rep.samples += [{"cpu": m.CPU.name, "instruction": i} for i in sorted(res)[:3]]
        rep.cov["cpus"] = per
        rep.cov["explanation"] = ("The instruction executor of each simulator, compiled from the current sources to LLVM IR, is abstractly interpreted "
                                  "from an arbitrary machine state for every opcode; the final value of each register, flag, memory space and the program "
                                  "counter is a gated value graph in normal form, compared with the graph of the manual's description.")
        rep.assumptions = ["device models, console, analyzer and statistics calls are not entered and do not change CPU registers or program memory",
                           "cells of an address space are plain memory (no decoder aliasing, breakpoints or devices behind the accessed address)",
                           "the descriptions in /verif/spec transcribe the manuals"]
    return f


def length_check(*mods):
    def f(rep):
        per = {}
        for mod in mods:
            m, res = length.check(mod, mod == "isa_s51")
            tot, vio, und = isa.deviations(res)
            rep.ok(tot["eq"] + tot["exh"])
            for id, t, v in und:
                rep.undecided("%s %s %s" % (m.CPU.name, id, t))
            for id, t, w in vio:
                rep.bad("%s %s %s" % (m.CPU.name, id, t), "the answer about %s of %s differs from what its execution does" % (id, m.CPU.name), w)
            per[mod] = {"questions": len(res), "identical_normal_forms": tot["eq"], "different": tot["ne"]}
            rep.samples += [{"cpu": m.CPU.name, "question": i} for i in sorted(res)[:3]]
        rep.cov["cpus"] = per
        rep.cov["explanation"] = ("inst_length and is_call of each simulator, compiled from the current sources to LLVM IR, are abstractly interpreted for "
                                  "every opcode with unknown operand bytes; the answer is compared with the length and kind derived from the instruction's "
                                  "description in /verif/spec, against which the executor is checked by the instruction set properties.")
        rep.assumptions = ["instructions that push more than a return address (software interrupts) may be counted as calls or not"]
    return f


def drv_check(*areas, explanation, assumptions=()):
    def f(rep):
        per = {}
        for a in areas:
            area, sim = a[0], a[1]
            res = drv.run(area, sim, **(a[2] if len(a) > 2 else {}))
            reached, nd = set(), 0
            for d, r in sorted(res.items()):
                if r.get("budget"):
                    raise AnalysisError("%s %s: step budget used up" % (area, d))
                for key, c in sorted(r["checks"].items()):
                    reached.add(key)
                    nd += c["n"]
                    rep.ok(c["eq"] + c["exh"])
                    if c["ne"]:
                        rep.bad("%s %s %s" % (area, d, re.sub(r" \([^()]*:\d+\)$", "", key)), "not true of %s (%s in drivers/%s.cc)" % (key, d, area), c.get("w", ""))
                    for _ in range(c["samp"] + c["unk"]):
                        rep.undecided("%s %s: %s" % (area, d, key))
            src = open(os.path.join(VERIF, "drivers", area + ".cc")).read()
            want = set(re.findall(r'ucsa_(?:eq|same)\((?:[^"();]*\? )?"([^"]+)"', src)) | set(re.findall(r'ucsa_(?:eq|same)\([^"();]*\? "[^"]+" : "([^"]+)"', src))
            for w in sorted(want - reached):
                rep.bad("%s unreached %s" % (area, w), "no execution of the drivers gets as far as checking: %s" % w, area)
            per[area + "/" + sim] = {"drivers": len(res), "obligations_met": nd, "distinct_obligations": len(reached),
                         "functions_not_entered": sorted({o for r in res.values() for o in r.get("opaque", [])})[:40],
                         "unresolved_calls": sorted({o for r in res.values() for o in r.get("unknown_calls", [])})[:20]}
            rep.samples += [{"driver": d, "obligation": k} for d, r in sorted(res.items()) for k in list(r["checks"])[:1]]
        rep.cov["areas"] = per
        rep.cov["explanation"] = explanation + (" The program's functions, compiled from the current sources to LLVM IR, are abstractly interpreted from driver functions that "
            "build the objects with the program's own constructors and state obligations between value graphs; every path of the analysed functions is covered.")
        rep.assumptions = ["sizes and case splits of the drivers in /verif/drivers", "console output is not entered"] + list(assumptions)
    return f


CHECKS = {
    "C01": isa_check("isa_6502"),
    "C02": isa_check("isa_i8085", "isa_i8080"),
    "C09": isa_check("isa_st7"),
    "C10": isa_check("isa_stm8"),
    "C08": isa_check("isa_hc08", "isa_hcs08"),
    "C03": isa_check("isa_z80", "isa_gb80"),
    "C04": isa_check("isa_s51"),
    "C11": isa_check("isa_avr"),
    "C40": drv_check(("d_mem", "core"), explanation="Memory cells, chips, address spaces, decoders, bit bands, bank switchers and cell operators."),
    "C41": drv_check(("d_brk", "core"), explanation="Fetch and event breakpoints on a machine built from cl_app, cl_sim and cl_uc: acceptance, hit counts, conditions, temporary ones, deletion, hardware on the same cell."),
    "C42": drv_check(("d_load", "core"), explanation="Drivers hand the real loaders files whose contents are spelled out byte by byte, with symbolic data bytes, addresses and checksum errors, and compare every word the loader asks for (and, for the input specification, every memory cell) with the format's definition."),
    "C05": isa_check("isa_m6800", "isa_m6801"),
    "C06": isa_check("isa_m6809"),
    "C07": isa_check("isa_m68hc11"),
    "C13": isa_check("isa_i8048"),
    "C43": drv_check(("d_expr", "core"), explanation="Expressions of the command language, from the text through the scanner and the parser generated from the current grammar: every pair of operators, numbers, assignments, bits, variables, errors."),
    "C21": drv_check(("d_51", "s51"), explanation="Interrupts of an 8052 built by the program's own constructors: requests in pairs, with every enable, priority and running level; what delays them; RETI; idle and power down; the request pins."),
    "C22": drv_check(("d_51t", "s51"), explanation="Timers of an 8052: one instruction (or a pair) from every value of counters, run and gate bits and pins, in every mode; edges of the inputs; timer 2 with reload, capture, baud, up and down counting."),
    "C33": length_check("isa_6502", "isa_i8048", "isa_i8085", "isa_i8080", "isa_hc08", "isa_hcs08", "isa_s51", "isa_z80", "isa_gb80", "isa_stm8", "isa_st7", "isa_m6800", "isa_m6801", "isa_m6809", "isa_m68hc11", "isa_avr"),
    "C44": drv_check(("d_exec", "core"), explanation="Histories of a generic machine (instructions with chosen costs, results and requests) executed abstractly through the code of the current tree: steps, clocks, counters, stop reasons, interrupt service, history."),
    "C15": isa_check("isa_kcpsm3", "isa_kcpsm3irq", "isa_kcpsm6", "isa_kcpsm6irq"),
    "C12": isa_check("isa_pdk13", "isa_pdk14", "isa_pdk15", "isa_pdk16"),
    "C16": isa_check("isa_p1516", "isa_p2223"),
    "C46": isa_check(reset.cpus),
}
