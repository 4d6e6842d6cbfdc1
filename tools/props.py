#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json
V = "/verif/"
P, NA = [], {}
LVL = "other"


def prop(id, title, statement, qover, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": qover, "text": qtext}, "why_tests_cant": why, "anchors": a})


TECH = {}


def claim(id, technique, note): TECH[id] = (technique, note)


ISA_T = "abstract interpretation of the LLVM IR into a gated value graph; value-number comparison with the instruction manual"
ISA_N = ("Every claimed opcode is analysed from an arbitrary machine state; equal normal forms (or a complete truth table of the differing bits) decide an "
         "obligation, a witness valuation of two different normal forms raises the alarm, everything else is counted as undecided in the evidence and never "
         "alarms. Trusted: the analyser, clang's IR, the transcription of the manuals in /verif/spec, memory cells without decoder aliasing or devices.")


def isa(id, name, manual, dontcare, files, mech, spaces="memory"):
    prop(id, "%s instructions do what the manual says" % name,
         ("Whatever registers, flags and %s contain, executing one instruction of the %s leaves exactly the register, flag, %s and program counter values its programming manual defines, and changes nothing else. "
          "Left open: %s.") % (spaces, name, spaces, dontcare),
         ["inputs", "programs"], "every documented opcode and addressing mode x every value of the registers, flags, operands and memory it can read",
         "The baseline tests run a few fixed programs, none of which covers the operand and flag space of even one arithmetic instruction; a wrong carry or wrap-around at one operand value passes them.",
         files, mech, observe=["register and memory contents after one step"])
    claim(id, ISA_T, ISA_N)


isa("C01", "MOS 6502", "MCS6500 programming manual",
    "undocumented opcodes, decimal mode with invalid digits and its N, V, Z flags, JMP through a vector at the end of a page, unused status bits, cycle counts",
    ["src/sims/mos6502.src"], [("instruction execution", "src/sims/mos6502.src/mos6502.cc cl_mos6502::exec_inst"), ("arithmetic", "src/sims/mos6502.src/ialu.cc"), ("branches and subroutines", "src/sims/mos6502.src/ibranch.cc")])
isa("C02", "Intel 8080 and 8085", "8080/8085 assembly language programming manual",
    "undocumented flag bits, auxiliary carry of the 8080's AND, input and output data, interrupt enabling, 16 bit data accesses that start at the last address, cycle counts",
    ["src/sims/i8085.src"], [("instruction execution", "src/sims/i8085.src/i8080.cc cl_i8080::exec_inst"), ("arithmetic and flags", "src/sims/i8085.src/ialu.cc"), ("8085 additions", "src/sims/i8085.src/i8085.cc")])

isa("C08", "Motorola HC08 and HCS08", "CPU08 and HCS08 central processor reference manual",
    "pin level tested by BIH and BIL, STOP, WAIT and BGND, results of a division that cannot be done, V after DAA, unused flag bits, code that overwrites itself, cycle counts",
    ["src/sims/m68hc08.src"], [("instruction execution", "src/sims/m68hc08.src/hc08.cc cl_hc08::exec_inst"), ("instructions", "src/sims/m68hc08.src/inst.cc"), ("macros", "src/sims/m68hc08.src/instcl.h")])

isa("C10", "STM8", "STM8 CPU programming manual PM0044",
    "stack roll-over of devices, HALT, WFI, WFE and BREAK, results of a division by zero, effective addresses beyond 16M, JP and CALL at the end of a 64K section, a call through a pointer its own push overwrites, JRM and JRNM when the two I bits differ, the unused condition code bit, cycle counts",
    ["src/sims/stm8.src"], [("instruction decoding", "src/sims/stm8.src/stm8.cc cl_stm8::exec_inst"), ("instructions and addressing", "src/sims/stm8.src/inst.cc"), ("stack macros", "src/sims/stm8.src/stm8mac.h")])

isa("C09", "ST7", "ST7 family programming manual PM0038",
    "TRAP, HALT, WFI, JRIL and JRIH, transfers from A, X or Y to the device dependent stack pointer, a stack pointer outside page 1, indexed addresses beyond 64K, a call through a pointer its own push overwrites, unused condition code bits, cycle counts",
    ["src/sims/st7.src"], [("instruction decoding", "src/sims/st7.src/st7.cc cl_st7::exec_inst"), ("instructions and addressing", "src/sims/st7.src/inst.cc"), ("stack macros", "src/sims/st7.src/st7mac.h")])

isa("C03", "Zilog Z80 and Sharp SM83", "Z80 CPU user manual and SM83 instruction set description",
    "flag bits 3 and 5, R except as data of LD A,R, S and P/V after BIT, N, S, H and P/V after block input and output, the upper half of the I/O address, DAA after a non-BCD subtraction, IFF1 after RETI, calls that overwrite themselves, HALT and STOP, undocumented instructions, other members of the family, cycle counts",
    ["src/sims/z80.src"], [("instruction execution", "src/sims/z80.src/z80.cc cl_z80::exec_inst"), ("instructions", "src/sims/z80.src/inst.cc"), ("flag macros", "src/sims/z80.src/z80mac.h"), ("ED prefix", "src/sims/z80.src/inst_ed.cc"), ("SM83", "src/sims/z80.src/inst_gb80.cc")])

isa("C04", "Intel 8051 and 8052", "MCS-51 programmer's guide and instruction set",
    "PSW.0 after an instruction that writes PSW itself, MOV A,ACC, PUSH SP, division by zero, the source of the high address byte of MOVX @Ri, values the devices behind special function registers substitute, multiple data pointers and other members of the family, cycle counts",
    ["src/sims/s51.src"], [("arithmetic", "src/sims/s51.src/arith.cc"), ("logic", "src/sims/s51.src/logic.cc"), ("moves", "src/sims/s51.src/mov.cc"), ("jumps", "src/sims/s51.src/jmp.cc"), ("bit instructions", "src/sims/s51.src/bit.cc"), ("instruction table", "src/sims/s51.src/uc51.cc cl_51core::init")],
    spaces="internal memory, special function registers")

isa("C11", "Atmel AVR", "AVR instruction set manual",
    "MOVW, MULS, MULSU, FMUL, LPM Rd, ELPM, SPM, EIJMP and EICALL (codes of later cores, accepted without an effect), unused codes, a pointer register as data of its own pre-decrement or post-increment access, stores that hit the stack pointer or the pointer they update, sleep and watchdog, ICALL whose return address overwrites Z, cycle counts",
    ["src/sims/avr.src"], [("instruction decoding and stack", "src/sims/avr.src/avr.cc cl_avr::exec_inst"), ("arithmetic", "src/sims/avr.src/arith_inst.cc"), ("logic", "src/sims/avr.src/logic_inst.cc"), ("moves", "src/sims/avr.src/move_inst.cc"), ("jumps and skips", "src/sims/avr.src/jump_inst.cc"), ("bit instructions", "src/sims/avr.src/bit_inst.cc")], spaces="data memory")

DRV_T = "abstract interpretation of the LLVM IR from driver functions; value-number comparison of the obligations they state, null and bounds checks on every access"
DRV_N = ("The program's own constructors and functions are analysed on heaps built by the drivers in /verif/drivers; data values are arbitrary, shapes (sizes, positions, order of operations) are "
         "case split within the bounds written in the drivers. A violation is a witness of two different normal forms, or an access outside of its object. Trusted: the analyser, clang's IR, the drivers.")


def drv(id, title, statement, qover, qtext, why, files, mech, note="", observe=None):
    prop(id, title, statement, qover, qtext, why, files, mech, observe=observe)
    claim(id, DRV_T, DRV_N + (" " + note if note else ""))


drv("C40", "Memory: cells, address spaces, chips, decoders, bit bands and banks",
    "A value stored at an address of an address space (write, set, download, or through its cell) is masked to the cell width and read back unchanged, and no other location of any space or chip changes unless it is mapped to the same chip location. "
    "Every address leads to the chip location given by the decoder, bit band or selected bank activated last over it, in any order of activations, overlaps, splits and bank register writes, and the decoder list tells the same; areas that do not fit are refused without a change; "
    "addresses outside of a space reach no cell; a read only cell changes only by download; cell operators are called once per access in their order and a silent get or set calls none.",
    ["inputs", "histories"], "every cell width x value x way of storing; every sequence of up to four overlapping decoders; bank register masks, values and orders of set-up; bit band geometries",
    "Every simulator uses a few fixed memory layouts; the tests never overlap decoders in unusual ways, replace banks, or store values wider than a cell.",
    ["src/core/sim.src"], [("cells and operators", "src/core/sim.src/mem.cc cl_memory_cell"), ("address spaces", "src/core/sim.src/mem.cc cl_address_space"), ("decoders", "src/core/sim.src/mem.cc cl_address_decoder"), ("banks and bit bands", "src/core/sim.src/mem.cc cl_banker, cl_bander")],
    "Bounds: spaces of up to 12 cells, up to four decoders, up to 8 banks.", observe=["memory contents, memory commands"])

drv("C41", "Breakpoints: stops where asked, changes nothing else",
    "A fetch breakpoint stops the program before the instruction at its address, at the arrival given by the hit count and condition (the condition is evaluated when the hit count is reached, then counting starts again), with the breakpoint as reason; the instruction is not executed and no tick is counted for it. "
    "An event breakpoint stops right after the instruction that makes the access. Without an accepted breakpoint the program runs on, and breakpoints never change what instructions read or write, nor what a hardware element on the same cell sees or returns. "
    "A temporary breakpoint is deleted when it is accepted and only then; deletion (by number, address, all) removes exactly that breakpoint and every trace of it from memory; numbers are unique.",
    ["inputs", "histories"], "every address, hit count, condition history, kind and order of setting, hitting and deletion of the bounded cases; values symbolic",
    "Regression tests use one or two breakpoints in fixed programs; combinations of hit counts, conditions, devices and deletions are not tested.",
    ["src/core/sim.src/brk.cc", "src/core/sim.src/uc.cc", "src/core/sim.src/mem.cc"], [("breakpoints", "src/core/sim.src/brk.cc"), ("acceptance", "src/core/sim.src/uc.cc cl_uc::do_brk, check_events"), ("events of cells", "src/core/sim.src/mem.cc cl_memory_cell::set_brk, cl_read_operator, cl_write_operator")],
    "Bounds: up to three breakpoints, programs of up to 30 instructions on a small machine derived from cl_uc.", observe=["where and why the simulation stops, break, tbreak, delete, info break"])

drv("C42", "Loaded files end up in memory exactly as the format says",
  "For Intel hex (data, end and extended linear address records; memories of 8 to 32 bit words; any line ends; records cut at any place; wrong checksums), Motorola S1/S2/S3, Intel OMF-51 content records and the asc and p2h text formats: every word that a correct record of the file describes is stored once, at the address of the record (divided by the number of bytes in a word), with the bytes of the record; words of damaged, unknown or incomplete records are not stored; the number of loaded words is reported; reading always ends, and no byte is lost or invented at the end of the file. A specification file@memory:offset#min-max loads into the named memory (address space or chip), only words whose file address is in the range, at address plus offset, and nothing else is changed; an address beyond a banked space goes into the numbered bank and leaves the selected bank selected; verification never changes memory and tells whether memory equals the file.",
  ["inputs"], "every data byte, every checksum error and every offset, for all combinations of record sizes, types, separators, word widths and truncations in the drivers",
  "one misread record silently corrupts the program under simulation; tests load one well formed 8-bit hex file",
   ["src/core/sim.src/uc.cc", "src/core/utils.src/fio.cc", "src/core/utils.src/chars.cc"], [("loaders", "src/core/sim.src/uc.cc cl_uc::read_hex_file, read_s19_file, read_omf_file, read_asc_file, read_p2h_file"), ("specification", "src/core/sim.src/uc.cc cl_inspec::init, cl_uc::set_rom"), ("file input", "src/core/utils.src/fio.cc cl_f::get_c, get_s")],
    "Bounds: one to three records of up to five bytes.", observe=["memory contents after the file command or a file argument, number of words told"])

isa("C05", "Motorola 6800 and 6801", "M6800 programming reference manual and MC6801 reference manual",
    "WAI and undocumented codes, V after DAA, DAA of digits that are not BCD, N and V of the 6800's CPX when the low bytes borrow, the two unused bits of the condition codes (they read as 1), code that overwrites itself, cycle counts",
    ["src/core/motorola.src", "src/sims/m6800.src"], [("arithmetic", "src/core/motorola.src/ialu68.cc"), ("moves", "src/core/motorola.src/imove68.cc"), ("branches and stack", "src/core/motorola.src/ibranch68.cc"), ("6801 additions", "src/core/motorola.src/m6801.cc")])
isa("C06", "Motorola 6809", "MC6809 programming manual",
    "SYNC, H after subtraction, NEG and shifts, V after DAA, register codes that do not exist and mixed sizes in EXG and TFR, undefined index postbytes, the latch that enables NMI, RTI with the stack pointer at the end of the address space, code that overwrites itself, cycle counts",
    ["src/sims/m6809.src"], [("instruction execution and indexed addresses", "src/sims/m6809.src/m6809.cc cl_m6809::exec_inst, index2ea")])
isa("C07", "Motorola 68HC11", "M68HC11 reference manual",
    "STOP, WAI and TEST, V after DAA, DAA of digits that are not BCD, the S and X bits of the condition codes (taken as 1), the accumulators after a division that cannot be done, code that overwrites itself, cycle counts",
    ["src/core/motorola.src", "src/sims/m68hc11.src"], [("HC11 instructions and prefixes", "src/core/motorola.src/m68hc11.cc"), ("instructions shared with the 6800", "src/core/motorola.src/ialu68.cc, imove68.cc, ibranch68.cc")])
isa("C13", "Intel 8048", "MCS-48 family user's manual",
    "bit 3 of the PSW (reads as 1), MOVP3 in the upper memory bank, what a bus, port expander or timer does with the operation the instruction performs on it, cycle counts",
    ["src/sims/i8048.src"], [("arithmetic and logic", "src/sims/i8048.src/arith.cc"), ("moves", "src/sims/i8048.src/move.cc"), ("branches, calls and returns", "src/sims/i8048.src/branch.cc"), ("register banks, stack, decoding", "src/sims/i8048.src/i8020.cc, i8048.cc, inst.cc")],
    spaces="internal memory, ports")

drv("C43", "Command expressions have the values the language defines",
  "An expression means what the same C expression means: operators have C's precedence, associativity, and signed integer values for all operands; numbers are read in their base; a memory cell, a register, a variable and bits cell.n, cell[high:low] have the present value of that cell, bits or variable, (int) extends the sign of the cell; assignments (plain, combined, increment, decrement) store exactly the assigned value, masked to the cell or the named bits, in exactly that place, and nothing else changes. A wrong expression or a division that cannot be done is reported, changes no cell before the error, and leaves the next expression unaffected.",
  ["inputs"], "every value of every operand; every pair of binary operators, every kind of operand with every assignment operator; malformed texts listed in the driver",
  "expressions decide breakpoint conditions, display and register changes; tests evaluate none of them",
   ["src/core/cmd.src/cmdpars.y", "src/core/cmd.src/cmdlex.l", "src/core/sim.src/app.cc"], [("grammar", "src/core/cmd.src/cmdpars.y"), ("scanner", "src/core/cmd.src/cmdlex.l"), ("variables", "src/core/sim.src/var.cc")],
    "Bounds: pairs of operators over 3-bit operands and single ones over 8-bit operands for the expensive operators; && and || evaluate both sides (as implemented).", observe=["expr command, breakpoint conditions, info var"])

drv("C21", "8051: the right interrupt is served, once, at the right moment",
  "After every instruction the 8052 serves a pending request that is enabled (individually and by EA) and of a higher priority than the service in progress: the one with the highest priority, and among equal ones the first in polling order. Serving pushes the address of the next instruction, goes to the vector, clears exactly the flag hardware clears (IE0, IE1, TF0, TF1), remembers the level and ends idle mode; without such a request nothing changes. No request is served right after RETI or an instruction that writes IE or IP, but it is after the next instruction; RETI (and not RET) ends the level. Falling edges or low levels of INT0 and INT1 make requests as IT0 and IT1 say. In idle and power down mode no instruction is executed.",
  ["inputs", "schedules"], "every value of IE and IP, every pair of request flags, every level in progress",
  "which interrupt is taken depends on the combination of about twenty bits and the instruction before; tests run programs that never enable an interrupt",
   ["src/sims/s51.src"], [("choice of the request", "src/sims/s51.src/uc51.cc: do_interrupt, accept_it"), ("request pins, delay after writes", "src/sims/s51.src/interrupt.cc"), ("sources", "src/core/sim.src/itsrc.cc")],
    "8052 core; a level request that goes away before it is served, and what ends power down mode, are not specified.", observe=["step, run; registers and stack after it"])
drv("C22", "8051: timers and counters count exactly what the data sheet says",
  "While timer 0, 1 or 2 of the 8052 runs (TR set, gate open) it advances by one for each machine cycle, including the cycles of interrupt acceptance and idle mode, in counter mode for each falling edge of its pin and nothing else, in the width of its mode, with reload, capture, up or down counting, and sets exactly its overflow flag at the overflow; while it does not run it keeps its value, and edges that come meanwhile are lost. A falling edge of T2EX captures or reloads and sets EXF2 when EXEN2 is set. The other timers, control bits and ports are not disturbed.",
  ["inputs", "schedules"], "every value of the counters, of the run and gate bits and the pins before and after an instruction; representative instructions of 1, 2 and 4 cycles; for timer 2 every low byte with the high bytes where carries happen",
  "overflow and reload corner cases appear once in 2^16 cycles; tests look at no timer",
   ["src/sims/s51.src", "src/core/sim.src/uc.cc"], [("timers 0 and 1", "src/sims/s51.src/timer0.cc, timer1.cc"), ("timer 2", "src/sims/s51.src/timer2.cc"), ("pin events", "src/sims/s51.src/port.cc")],
    "Not specified: timer 1 while timer 0 is in mode 3, the exact cycle at which T2EX acts on a running timer, clock output.", observe=["step, run; timer registers and flags after it"])

drv("C33", "The instruction length and call tables agree with execution",
  "For every opcode the simulator of a CPU executes, the length it reports (used by dis, next, the profiler and conditional skips) is the number of program words the execution of that instruction consumes, and it reports an instruction as a subroutine call exactly when executing it pushes the address of the next instruction and jumps; asking changes nothing. So next steps over exactly the calls and a listing never loses synchronisation.",
  ["inputs"], "every opcode and every operand byte of 6502, 8048, 8080, 8085, HC08/HCS08, 8051, Z80, GB Z80, STM8, ST7, 6800, 6801, 6809, HC11, AVR",
  "the decoding tables are written by hand apart from the executors; a wrong row shows only when that opcode is listed or stepped over",
   ["src/sims/*.src/glob.cc", "src/core/motorola.src/g*.cc", "inst_length() and is_call() of every simulator"], [("default", "src/core/sim.src/uc.cc: cl_uc::inst_length, is_call"), ("next", "src/core/cmd.src/cmd_exec.cc")],
    "Software interrupts which push more than the return address may be counted as calls or not.", observe=["dis, next"])

drv("C44", "Execution: steps, clocks, counters, stop reasons, interrupt service and history",
  "Stepping n instructions executes exactly n, then stops once; every machine cycle an instruction takes is counted in the main clock (times clocks per cycle) and given to every switched on hardware inside the processor, and counters count exactly the clocks of their condition (always, in interrupt service, idle, halted) up or down, while running; a time limit stops after the first instruction that reaches it. A stopping result is the reason of the stop and nothing is executed after it; an instruction that cannot be executed is not stepped over; a jump to itself stops. Of the pending, enabled, active requests the generic interrupt service accepts the first one in polling order that has a higher priority than the service in progress, clears the flag if the source says so, counts the level, ends idle state and goes to the vector; requests that are not accepted stay as they are. The history has the last addresses executed, with repetitions counted. No decision depends on memory that was never set or was already released.",
  ["inputs", "schedules", "histories"], "every combination of the listed states of the generic machine (instruction costs, results, counters, requests, priorities)",
  "every simulator runs on this code; tests start programs and look at the end result, never at clocks, counters, refused requests or stop reasons",
   ["src/core/sim.src/uc.cc", "src/core/sim.src/sim.cc", "src/core/sim.src/itsrc.cc", "src/core/sim.src/itab.cc"], [("execution", "cl_uc::do_inst, post_inst, tick, do_interrupt"), ("steps", "cl_sim::step, start, stop"), ("history", "cl_exec_hist")],
    "Sources are accepted in polling order, not highest priority first, unless a simulator overrides do_interrupt (documented behaviour of the code, not specified otherwise).", observe=["step, run, timer, history, state commands"])

prop("C60", "Console commands are executed once, in order, also while a program runs",
     "Every command line typed on, piped into or read from a file or socket by any console is executed exactly once and in the order of arrival on that console, a running simulation keeps running until it is stopped by a command or by its own, and closing a console neither loses the commands of others nor ends the simulation.",
     ["schedules"], "every interleaving of input on several consoles with a running simulation", "depends on when input arrives at file descriptors",
     ["src/core/cmd.src/newcmd.cc", "src/core/cmd.src/newcmdposix.cc", "src/core/utils.src/fio.cc"], [("input loop", "cl_commander::proc_input, wait_input")])
NA["C60"] = "the arrival of input is a matter of the operating system (select, non-blocking reads on files, pipes, sockets and terminals); without a model of it that would be the property itself, no static argument bounds it"
prop("C61", "Serial lines lose and reorder nothing",
     "Every byte a simulated UART transmits appears once and in order on the file, socket or console it is connected to, and every byte that arrives is received by the program once and in order, at the programmed speed.",
     ["inputs", "schedules"], "every byte sequence, speed and arrival time", "needs host input at chosen simulated times",
     ["src/core/sim.src/serial_hw.cc", "src/core/sim.src/pc16550.cc", "src/sims/s51.src/serial.cc"], [("listener", "cl_serial_hw, cl_serial_io")])
NA["C61"] = "whether a byte is there is decided by the host's file descriptors at run time; the order of host input against simulated time is not in the source"
prop("C62", "The speed of the simulation can be limited to the speed of the processor",
     "With a speed limit the simulated clock never runs ahead of the host clock by more than one check interval, and without one the simulation does not wait.",
     ["schedules"], "every host load and program", "compares host time with simulated time",
     ["src/core/utils.src/app.cc", "src/core/sim.src/sim.cc"], [("limit", "cl_app::run, cl_sim")])
NA["C62"] = "it is a statement about the host's clock during a run, not about the source"
prop("C63", "A VCD dump describes what happened",
     "The value changes written by the VCD element are those of the watched cells and bits, with the simulated time at which they happened, and reading a VCD file plays the same changes back at the same times.",
     ["histories"], "every history of the watched cells", "no baseline test makes a dump",
     ["src/core/sim.src/vcd.cc"], [("dump and play", "cl_vcd")])
NA["C63"] = "times are doubles compared by units in the last place and text formatted and parsed by the C library; the value domain of the analyser has no floating point, so nothing but top could be said about the times"

isa("C15", "Xilinx PicoBlaze", "KCPSM3 (UG129) and KCPSM6 user guides",
    "overflow and underflow of the call stack, scratch pad addresses above 63, STAR with a constant, words that are no instruction, programs larger than the ROM, what the port files contain, cycle counts; operand fields are covered value by value, not in all combinations",
    ["src/sims/pblaze.src"], [("instructions", "src/sims/pblaze.src/inst.cc"), ("decoding, interrupts", "src/sims/pblaze.src/pblaze.cc, glob.cc"), ("call stack", "src/sims/pblaze.src/stack.cc")],
    spaces="register banks, scratch pad, call stack, ports")

isa("C12", "Padauk PDK", "instruction set descriptions of the 13, 14, 15 and 16 bit cores (data sheets, Free PDK documentation)",
    "bits above OV in FLAG, Z after mov a,M and mov a,IO, flags of nadd, ldspt/ldtab, T16 access, high byte of mul, interrupts, pmode, stop, reset, delay, wait, pcN access, swapc on FLAG, cycle counts, a wrapping stack; memory and I/O addresses are covered by representatives",
    ["src/sims/pdk.src"], [("instructions", "src/sims/pdk.src/pdk13.cc, pdk14.cc, pdk15.cc, pdk16.cc: execute"), ("arithmetic and flags", "src/sims/pdk.src/inst.cc"), ("stack", "src/sims/pdk.src/pdk.cc: push, pushlh; pdkcl.h: pop")],
    spaces="RAM, I/O registers, stack")

isa("C16", "P1516 and P2223 training processors", "instruction tables of the simulator (src/sims/p1516.src/glob.cc) and their documentation",
    "undefined codes, DIV, load with write-back into its own address register, write-back of the program counter, the values of the special function registers and peripherals mapped into memory; register numbers and operand fields are covered by representatives",
    ["src/sims/p1516.src"], [("P1516", "src/sims/p1516.src/p1516.cc"), ("P2223", "src/sims/p1516.src/p2223.cc")],
    spaces="memory, registers, special function registers")

prop("C46", "Reset and setting the program counter",
     "From every state of the machine, reset leaves the program counter (through the vector where the processor has one, read from the memory as it is at that time) and the registers and mask bits that the processor's manual defines after reset with their defined values, and takes the processor out of halt, wait and interrupt service; an address given to the commands pc and run is where execution continues, whatever was pending.",
     ["histories"], "every history of the machine before the reset and every content of memory", "the baseline has no test that resets a machine that has run",
     ["src/sims", "src/core/sim.src/uc.cc"], [("generic reset", "cl_uc::reset, cl_uc::set_PC"), ("processor", "reset and set_PC of each simulator's class")])
TECH["C46"] = ("abstract interpretation of each simulator's reset and set_PC from an arbitrary state, compared with a table of reset values", "28 processors; registers the manuals leave undefined, and the state of the peripherals apart from the 8051's, are not compared")

if __name__ == "__main__":
    import os
    exec(open(V + "tools/props_more.py").read()) if os.path.exists(V + "tools/props_more.py") else None
    with open(V + "properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = [{"property": p["id"], "quick_cmd": "python3 checks/run.py %s quick" % p["id"], "thorough_cmd": "python3 checks/run.py %s thorough" % p["id"],
               "technique": TECH[p["id"]][0], "level": LVL, "level_note": TECH[p["id"]][1]} for p in P if p["id"] in TECH]
    na = [{"property": k, "reason": v} for k, v in NA.items()]
    for p in P:
        assert (p["id"] in TECH) != (p["id"] in NA), p["id"]
    json.dump({"version": 1, "setup_cmd": "bash checks/setup.sh", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: every check reads the current sources. Exit 2 means the analysis could not be carried out."}, open(V + "MANIFEST.json", "w"), indent=1)
    print(len(P), "properties", len(checks), "checks", len(na), "not applicable")
