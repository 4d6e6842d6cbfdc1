S6, S8, S08 = "sims/mos6502.src/", "sims/i8085.src/", "sims/m68hc08.src/"
ST7 = "sims/st7.src/"
ST8 = "sims/stm8.src/"
Z80 = "sims/z80.src/"
S51 = "sims/s51.src/"
AVR = "sims/avr.src/"
SIMD = "core/sim.src/"
CONF = open(__file__.replace("seeds.py", "demo_conf.txt")).read()

def _hx(t, a, d):
    b = [len(d), a >> 8, a & 255, t] + d
    return ":" + "".join("%02X" % x for x in b + [(-sum(b)) & 255]) + "\n"
def _s(t, al, a, d):
    b = [len(d) + al + 1] + [(a >> (8 * i)) & 255 for i in range(al - 1, -1, -1)] + d
    return "S%d" % t + "".join("%02X" % x for x in b + [255 - (sum(b) & 255)]) + "\n"
CONFF = open(__file__.replace("seeds.py", "demo_file.txt")).read()

MOT, M09, S48 = "core/motorola.src/", "sims/m6809.src/", "sims/i8048.src/"
SEEDS = {
 "S001": dict(property="C02", sim="i8085", args=["-t", "8085"],
   edits=[(S8 + "ialu.cc", "  if (((a&0xf)+(m1&0xf)) > 0xf) rF|= flagA;\n  rF|= ADDV8(a, m1, res);", "  if (((a&0xf)+(m1&0x7)) > 0xf) rF|= flagA;\n  rF|= ADDV8(a, m1, res);")],
   cmds=["set mem rom 0 0x3d", "expr A=0x13", "expr F=0", "pc 0", "step"], want=[("A", 0x12), ("F&0x10", 0x10)],
   needs="DCR with a low nibble between 1 and 8", breaks="auxiliary carry of DCR"),
 "S002": dict(property="C02", sim="i8085", args=["-t", "8085"],
   edits=[(S8 + "i8080.cc", "  cSP.W(rSP+1);\n  h= rom->read(rSP);\n  cSP.W(rSP+1);", "  h= rom->read(rSP+1);\n  cSP.W(rSP+2);")],
   cmds=["set mem rom 0 0xc1", "set mem rom 0xffff 0x34", "expr SP=0xffff", "pc 0", "set mem rom 1 0x55", "step"], want=[("BC", 0xc134), ("SP", 1)],
   needs="POP with the stack pointer at the last address", breaks="pop reads the high byte beyond the address range instead of wrapping to 0"),
 "S003": dict(property="C01", sim="mos6502",
   edits=[(S6 + "ibranch.cc", "      a= PC+rel;\n      if ((u16_t)(PC&0xff00) != (u16_t)(a&0xff00))\n\ttick(1);\n      PC= a;", "      a= PC+rel;\n      if ((u16_t)(PC&0xff00) != (u16_t)(a&0xff00))\n\ttick(1);\n      PC+= rel;")],
   cmds=["set mem rom 0xfff0 0xd0 0x20", "expr P=0", "pc 0xfff0", "step"], want=[("PC", 0x12)],
   needs="a taken branch that crosses the top of the address space", breaks="the branch target is not confined to 16 bits"),
 "S004": dict(property="C01", sim="mos6502",
   edits=[(S6 + "ialu.cc", "if (0x80&( (res&Op&~rA) | (~res&~Op&rA) )) f|= flagV;", "if (0x80&( (res&Op&~rA) | (~res&~(Op+!C)&rA) )) f|= flagV;")],
   cmds=["set mem rom 0x10 0xe9 0x7f", "expr P=0", "expr A=0x80", "pc 0x10", "step"], want=[("A", 0), ("P&0x40", 0x40)],
   needs="binary SBC of 0x7f with borrow from a negative accumulator", breaks="overflow flag of SBC when the operand plus the borrow changes sign"),
 "S005": dict(property="C08", sim="m68hc08",
   edits=[(S08 + "inst.cc", "  FLAG_ASSIGN (BIT_H, 0x10 & (operand1 ^ operand2 ^ result));\n\n  regs.A = result & 0xff;\n  return(resGO);\n}\n\nint\ncl_hc08::inst_sub(", "  FLAG_ASSIGN (BIT_H, 0x10 & (operand1 ^ (operand2+carryin) ^ result));\n\n  regs.A = result & 0xff;\n  return(resGO);\n}\n\nint\ncl_hc08::inst_sub(")],
   cmds=["step", "set mem rom 0x400 0xa9 0x0f", "expr A=0", "expr P=1", "pc 0x400", "step"], want=[("A", 0x10), ("P&0x10", 0x10)],
   needs="ADC with carry whose operand plus the carry crosses a nibble", breaks="half carry of ADC"),
 "S006": dict(property="C08", sim="m68hc08",
   edits=[(S08 + "inst.cc", "    if (quotient<=0xff) {", "    if (quotient<=0xff || dividend==0xffff) {")],
   cmds=["step", "set mem rom 0x400 0x52", "expr A=0xff", "expr H=0xff", "expr X=0xff", "expr P=0", "pc 0x400", "step"], want=[("P&1", 1)],
   needs="the one overflowing dividend 0xffff", breaks="overflow indication of DIV"),
 "S007": dict(property="C10", sim="stm8",
   edits=[(ST8 + "inst.cc", "      regs.Y = resval&0xffff;\n      FLAG_ASSIGN (BIT_Z, (resval & 0xffff) == 0);\n      FLAG_ASSIGN (BIT_N, 0x8000 & resval);\n      FLAG_ASSIGN (BIT_V, (0x8000 == operand));", "      regs.Y = resval&0xffff;\n      FLAG_ASSIGN (BIT_Z, (resval & 0xffff) == 0);\n      FLAG_ASSIGN (BIT_N, 0x8000 & resval);\n      FLAG_ASSIGN (BIT_V, (0x8000 == resval));")],
   cmds=["set mem rom 0x100 0x90 0x50", "expr Y=0x8000", "expr CC=0", "pc 0x100", "step"], want=[("Y", 0x8000), ("CC&0x80", 0x80)],
   needs="NEGW Y of 0x8000 (the negated value is not 16 bits wide)", breaks="overflow flag of NEGW Y"),
 "S008": dict(property="C10", sim="stm8", args=["-w"],
   edits=[(ST8 + "stm8.cc", "regs.A = get1(get3(opaddr)+regs.Y);", "regs.A = get1((get3(opaddr)+regs.Y)&0x1ffff);")],
   cmds=["set mem rom 0x100 0x91 0xaf 0x02 0x00", "set mem rom 0x200 0x02 0x00 0x00", "set mem rom 0x20010 0x5a", "set mem rom 0x10 0x33", "expr Y=0x10", "expr A=0", "pc 0x100", "step"], want=[("A", 0x5a)],
   needs="LDF A,([ptr.e],Y) reading above 128K", breaks="far indirect loads lose address bits"),
 "S009": dict(property="C09", sim="st7",
   edits=[(ST7 + "inst.cc", "  operand1 = regs.A;\n  operand2 = OPERAND(code, prefix);\n  result = operand1 + operand2 + carryin;", "  operand1 = regs.A;\n  operand2 = OPERAND(code, prefix) + carryin;\n  result = operand1 + operand2;")],
   cmds=["step", "set mem rom 0x1000 0xa9 0x0f", "expr A=0x01", "expr CC=1", "pc 0x1000", "step"], want=[("A", 0x11), ("CC&0x10", 0x10)],
   needs="ADC with carry set whose carry ripples through the low nibble of the operand", breaks="half carry of ADC"),
 "S010": dict(property="C09", sim="st7",
   edits=[(ST7 + "inst.cc", "    case 0x6:\n\t  if ( 0 == prefix) {              // short offset with X\n\t\tresaddr = (fetch()+regs.X);", "    case 0x6:\n\t  if ( 0 == prefix) {              // short offset with X\n\t\tresaddr = (fetch()+regs.X)&0xff;")],
   cmds=["step", "set mem rom 0x1000 0x6c 0xf0", "set mem rom 0x110 0x41", "expr X=0x20", "pc 0x1000", "step", "set mem rom 0x1000 0xd6 0x01 0x10", "expr X=0", "pc 0x1000", "step"], want=[("A", 0x42)],
   needs="INC (off,X) whose offset plus X passes the zero page", breaks="address of read-modify-write instructions"),
 "S011": dict(property="C03", sim="z80",
   edits=[(Z80 + "z80mac.h", "    unsigned int accu = (unsigned int)regs_IX_OR_IY;			\\\n    unsigned int oper = (unsigned int)(wr);				\\\n    regs.raf.F &= ~(BIT_A | BIT_C);  /* clear these */			\\\n    regs.raf.F &= ~BIT_N;            /* addition */			\\\n    if ((accu & 0x0FFF) + (oper & 0x0FFF) > 0x0FFF) regs", "    unsigned int accu = (unsigned int)regs_IX_OR_IY;			\\\n    unsigned int oper = (unsigned int)(wr);				\\\n    regs.raf.F &= ~(BIT_A | BIT_C);  /* clear these */			\\\n    regs.raf.F &= ~BIT_N;            /* addition */			\\\n    if ((accu & 0x0FFF) + (oper & 0x0FFF) >= 0x0FFF) regs")],
   cmds=["set mem rom 0x100 0xdd 0x09", "expr IX=0x0f00", "expr BC=0x10ff", "expr F=0", "pc 0x100", "step"], want=[("IX", 0x1fff), ("F&0x10", 0)],
   needs="ADD IX,rr whose low 12 bits sum to exactly 0xfff", breaks="half carry of ADD IX"),
 "S012": dict(property="C03", sim="z80",
   edits=[(Z80 + "z80mac.h", "    unsigned int oper = (unsigned int)(br);			    \\\n    regs.raf.F &= ~(BIT_ALL); /* clear these */			    \\\n    regs.raf.F |= BIT_N;      /* not addition */		    \\\n    if ((accu & 0x0F) < (oper & 0x0F))  regs.raf.F |= BIT_A;	    \\\n    if ((accu & 0x7F) < (oper & 0x7F))  regs.raf.F |= BIT_P;	    \\\n    if (accu < oper) { regs.raf.F |= BIT_C; regs.raf.F ^= BIT_P; }  \\\n    accu -= oper;						    \\\n    if", "    unsigned int oper = (unsigned int)(br);			    \\\n    regs.raf.F &= ~(BIT_ALL); /* clear these */			    \\\n    regs.raf.F |= BIT_N;      /* not addition */		    \\\n    if ((accu & 0x1F) < (oper & 0x1F))  regs.raf.F |= BIT_A;	    \\\n    if ((accu & 0x7F) < (oper & 0x7F))  regs.raf.F |= BIT_P;	    \\\n    if (accu < oper) { regs.raf.F |= BIT_C; regs.raf.F ^= BIT_P; }  \\\n    accu -= oper;						    \\\n    if")],
   cmds=["set mem rom 0x100 0xfe 0x10", "expr A=0x2f", "expr F=0", "pc 0x100", "step"], want=[("F&0x10", 0), ("F&2", 2)],
   needs="CP with operands that differ in bit 4 in the right direction", breaks="half carry of CP"),
 "S013": dict(property="C04", sim="s51",
   edits=[(S51 + "arith.cc", "  if ((ac & 0xf0) > 0x90 ||\n      (pw & bmCY))", "  if ((ac & 0xf0) > 0x90 ||\n      (psw->get() & bmCY))")],
   cmds=["set mem rom 0x100 0xd4", "set mem sfr 0xe0 0xfb", "set mem sfr 0xd0 0", "pc 0x100", "step"], want=[("sfr[0xe0]", 0x61), ("sfr[0xd0]&0x80", 0x80)],
   needs="DA A whose low correction itself carries out of the byte", breaks="second correction of DA A"),
 "S014": dict(property="C04", sim="s51",
   edits=[(S51 + "bit.cc", "b= bits->/*read*/get(bitaddr);", "b= bits->read(bitaddr);")],
   cmds=["set mem rom 0x100 0xb2 0x93", "set mem sfr 0x90 0xff", "expr port1_pin=0xf7", "pc 0x100", "step", "expr port1_pin=0xff"], want=[("port1_odr", 0xf7)],
   needs="CPL of a port bit whose pin is pulled low from outside", breaks="CPL bit reads the pin instead of the latch"),
 "S015": dict(property="C11", sim="avr",
   edits=[(AVR + "move_inst.cc", "  if (z == 0xff)\n    ram->set(ZH, (ram->get(ZH)-1)&0xff);\n  z= ram->get(ZH)*256 + z;\n  data= ram->read(z);", "  if (z >= 0xff)\n    ram->set(ZH, ram->get(ZH)?(ram->get(ZH)-1):0);\n  z= ram->get(ZH)*256 + z;\n  data= ram->read(z);")],
   cmds=["set mem rom 0x100 0x9102", "set mem iram 30 0", "set mem iram 31 0", "pc 0x100", "step"], want=[("iram[30]", 0xff), ("iram[31]", 0xff)],
   needs="LD Rd,-Z with Z = 0000", breaks="pre-decrement borrow of a zero pointer"),
 "S016": dict(property="C11", sim="avr",
   edits=[(AVR + "jump_inst.cc", "  if (k & 0x800)\n    k|= ~0xfff;\n  PC=", "  if (k > 0x800)\n    k|= ~0xfff;\n  PC=")],
   cmds=["set mem rom 0x900 0xd800", "set mem iram 0x5d 0x7f", "set mem iram 0x5e 0", "pc 0x900", "step"], want=[("PC", 0x101)],
   needs="RCALL with the largest backward displacement -2048", breaks="sign of the displacement"),
 "S017": dict(property="C40", sim="s51",
   edits=[(SIMD + "mem.cc", "      chip_begin+= (end-as_begin+1);\n", "      chip_begin+= (end-begin+1);\n")],
   demo=CONF % ("s51", ["memory create chip ca 16 8", "memory create chip cb 16 8", "memory create addressspace sp 0 16", "memory create addressdecoder sp 4 9 ca 0", "memory create addressdecoder sp 2 5 cb 0", "info memory"], [r"sp\s+0x0*6\s+0x0*9\s+->\s+ca\s+0x0*2\s"]),
   needs="a decoder activated over an area that starts below and ends inside an older decoder", breaks="chip offset of the remaining decoder"),
 "S018": dict(property="C40", sim="s51",
   edits=[(SIMD + "mem.cc", "  int b= actual_bank();\n  t_addr i, s;\n  void *data;\n  class cl_memory_cell *c;\n\n  if (b == bank)\n    return true;\n  if (banks[b] == NULL)\n    return true;", "  int b= actual_bank();\n  t_addr i, s;\n  void *data;\n  class cl_memory_cell *c;\n\n  if (b == bank)\n    return true;\n  bank= b;\n  if (banks[b] == NULL)\n    return true;")],
   demo=CONF % ("s51", ["memory create chip ca 16 8", "memory create addressspace sp 0 4", "memory create banker iram 0x40 1 sp 0 3", "memory create bank sp 0 0 ca 0", "set mem iram 0x40 1", "memory create bank sp 0 1 ca 8", "set mem ca 8 0x77", "set mem ca 0 0x55", "dump sp 0 0"], [r"0x0+\s+77 "]),
   needs="selecting a bank before it is defined", breaks="the bank stays unmapped when it is defined later"),
 "S019": dict(property="C41", sim="s51",
   edits=[(SIMD + "brk.cc", "      cnt= hit;\n      if (condition())\n\treturn(1);      ", "      if (condition())\n\t{\n\t  cnt= hit;\n\t  return(1);\n\t}")],
   demo=CONF % ("s51", ["set mem rom 0 4 0 0x80 0xfc", "set mem sfr 0xe0 0", "break 1 2 if ACC>=3", "run", "expr sfr[0xe0]"], [r"\n4\n"]),
   needs="a hit count and a condition that fails when the count is reached", breaks="arrivals are not counted any more after a failed condition"),
 "S020": dict(property="C41", sim="s51",
   edits=[(SIMD + "uc.cc", "  return(++brk_counter);", "  return(brk_counter= fbrk->count + ebrk->count + 1);")],
   demo=CONF % ("s51", ["break 1", "break 2", "break 3", "delete 1", "break 4", "delete 3", "info break"], [r"\n4 +fetch.*0x0+4"]),
   needs="a new breakpoint after an older one was deleted", breaks="two breakpoints have the same number"),
 "S021": dict(property="C41", sim="s51",
   edits=[(SIMD + "brk.cc", "  if (cnt <= 0)\n    {\n      cnt= hit;", "  if (cnt == 0)\n    {\n      cnt= hit;")],
   demo=CONF % ("s51", ["set mem rom 0 4 0 0x80 0xfc", "break 1 0", "run 0 9", "pc"], [r"Stop at 0x000001"]),
   needs="hit count 0", breaks="a breakpoint with hit count 0 never stops"),
 "S022": dict(property="C42", sim="stm8",
   edits=[(SIMD + "uc.cc", "			  base= (rec[0]*256+rec[1]) << 16;", "			  base+= (rec[0]*256+rec[1]) << 16;")],
   demo=CONFF % ("stm8", {"e.ihx": _hx(4, 0, [0, 1]) + _hx(0, 0x10, [0x11, 0x22]) + _hx(4, 0, [0, 2]) + _hx(0, 0x10, [0x33]) + _hx(1, 0, [])}, ['file "e.ihx"', "dump rom 0x20010 0x20010"], [r"0x20010\s+33"]),
   needs="a hex file with two different extended address records", breaks="data after the second extended address record is loaded at the sum of the two bases"),
 "S023": dict(property="C42", sim="stm8",
   edits=[(SIMD + "uc.cc", "  if ((ma < 0xffffffff) && (addr > ma))", "  if ((ma < 0xffffffff) && (addr >= ma))")],
   demo=CONFF % ("stm8", {"e.ihx": _hx(0, 0x10, [0x11, 0x22, 0x33]) + _hx(1, 0, [])}, ['file "e.ihx@rom:0x8000#0x10-0x12"', "dump rom 0x8010 0x8012"], [r"0x08012\s+33"]),
   needs="a file loaded with a range whose last address has data", breaks="the last word of the range is not loaded"),
 "S024": dict(property="C42", sim="stm8",
   edits=[(SIMD + "uc.cc", "	  written+= s19(is, this, a, s, p, cnt-3-1, check);", "	  written+= s19(is, this, a, s, p, cnt-2-1, check);")],
   demo=CONFF % ("stm8", {"e.s19": _s(2, 3, 0x100, [0x11, 0x22, 0x33]) + _s(8, 3, 0, [])}, ["set mem rom 0x103 0x77", 'file "e.s19"', "dump rom 0x103 0x103"], [r"0x0*103\s+77[\s\S]*0x0*103\s+77"]),
   needs="an S2 record, and memory behind its data that is already in use", breaks="the checksum of S2 records is loaded behind the data"),
 "S025": dict(property="C05", sim="m6800",
   edits=[(MOT + "ialu68.cc", "      i= rA+6;\n      if (i > 255)", "      i= rA+6;\n      if (i > 256)")],
   cmds=["set mem rom 0 0x19", "expr A=0xfa", "expr CC=0xc0", "pc 0", "step"], want=[("A", 0x60), ("CC&1", 1)],
   needs="DAA when adding 6 gives exactly 256", breaks="carry and tens digit of DAA"),
 "S026": dict(property="C05", sim="m6800", args=["-t", "6801"],
   edits=[(MOT + "m6801.cc", "  u16_t op= rB;\n  cX.W(rX + op);", "  i8_t op= rB;\n  cX.W(rX + op);")],
   cmds=["set mem rom 0 0x3a", "expr IX=0x1000", "expr B=0x90", "pc 0", "step"], want=[("IX", 0x1090)],
   needs="ABX with B above 127", breaks="ABX adds B as a signed number"),
 "S027": dict(property="C06", sim="m6809",
   edits=[(M09 + "m6809.cc", "	rom->write(--reg.U, reg.S&0xff),\n	  rom->write(--reg.U, reg.S>>8),", "	rom->write(--reg.U, reg.S&0xff),\n	  rom->write(--reg.U, reg.U>>8),")],
   cmds=["set mem rom 0 0x36 0x40", "expr S=0x1234", "expr U=0x5678", "pc 0", "step"], want=[("rom[0x5677]", 0x34), ("rom[0x5676]", 0x12)],
   needs="PSHU of the S register when the pages of U and S differ", breaks="high byte of S pushed by PSHU"),
 "S028": dict(property="C06", sim="m6809",
   edits=[(M09 + "m6809.cc", "	  i8= fetch();\n	  tick(1);\n	  off= i8;\n	  iv= PC;", "	  op8= fetch();\n	  tick(1);\n	  off= op8;\n	  iv= PC;"), (M09 + "m6809.cc", "cl_m6809::index2ea(u8_t idx, t_addr *res_ea)\n{\n", "cl_m6809::index2ea(u8_t idx, t_addr *res_ea)\n{\n  u8_t op8;\n")],
   cmds=["set mem rom 0x200 0x30 0x8c 0xf0", "pc 0x200", "step"], want=[("X", 0x1f3)],
   needs="program counter relative indexing with a negative 8 bit offset", breaks="negative offsets from PC are taken as positive"),
 "S029": dict(property="C07", sim="m68hc11",
   edits=[(MOT + "m68hc11.cc", "  if (newc) f|= (flagC|flagV);\n  cF.W(f);", "  if (newc) f|= flagC;\n  if (newc && rD) f|= flagV;\n  cF.W(f);")],
   cmds=["set mem rom 0 4", "expr D=1", "expr CC=0xc0", "pc 0", "step"], want=[("D", 0), ("CC&0xf", 7)],
   needs="LSRD of the value 1", breaks="overflow flag of LSRD"),
 "S030": dict(property="C07", sim="m68hc11",
   edits=[(MOT + "m68hc11.cc", "  if ((~op & m) == 0)\n    branch(PC+r, true);", "  if (op & m)\n    branch(PC+r, true);")],
   cmds=["set mem rom 0x100 0x12 0x20 0x03 0x10", "set mem rom 0x20 1", "pc 0x100", "step"], want=[("PC", 0x104)],
   needs="BRSET with a mask of several bits of which only some are set", breaks="BRSET branches although not every bit of the mask is set"),
 "S031": dict(property="C13", sim="i8048",
   edits=[(S48 + "arith.cc", "      if (rA > 0xf9) rF|= flagC;", "      if (rA > 0xfa) rF|= flagC;")],
   cmds=["set mem rom 0 0x23 0xfa 0x57 0xa8", "pc 0", "step", "step", "step"], want=[("iram[0]", 0x60)],
   needs="DA A with 0xFA in the accumulator", breaks="decimal adjust when the low digit carries to 0x100"),
 "S032": dict(property="C13", sim="i8048",
   edits=[(S48 + "i8020.cc", "  u8_t spa= (spb-1)&7;", "  u8_t spa= spb?spb-1:0;")],
   cmds=["set mem rom 0x10 0x83", "set mem iram 8 0x33 0x00", "set mem iram 0x16 0x44 0x01", "pc 0x10", "step"], want=[("PC", 0x144)],
   needs="RET when the stack pointer wraps from 0 to 7", breaks="stack pointer underflow of RET"),
 "S033": dict(property="C43", sim="stm8",
   edits=[("core/sim.src/var.cc", "      bitnr_high= ibitnr_low;", "      bitnr_high= ibitnr_high;")],
   cmds=["set mem rom 0 0x54", "var bb rom 0 5 2"], want=[("bb", 5)],
   needs="a variable of bits given with the low bit last", breaks="the bits of the variable"),
 "S035": dict(property="C21", sim="s51", args=["-t", "52"],
   edits=[("sims/s51.src/uc51.cc", "  if (sfr->get(IP) & /*ie_mask*/nuof_it)", "  if ((sfr->get(IP) & 0x3f) >= /*ie_mask*/nuof_it)")],
   cmds=["set mem sfr 0xa8 0x85", "set mem sfr 0xb8 0x04", "set mem sfr 0x88 0x0f", "set mem rom 0x100 0 0", "pc 0x100", "step"], want=[("PC", 0x13)],
   needs="two requests in the same cycle, the later one in polling order with the higher priority", breaks="priority of a source is taken from the priorities of others"),
 "S036": dict(property="C21", sim="s51", args=["-t", "52"],
   edits=[("sims/s51.src/interrupt.cc", "	  !(p3n & bm_INT1) &&\n", "	  !(p3n & bm_INT1) && (p3n & bm_INT0) &&\n")],
   cmds=["set mem sfr 0x88 0x04", "set mem rom 0x100 0x75 0xb0 0xfb 0x75 0xb0 0xf3", "pc 0x100", "step", "step"], want=[("sfr[0x88]&8", 8)],
   needs="falling edge of INT1 while INT0 is low", breaks="edge request of INT1 is lost"),
 "S037": dict(property="C22", sim="s51", args=["-t", "52"],
   edits=[("sims/s51.src/timer0.cc", "  if ((cell_tcon->get() & bmTR1) != 0)", "  if ((cell_tcon->get() & (bmTR1|bmTR0)) == bmTR1)")],
   cmds=["set mem rom 0x100 0x75 0x89 3 0x75 0x88 0x50 0 0 0 0", "set mem sfr 0x8c 0", "pc 0x100", "step", "step", "set mem sfr 0x8c 0", "step", "step", "step"], want=[("sfr[0x8c]", 3)],
   needs="timer 0 in mode 3 with both halves running", breaks="the high half stops while the low one runs"),
 "S038": dict(property="C22", sim="s51", args=["-t", "52"],
   edits=[("sims/s51.src/timer2.cc", "      EXEN2 = n & bmEXEN2;", "      EXEN2 = (RCLK || TCLK) ? 0 : n & bmEXEN2;")],
   cmds=["set mem rom 0x100 0x75 0xc8 0x18 0 0x75 0x90 0xfd 0", "pc 0x100", "step", "step", "step", "step"], want=[("sfr[0xc8]", 0x58)],
   needs="falling edge of T2EX while timer 2 is the baud rate generator", breaks="the additional interrupt of the baud rate mode is lost"),
 "S039": dict(property="C33", sim="stm8",
   edits=[("sims/stm8.src/glob.cc", "  { 0x00dd, 0x00ff, ' ', 2, \"call ([%1.w],Y)\", true },", "  { 0x00dd, 0x00ff, ' ', 2, \"call ([%1.w],Y)\" },")],
   cmds=["set mem rom 0x100 0x91 0xdd 0x10 0x9d", "set mem rom 0x10 0x02 0x00", "set mem rom 0x210 0x9d 0x9d 0x81", "expr Y=0x10", "expr SP=0x17f0", "pc 0x100", "next"], want=[("PC", 0x103)],
   needs="stepping over an indirect indexed call with Y", breaks="next enters the subroutine"),
 "S040": dict(property="C33", sim="m6809",
   edits=[("sims/m6809.src/m6809.cc", "      if (il==9||il==13||il==15)", "      if (il==9||il==13)")],
   cmds=["set mem rom 0x100 0xad 0x9f 0x10 0x00 0x4c 0x4c 0x20 0xfe", "set mem rom 0x1000 0x02 0x00", "set mem rom 0x200 0x39", "expr S=0x3ff", "pc 0x100", "next"], want=[("PC", 0x104)],
   needs="stepping over JSR through an extended indirect address", breaks="length of extended indirect operands: next stops at the wrong place"),
 "S041": dict(property="C33", sim="z80",
   edits=[("sims/z80.src/glob.cc", "  { 0x0036, 0x00ff, ' ', 3, \"LD (IX+%d),%b\" },", "  { 0x0036, 0x00ff, ' ', 2, \"LD (IX+%d),%b\" },")],
   demo=CONF % ("z80", ["set mem rom 0 0xdd 0x36 0x05 0x42 0x3c 0xdd 0x36 0x07 0x11 0x3d", "dis 0 3"], [r"0x0+4\s+3c", r"0x0+9\s+3d"]),
   needs="a listing over LD (IX+d),n (the prefix's own table)", breaks="the listing loses synchronisation"),
 "S042": dict(property="C44", sim="s51",
   edits=[("core/sim.src/uc.cc", "(il->level >= 0 && (t->get_type() == TICK_INISR))", "(il->level > 0 && (t->get_type() == TICK_INISR))")],
   demo=CONF % ("s51", ["set mem sfr 0xa8 0x81", "set mem sfr 0x88 0x03", "set mem rom 3 0 0 0 0", "pc 0x100", "step", "step", "step", "state"], [r"Time in isr = \S+ sec \((2[4-9]|3\d|4\d) clks"]),
   needs="an interrupt of the lowest level", breaks="time of interrupt service is not counted"),
 "S043": dict(property="C44", sim="stm8",
   edits=[("core/sim.src/uc.cc", "  if (t == nh)\n    t= (t+1)%len;", "  if (t == nh)\n    t= t+1;")],
   demo=CONF % ("stm8", ["fill rom 0 60000 0x9d", "set mem rom 20100 0x20 0xfe", "pc 0", "step 20050", "history info"], [r"used: 10000"]),
   needs="a history that has been filled twice", breaks="the history becomes longer than its buffer"),
 "S044": dict(property="C15", sim="pblaze", args=["-t", "KCPSM6"],
   edits=[("sims/pblaze.src/inst.cc", "  FLAGS_SET_Z((result == 0) && FLAGS_GET_Z);\n\n  // algorithm", "  FLAGS_SET_Z((result == 0) || FLAGS_GET_Z);\n\n  // algorithm")],
   cmds=["set mem rom 0 0x0e010", "set mem sfr 0 1", "set mem sfr 1 1", "set mem sfr 0x20 2", "pc 0", "step"], want=[("sfr[0x20]&2", 0)],
   needs="TESTCY with a non-zero result while Z is set", breaks="Z of the extended test"),
 "S045": dict(property="C15", sim="pblaze", args=["-t", "KCPSM6"],
   edits=[("sims/pblaze.src/inst.cc", "    if (active_regbank == REGISTER_BANK_B) {", "    if (active_regbank == REGISTER_BANK_B && (first_operand || reg_code != 0xf)) {")],
   cmds=["set mem rom 0 0x37001", "set mem rom 1 0x000f0", "set mem sfr 0x1f 0x55", "set mem sfr 0xf 0xaa", "pc 0", "step", "step"], want=[("sfr[0x10]", 0x55)],
   needs="sF as the second operand in bank B", breaks="register bank of the second operand"),
 "S046": dict(property="C15", sim="pblaze", args=["-t", "KCPSM3"],
   edits=[("sims/pblaze.src/pblaze.cc", "    interrupt->preserved_flag_c = FLAGS_GET_C;\n", "    interrupt->preserved_flag_c = FLAGS_GET_C && !FLAGS_GET_Z;\n")],
   cmds=["set mem rom 0 0x3c001", "set mem rom 1 0x00000", "set mem rom 0x3ff 0x38001", "set mem sfr 0x20 3", "set mem sfr 0x21 0", "pc 0", "step", "set hw irq 1", "step", "step"], want=[("sfr[0x20]&3", 3)],
   needs="an interrupt while both C and Z are set", breaks="C after RETURNI"),
 "S047": dict(property="C12", sim="pdk", args=["-t", "PDK14"],
   edits=[("sims/pdk.src/inst.cc", "if (initial < value + carry) f|= BIT_C;", "if (initial < (u8_t)(value + carry)) f|= BIT_C;")],
   cmds=["set mem rom 0 0x0d85", "set mem ram 5 0xff", "set mem regs8 0 2", "expr A=5", "pc 0", "step"], want=[("regs8[0]&2", 2)],
   needs="subtraction with borrow of an operand of 0xff", breaks="C of subc"),
 "S048": dict(property="C12", sim="pdk", args=["-t", "PDK15"],
   edits=[("sims/pdk.src/pdk15.cc", "cA.W(rd8(rd8(code & 0xFE)));", "cA.W(rd8(rd8(code & 0x7E)));")],
   cmds=["set mem rom 0 0x0785", "set mem ram 0x84 0x40", "set mem ram 0x40 0x5a", "set mem ram 4 0x41", "pc 0", "step"], want=[("A", 0x5a)],
   needs="idxm through a pointer in the upper half of the RAM", breaks="address of the pointer"),
 "S049": dict(property="C12", sim="pdk", args=["-t", "PDK13"],
   edits=[("sims/pdk.src/pdk13.cc", "    // ret\n    cSP->W(rSP-2);\n    PC = get_mem(rSP) | (get_mem(rSP + 1) << 8);", "    // ret\n    cSP->W(rSP-2);\n    PC = get_mem(rSP) | ((get_mem(rSP + 1) & 1) << 8);")],
   cmds=["set mem rom 0x300 0x1c10", "set mem rom 0x10 0x3a", "set mem regs8 2 0x20", "expr PC0=0x300", "step", "step"], want=[("PC0", 0x301)],
   needs="return to the upper half of the program", breaks="PC after ret"),
 "S050": dict(property="C16", sim="p1516", args=["-t", "P1516"],
   edits=[("sims/p1516.src/p1516.cc", "  if (!(big & 0x80000000) && (F&C))\n", "  if (!(big & 0x80000000) && (F&(C|Z)) == C)\n")],
   cmds=["set mem regs 1 0x80000000", "set mem regs 2 0x80000000", "set mem rom 0 0x07312000", "pc 0", "step"], want=[("F&8", 8), ("R3", 0)],
   needs="the sum of two times the smallest negative number", breaks="overflow flag when the result is zero"),
 "S051": dict(property="C16", sim="p1516", args=["-t", "P2223"],
   edits=[("sims/p1516.src/p2223.cc", "  opa_chg= opa+(u?+1:-1);\n", "  opa_chg= opa+(u||p?+1:-1);\n")],
   cmds=["set mem regs 1 0x100", "set mem regs 2 0", "set mem regs 3 0x55", "set mem rom 0 0x09314200", "pc 0", "step"], want=[("R1", 0xff), ("rom[0xff]", 0x55)],
   needs="pre-decrementing store", breaks="direction of the address register"),
 "S052": dict(property="C16", sim="p1516", args=["-t", "P2223"],
   edits=[("sims/p1516.src/p2223.cc", "	  u32_t mask= 0xff << (i*8);", "	  u32_t mask= i < 3 ? 0xff << (i*8) : 0xf0000000;")],
   cmds=["set mem regs 2 0xff000000", "set mem regs 1 0x10", "set mem rom 0 0x07218103", "pc 0", "step"], want=[("R2", 0x10000000)],
   needs="PUTB into the highest byte", breaks="old bits remain"),
 "S053": dict(property="C46", sim="m6809",
   edits=[("sims/m6809.src/m6809.cc", "  reg.CC= flagI | flagF;\n", "  reg.CC= flagI | (reg.CC & flagF);\n")],
   cmds=["set mem rom 0 0x1c", "set mem rom 1 0xaf", "pc 0", "step", "reset"], want=[("CC&0x50", 0x50)],
   needs="a program that enables FIRQ before the reset", breaks="F after reset"),
 "S054": dict(property="C46", sim="stm8",
   edits=[("sims/stm8.src/stm8.cc", "  regs.CC = 0x28;\n", "  regs.CC|= 0x28;\n")],
   cmds=["set mem rom 0x8000 0x99", "pc 0x8000", "step", "reset"], want=[("CC", 0x28)],
   needs="flags set before the reset", breaks="CC after reset"),
 "S055": dict(property="C46", sim="i8048",
   edits=[("sims/i8048.src/i8020.cc", "  cpsw->W(0);\n  // 4) membank=0\n", "  cpsw->W(psw & 0x10);\n  // 4) membank=0\n")],
   cmds=["set mem rom 0 0xd5", "pc 0", "step", "reset"], want=[("psw&0x17", 0)],
   needs="register bank 1 selected before the reset", breaks="register bank after reset"),
}
