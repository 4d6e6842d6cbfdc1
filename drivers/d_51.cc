// interrupts of the MCS-51
// statics: mem.cc uc.cc
#include "m51.h"

// the six groups of requests, in polling order
struct request { int reg, flags, clears; int addr; };
static struct request requests[6] = {
  { TCON, bmIE0, bmIE0, 0x03 }, { TCON, bmTF0, bmTF0, 0x0b }, { TCON, bmIE1, bmIE1, 0x13 }, { TCON, bmTF1, bmTF1, 0x1b }, { SCON, bmRI | bmTI, 0, 0x23 }, { T2CON, bmTF2 | bmEXF2, 0, 0x2b } };

static int ie, ip, flag[3], level, base;
static int reg_of(int r) { return r == TCON ? 0 : r == SCON ? 1 : 2; }
// which group is to be served; -1 if none
static int choice()
{
  if (!(ie & 0x80))
    return -1;
  for (int pr = 1; pr > level; pr--)
    for (int i = 0; i < 6; i++)
      if ((ie >> i & 1) && (ip >> i & 1) == pr && (flag[reg_of(requests[i].reg)] & requests[i].flags))
        return i;
  return -1;
}
static void setup(int lev)
{
  static void *main_level;
  if (!u) {
    machine51();
    base = u->it_levels->count;
    main_level = u->it_levels->top();
    for (int i = 0; i < 0x80; i++)
      u->rom->set(i, 0);
  }
  u->it_levels = new cl_list(5, 5, "it levels");
  u->it_levels->push(main_level);
  if ((level = lev) >= 0)
    u->it_levels->push(new it_level(lev, 0x0b, 0, 0));
  u->state = stGO;
  u->interrupt->was_reti = false;
  u->PC = 0x42;
  u->sfr->set(SP, 0x40);
  u->sfr->set(PCON, 0);
}
static const int F[8][2] = { { 0, bmIE0 }, { 0, bmTF0 }, { 0, bmIE1 }, { 0, bmTF1 }, { 1, bmRI }, { 1, bmTI }, { 2, bmTF2 }, { 2, bmEXF2 } };
static void outcome(int pushed)
{
  int c = choice(), n = u->it_levels->count - (level >= 0) - base, pc = pushed;
  for (int i = 0; i < 6; i++)
    if (c == i)
      pc = requests[i].addr;
  ucsa_eq("program counter after the interrupt test", u->PC, pc);
  ucsa_eq("stack pointer after the interrupt test", u->sfr->get(SP), c < 0 ? 0x40 : 0x42);
  ucsa_eq("low byte of the return address", u->iram->get(0x41), c < 0 ? 0x55 : pushed);
  ucsa_eq("high byte of the return address", u->iram->get(0x42), c < 0 ? 0x55 : 0);
  int tcon = flag[0];
  for (int i = 0; i < 4; i++)
    if (c == i)
      tcon &= ~requests[i].clears;
  ucsa_eq("only the flag of the served request is cleared", u->sfr->get(TCON), tcon);
  ucsa_eq("flags of the serial port stay", u->sfr->get(SCON), flag[1]);
  ucsa_eq("flags of timer 2 stay", u->sfr->get(T2CON), flag[2]);
  ucsa_eq("interrupt enable register", u->sfr->get(IE), ie);
  ucsa_eq("interrupt priority register", u->sfr->get(IP), ip);
  ucsa_eq("number of active interrupt levels", n, c >= 0);
  ucsa_eq("level of the served interrupt", ((it_level *)u->it_levels->top())->level, c < 0 ? level : ip >> c & 1);
  ucsa_eq("processor state after the interrupt test", u->state, stGO);
}
static void pair(int i, int j, int lev)
{
  setup(lev);
  u->iram->set(0x41, 0x55), u->iram->set(0x42, 0x55);
  flag[0] = flag[1] = flag[2] = 0;
  flag[F[i][0]] |= ucsa_sym("first", 1) ? F[i][1] : 0;
  flag[F[j][0]] |= ucsa_sym("second", 1) ? F[j][1] : 0;
  ie = ucsa_sym("ie", 8), ip = ucsa_sym("ip", 6);
  u->sfr->set(TCON, flag[0]), u->sfr->set(SCON, flag[1]), u->sfr->set(T2CON, flag[2]);
  u->sfr->set(IE, ie), u->sfr->set(IP, ip);
  u->do_inst();
  outcome(0x43);
}
static void pairs(int i) { for (int j = i + 1; j < 8; j++) for (int lev = -1; lev < 2; lev++) pair(i, j, lev); }
extern "C" void d_pairs0() { pairs(0); }
extern "C" void d_pairs1() { pairs(1); }
extern "C" void d_pairs2() { pairs(2); }
extern "C" void d_pairs3() { pairs(3); pairs(4); }
extern "C" void d_pairs5() { pairs(5); pairs(6); }

// the instruction before decides whether a request is served now
static void code(int a, int b = 0, int c = 0, int d = 0)
{
  u->rom->set(0x42, a), u->rom->set(0x43, b), u->rom->set(0x44, c), u->rom->set(0x45, d);
}
static void pending(int f, int e, int p)
{
  flag[0] = flag[1] = flag[2] = 0;
  flag[F[f][0]] = F[f][1];
  ie = e, ip = p;
  u->sfr->set(TCON, flag[0]), u->sfr->set(SCON, flag[1]), u->sfr->set(T2CON, flag[2]);
  u->sfr->set(IE, ie), u->sfr->set(IP, ip);
  u->iram->set(0x41, 0x55), u->iram->set(0x42, 0x55);
}
static void delayed(const char *what, int next, int e, int p)
{
  u->do_inst();
  ucsa_eq(what, u->PC, next);
  ucsa_eq(what, u->it_levels->count - base, level >= 0);
  ie = e, ip = p;
  u->do_inst();
  outcome(next + 1);
}
extern "C" void d_after_write()
{
  for (int f = 0; f < 8; f++) {
    int v;
    setup(-1); v = ucsa_sym("value", 8); code(0x75, IE, v); pending(f, 0xbf, 0); delayed("no interrupt right after MOV IE", 0x45, v, 0);
    setup(-1); v = ucsa_sym("value", 6); code(0x75, IP, v); pending(f, 0xbf, 0); delayed("no interrupt right after MOV IP", 0x45, 0xbf, v);
    setup(-1); code(0xd2, IE + 7); pending(f, v = ucsa_sym("ie", 7), 0); delayed("no interrupt right after SETB EA", 0x44, v | 0x80, 0);
    setup(-1); code(0xc2, IP); pending(f, 0xbf, v = ucsa_sym("ip", 6)); delayed("no interrupt right after CLR PX0", 0x44, 0xbf, v & ~1);
    setup(-1); code(0x75, 0xd0, 0); pending(f, v = ucsa_sym("ie", 8), 0); u->do_inst(); outcome(0x45);
    setup(-1); code(0xe5, IE); pending(f, v = ucsa_sym("ie", 8), 0); u->do_inst(); outcome(0x44);
  }
}
extern "C" void d_reti()
{
  for (int f = 0; f < 8; f++)
    for (int lev = 0; lev < 2; lev++) {
      setup(lev);
      pending(f, ucsa_sym("ie", 8), ucsa_sym("ip", 6));
      u->sfr->set(SP, 0x42);
      int ret = ucsa_sym("return", 6);
      u->iram->set(0x42, 0), u->iram->set(0x41, ret);
      code(0x32);
      u->do_inst();
      ucsa_eq("RETI returns, no interrupt right after it", u->PC, ret);
      ucsa_eq("RETI ends the level", u->it_levels->count, base);
      ucsa_eq("stack pointer after RETI", u->sfr->get(SP), 0x40);
    }
  for (int f = 0; f < 8; f++) {
    setup(0);
    pending(f, ucsa_sym("ie", 8), ucsa_sym("ip", 6));
    u->sfr->set(SP, 0x42);
    u->iram->set(0x42, 0), u->iram->set(0x41, 0x50);
    code(0x32);
    u->do_inst();
    u->iram->set(0x41, 0x55), u->iram->set(0x42, 0x55);
    level = -1;
    u->do_inst();
    outcome(0x51);
  }
  for (int f = 0; f < 8; f++) { // RET does not end the level
    setup(1);
    pending(f, 0xbf, ucsa_sym("ip", 6));
    u->sfr->set(SP, 0x42);
    u->iram->set(0x42, 0), u->iram->set(0x41, 0x50);
    code(0x22);
    u->do_inst();
    ucsa_eq("no interrupt in a high level one", u->PC, 0x50);
    ucsa_eq("RET does not end the level", u->it_levels->count, base + 1);
  }
}
extern "C" void d_idle()
{
  for (int f = 0; f < 8; f++)
    for (int lev = -1; lev < 2; lev++) {
      setup(lev);
      pending(f, ucsa_sym("ie", 8), ucsa_sym("ip", 6));
      u->state = stIDLE;
      int p = ucsa_sym("pcon", 7) & 0x7c;
      u->sfr->set(PCON, p | bmIDL);
      u->do_inst();
      bool served = choice() >= 0;
      ucsa_eq("idle mode goes on until an interrupt", u->state, served ? stGO : stIDLE);
      ucsa_eq("idle bit", u->sfr->get(PCON), served ? p : p | bmIDL);
      if (!served) u->state = stGO;
      outcome(0x42);
    }
  setup(-1);
  pending(0, 0, 0);
  code(0x75, PCON, 1);
  u->do_inst();
  ucsa_eq("setting the idle bit stops the processor", u->state, stIDLE);
  for (int i = 0; i < 3; i++) {
    u->do_inst();
    ucsa_eq("no instruction in idle mode", u->PC, 0x45);
  }
  setup(-1);
  code(0x75, PCON, 2);
  u->do_inst();
  ucsa_eq("setting the power down bit stops the processor", u->state, stPD);
  u->do_inst();
  ucsa_eq("no instruction in power down mode", u->PC, 0x45);
}
// request pins
extern "C" void d_pins()
{
  for (int k = 0; k < 2; k++) {
    int pin = k ? 8 : 4, mode = k ? bmIT1 : bmIT0, flg = k ? bmIE1 : bmIE0;
    setup(-1);
    pending(0, 0, 0);
    int tcon = ucsa_sym("tcon", 8) & 0x05, p1 = ucsa_sym("old", 8), p2 = ucsa_sym("new", 8);
    u->sfr->write(P3, 0xff);
    u->sfr->write(TCON, tcon);
    u->sfr->write(P3, p1);
    u->sfr->write(TCON, tcon);
    u->sfr->write(P3, p2);
    ucsa_eq("an edge of the pin is a request", !!(u->sfr->get(TCON) & flg), (tcon & mode) && (p1 & pin) && !(p2 & pin));
    u->sfr->write(TCON, tcon);
    code(0);
    u->do_inst();
    ucsa_eq("the level of the pin is a request", !!(u->sfr->get(TCON) & flg), !(tcon & mode) && !(p2 & pin));
    ucsa_eq("other flags are not set by pins", u->sfr->get(TCON) & 0xf0, 0);
    u->sfr->write(P3, 0xff);
    u->sfr->write(TCON, 0x05);
  }
}
