// timers of the MCS-51
// statics: mem.cc uc.cc
#include "m51.h"
#include "portcl.h"

static int th, tl, tf, tr, gate, pin; // state of the timer under test
static class cl_port *port1, *port3;
static void setup()
{
  if (!u) {
    machine51();
    for (int i = 0; i < 0x80; i++)
      u->rom->set(i, 0);
    port1 = (class cl_port *)u->get_hw(HW_PORT, 1, 0);
    port3 = (class cl_port *)u->get_hw(HW_PORT, 3, 0);
  }
  u->state = stGO;
  u->PC = 0x42;
  u->sfr->set(IE, 0);
  u->sfr->set(SP, 0x40);
  u->sfr->write(P1, 0xff);
  u->sfr->write(P3, 0xff);
  u->sfr->write(TCON, 5);
  u->sfr->write(TMOD, 0);
  u->sfr->write(T2CON, 0);
  u->sfr->write(T2MOD, 0);
  u->sfr->set(TL0, 0x12), u->sfr->set(TH0, 0x34), u->sfr->set(TL1, 0x56), u->sfr->set(TH1, 0x78), u->sfr->set(TL2, 0x9a), u->sfr->set(TH2, 0xbc);
}
static void code(int a, int b = 0, int c = 0, int d = 0) { u->rom->set(0x42, a), u->rom->set(0x43, b), u->rom->set(0x44, c), u->rom->set(0x45, d); }
static void others(int n)
{
  if (n != 0) ucsa_eq("timer 0 is not disturbed", u->sfr->get(TH0) << 8 | u->sfr->get(TL0), 0x3412);
  if (n != 1) ucsa_eq("timer 1 is not disturbed", u->sfr->get(TH1) << 8 | u->sfr->get(TL1), 0x7856);
  if (n != 2) ucsa_eq("timer 2 is not disturbed", u->sfr->get(TH2) << 8 | u->sfr->get(TL2), 0xbc9a);
}
// timer n (0 or 1) in a mode, everything else arbitrary
static int tmod, tcon;
static void prepare(int n, int mode, int ct, int high = -1)
{
  setup();
  th = high < 0 ? ucsa_sym("th", 8) : high, tl = ucsa_sym("tl", 8), tr = ucsa_sym("tr", 1), gate = ucsa_sym("gate", 1), pin = ucsa_sym("int", 1);
  tcon = 5 | (tr ? n ? bmTR1 : bmTR0 : 0);
  tmod = (mode | (gate ? 8 : 0) | (ct ? 4 : 0)) << (n ? 4 : 0);
  u->sfr->set(n ? TL1 : TL0, tl), u->sfr->set(n ? TH1 : TH0, th);
  u->sfr->write(TMOD, tmod);
  u->sfr->write(TCON, tcon);
}
static void counted(int n, int mode, int k) // result of k pulses
{
  int l = tl, h = th, f = 0;
  if (mode == 0) {
    l &= 31;
    if (l + k > 31) { h++; if (h > 255) f = 1; }
    l = (l + k) & 31, h &= 255;
  }
  else if (mode == 1) {
    if (l + k > 255) { h++; if (h > 255) f = 1; }
    l = (l + k) & 255, h &= 255;
  }
  else if (mode == 2)
    for (int i = 0; i < k; i++) { if (l == 255) l = h, f = 1; else l++; }
  ucsa_eq("low byte of the counter", u->sfr->get(n ? TL1 : TL0) & (mode ? 255 : 31), l);
  ucsa_eq("high byte of the counter", u->sfr->get(n ? TH1 : TH0), h);
  ucsa_eq("overflow flag, other flags stay", u->sfr->get(TCON), tcon | (f ? n ? bmTF1 : bmTF0 : 0));
  ucsa_eq("mode register stays", u->sfr->get(TMOD), tmod);
  others(n);
}
static void timer(int n, int mode)
{
  static const int op[3] = { 0x00, 0xa3, 0xa4 }, cyc[3] = { 1, 2, 4 };
  for (int i = 0; i < 3; i++) {
    prepare(n, mode, 0);
    code(op[i]);
    if (!pin) u->sfr->write(P3, n ? 0xf7 : 0xfb);
    u->sfr->write(TCON, tcon);
    u->do_inst();
    int on = tr && (!gate || pin);
    counted(n, mode, on ? cyc[i] : 0);
  }
}
extern "C" void d_timer0_mode0() { timer(0, 0); }
extern "C" void d_timer0_mode1() { timer(0, 1); }
extern "C" void d_timer0_mode2() { timer(0, 2); }
extern "C" void d_timer1_mode0() { timer(1, 0); }
extern "C" void d_timer1_mode1() { timer(1, 1); }
extern "C" void d_timer1_mode2() { timer(1, 2); }
extern "C" void d_timer1_mode3() { timer(1, 3); }
extern "C" void d_timer0_mode3()
{
  for (int ct = 0; ct < 2; ct++) {
    prepare(0, 3, ct);
    int tr1 = ucsa_sym("tr1", 1);
    tcon |= tr1 ? bmTR1 : 0;
    u->sfr->write(TMOD, tmod | 0x30);
    code(0);
    if (!pin) u->sfr->write(P3, 0xfb);
    u->sfr->write(TCON, tcon);
    u->do_inst();
    int on = tr && (!gate || pin) && !ct, l = tl + on, h = th + tr1;
    ucsa_eq("mode 3: low counter", u->sfr->get(TL0), l & 255);
    ucsa_eq("mode 3: high counter", u->sfr->get(TH0), h & 255);
    ucsa_eq("mode 3: overflow flags", u->sfr->get(TCON), tcon | (l > 255 ? bmTF0 : 0) | (h > 255 ? bmTF1 : 0));
    others(0);
  }
}
// pulses of the input pin
static void pulses(int n, int mode, int by_pin, int high)
{
  prepare(n, mode, 1, high);
  int t = n ? bmT1 : bmT0, i = n ? 8 : 4, before = ucsa_sym("before", 1), after = ucsa_sym("after", 1);
  int p1 = 0xff & ~(before ? 0 : t) & ~i, p2 = 0xff & ~(after ? 0 : t) & ~(pin ? 0 : i);
  if (by_pin) {
    port3->set_pin(p1);
    u->sfr->write(TCON, tcon);
    port3->set_pin(p2);
    code(0);
    u->do_inst();
  }
  else {
    u->sfr->write(P3, p1);
    u->sfr->write(TCON, tcon);
    code(0x75, P3, p2);
    u->do_inst();
  }
  int on = tr && (!gate || pin) && before && !after;
  counted(n, mode, on);
  code(0, 0, 0, 0);
  u->do_inst();
  counted(n, mode, on);
  if (by_pin) port3->set_pin(0xff);
}
extern "C" void d_counter0() { for (int mode = 0; mode < 3; mode++) pulses(0, mode, 0, 0xff), pulses(0, mode, 0, 0x3e); }
extern "C" void d_counter1() { for (int mode = 0; mode < 3; mode++) pulses(1, mode, 0, 0xff), pulses(1, mode, 0, 0x3e); }
extern "C" void d_counter0_pins() { for (int mode = 0; mode < 3; mode++) pulses(0, mode, 1, 0xff), pulses(0, mode, 1, 0x3e); }
extern "C" void d_counter1_pins() { for (int mode = 0; mode < 3; mode++) pulses(1, mode, 1, 0xff), pulses(1, mode, 1, 0x3e); }
// pulses that come while the gate is closed or the counter is stopped are lost
extern "C" void d_lost_pulses()
{
  for (int n = 0; n < 2; n++) {
    int t = n ? bmT1 : bmT0, i = n ? 8 : 4;
    prepare(n, 1, 1);
    u->sfr->write(P3, 0xff & ~i);
    u->sfr->write(TCON, tcon);
    code(0x53, P3, 0xff & ~t); // ANL
    u->do_inst();
    counted(n, 1, tr && !gate);
    th = u->sfr->get(n ? TH1 : TH0), tl = u->sfr->get(n ? TL1 : TL0);
    tcon = u->sfr->get(TCON);
    u->PC = 0x42;
    code(0x43, P3, i); // ORL
    u->do_inst();
    u->do_inst();
    counted(n, 1, 0);
    prepare(n, 1, 1);
    u->sfr->write(TCON, tcon = 5);
    u->sfr->write(P3, 0xff & ~t);
    code(0, 0xd2, n ? 0x8e : 0x8c); // NOP, SETB TR
    u->do_inst();
    u->do_inst();
    tcon |= n ? bmTR1 : bmTR0;
    u->do_inst();
    counted(n, 1, 0);
  }
}
// starting and stopping by instructions
extern "C" void d_run_bit()
{
  for (int n = 0; n < 2; n++)
    for (int way = 0; way < 4; way++) {
      prepare(n, 1, 0);
      u->sfr->write(TMOD, tmod = n ? 0x10 : 1);
      int bit = n ? 0x8e : 0x8c, mask = n ? bmTR1 : bmTR0, v = ucsa_sym("value", 8) & 0x50;
      if (way == 0) code(0xd2, bit);            // SETB
      else if (way == 1) code(0xc2, bit);       // CLR
      else if (way == 2) code(0xb2, bit);       // CPL
      else code(0x75, TCON, v | 5);             // MOV
      u->do_inst();
      int on = way == 0 ? 1 : way == 1 ? 0 : way == 2 ? !tr : !!(v & mask);
      int v1 = u->sfr->get(n ? TH1 : TH0) << 8 | u->sfr->get(n ? TL1 : TL0);
      u->do_inst();
      int v2 = u->sfr->get(n ? TH1 : TH0) << 8 | u->sfr->get(n ? TL1 : TL0);
      ucsa_eq("the run bit starts and stops the timer", v2, (v1 + on) & 0xffff);
    }
}

// timer 2
static int t2con, rcap;
static void prepare2(int con, int high = -1)
{
  setup();
  th = high < 0 ? ucsa_sym("th", 8) : high, tl = ucsa_sym("tl", 8), tr = ucsa_sym("tr", 1), rcap = high < 0 ? ucsa_sym("rcap", 16) : 0xa500 | ucsa_sym("rcap", 8);
  t2con = con | (tr ? bmTR2 : 0);
  u->sfr->set(TL2, tl), u->sfr->set(TH2, th), u->sfr->set(RCAP2L, rcap & 255), u->sfr->set(RCAP2H, rcap >> 8);
  u->sfr->write(T2CON, t2con);
}
static void counted2(int k, int reload, int flag) // k pulses counted up
{
  int v = th << 8 | tl, over = v + k > 0xffff, n = (v + k) & 0xffff;
  if (over && reload) n = (rcap + n) & 0xffff; // reloaded at the overflow, the rest is counted
  ucsa_eq("timer 2 counter", u->sfr->get(TH2) << 8 | u->sfr->get(TL2), n);
  ucsa_eq("timer 2 control: overflow flag, other bits stay", u->sfr->get(T2CON), t2con | (over && flag ? bmTF2 : 0));
  ucsa_eq("timer 2 reload register", u->sfr->get(RCAP2H) << 8 | u->sfr->get(RCAP2L), rcap);
  others(2);
}
static void timer2(int con, int mul, int reload, int flag)
{
  static const int op[3] = { 0x00, 0xa3, 0xa4 }, cyc[3] = { 1, 2, 4 };
  static const int high[3] = { 0x00, 0x7f, 0xff };
  for (int i = 0; i < 9; i++) {
    prepare2(con, high[i / 3]);
    code(op[i % 3]);
    u->do_inst();
    counted2(tr ? cyc[i % 3] * mul : 0, reload, flag);
  }
}
extern "C" void d_timer2_reload() { timer2(0, 1, 1, 1); }
extern "C" void d_timer2_exen() { timer2(bmEXEN2, 1, 1, 1); }
extern "C" void d_timer2_capture() { timer2(bmCP_RL2, 1, 0, 1); }
extern "C" void d_timer2_rclk() { timer2(bmRCLK, 6, 1, 0); }
extern "C" void d_timer2_tclk() { timer2(bmTCLK | bmCP_RL2, 6, 1, 0); }
static void counter2(int con, int reload, int flag)
{
  for (int by_pin = 0; by_pin < 4; by_pin++) {
    prepare2(con | bmC_T2, by_pin < 2 ? 0xff : 0x3f);
    int before = ucsa_sym("before", 1), after = ucsa_sym("after", 1), p1 = 0xff & ~(before ? 0 : bmT2), p2 = 0xff & ~(after ? 0 : bmT2);
    if (by_pin & 1) {
      port1->set_pin(p1);
      code(0);
      u->do_inst();
      u->sfr->set(TL2, tl), u->sfr->set(TH2, th);
      u->sfr->write(T2CON, t2con);
      port1->set_pin(p2);
      u->do_inst();
    }
    else {
      u->sfr->write(P1, p1);
      code(0);
      u->do_inst();
      u->sfr->set(TL2, tl), u->sfr->set(TH2, th);
      u->sfr->write(T2CON, t2con);
      u->PC = 0x42;
      code(0x75, P1, p2);
      u->do_inst();
    }
    counted2(tr && before && !after, reload, flag);
    u->do_inst();
    counted2(tr && before && !after, reload, flag);
    port1->set_pin(0xff);
  }
}
extern "C" void d_counter2_reload() { counter2(0, 1, 1); }
extern "C" void d_counter2_capture() { counter2(bmCP_RL2, 0, 1); }
extern "C" void d_counter2_baud() { counter2(bmRCLK, 1, 0); }
// the T2EX pin, timer stopped
static void t2ex(int con, int reload, int capture)
{
  for (int ex = 0; ex < 2; ex++) {
    prepare2(con | (ex ? bmEXEN2 : 0));
    ucsa_assume(!tr);
    int before = ucsa_sym("before", 1), after = ucsa_sym("after", 1), p1 = 0xff & ~(before ? 0 : bmT2EX), p2 = 0xff & ~(after ? 0 : bmT2EX);
    u->sfr->write(T2CON, con);
    u->sfr->write(P1, p1);
    code(0, 0, 0, 0);
    u->do_inst();
    u->sfr->write(T2CON, t2con);
    u->PC = 0x42;
    code(0x75, P1, p2);
    u->do_inst();
    int edge = ex && before && !after;
    ucsa_eq("falling edge of T2EX: counter", u->sfr->get(TH2) << 8 | u->sfr->get(TL2), edge && reload ? rcap : th << 8 | tl);
    ucsa_eq("falling edge of T2EX: reload register", u->sfr->get(RCAP2H) << 8 | u->sfr->get(RCAP2L), edge && capture ? th << 8 | tl : rcap);
    ucsa_eq("falling edge of T2EX: flag", u->sfr->get(T2CON), t2con | (edge ? bmEXF2 : 0));
    // an edge that came before EXEN2 was set is no event
    if (!ex) {
      u->sfr->write(T2CON, con | bmEXEN2);
      u->do_inst();
      ucsa_eq("edge of T2EX before it was enabled", u->sfr->get(T2CON), con | bmEXEN2);
    }
  }
}
extern "C" void d_t2ex_reload() { t2ex(0, 1, 0); }
extern "C" void d_t2ex_capture() { t2ex(bmCP_RL2, 0, 1); }
extern "C" void d_t2ex_baud() { t2ex(bmTCLK, 0, 0); }
// up and down counting
extern "C" void d_timer2_down()
{
  static const int high[4] = { 0xa5, 0xff, 0xa6, 0x00 };
  for (int order = 0; order < 8; order++) {
    prepare2(0, high[order / 2]);
    int up = ucsa_sym("t2ex", 1), v = th << 8 | tl;
    if (high[order / 2] < 0xa5) u->sfr->set(RCAP2H, 0), rcap &= 0xff;
    ucsa_assume(v >= rcap);
    if (order & 1) u->sfr->write(T2CON, 0), u->sfr->write(T2MOD, 1), u->sfr->write(T2CON, t2con);
    else u->sfr->write(T2MOD, 1);
    u->sfr->write(P1, up ? 0xff : 0xff & ~bmT2EX);
    code(0);
    u->do_inst();
    int event = tr && (up ? v == 0xffff : v == rcap);
    ucsa_eq("up and down counting of timer 2", u->sfr->get(TH2) << 8 | u->sfr->get(TL2), event ? up ? rcap : 0xffff : (v + (tr ? up ? 1 : -1 : 0)) & 0xffff);
    ucsa_eq("flags of up and down counting", u->sfr->get(T2CON), t2con | (event ? bmTF2 | bmEXF2 : 0));
    ucsa_eq("port latch is not changed by timer 2", u->sfr->get(P1), up ? 0xff : 0xff & ~bmT2EX);
  }
  prepare2(0, 0x3f);
  u->sfr->write(T2MOD, 1);
  u->sfr->write(T2MOD, 0);
  u->sfr->write(P1, 0xff & ~bmT2EX);
  code(0);
  u->do_inst();
  counted2(tr, 1, 1);
}
extern "C" void d_t2_bits()
{
  prepare2(0, 0x3f);
  int way = ucsa_pick("way", 0, 2);
  code(way == 0 ? 0xd2 : way == 1 ? 0xc2 : 0xb2, T2CON + 2);
  u->do_inst();
  int v = u->sfr->get(TH2) << 8 | u->sfr->get(TL2);
  u->do_inst();
  ucsa_eq("TR2 starts and stops timer 2", u->sfr->get(TH2) << 8 | u->sfr->get(TL2), v + (way == 0 ? 1 : way == 1 ? 0 : !tr));
}
// time and timers go on together, whatever the processor does
extern "C" void d_every_cycle()
{
  for (int k = 0; k < 8; k++) {
    prepare(0, 1, 0);
    u->sfr->write(TMOD, 1);
    u->sfr->write(TCON, 0x15);
    u->sfr->set(IP, 0);
    if (u->it_levels->count > 1) u->it_levels->pop();
    u->interrupt->was_reti = false;
    u->sfr->set(IE, 0);
    switch (k) {
    case 0: code(0); break;
    case 1: code(0x84); u->sfr->set(0xf0, 3); break;       // DIV AB
    case 2: code(0x02, 0, 0x60); break;                    // LJMP
    case 3: code(0x85, 0x30, 0x31); break;                 // MOV dir,dir
    case 4: code(0xd8, 0x10); break;                       // DJNZ
    case 5: case 6: case 7: code(0); u->sfr->set(IE, 0x84); u->sfr->set(TCON, 0x1d); break; // interrupt
    }
    if (k == 6) u->state = stIDLE, u->sfr->set(PCON, 1);
    if (k == 7) u->sfr->set(IE, 0);
    int v = u->sfr->get(TH0) << 8 | u->sfr->get(TL0);
    ucsa_assume(v < 0xff00);
    t_addr t = u->ticks->get_ticks();
    u->do_inst();
    t = u->ticks->get_ticks() - t;
    ucsa_eq("some time has gone", t != 0, 1);
    ucsa_eq("timer counts every machine cycle", (unsigned int)(u->sfr->get(TH0) << 8 | u->sfr->get(TL0)) * 12, v * 12 + (unsigned int)t);
    u->state = stGO;
    u->sfr->set(PCON, 0);
  }
}
