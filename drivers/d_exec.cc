// execution of instructions: steps, clocks, counters, results, interrupts, history
// statics: mem.cc uc.cc
#include "machine.h"
#include "itsrccl.h"

// every instruction does what the driver says
static int res_at, res_is, moves, cpc = 1, spend[4];
static bool enabled, bad_inst, rep;
static int prio[4], prio_main;
class x_uc: public t_uc {
public:
  x_uc(class cl_sim *s): t_uc(s) {}
  int execs;
  virtual int clock_per_cycle(void) { return cpc; }
  virtual int exec_inst(void) {
    t_mem code;
    if (fetch(&code)) return resBREAKPOINT;
    tick(spend[execs & 3]);
    if (execs++ == res_at) {
      repeating = rep;
      if (moves == 0) PC = instPC;
      if (moves == 2) fetch();
      if (bad_inst) inst_unknown(code);
      return res_is;
    }
    return resGO;
  }
  virtual bool it_enabled(void) { return enabled; }
  virtual int priority_of(uchar nr) { return prio[nr]; }
  virtual int priority_main() { return prio_main; }
};
class x_sim: public t_sim {
public:
  x_sim(class cl_app *a): t_sim(a) {}
  virtual class cl_uc *mk_controller(void) { return new x_uc(this); }
};
static x_uc *x;
static void xmachine()
{
  app = new t_app();
  application = app;
  app->setup();
  sim = new x_sim(app);
  app->sim = sim;
  sim->init();
  uc = x = (x_uc *)sim->uc;
  x->execs = 0;
  res_at = -1;
  moves = 1;
  cpc = 1;
  for (int i = 0; i < 4; i++) spend[i] = 1;
  enabled = bad_inst = rep = false;
}
static int run(int most)
{
  int i = 0;
  while ((sim->state & SIM_GO) && i < most) { sim->step(); i++; }
  return i;
}
class x_hw: public cl_hw {
public:
  int n;
  x_hw(cl_uc *u, int i): cl_hw(u, HW_TIMER, i, "x") { n = 0; }
  virtual unsigned int cfg_size(void) { return 0; }
  virtual int tick(int c) { n += c; return 0; }
};

// a step is one instruction; its cycles reach every clock
extern "C" void d_steps()
{
  xmachine();
  int n = ucsa_pick("steps", 1, 4);
  cpc = ucsa_pick("clocks", 1, 3);
  int a = spend[0] = ucsa_pick("first", 0, 3), b = spend[1] = ucsa_pick("second", 0, 2);
  x_hw *in = new x_hw(uc, 1), *out = new x_hw(uc, 2), *off = new x_hw(uc, 3);
  in->init(); out->init(); off->init();
  in->flags |= HWF_INSIDE;
  out->flags &= ~HWF_INSIDE;
  off->flags |= HWF_INSIDE;
  off->on = false;
  uc->add_hw(in); uc->add_hw(out); uc->add_hw(off);
  int inst0 = uc->vc.inst, f0 = uc->vc.fetch;
  u32_t t0 = uc->ticks->get_ticks(), i0 = uc->isr_ticks->get_ticks(), d0 = uc->idle_ticks->get_ticks(), h0 = uc->halt_ticks->get_ticks();
  ucsa_eq("the clock is 0 after reset", t0, 0);
  sim->start(0, n);
  int did = run(10);
  int cyc = a + (n > 1 ? b : 0) + (n > 2) + (n > 3);
  ucsa_eq("the requested number of instructions is executed", did, n);
  ucsa_eq("the requested number of instructions is executed", x->execs, n);
  ucsa_eq("stepping stops once", sim->stopped, 1);
  ucsa_eq("stepping stops because of the step count", sim->reason, resSTEP);
  ucsa_eq("the program counter follows the instructions", uc->PC, n);
  ucsa_eq("the register of the program counter is up to date", uc->cPC.get(), n);
  ucsa_eq("every cycle is counted in clocks", uc->ticks->get_ticks() - t0, cyc * cpc);
  ucsa_eq("the time outside of interrupts does not count for interrupts", uc->isr_ticks->get_ticks() - i0, 0);
  ucsa_eq("the time of running does not count as idle or halted", uc->idle_ticks->get_ticks() - d0 + (uc->halt_ticks->get_ticks() - h0), 0);
  ucsa_eq("hardware inside the processor sees every cycle", in->n, cyc);
  ucsa_eq("hardware that is switched off or outside sees none", out->n + off->n, 0);
  ucsa_eq("instructions are counted", uc->vc.inst - inst0, n);
  ucsa_eq("fetches are counted", uc->vc.fetch - f0, n);
  sim->start(0, 1);
  run(10);
  ucsa_eq("execution goes on where it stopped", uc->PC, n + 1);
}

// time limits
extern "C" void d_until()
{
  xmachine();
  cpc = ucsa_pick("clocks", 1, 2);
  for (int i = 0; i < 4; i++) spend[i] = 1 + i % 2;
  int unit = ucsa_pick("unit", 0, 1), lim = ucsa_pick("limit", 1, 7);
  sim->start(0, 3);
  run(10);
  cl_time_measurer *tm = unit ? (cl_time_measurer *)new cl_time_fclk(uc) : new cl_time_clk(uc);
  tm->init();
  tm->from_now(lim);
  uc->stop_when(tm);
  u32_t t0 = uc->ticks->get_ticks();
  int e0 = x->execs;
  sim->start(0, 0);
  run(20);
  // spends 2, 1, 2, 1, ... cycles from here
  int n = 0, t = 0;
  while ((unit ? n : t) < lim) { t += (n % 2 ? 1 : 2) * cpc; n++; }
  ucsa_eq("a time limit stops after the first instruction that reaches it", x->execs - e0, n);
  ucsa_eq("a time limit stops after the first instruction that reaches it", uc->ticks->get_ticks() - t0, t);
  ucsa_eq("a time limit stops once", sim->stopped, 2);
  ucsa_same("a time limit counts once", uc->stop_at_time, 0);
  sim->start(0, 0);
  run(12);
  ucsa_eq("a time limit counts once", sim->stopped, 2);
}

// results of instructions
extern "C" void d_results()
{
  static const int kinds[] = { resGO, resHALT, resINV_INST, resERROR, resSTACK_OV, resINV_ADDR };
  xmachine();
  int k = ucsa_pick("result", 0, 5);
  res_at = ucsa_pick("at", 0, 2);
  moves = ucsa_pick("moves", 0, 2);
  rep = ucsa_pick("repeating", 0, 1);
  bool self = ucsa_pick("selfjump_stop", 0, 1);
  uc->stop_selfjump = self;
  res_is = kinds[k];
  sim->start(0, 0);
  int did = run(6);
  bool jumps = k == 0 && moves == 0 && self && !rep;
  if (jumps) {
    ucsa_eq("a jump to itself stops", sim->reason, resSELFJUMP);
  } else if (k) {
    ucsa_eq("a stopping result is the reason of the stop", sim->reason, kinds[k]);
  }
  if (jumps || k) {
    ucsa_eq("nothing is executed after a stopping result", x->execs, res_at + 1);
    ucsa_eq("nothing is executed after a stopping result", did, res_at + 1);
    ucsa_eq("a result stops once", sim->stopped, 1);
    ucsa_eq("the program counter tells where the program stopped", uc->PC, k == 2 ? res_at : res_at + moves);
  } else {
    ucsa_eq("without a stopping result the program goes on", sim->stopped, 0);
    ucsa_eq("without a stopping result the program goes on", did, 6);
    ucsa_eq("without a stopping result the program goes on", uc->PC, 5 + moves);
  }
  ucsa_eq("the register of the program counter is up to date", uc->cPC.get(), uc->PC);
}

// tables of instructions
static int seen, seen_nr;
static int w0(class cl_uc *, t_mem c) { seen = c; seen_nr = 1; return resGO; }
static int w1(class cl_uc *u, t_mem c) { seen = c; seen_nr = 2; u->fetch(); return resHALT; }
static int w2(class cl_uc *, t_mem c) { seen = c; seen_nr = 3; return resNOT_DONE; }
static i8_t costs[4] = { 3, 2, 0, 5 };
static bool costed;
class i_uc: public t_uc {
public:
  i_uc(class cl_sim *s): t_uc(s) {}
  virtual i8_t *tick_tab(t_mem) { return costed ? costs : 0; }
  virtual int exec_inst(void) { static instruction_wrapper_fn tab[4] = { w0, w1, w2, 0 }; return exec_inst_tab(tab); }
};
class i_sim: public t_sim {
public:
  i_sim(class cl_app *a): t_sim(a) {}
  virtual class cl_uc *mk_controller(void) { return new i_uc(this); }
};
extern "C" void d_table()
{
  app = new t_app();
  application = app;
  app->setup();
  sim = new i_sim(app);
  app->sim = sim;
  sim->init();
  uc = (t_uc *)sim->uc;
  int c = ucsa_pick("code", 0, 3);
  costed = ucsa_pick("costs", 0, 1);
  uc->rom->download(0, c);
  seen = -1;
  seen_nr = 0;
  sim->start(0, 0);
  int r = uc->do_inst();
  ucsa_eq("the code selects the instruction", seen_nr, c == 3 ? 0 : c + 1);
  if (c < 3) ucsa_eq("the instruction gets its code", seen, c);
  ucsa_eq("the result of the instruction is the result", r, c == 0 ? resGO : c == 1 ? resHALT : resNOT_DONE);
  ucsa_eq("what cannot be executed is not stepped over", uc->PC, c == 0 ? 1 : c == 1 ? 2 : 0);
  ucsa_eq("the cost of the instruction is counted", uc->ticks->get_ticks(), c == 3 ? 0 : !costed ? 1 : costs[c]);
}

// user counters
extern "C" void d_counters()
{
  xmachine();
  int type = ucsa_pick("type", 0, 3), dir = ucsa_pick("direction", 0, 1) ? 1 : -1, st = ucsa_pick("state", 0, 2), lev = ucsa_pick("level", -1, 0), on = ucsa_pick("running", 0, 1), nr = 5 + type;
  static const enum ticker_type types[] = { TICK_ANY, TICK_INISR, TICK_IDLE, TICK_HALT };
  cl_ticker *t = new cl_ticker(dir, types[type], 0), *m = new cl_ticker(1, TICK_ANY, "mine"), *g = new cl_ticker(1, TICK_ANY, "other");
  cl_ticker *main_clock = uc->get_counter(0);
  uc->add_counter(t, nr);
  uc->add_counter(m, "mine");
  uc->add_counter(g, "other");
  ucsa_same("a counter is found by its number", uc->get_counter(nr), t);
  ucsa_same("a counter is found by its name", uc->get_counter("mine"), m);
  ucsa_same("a counter is found by its name", uc->get_counter("other"), g);
  ucsa_same("there is no counter of another name", uc->get_counter("min"), 0);
  ucsa_same("there is no counter of another number", uc->get_counter(20), 0);
  t->run = on;
  uc->state = st == 0 ? stGO : st == 1 ? stIDLE : stPD;
  uc->it_levels->push(new it_level(lev, 0, 0, 0));
  u32_t t0 = uc->ticks->get_ticks();
  int c = ucsa_pick("cycles", 2, 3);
  cpc = 2;
  uc->tick(c);
  bool counts = on && (type == 0 || (type == 1 && lev >= 0) || (type == 2 && st == 1) || (type == 3 && st == 2));
  ucsa_eq("the main clock counts always", uc->ticks->get_ticks() - t0, c * cpc);
  ucsa_eq("a running counter counts the clocks of its condition", t->get_ticks(), counts ? (unsigned long)(dir * c * cpc) : 0);
  ucsa_eq("a named counter counts", m->get_ticks(), c * cpc);
  ucsa_eq("interrupt time is counted inside interrupts", uc->isr_ticks->get_ticks(), lev >= 0 ? c * cpc : 0);
  ucsa_eq("idle time is counted in idle state", uc->idle_ticks->get_ticks(), st == 1 ? c * cpc : 0);
  ucsa_eq("halted time is counted in power down state", uc->halt_ticks->get_ticks(), st == 2 ? c * cpc : 0);
  if (ucsa_pick("by_name", 0, 1)) {
    uc->del_counter("mine");
    ucsa_same("a deleted counter is not found any more", uc->get_counter("mine"), 0);
    ucsa_same("deleting a counter leaves the others", uc->get_counter(nr), t);
  } else {
    uc->del_counter(nr);
    ucsa_same("a deleted counter is not found any more", uc->get_counter(nr), 0);
    ucsa_same("deleting a counter leaves the others", uc->get_counter("mine"), m);
  }
  ucsa_same("deleting a counter leaves the main clock", uc->get_counter(0), main_clock);
  ucsa_same("deleting a counter leaves the others", uc->get_counter("other"), g);
  u32_t t1 = uc->ticks->get_ticks();
  uc->tick(1);
  ucsa_eq("the main clock still counts after a counter is deleted", uc->ticks->get_ticks() - t1, cpc);
}

// acceptance of interrupts
extern "C" void d_interrupts()
{
  xmachine();
  enabled = ucsa_pick("enabled", 0, 1);
  int lev = ucsa_pick("level", 0, 1) ? 1 : -1, clr = ucsa_pick("cleared", 0, 1), idle = clr, first = ucsa_pick("first", 0, 1);
  prio_main = 0;
  t_mem ie = ucsa_pick("ie", 0, 3), rq = ucsa_pick("requests", 0, 3);
  prio[0] = ucsa_pick("priority_0", 0, 2);
  prio[1] = lev > 0 ? 2 : 1;
  int kind = ucsa_pick("kind", 0, 2), act = kind != 1, nmi = kind == 2;
  uc->ram->set(0, ie);
  uc->ram->set(1, rq | 0x80);
  cl_it_src *s[2];
  for (int i = 0; i < 2; i++) {
    s[i] = new cl_it_src(uc, i, uc->ram->get_cell(0), 1 << i, uc->ram->get_cell(1), 1 << i, 8 + i, clr, false, "s", 10 + (i == first ? 0 : 1));
    s[i]->init();
    uc->it_sources->add(s[i]);
  }
  s[1]->set_active_status(act);
  if (nmi) s[0]->set_nmi(true);
  if (lev >= 0) uc->it_levels->push(new it_level(lev, 3, 4, 0));
  int depth = uc->it_levels->count;
  uc->PC = 5;
  if (idle) uc->state = stIDLE;
  int r = uc->do_interrupt(), won = -1, run_prio = lev >= 0 ? lev : 0;
  for (int k = 0; k < 2; k++) {
    int i = k ? !first : first;
    if ((ie & rq) >> i & 1 && (i ? act : 1) && (enabled || (i == 0 && nmi)) && prio[i] > run_prio && won < 0) won = i;
  }
  ucsa_eq("accepting an interrupt lets the program go on", r, resGO);
  ucsa_eq("an interrupt is accepted exactly when it is enabled, requested and more important than what runs", uc->it_levels->count - depth, won >= 0);
  if (won >= 0) {
    it_level *il = (it_level *)uc->it_levels->top();
    ucsa_eq("the level of the service is the priority of its source", il->level, prio[won]);
    ucsa_same("the service belongs to its source", il->source, s[won]);
    ucsa_eq("the service starts at the address of its source", il->addr, 8 + won);
    ucsa_eq("the place of the interruption is kept", il->PC, 5);
  }
  ucsa_eq("requests are kept until they are accepted", uc->ram->get(1), 0x80 | (won >= 0 && clr ? rq & ~(1 << won) : rq));
  ucsa_eq("accepting does not change enable bits", uc->ram->get(0), ie);
  ucsa_eq("an accepted interrupt ends the idle state", uc->state, idle && won < 0 ? stIDLE : stGO);
}

// slave sources pass their requests on
extern "C" void d_slaves()
{
  xmachine();
  enabled = true;
  prio[0] = prio[1] = prio[2] = 1;
  prio_main = 0;
  t_mem ie = ucsa_pick("ie", 0, 7), rq = ucsa_pick("requests", 0, 7);
  uc->ram->set(0, ie);
  uc->ram->set(1, rq);
  cl_it_src *s[3];
  for (int i = 0; i < 3; i++) {
    s[i] = new cl_it_src(uc, i, uc->ram->get_cell(0), 1 << i, uc->ram->get_cell(1), 1 << i, 8 + i, true, false, "s", 10 + i);
    s[i]->init();
    uc->it_sources->add(s[i]);
  }
  s[0]->set_parent(s[2]);
  s[1]->set_parent(s[2]);
  int depth = uc->it_levels->count;
  uc->do_interrupt();
  bool req = (rq & 4) || (ie & rq & 3), acc = req && (ie & 4);
  ucsa_eq("a request of a slave is a request of its master", uc->it_levels->count - depth, acc);
  if (acc) ucsa_same("a slave is served by its master", ((it_level *)uc->it_levels->top())->source, s[2]);
  ucsa_eq("an enabled slave hands its request over", uc->ram->get(1), (rq & ~ie & 3) | (req && !acc ? 4 : 0));
}

// history of execution
class h_hist: public cl_exec_hist {
public:
  h_hist(cl_uc *u): cl_exec_hist(u) { len = 4; }
  int at(int i, int *nr) { int p = (h - i + 2 * len) % len; *nr = hist[p].nr; return hist[p].addr; } // i instructions ago
};
extern "C" void d_history()
{
  xmachine();
  h_hist *hi = new h_hist(uc);
  hi->init();
  int n = ucsa_pick("entries", 0, 8), a[9], m = 0, addr[9], nr[9], total = 0;
  for (int i = 0; i < n; i++) {
    uc->PC = a[i] = ucsa_pick("address", 1, 2);
    hi->put();
    if (m && addr[m - 1] == a[i]) nr[m - 1]++;
    else { addr[m] = a[i]; nr[m] = 1; m++; }
  }
  int used = m < 3 ? m : 3;
  ucsa_eq("the history keeps as many entries as it has room for", hi->get_used(), used);
  for (int i = 0; i < used; i++) {
    int k, ad = hi->at(i, &k);
    ucsa_eq("the history has the last addresses", ad, addr[m - 1 - i]);
    ucsa_eq("repeated addresses are counted", k, nr[m - 1 - i]);
    total += k;
  }
  ucsa_eq("the number of instructions in the history", hi->get_insts(), total);
  int keep = ucsa_pick("keep", 0, 3);
  hi->keep(keep);
  ucsa_eq("keeping the last entries", hi->get_used(), keep < used ? keep : used);
  if (keep && used) { int k, ad = hi->at(0, &k); ucsa_eq("keeping the last entries", ad, addr[m - 1]); }
}
