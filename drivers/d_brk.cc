// breakpoints and the execution loop
// statics: mem.cc uc.cc
#include "machine.h"

static void program(const int *p, int n) { for (int i = 0; i < n; i++) uc->rom->download(i, p[i]); }
// runs until the machine stops or n instructions are done
static int go(int n)
{
  sim->stopped = 0;
  sim->reason = -1;
  sim->start(0, 0);
  int i = 0;
  while ((sim->state & SIM_GO) && i < n) { sim->step(); i++; }
  return i;
}

// fetch breakpoints stop before the instruction, at the requested arrival
extern "C" void d_fetch()
{
  static const int prg[] = { 0, 0, 0, 3, 0 };
  machine();
  program(prg, 5);
  int at = ucsa_pick("address", 0, 4), hits0 = ucsa_pick("hit", 0, 3), hit = hits0 ? hits0 : 1, cond = ucsa_pick("condition", 0, 3), dyn = ucsa_pick("temporary", 0, 1);
  cl_brk *b = new cl_fetch_brk(uc->rom, uc->make_new_brknr(), at, dyn ? brkDYNAMIC : brkFIX, hits0);
  b->init();
  if (cond) b->cond = "x";
  b->commands = "y";
  cond_value = cond == 1;
  cond_evals = cmds_run = 0;
  cond_from = cond == 3 ? 2 : 0;
  uc->fbrk->add_bp(b);
  ucsa_eq("a breakpoint is found at its address only", uc->fbrk->bp_at(at) && !uc->fbrk->bp_at(at + 1) && uc->fbrk_at(at) == b && uc->brk_by_nr(b->nr) == b, 1);
  for (int round = 0; round < 2; round++) {
    int arrivals = cond == 3 && !round ? 2 * hit : hit, start = round && cond != 2 && at < 4 ? at : 0;
    // arrivals at an address of the loop 0 1 2 3, the first instruction does not count
    int first = ((at - start) % 4 + 4) % 4;
    if (first == 0) first = 4;
    int n = first + 4 * (arrivals - 1);
    bool hits = at < 4 && cond != 2 && !(round && dyn);
    u32_t t0 = uc->ticks->get_ticks();
    if (round && !hits) uc->PC = start = 0;
    int done = go(30);
    if (hits) {
      ucsa_eq("a breakpoint stops the program", sim->stopped, 1);
      ucsa_eq("the reason of the stop is the breakpoint", sim->reason, resBREAKPOINT);
      ucsa_eq("the program stops at the address of the breakpoint", uc->PC, at);
      ucsa_eq("the program stops at the requested arrival", done, n + 1);
      ucsa_eq("the instruction at the breakpoint is not executed", uc->ticks->get_ticks() - t0, n);
      ucsa_eq("commands of a breakpoint run when it is accepted", cmds_run, dyn ? 0 : round + 1);
      if (cond) ucsa_eq("the condition is evaluated when the hit count is reached", cond_evals, round + 1 + (cond == 3));
    } else {
      ucsa_eq("without an accepted breakpoint the program goes on", sim->stopped, 0);
      ucsa_eq("without an accepted breakpoint every instruction is executed", uc->ticks->get_ticks() - t0, 30);
      ucsa_eq("commands of a breakpoint do not run when it is not accepted", cmds_run, at < 4 && cond != 2 && !dyn ? round : 0);
    }
    if (dyn && hits) ucsa_same("a temporary breakpoint is deleted when it is accepted", uc->fbrk_at(at), 0);
    else if (!dyn) ucsa_same("a fix breakpoint stays", uc->fbrk_at(at), b);
  }
}

// event breakpoints stop after the instruction that made the access
extern "C" void d_event()
{
  machine();
  int wa = ucsa_pick("written", 0, 1), ra = ucsa_pick("read", 0, 1), ba = ucsa_pick("address", 0, 1), hit = ucsa_pick("hit", 1, 2), w = ucsa_pick("on_write", 0, 1), dyn = ucsa_pick("temporary", 0, 1), cond = ucsa_pick("condition", 0, 2);
  int prg[] = { 1, wa, 0, 2, ra, 0, 3, 0 };
  program(prg, 8);
  t_mem v = SYM8("value"), o = SYM8("other");
  uc->rom->download(2, v);
  uc->ram->set(!wa, o);
  cl_ev_brk *b = uc->mk_ebrk(dyn ? brkDYNAMIC : brkFIX, uc->ram, w ? 'w' : 'R', ba, hit);
  b->init();
  int nr = b->nr;
  if (cond) b->cond = "x";
  cond_value = cond == 1;
  cond_evals = 0;
  uc->ebrk->add_bp(b);
  bool hits = (w ? wa : ra) == ba && cond != 2;
  int done = go(10);
  if (hits) {
    ucsa_eq("an event stops the program", sim->stopped >= 1 && sim->reason == resEVENTBREAK, 1);
    // loop of 4 instructions: write, read, nop, jump
    ucsa_eq("the program stops right after the access", done, (w ? 1 : 2) + 4 * (hit - 1));
    ucsa_eq("the access is done", uc->PC, w ? 3 : 5);
    ucsa_same("a temporary event breakpoint is deleted when it is accepted", uc->brk_by_nr(nr), dyn ? 0 : b);
  } else {
    ucsa_eq("without an accepted event the program goes on", sim->stopped, 0);
    ucsa_eq("without an accepted event the program goes on", done, 10);
  }
  ucsa_eq("an event breakpoint does not change what is written", uc->ram->get(wa), v);
  ucsa_eq("an event breakpoint does not change other cells", uc->ram->get(!wa), o);
  if (!hits || !w) ucsa_eq("an event breakpoint does not change what is read", uc->acc, ra == wa ? v : o);
  if (!dyn || !hits) {
    ucsa_eq("a breakpoint can be removed by its number", uc->rm_brk(b->nr), 1);
    uc->PC = 0;
    go(10);
    ucsa_eq("a removed event breakpoint does not stop the program", sim->stopped, 0);
  }
  ucsa_eq("no operator is left on the cell of a removed event breakpoint", uc->ram->get_cell(ba)->nuof_ops(), 0);
}

// breakpoints on a cell of a hardware element
class t_hw: public cl_hw {
public:
  t_mem pin, out;
  int reads, writes;
  t_hw(cl_uc *u): cl_hw(u, HW_PORT, 0, "port") { pin = out = 0; reads = writes = 0; }
  virtual unsigned int cfg_size(void) { return 0; }
  virtual t_mem read(class cl_memory_cell *) { reads++; return pin; }
  virtual void write(class cl_memory_cell *, t_mem *val) { writes++; out = *val; *val ^= 0x55; }
};
extern "C" void d_hw()
{
  machine();
  int order = ucsa_pick("added_after", 0, 1), kinds = ucsa_pick("breakpoints", 0, 3), rem = ucsa_pick("removed", 0, 3);
  ucsa_assume(rem < 2 || kinds == 3);
  static const int prg[] = { 1, 0, 0, 2, 0, 0, 3, 0 };
  program(prg, 8);
  t_mem v = SYM8("value"), pin = SYM8("pin");
  uc->rom->download(2, v);
  t_hw *h = new t_hw(uc);
  h->init();
  h->pin = pin;
  if (!order) uc->ram->register_hw(0, h, false);
  cl_ev_brk *b = 0, *c = 0;
  if (kinds & 1) { b = uc->mk_ebrk(brkFIX, uc->ram, 'R', 0, 1); uc->ebrk->add_bp(b); }
  if (kinds & 2) { c = uc->mk_ebrk(brkFIX, uc->ram, 'W', 0, 1); uc->ebrk->add_bp(c); }
  if (order) uc->ram->register_hw(0, h, false);
  if (rem == 1) uc->remove_all_breaks();
  if (rem == 2) uc->rm_brk(b->nr);
  if (rem == 3) uc->rm_brk(c->nr);
  int at = go(1);
  ucsa_eq("a write event is seen", sim->stopped, (kinds & 2) && rem != 1 && rem != 3);
  ucsa_eq("the device sees the written value", h->out, v);
  ucsa_eq("the device sees a write once", h->writes, 1);
  ucsa_eq("the device decides what is stored", uc->ram->get(0), v ^ 0x55);
  at = go(1);
  ucsa_eq("a read event is seen", sim->stopped, (kinds & 1) && rem != 1 && rem != 2);
  ucsa_eq("the device decides what is read", uc->acc, pin);
  ucsa_eq("the device sees a read once", h->reads, 1);
  if (rem == 1) ucsa_eq("removing breakpoints leaves the device on the cell", uc->ram->get_cell(0)->nuof_ops(), 1);
  (void)at;
}

// sets of breakpoints
extern "C" void d_sets()
{
  machine();
  int n = ucsa_pick("number", 1, 3), del = ucsa_pick("deleted", 0, 2), step = ucsa_pick("distance", 1, 9), how = ucsa_pick("how", 0, 2), ev = ucsa_pick("event", 0, 1);
  ucsa_assume(del < n);
  cl_brk *b[3] = { 0, 0, 0 };
  for (int i = 0; i < n; i++) {
    b[i] = ev && i == 1 ? (cl_brk *)uc->mk_ebrk(brkFIX, uc->ram, 'w', 2, 1) : new cl_fetch_brk(uc->rom, uc->make_new_brknr(), i * step, brkFIX, 1);
    b[i]->init();
    if (ev && i == 1) uc->ebrk->add_bp(b[i]); else uc->fbrk->add_bp(b[i]);
  }
  for (int i = 0; i < n; i++) {
    ucsa_same("a breakpoint is found by its number", uc->brk_by_nr(b[i]->nr), b[i]);
    for (int j = 0; j < i; j++) ucsa_eq("breakpoint numbers are unique", b[i]->nr == b[j]->nr, 0);
  }
  int nr[3];
  for (int i = 0; i < n; i++) nr[i] = b[i]->nr;
  if (how == 2) {
    uc->remove_all_breaks();
    ucsa_eq("all breakpoints are removed", uc->fbrk->count + uc->ebrk->count, 0);
    for (int i = 0; i < T_ROM; i++) ucsa_eq("a removed breakpoint leaves no mark", uc->fbrk->bp_at(i), 0);
    return;
  }
  if (how == 0 || (ev && del == 1)) ucsa_eq("a breakpoint can be removed by its number", uc->rm_brk(nr[del]), 1);
  else if (del * step < T_ROM) uc->fbrk->del_bp(del * step);
  else return;
  for (int i = 0; i < n; i++) {
    ucsa_same("removing a breakpoint removes that one only", uc->brk_by_nr(nr[i]), i == del ? 0 : b[i]);
    if (!(ev && i == 1) && i * step < T_ROM) ucsa_eq("removing a breakpoint removes that one only", uc->fbrk->bp_at(i * step), i != del);
  }
  ucsa_eq("an unknown number removes nothing", uc->rm_brk(99), 0);
  int next = uc->make_new_brknr();
  for (int i = 0; i < n; i++) if (i != del) ucsa_eq("breakpoint numbers are unique", next == nr[i], 0);
}
