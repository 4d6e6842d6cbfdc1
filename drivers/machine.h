// a small machine on the program's own cl_uc, cl_sim and cl_app
#pragma once
#include "ddconfig.h"
#include "globals.h"
#include "appcl.h"
#include "simcl.h"
#include "uccl.h"
#include "optioncl.h"
#include "newcmdcl.h"
#include "commandcl.h"
#include "cmd_execcl.h"
#include "ucsa.h"

class t_cmd: public cl_commander_base {
public:
  t_cmd(class cl_app *a, class cl_cmdset *s): cl_commander_base(a, s) { app = a; cmdset = s; actual_console = 0; config_console = 0; std_console = 0; frozen_console = 0; }
  virtual class cl_console_base *frozen_or_actual(void) { return 0; }
  virtual class cl_console_base *frozen(void) { return 0; }
  virtual void freeze(class cl_console_base *) {}
  virtual int init(void) { return 0; }
  virtual void update_active(void) {}
  virtual int proc_input(void) { return 0; }
  virtual int input_avail(void) { return 0; }
};

static int cond_value, cond_from, cond_evals, cmds_run;
static bool real_eval;
class t_app: public cl_app {
public:
  t_app(): cl_app() { period = 0; cyc = 0; acyc = 0; quiet = true; rgdb_port = 0; ocon = 0; }
  void setup() { mk_options(); commander = new t_cmd(this, new cl_cmdset()); }
  virtual t_mem eval(chars expr) { if (real_eval) return cl_app::eval(expr); cond_evals++; return cond_from ? cond_evals >= cond_from : cond_value; }
  virtual void exec(chars) { cmds_run++; }
  virtual void exec(chars, class cl_console_base *) { cmds_run++; }
};

#ifndef T_ROM
#define T_ROM 16
#endif
class t_uc: public cl_uc {
public:
  class cl_address_space *ram;
  int ticks_per;
  t_uc(class cl_sim *s): cl_uc(s) { ram = 0; ticks_per = 1; }
  virtual void make_memories(void) {
    class cl_address_space *as = new cl_address_space("rom", 0, T_ROM, 8);
    as->init();
    address_spaces->add(as);
    class cl_address_space *r = new cl_address_space("ram", 0, 4, 8);
    r->init();
    address_spaces->add(r);
    class cl_memory_chip *c1 = new cl_chip8("rom_chip", T_ROM, 8), *c2 = new cl_chip8("ram_chip", 4, 8);
    c1->init(); c2->init();
    memchips->add(c1); memchips->add(c2);
    class cl_address_decoder *d = new cl_address_decoder(as, c1, 0, T_ROM - 1, 0);
    d->init(); as->decoders->add(d); d->activate(0);
    d = new cl_address_decoder(r, c2, 0, 3, 0);
    d->init(); r->decoders->add(d); d->activate(0);
    rom = as; ram = r;
  }
  virtual void mk_hw_elements(void) {}
  virtual void make_variables(void) {}
  virtual void build_cmdset(class cl_cmdset *) {}
  virtual double def_xtal(void) { return 1; }
  // 0: no operation; 1 a v: ram[a]= v; 2 a: read ram[a] into acc; 3 a: jump; 0xff: invalid; 0xfe: halt
  u32_t acc;
  virtual int exec_inst(void) {
    t_mem code;
    if (fetch(&code)) return resBREAKPOINT;
    tick(ticks_per);
    if (code == 1) { t_addr a = fetch(); ram->write(a, fetch()); return resGO; }
    if (code == 2) { acc = ram->read(fetch()); return resGO; }
    if (code == 3) { PC = fetch(); return resGO; }
    if (code == 0xff) { fetch(); return resINV_INST; }
    if (code == 0xfe) return resHALT;
    return resGO;
  }
};
class t_sim: public cl_sim {
public:
  int stopped, reason;
  t_sim(class cl_app *a): cl_sim(a) { stopped = 0; reason = 0; steps_done = 0; steps_todo = 0; }
  virtual void build_cmdset(class cl_cmdset *) {}
  virtual class cl_uc *mk_controller(void) { return new t_uc(this); }
  virtual void stop(int r) { stopped++; reason = r; cl_sim::stop(r); }
};
static t_app *app;
static t_sim *sim;
static t_uc *uc;
static void machine() {
  app = new t_app();
  application = app;
  app->setup();
  sim = new t_sim(app);
  app->sim = sim;
  sim->init();
  uc = (t_uc *)sim->uc;
}
