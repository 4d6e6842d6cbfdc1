// an 8052 built by the program's own constructors, with small memories
#pragma once
#define T_SIM51
#include "machine.h"
#include "uc52cl.h"
#include "regs51.h"
#include "types51.h"
#include "interruptcl.h"

static struct cpu_entry type52 = { "52", CPU_52, CPU_CMOS, "", "" };
class t_52: public cl_uc52 {
public:
  t_52(class cl_sim *s): cl_uc52(&type52, s) {}
  virtual void make_address_spaces(void) {
    rom = new cl_address_space("rom", 0, 0x80, 8); rom->init(); address_spaces->add(rom);
    iram = new cl_address_space("iram", 0, 0x100, 8); iram->init(); address_spaces->add(iram);
    sfr = new cl_address_space("sfr", 0x80, 0x80, 8); sfr->init(); address_spaces->add(sfr);
    xram = new cl_address_space("xram", 0, 16, 8); xram->init(); address_spaces->add(xram);
    regs = new cl_address_space("regs", 0, 8, 8); regs->init(); address_spaces->add(regs);
    bits = new cl_address_space("bits", 0, 0x100, 1); bits->init(); address_spaces->add(bits);
    dptr = new cl_address_space("dptr", 0, 2, 8); dptr->init(); address_spaces->add(dptr);
  }
  virtual void make_chips(void) {
    rom_chip = new cl_chip8("rom_chip", 0x80, 8, 0); rom_chip->init(); memchips->add(rom_chip);
    iram_chip = new cl_chip8("iram_chip", 0x100, 8); iram_chip->init(); memchips->add(iram_chip);
    xram_chip = new cl_chip8("xram_chip", 16, 8); xram_chip->init(); memchips->add(xram_chip);
    sfr_chip = new cl_chip8("sfr_chip", 0x80, 8); sfr_chip->init(); memchips->add(sfr_chip);
  }
  virtual void decode_rom(void) { class cl_address_decoder *ad = new cl_address_decoder(rom, rom_chip, 0, 0x7f, 0); ad->init(); rom->decoders->add(ad); ad->activate(0); }
  virtual void decode_xram(void) { class cl_address_decoder *ad = new cl_address_decoder(xram, xram_chip, 0, 15, 0); ad->init(); xram->decoders->add(ad); ad->activate(0); }
  virtual void make_variables(void) {}
  virtual void build_cmdset(class cl_cmdset *) {}
};
class t_sim51: public t_sim {
public:
  t_sim51(class cl_app *a): t_sim(a) {}
  virtual class cl_uc *mk_controller(void) { return new t_52(this); }
};
static t_52 *u;
static void machine51() {
  app = new t_app();
  application = app;
  app->setup();
  sim = new t_sim51(app);
  app->sim = sim;
  sim->init();
  u = (t_52 *)sim->uc;
}
