// memory system: cells, address spaces, chips, decoders, bankers, banders
// statics: mem.cc
#include "ddconfig.h"
#include "memcl.h"
#include "ucsa.h"

static t_mem maskof(int w) { return w >= 32 ? 0xffffffffu : (1u << w) - 1; }

// every way of storing into a decoded cell keeps exactly the bits of its width
extern "C" void d_store()
{
  int w = ucsa_pick("width", 1, 32), k = ucsa_pick("cell", 0, 3), how = ucsa_pick("how", 0, 5);
  cl_memory_chip *chip = new_chip("chip", 6, w, 0);
  cl_address_space *as = new cl_address_space("space", 0x10, 4, w);
  as->init();
  cl_address_decoder *d = new cl_address_decoder(as, chip, 0x10, 0x13, 1);
  d->init();
  as->decoders->add(d);
  ucsa_eq("an activation that fits succeeds", d->activate(0), 1);
  t_mem old[6], v = SYM32("value"), m = maskof(w), r = 0;
  for (int i = 0; i < 6; i++) { char n[8]= "old0"; n[3]= '0'+i; old[i]= SYM32(n) & m; chip->set(i, old[i]); }
  for (int i = 0; i < 4; i++) ucsa_eq("a chip value is visible at the mapped address", as->get(0x10 + i), old[i + 1]);
  bool ret = true;
  cl_memory_cell *c = as->get_cell(0x10 + k);
  switch (how) {
    case 0: r = as->write(0x10 + k, v); break;
    case 1: as->set(0x10 + k, v); ret = false; break;
    case 2: as->download(0x10 + k, v); ret = false; break;
    case 3: r = c->write(v); break;
    case 4: r = c->set(v); break;
    case 5: r = c->download(v); break;
  }
  t_mem want = w == 1 ? (v ? 1 : 0) : v & m;
  if (ret) ucsa_eq("the stored value is returned", r, want);
  for (int i = 0; i < 4; i++) {
    t_mem e = i == k ? want : old[i + 1];
    ucsa_eq(i == k ? "a stored value is read back" : "a store leaves the other cells alone", as->read(0x10 + i), e);
    ucsa_eq(i == k ? "a stored value is got back" : "a store leaves the other cells alone", as->get(0x10 + i), e);
    ucsa_eq("a cell reads as its address does", as->get_cell(0x10 + i)->read(), e);
    ucsa_eq("chip and address space agree", chip->get(i + 1), e);
  }
  ucsa_eq("a store leaves unmapped chip locations alone", chip->get(0), old[0]);
  ucsa_eq("a store leaves unmapped chip locations alone", chip->get(5), old[5]);
}

// a read only cell can only be changed by download
extern "C" void d_readonly()
{
  int w = ucsa_pick("width", 0, 2) * 8 + 8, how = ucsa_pick("how", 0, 3);
  if (w == 24) w = 32;
  cl_memory_chip *chip = new_chip("chip", 2, w, 0);
  cl_address_space *as = new cl_address_space("space", 0, 2, w);
  as->init();
  cl_address_decoder *d = new cl_address_decoder(as, chip, 0, 1, 0);
  as->decoders->add(d);
  d->activate(0);
  t_mem m = maskof(w), o = SYM32("old") & m, v = SYM32("value");
  chip->set(0, o);
  as->set_cell_flag(0, true, CELL_READ_ONLY);
  ucsa_eq("a cell flag is set on the addressed cell", as->get_cell_flag(0, CELL_READ_ONLY), 1);
  ucsa_eq("a cell flag is set on the addressed cell only", as->get_cell_flag(1, CELL_READ_ONLY), 0);
  t_mem r = o;
  if (how == 0) r = as->write(0, v);
  if (how == 1) as->set(0, v);
  if (how == 2) r = as->get_cell(0)->set(v);
  if (how == 3) as->download(0, v);
  ucsa_eq("a read only cell keeps its value", as->get(0), how == 3 ? v & m : o);
  ucsa_eq("a store into a read only cell returns what is there", r, o);
  as->set_cell_flag(0, false, CELL_READ_ONLY);
  as->write(0, v);
  ucsa_eq("a cell can be written when it is not read only any more", as->get(0), v & m);
}

// addresses outside of the space never reach a cell
extern "C" void d_outside()
{
  static const t_addr bad[] = { 0, 0x0f, 0x14, 0x15, 0x20, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x80000010u };
  t_addr a = bad[ucsa_pick("address", 0, 8)];
  int how = ucsa_pick("how", 0, 6);
  cl_memory_chip *chip = new_chip("chip", 4, 8, 0);
  cl_address_space *as = new cl_address_space("space", 0x10, 4, 8);
  as->init();
  cl_address_decoder *d = new cl_address_decoder(as, chip, 0x10, 0x13, 0);
  as->decoders->add(d);
  d->activate(0);
  t_mem v = SYM32("value"), old[4];
  for (int i = 0; i < 4; i++) { char n[8]= "old0"; n[3]= '0'+i; old[i]= SYM8(n); chip->set(i, old[i]); }
  if (how == 0) as->write(a, v);
  if (how == 1) as->set(a, v);
  if (how == 2) as->download(a, v);
  if (how == 3) as->get_cell(a)->write(v);
  if (how == 4) as->set_cell_flag(a, true, CELL_READ_ONLY);
  if (how == 5) { as->read(a); as->get(a); as->undecode_cell(a); }
  if (how == 6) ucsa_eq("no decoding outside of the space", as->decode_cell(a, chip, 1), 0);
  ucsa_same("an address outside of the space has no cell", as->get_cell(a), as->dummy);
  ucsa_eq("an address outside of the space is not valid", as->valid_address(a), 0);
  for (int i = 0; i < 4; i++) {
    ucsa_eq("an access outside of the space leaves its cells alone", as->get(0x10 + i), old[i]);
    ucsa_eq("an access outside of the space leaves the chip alone", chip->get(i), old[i]);
    ucsa_eq("an access outside of the space leaves cell flags alone", as->get_cell(0x10 + i)->get_flags(), 0);
    ucsa_eq("an address inside of the space is valid", as->valid_address(0x10 + i), 1);
  }
}

// chips
extern "C" void d_chip()
{
  int w = ucsa_pick("width", 1, 32), k = ucsa_pick("slot", 0, 4);
  cl_memory_chip *chip = new_chip("chip", 4, w, 0);
  t_mem m = maskof(w), v = SYM32("value"), old[4];
  t_addr a = 99;
  for (int i = 0; i < 4; i++) ucsa_eq("a chip starts with its initial value", chip->get(i), 0);
  for (int i = 0; i < 4; i++) { char n[8]= "old0"; n[3]= '0'+i; old[i]= SYM32(n) & m; chip->set(i, old[i]); }
  if (ucsa_pick("how", 0, 1)) chip->write(k, v); else chip->set(k, v);
  for (int i = 0; i < 4; i++) {
    ucsa_eq("a chip location keeps the value written to it", chip->get(i), i == k ? v & m : old[i]);
    ucsa_eq("a chip location reads what it keeps", chip->read(i), i == k ? v & m : old[i]);
    ucsa_eq("a chip finds its slots", chip->is_slot(chip->get_slot(i), &a), 1);
    ucsa_eq("a slot belongs to its address", a, i);
  }
  ucsa_eq("a location beyond the chip reads 0", chip->get(4), 0);
  ucsa_same("a location beyond the chip has no slot", chip->get_slot(4), 0);
}

// address arithmetic of a memory
extern "C" void d_wrap()
{
  int size = ucsa_pick("size", 1, 5), start = ucsa_pick("start", 0, 3), k = ucsa_pick("offset", 0, 4), n = ucsa_pick("step", 0, 6);
  ucsa_assume(k < size);
  cl_address_space *as = new cl_address_space("space", start, size, 8);
  int e = ((k + n) % size + size) % size;
  ucsa_eq("a step wraps around inside of the space", as->inc_address(start + k, n), start + e);
  ucsa_eq("a single step wraps around inside of the space", as->inc_address(start + k), start + (k + 1) % size);
  ucsa_eq("lowest address", as->lowest_valid_address(), start);
  ucsa_eq("highest address", as->highest_valid_address(), start + size - 1);
}

// after any sequence of activations every address leads where the last decoder that covers it says
struct place { cl_memory_chip *chip; t_addr a; };
static void check_map(cl_address_space *as, place *map, int n, t_addr start)
{
  for (int i = 0; i < n; i++) {
    cl_memory_cell *c = as->get_cell(start + i);
    if (map[i].chip) {
      ucsa_same("an address leads to the chip location of the decoder activated last", c->get_data(), map[i].chip->get_slot(map[i].a));
      ucsa_eq("a decoded cell is not marked as undecoded", c->get_flag(CELL_NON_DECODED), 0);
    } else
      ucsa_eq("a cell without a decoder is marked as undecoded", c->get_flag(CELL_NON_DECODED), 1);
    int cover = 0;
    for (int j = 0; j < as->decoders->count; j++) {
      cl_address_decoder *d = (cl_address_decoder *)as->decoders->at(j);
      if (d->as_begin <= start + i && start + i <= d->as_end) {
        cover++;
        if (map[i].chip) ucsa_eq("the decoder list tells where an address leads", d->memchip == map[i].chip && d->as_to_chip(start + i) == map[i].a, 1);
      }
    }
    ucsa_eq("every address is in at most one decoder", cover, map[i].chip ? 1 : 0);
  }
}
static void steps(int n, int cells, int nsteps, int maxcb)
{
  (void)n;
  const t_addr start = 2;
  cl_memory_chip *chips[2] = { new_chip("a", cells + 2, 8, 0), new_chip("b", cells + 2, 8, 0) };
  cl_address_space *as = new cl_address_space("space", start, cells, 8);
  as->init();
  place map[8];
  for (int i = 0; i < cells; i++) map[i].chip = 0, map[i].a = 0;
  for (int s = 0; s < nsteps; s++) {
    int b = ucsa_pick("begin", 0, cells - 1), e = ucsa_pick("end", b, cells - 1), cb = ucsa_pick("chip_begin", 0, maxcb);
    cl_memory_chip *ch = chips[s & 1];
    cl_address_decoder *d = new cl_address_decoder(as, ch, start + b, start + e, cb);
    d->init();
    as->decoders->add(d);
    ucsa_eq("an activation that fits succeeds", d->activate(0), 1);
    for (int i = b; i <= e; i++) map[i].chip = ch, map[i].a = cb + i - b;
  }
  check_map(as, map, cells, start);
}
extern "C" void d_decoders2() { steps(2, 5, 2, 1); }
extern "C" void d_decoders3() { steps(3, 4, 3, 0); }
extern "C" void d_decoders4() { steps(4, 3, 4, 0); }

// what does not fit is refused and changes nothing
extern "C" void d_refused()
{
  cl_memory_chip *a = new_chip("a", 4, 8, 0), *b = new_chip("b", 3, 8, 0);
  cl_address_space *as = new cl_address_space("space", 2, 4, 8);
  as->init();
  cl_address_decoder *d = new cl_address_decoder(as, a, 2, 5, 0);
  d->init();
  as->decoders->add(d);
  d->activate(0);
  int from = ucsa_pick("begin", 1, 6), to = ucsa_pick("end", 1, 6), cb = ucsa_pick("chip_begin", 0, 3);
  bool ok = from >= 2 && to <= 5 && from <= to && cb + (to - from) < 3;
  cl_address_decoder *n = new cl_address_decoder(as, b, from, to, cb);
  n->init();
  as->decoders->add(n);
  bool r = n->activate(0);
  ucsa_eq("a decoder is activated exactly when it fits", r, ok);
  for (int i = 2; i <= 5; i++) {
    cl_memory_cell *c = as->get_cell(i);
    if (ok && i >= from && i <= to) ucsa_same("an address leads to the chip location of the decoder activated last", c->get_data(), b->get_slot(cb + i - from));
    else ucsa_same("a refused decoder changes nothing", c->get_data(), a->get_slot(i - 2));
  }
  if (ok) ucsa_eq("a decoder is activated once", n->activate(0), 0);
}

// bit bands
extern "C" void d_bander()
{
  int bpc = ucsa_pick("bits_per_chip", 1, 8), dist = ucsa_pick("distance", 1, 3), bit = ucsa_pick("bit", 0, 11);
  cl_memory_chip *chip = new_chip("chip", 40, 8, 0);
  cl_address_space *as = new cl_address_space("bits", 0, 12, 1);
  as->init();
  cl_bander *d = new cl_bander(as, 0, 11, chip, 2, bpc, dist);
  d->init();
  as->decoders->add(d);
  d->activate(0);
  t_addr at = 2 + (bit / bpc) * dist;
  int pos = bit % bpc;
  t_mem o = SYM8("old"), v = SYM32("value");
  chip->set(at, o);
  for (int i = 0; i < 12; i++) ucsa_eq("a band bit reads the bit of the chip", as->read(i), (chip->get(2 + (i / bpc) * dist) >> (i % bpc)) & 1);
  int how = ucsa_pick("how", 0, 2);
  if (how == 0) as->write(bit, v); else if (how == 1) as->set(bit, v); else as->download(bit, v);
  t_mem want = v ? o | (1u << pos) : o & ~(1u << pos);
  for (int i = 0; i < 40; i++) ucsa_eq(i == (int)at ? "writing a band bit changes that bit of the chip" : "writing a band bit leaves the other locations alone", chip->get(i), i == (int)at ? want & 0xff : 0);
}

// bank switching
extern "C" void d_banker()
{
  int lo = ucsa_pick("mask_low", 0, 6), n = ucsa_pick("mask_bits", 1, 2), pre = ucsa_pick("added_before", 0, 1);
  t_mem mask = ((1u << n) - 1) << lo;
  int nb = 1 << n, sel = ucsa_pick("bank", 0, nb - 1), sel2 = ucsa_pick("next", 0, nb - 1), junk = ucsa_pick("other_bits", 0, 1);
  cl_memory_chip *regs = new_chip("r", 1, 8, 0), *mem = new_chip("m", 20, 8, 0);
  cl_address_space *ras = new cl_address_space("regs", 0, 1, 8), *as = new cl_address_space("space", 4, 3, 8);
  ras->init(); as->init();
  cl_address_decoder *d = new cl_address_decoder(ras, regs, 0, 0, 0);
  ras->decoders->add(d);
  d->activate(0);
  t_mem other = junk ? ~mask & 0xff : 0;
  if (pre) ras->write(0, (sel << lo) | other);
  cl_banker *b = new cl_banker(ras, 0, mask, as, 4, 6);
  b->init();
  as->decoders->add(b);
  for (int i = 0; i < nb; i++) b->add_bank(i, mem, i * 4 + 1);
  b->activate(0);
  if (!pre) ras->write(0, (sel << lo) | other);
  for (int i = 0; i < 3; i++) ucsa_same("the bank register selects the bank", as->get_cell(4 + i)->get_data(), mem->get_slot(sel * 4 + 1 + i));
  ras->write(0, (sel2 << lo) | other);
  for (int i = 0; i < 3; i++) ucsa_same("a write of the bank register switches the bank", as->get_cell(4 + i)->get_data(), mem->get_slot(sel2 * 4 + 1 + i));
  ucsa_eq("the bank register keeps what was written", ras->get(0), (sel2 << lo) | other);
  for (int i = 0; i < 3; i++) ucsa_eq("banked cells are decoded", as->get_cell(4 + i)->get_flag(CELL_NON_DECODED), 0);
}

// bank number from two registers
extern "C" void d_banker2()
{
  int lo = ucsa_pick("mask_low", 0, 5), lo2 = ucsa_pick("mask2_low", 0, 5), v1 = ucsa_pick("field1", 0, 3), v2 = ucsa_pick("field2", 0, 1);
  cl_memory_chip *regs = new_chip("r", 2, 8, 0), *mem = new_chip("m", 20, 8, 0);
  cl_address_space *ras = new cl_address_space("regs", 0, 2, 8), *as = new cl_address_space("space", 0, 2, 8);
  ras->init(); as->init();
  cl_address_decoder *d = new cl_address_decoder(ras, regs, 0, 1, 0);
  ras->decoders->add(d);
  d->activate(0);
  cl_banker *b = new cl_banker(ras, 0, 3u << lo, ras, 1, 1u << lo2, 2, as, 0, 1);
  b->init();
  as->decoders->add(b);
  for (int i = 0; i < 8; i++) b->add_bank(i, mem, i * 2);
  b->activate(0);
  if (ucsa_pick("order", 0, 1)) { ras->write(0, v1 << lo); ras->write(1, v2 << lo2); }
  else { ras->write(1, v2 << lo2); ras->write(0, v1 << lo); }
  int bank = v1 | v2 << 2;
  for (int i = 0; i < 2; i++) ucsa_same("the bank registers select the bank", as->get_cell(i)->get_data(), mem->get_slot(bank * 2 + i));
}

// cells of a space
extern "C" void d_cells()
{
  cl_address_space *as = new cl_address_space("space", 3, 4, 8);
  as->init();
  int k = ucsa_pick("cell", 0, 3);
  t_addr a = 99;
  ucsa_eq("a cell belongs to its space", as->is_owned(as->get_cell(3 + k), &a), 1);
  ucsa_eq("a cell knows its address", a, 3 + k);
  as->set_cell_flag(3 + k, true, CELL_FETCH_BRK);
  a = 99;
  ucsa_same("a flagged cell is found", as->search_cell(CELL_FETCH_BRK, true, &a), as->get_cell(3 + k));
  ucsa_eq("the address of a flagged cell is found", a, 3 + k);
  for (int i = 0; i < 4; i++) ucsa_eq("a cell flag is set on the addressed cell only", as->get_cell_flag(3 + i, CELL_FETCH_BRK), i == k);
  as->set_cell_flag(3 + k, false, CELL_FETCH_BRK);
  ucsa_same("no flagged cell is left", as->search_cell(CELL_FETCH_BRK, true, &a), 0);
}

// replacing a bank
extern "C" void d_rebank()
{
  int sel = ucsa_pick("bank", 0, 1), rep = ucsa_pick("replaced", -2, 3), sel2 = ucsa_pick("next", 0, 1);
  cl_memory_chip *regs = new_chip("r", 1, 8, 0), *mem = new_chip("m", 20, 8, 0);
  cl_address_space *ras = new cl_address_space("regs", 0, 1, 8), *as = new cl_address_space("space", 4, 3, 8);
  ras->init(); as->init();
  cl_address_decoder *d = new cl_address_decoder(ras, regs, 0, 0, 0);
  ras->decoders->add(d);
  d->activate(0);
  cl_banker *b = new cl_banker(ras, 0, 1, as, 4, 6);
  b->init();
  as->decoders->add(b);
  int at[2] = { 1, 5 };
  for (int i = 0; i < 2; i++) b->add_bank(i, mem, at[i]);
  ras->write(0, sel);
  b->add_bank(rep, mem, 9);
  if (rep == 0 || rep == 1) at[rep] = 9;
  for (int i = 0; i < 3; i++) {
    ucsa_same("a replaced bank is used at once", as->get_cell(4 + i)->get_data(), mem->get_slot(at[sel] + i));
    ucsa_eq("banked cells are decoded", as->get_cell(4 + i)->get_flag(CELL_NON_DECODED), 0);
  }
  ras->write(0, sel2);
  for (int i = 0; i < 3; i++) ucsa_same("a write of the bank register switches the bank", as->get_cell(4 + i)->get_data(), mem->get_slot(at[sel2] + i));
  delete b;
  ras->write(0, sel);
  for (int i = 0; i < 3; i++) ucsa_eq("a removed bank switcher leaves its area undecoded", as->get_cell(4 + i)->get_flag(CELL_NON_DECODED), 1);
}

// operators of a cell
static int calls;
struct op_t: public cl_memory_operator {
  int seen, order; t_mem got, add;
  op_t(cl_memory_cell *c, t_mem a): cl_memory_operator(c) { seen = 0; order = 0; got = 0; add = a; }
  t_mem read(void) { seen++; order = ++calls; return cell->get() + add; }
  t_mem write(t_mem v) { seen++; order = ++calls; got = v; return v + add; }
};
extern "C" void d_ops()
{
  cl_memory_chip *chip = new_chip("chip", 2, 8, 0);
  cl_address_space *as = new cl_address_space("space", 0, 2, 8);
  as->init();
  cl_address_decoder *d = new cl_address_decoder(as, chip, 0, 1, 0);
  as->decoders->add(d);
  d->activate(0);
  cl_memory_cell *c = as->get_cell(0);
  int na = ucsa_pick("appended", 0, 2), np = ucsa_pick("prepended", 0, 1), del = ucsa_pick("removed", -1, 2);
  op_t *o[3] = { new op_t(c, 1), new op_t(c, 2), new op_t(c, 4) };
  for (int i = 0; i < na; i++) c->append_operator(o[i]);
  if (np) c->prepend_operator(o[2]);
  bool in[3] = { na > 0, na > 1, np > 0 };
  if (del >= 0) { c->remove_operator(o[del]); in[del] = false; }
  ucsa_eq("number of operators", c->nuof_ops(), in[0] + in[1] + in[2]);
  t_mem old = SYM8("old"), v = SYM32("value"), e = v;
  c->set(old);
  for (int i = 0; i < 3; i++) ucsa_eq("storing silently calls no operator", o[i]->seen, 0);
  int how = ucsa_pick("how", 0, 2), k = 0;
  static const int seq[3] = { 2, 0, 1 };
  calls = 0;
  if (how == 0) {
    t_mem r = c->write(v);
    for (int j = 0; j < 3; j++) {
      int i = seq[j];
      ucsa_eq("a write calls every operator once", o[i]->seen, in[i]);
      if (in[i]) { ucsa_eq("operators are called in their order", o[i]->order, ++k); ucsa_eq("an operator gets the value of the one before", o[i]->got, e); e += o[i]->add; }
    }
    ucsa_eq("the value of the last operator is stored", c->get(), e & 0xff);
    ucsa_eq("the stored value is returned", r, e & 0xff);
  } else if (how == 1) {
    t_mem r = c->read();
    e = old;
    for (int j = 0; j < 3; j++) {
      int i = seq[j];
      ucsa_eq("a read calls every operator once", o[i]->seen, in[i]);
      if (in[i]) { ucsa_eq("operators are called in their order", o[i]->order, ++k); e = old + o[i]->add; }
    }
    ucsa_eq("the value of the last operator is read", r, e);
    ucsa_eq("a read changes nothing", c->get(), old);
  } else {
    c->get(); c->download(v); as->get(0);
    for (int i = 0; i < 3; i++) ucsa_eq("storing silently calls no operator", o[i]->seen, 0);
  }
  cl_brk *nobrk = (cl_brk *)1;
  cl_hw *nohw = (cl_hw *)1;
  int n = c->nuof_ops();
  c->del_operator(nobrk);
  c->del_operator(nohw);
  ucsa_eq("deleting operators of others keeps these", c->nuof_ops(), n);
}
