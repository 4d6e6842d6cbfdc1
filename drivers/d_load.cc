// loading of files
// statics: mem.cc uc.cc
#include "machine.h"
#include "fiocl.h"
#include "fuiocl.h"

// a file with given content, read as the file class of the program reads files
class t_f: public cl_io {
public:
  int data[600];
  int n, got;
  t_f(): cl_io() { n = got = 0; file_id = 9; type = F_FILE; at_end = 0; last_used = first_free = prev_last_used = 0; cooking = 0; }
  virtual int pick(void) {
    int fp = free_place();
    if (fp < 5) return 0;
    int m = (fp > 101) ? 99 : fp - 1, i;
    for (i = 0; i < m && got < n; i++) process((char)data[got++]);
    if (i == 0) at_end = 1;
    return i;
  }
  void c(int x) { data[n++] = x; }
  void s(const char *x) { while (*x) c(*x++); }
  void hex1(int x, bool low) { c((low ? "0123456789abcdef" : "0123456789ABCDEF")[x & 15]); }
  void hex(int x, bool low = false) { hex1(x >> 4, low); hex1(x, low); }
};
// what a loader asks to be written
class t_luc: public t_uc {
public:
  t_addr ra[24];
  t_mem rv[24];
  int rn;
  t_luc(class cl_sim *s): t_uc(s) { rn = 0; }
  virtual bool set_rom(class cl_inspec *, t_addr addr, t_mem val, bool) { if (rn < 24) { ra[rn] = addr; rv[rn] = val; } rn++; return true; }
};
static t_luc *luc;
static cl_inspec *spec;
static void loader0() { machine(); luc = new t_luc(sim); }
static void loader(int width)
{
  cl_address_space *m = new cl_address_space("mem", 0, 8, width);
  m->init();
  luc->rom = m;
  spec = new cl_inspec("", luc);
  spec->mem = m;
}
static unsigned bytes_of(int width) { return width <= 8 ? 1 : width <= 16 ? 2 : width <= 24 ? 3 : 4; }
// bytes of an area of a file and the words that must come from them
static t_addr ea[24];
static t_mem ev[24];
static int en, part;
static void expect_byte(int width, t_addr byte_addr, t_mem b)
{
  int k = bytes_of(width);
  if (part == 0) { ea[en] = byte_addr / k; ev[en] = b; }
  else ev[en] |= b << (8 * part);
  part++;
  if (part == k) { part = 0; en++; }
}
static void compare(const char *)
{
  ucsa_eq("every word of the file is written once", luc->rn, en);
  for (int i = 0; i < en; i++) {
    ucsa_eq("words of a file go to their addresses", luc->ra[i], ea[i]);
    ucsa_eq("words of a file are written with the bytes of the file", luc->rv[i], ev[i]);
  }
}
static int hex_record(t_f *f, int type, int addr, const int *d, int n, int bad, bool low)
{
  int sum = n + (addr >> 8) + addr + type;
  f->c(':');
  f->hex(n, low); f->hex((addr >> 8) & 255, low); f->hex(addr & 255, low); f->hex(type, low);
  for (int i = 0; i < n; i++) { f->hex(d[i], low); sum += d[i]; }
  f->hex((bad - sum) & 255, low);
  return sum;
}

extern "C" void d_hex()
{
  loader0();
  static const int widths[] = { 8, 14, 16, 18, 24, 32 };
  int width = widths[ucsa_pick("width", 0, 5)], n = ucsa_pick("bytes", 1, 5), sep = ucsa_pick("separator", 0, 3), which = ucsa_pick("symbolic", 0, 1);
  int k = bytes_of(width), at = ucsa_pick("address", 0, 1) ? 0x120 * k : 0;
  loader(width);
  int d[5] = { 0x12, 0x9a, 0x00, 0xff, 0x35 }, e[2] = { 0xc3, 0x5a };
  d[which ? n - 1 : 0] = SYM8("byte");
  t_f *f = new t_f();
  const char *s = sep == 0 ? "\n" : sep == 1 ? "\r\n" : sep == 2 ? "\n\n text \n" : "";
  hex_record(f, 0, at, d, n, 0, sep == 1);
  f->s(s);
  en = part = 0;
  for (int i = 0; i < n; i++) expect_byte(width, at + i, d[i]);
  if (n % k == 0 && sep != 2) {
    hex_record(f, 0, 0x3c, e, 2, 0, sep == 1);
    f->s(s);
    for (int i = 0; i < 2; i++) expect_byte(width, 0x3c + i, e[i]);
  }
  int end = ucsa_pick("end", 0, 2);
  if (end < 2) { hex_record(f, 1, 0, 0, 0, 0, false); f->s(end ? "" : s); }
  if (end == 0) hex_record(f, 0, 0, d, 1, 0, false);
  int whole = en;
  if (part) en++;
  long r = luc->read_hex_file(spec, f, false);
  ucsa_eq("the number of loaded words is told", r, whole);
  compare("hex");
}

// records that must not be loaded
extern "C" void d_hex_bad()
{
  loader0();
  int k = ucsa_pick("damage", 0, 6);
  loader(8);
  int d[3] = { 0x11, 0x22, 0x33 }, base[2] = { 0x00, 0x00 };
  t_f *f = new t_f();
  en = part = 0;
  if (k == 0) { // wrong check sum
    int bad = SYM8("error"), x = SYM8("byte");
    ucsa_assume(bad != 0);
    d[1] = x;
    hex_record(f, 0, 5, d, 3, bad, false);
  }
  if (k == 1) { base[1] = 1; hex_record(f, 4, 0, base, 2, 0, false); }
  if (k == 2) { base[0] = 0x12; hex_record(f, 4, 0, base, 2, 0, false); hex_record(f, 0, 7, d, 1, 0, false); expect_byte(8, 0x12000007, 0x11); base[0] = 0x80; base[1] = 3; hex_record(f, 4, 0, base, 2, 0, false); }
  if (k == 3) hex_record(f, 5, 0, d, 3, 0, false);
  if (k == 4) f->s("no record\n");
  if (k == 5) { hex_record(f, 0, 5, d, 3, 0, false); f->n -= 1 + ucsa_pick("missing", 0, 6); }
  if (k == 6) { hex_record(f, 0, 5, d, 0, 0, false); }
  if (k != 5) {
    hex_record(f, 0, 9, d, 2, 0, false);
    t_addr b = k == 1 || k == 2 ? (base[0] * 256 + base[1]) * 65536u : 0;
    expect_byte(8, b + 9, d[0]); expect_byte(8, b + 10, d[1]);
    if (ucsa_pick("end", 0, 1)) hex_record(f, 1, 0, 0, 0, 0, false);
  }
  long r = luc->read_hex_file(spec, f, false);
  ucsa_eq("damaged, unknown and incomplete records are not loaded", luc->rn, en);
  ucsa_eq("the number of loaded words is told", r, en);
  compare("hex");
}

static void s_record(t_f *f, int type, unsigned addr, const int *d, int n, int bad, bool low)
{
  int al = type == 1 || type == 9 || type == 0 || type == 5 ? 2 : type == 2 || type == 8 ? 3 : 4, sum = n + al + 1;
  f->c('S'); f->c('0' + type);
  f->hex(n + al + 1, low);
  for (int i = al - 1; i >= 0; i--) { int b = (addr >> (8 * i)) & 255; f->hex(b, low); sum += b; }
  for (int i = 0; i < n; i++) { f->hex(d[i], low); sum += d[i]; }
  f->hex((bad + 255 - (sum & 255)) & 255, low);
}
extern "C" void d_s19()
{
  loader0();
  static const int widths[] = { 8, 14, 16, 18, 24, 32 };
  int width = widths[ucsa_pick("width", 0, 5)], n = ucsa_pick("bytes", 1, 5), sep = ucsa_pick("separator", 0, 1), type = ucsa_pick("type", 1, 3), which = ucsa_pick("symbolic", 0, 1);
  int k = bytes_of(width);
  unsigned at = (type == 1 ? 0x120 : type == 2 ? 0x41200 : 0x80412000u / 12u) * k;
  loader(width);
  int d[5] = { 0x12, 0x9a, 0x00, 0xff, 0x35 }, e[2] = { 0xc3, 0x5a };
  d[which ? n - 1 : 0] = SYM8("byte");
  t_f *f = new t_f();
  const char *s = sep ? "\r\n" : "\n";
  en = part = 0;
  s_record(f, 0, 0, e, 2, 0, false); f->s(s);
  s_record(f, type, at, d, n, 0, sep); f->s(s);
  for (int i = 0; i < n; i++) expect_byte(width, at + i, d[i]);
  if (part) { part = 0; en++; }
  if (sep) { f->s("text\r\n"); s_record(f, 1, 0x3c, e, 2, 0, false); f->s(s); for (int i = 0; i < 2; i++) expect_byte(width, 0x3c + i, e[i]); if (part) { part = 0; en++; } }
  int end = ucsa_pick("end", 0, 2);
  if (end == 0) { s_record(f, 5, 1, 0, 0, 0, false); f->s(s); s_record(f, 9, 0, 0, 0, 0, false); f->s(s); }
  if (end == 1) { s_record(f, type, at, d, n, 0, sep); for (int i = 0; i < n; i++) expect_byte(width, at + i, d[i]); if (part) { part = 0; en++; } }
  luc->read_s19_file(spec, f, false);
  compare("s19");
}
extern "C" void d_s19_bad()
{
  loader0();
  int k = ucsa_pick("damage", 0, 2);
  loader(8);
  int d[3] = { 0x11, 0x22, 0x33 };
  t_f *f = new t_f();
  en = part = 0;
  if (k == 0) { int bad = SYM8("error"), x = SYM8("byte"); ucsa_assume(bad != 0); d[1] = x; s_record(f, 1, 5, d, 3, bad, false); }
  if (k == 1) { s_record(f, 1, 5, d, 3, 0, false); f->n -= 1 + ucsa_pick("missing", 0, 9); }
  if (k == 2) s_record(f, 1, 5, d, 0, 0, false);
  f->s("\n");
  s_record(f, 1, 9, d, 2, 0, false); f->s("\n");
  expect_byte(8, 9, d[0]); expect_byte(8, 10, d[1]);
  luc->read_s19_file(spec, f, false);
  ucsa_eq("damaged, unknown and incomplete records are not loaded", luc->rn, en);
  compare("s19");
}

extern "C" void d_text()
{
  loader0();
  int p2h = ucsa_pick("p2h", 0, 1), n = ucsa_pick("lines", 0, 3), sep = ucsa_pick("separator", 0, 2), last = ucsa_pick("last_newline", 0, 1), low = ucsa_pick("lower", 0, 1);
  loader(16);
  t_f *f = new t_f();
  en = 0;
  int v = SYM16("word");
  for (int i = 0; i < n; i++) {
    int x = i == 1 ? v : 0x1234 + 0x1111 * i;
    if (sep == 2) f->s("  ");
    f->hex((x >> 8) & 255, low); f->hex(x & 255, low);
    if (p2h) { f->s(i == 2 ? "\t //I  " : " //C "); f->hex(0x30 + 2 * i); }
    else if (sep == 1) f->s(" ; text");
    if (i + 1 < n || last) f->s(sep == 0 ? "\n" : "\r\n");
    if (i == 0 && sep == 2) f->s("\n\n");
    ea[en] = p2h ? 0x30 + 2 * i : i; ev[en++] = x;
  }
  long r = p2h ? luc->read_p2h_file(spec, f, false) : luc->read_asc_file(spec, f, false);
  ucsa_eq("the number of loaded words is told", r, n);
  compare("text");
}

extern "C" void d_omf()
{
  loader0();
  int n = ucsa_pick("bytes", 0, 3), two = ucsa_pick("records", 1, 2), cut = ucsa_pick("missing", 0, 2);
  loader(8);
  t_f *f = new t_f();
  int at = SYM16("offset");
  t_mem v = SYM8("byte");
  en = 0;
  f->c(2); f->c(4); f->c(0); f->c(1); f->c('A'); f->c(0); f->c(0x55); // module header
  for (int i = 0; i < two; i++) {
    f->c(6); f->c(n + 4); f->c(0); f->c(0); f->c(i ? 0x34 : at & 255); f->c(i ? 0x12 : at >> 8);
    for (int j = 0; j < n; j++) { t_mem b = j == n - 1 ? v : 0x40 + j; f->c(b); if (i == 0 || two == 1 || !cut) { ea[en] = (i ? 0x1234 : at) + j; ev[en++] = b; } }
    f->c(0x77);
  }
  if (two == 1 && cut) return;
  if (!cut) { f->c(4); f->c(3); f->c(0); f->c(1); f->c(0); f->c(0); }
  else f->n -= 2 * cut - 1 + (cut == 2 && n < 1 ? -2 : 0);
  if (cut == 1 && n) return; // only the check sum is missing
  luc->read_omf_file(spec, f, false);
  compare("omf");
}

// specification of the input: memory, offset and range
extern "C" void d_spec()
{
  machine();
  static const struct { const char *s, *file; int mem; unsigned off, mi, ma; } T[] = {
    { "f.hex", "f.hex", 0, 0, 0, 0xffffffff }, { "", "", 0, 0, 0, 0xffffffff }, { "a@ram", "a", 1, 0, 0, 0xffffffff }, { "a@rom:3", "a", 0, 3, 0, 0xffffffff }, { "a:0x4", "a", 0, 4, 0, 0xffffffff },
    { "a#2-5", "a", 0, 0, 2, 5 }, { "a@ram:1#0-2", "a", 1, 1, 0, 2 }, { "a#0xa", "a", 0, 0, 10, 0xffffffff }, { "a#-3", "a", 0, 0, 0, 3 }, { "a@ram_chip:2", "a", 2, 2, 0, 0xffffffff },
    { "a:-2#3-0x6", "a", 0, -2u, 3, 6 }, { "a#", "a", 0, 0, 0, 0xffffffff }, { "a:", "a", 0, 0, 0, 0xffffffff }, { "a#1-2@rom_chip:5", "a", 3, 5, 1, 2 }, { "a@nothing", "a", -1, 0, 0, 0xffffffff } };
  int k = ucsa_pick("spec", 0, 14), check = ucsa_pick("check", 0, 1);
  unsigned addr = ucsa_pick("address", 0, 17);
  cl_inspec *is = new cl_inspec(T[k].s, uc);
  cl_memory *rom = uc->memory("rom"), *ram = uc->memory("ram"), *m[4] = { rom, ram, uc->memory("ram_chip"), uc->memory("rom_chip") };
  t_mem before[20], v = SYM8("value");
  for (int i = 0; i < 20; i++) { before[i] = SYM8(i == 0 ? "m0" : "m"); if (i < 16) rom->set(i, before[i]); else ram->set(i - 16, before[i]); }
  ucsa_same("the file is loaded into the named memory", is->get_mem(), T[k].mem < 0 ? 0 : m[T[k].mem]);
  ucsa_eq("name of the file", *(is->get_file_name()) == T[k].file, 1);
  bool r = uc->set_rom(is, addr, v, check);
  unsigned to = addr + T[k].off;
  int base = T[k].mem == 1 || T[k].mem == 2 ? 16 : 0, size = base ? 4 : 16;
  bool in = T[k].mem >= 0 && addr >= T[k].mi && addr <= T[k].ma && to < (unsigned)size;
  for (int i = 0; i < 20; i++)
    ucsa_eq(check ? "verification does not change the memory" : "only the addressed cell in the range of the specification is written", i < 16 ? rom->get(i) : ram->get(i - 16), in && !check && base + (int)to == i ? v : before[i]);
  if (check && in) ucsa_eq("verification tells if the memory has the word of the file", r, before[base + to] == v);
}

// words for a bank are addressed with number_of_bank * size + address
extern "C" void d_bank()
{
  machine();
  cl_address_space *as = new cl_address_space("banked", 0, 8, 8), *sel = new cl_address_space("sel", 0, 2, 8);
  as->init(); sel->init();
  cl_memory_chip *c = new cl_chip8("chip", 24, 8), *sc = new cl_chip8("sel_chip", 2, 8);
  c->init(); sc->init();
  cl_address_decoder *d = new cl_address_decoder(sel, sc, 0, 1, 0);
  d->init(); sel->decoders->add(d); d->activate(0);
  d = new cl_address_decoder(as, c, 0, 3, 0);
  d->init(); as->decoders->add(d); d->activate(0);
  int active = ucsa_pick("active", 0, 2), bank = ucsa_pick("bank", 1, 2), a = ucsa_pick("address", 0, 7), check = ucsa_pick("check", 0, 1);
  cl_banker *b = new cl_banker(sel, 0, 3, as, 4, 7);
  b->init();
  as->decoders->add(b);
  for (int i = 0; i < 3; i++) b->add_bank(i, c, 4 + 4 * i);
  b->activate(0);
  sel->write(0, active);
  for (int i = 0; i < 24; i++) c->set(i, 0x20 + i);
  t_mem v = SYM8("value");
  cl_inspec *is = new cl_inspec("", uc);
  is->mem = as;
  bool r = uc->set_rom(is, bank * 8 + a, v, check);
  for (int i = 0; i < 24; i++)
    ucsa_eq("a word for a bank is written into that bank only", c->get(i), !check && a >= 4 && i == bank * 4 + a ? v : 0x20 + i);
  if (check && a >= 4) ucsa_eq("verification of a bank", r, v == 0x20u + bank * 4 + a);
  for (int i = 4; i < 8; i++)
    ucsa_eq("loading does not change the selected bank", as->read(i), c->get(active * 4 + i));
}
