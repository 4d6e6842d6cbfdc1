// expressions of the command language
// statics: mem.cc uc.cc
#include "machine.h"

static long expr(const char *s) { application->expr_result = 0; real_eval = true; return application->cl_app::eval(s); }



static int a, b, c;
static void values(int width)
{
  if (!uc)
    machine();
  a = (int)ucsa_sym("a", width), b = (int)ucsa_sym("b", width), c = (int)ucsa_sym("c", width);
  uc->ram->set(0, a);
  uc->ram->set(1, b);
  uc->ram->set(2, c);
  uc->ram->set(3, 0x3c);
}
#define SAY(E, V) ucsa_eq(E, (unsigned int)expr(E), (unsigned int)(V));
#pragma clang diagnostic ignored "-Wparentheses"
#pragma clang diagnostic ignored "-Wbitwise-op-parentheses"

// every pair of operators: the rules of C say which one is evaluated first
static void small(int zero) { values(3); if (!zero) ucsa_assume(a && b && c); }
#define PAIR(p, q) SAY("ram[0] " #p " ram[1] " #q " ram[2]", a p b q c)
#define ALL(q) PAIR(+, q) PAIR(-, q) PAIR(<<, q) PAIR(>>, q) PAIR(<, q) PAIR(>, q) PAIR(<=, q) PAIR(>=, q) PAIR(==, q) PAIR(!=, q) \
  PAIR(&, q) PAIR(^, q) PAIR(|, q) PAIR(&&, q) PAIR(||, q) PAIR(*, q)
extern "C" void d_pair_mul() { small(1); ALL(*) }
extern "C" void d_quot_mul() { small(0); PAIR(/, *) PAIR(%, *) }
extern "C" void d_pair_add() { small(1); ALL(+) }
extern "C" void d_quot_add() { small(0); PAIR(/, +) PAIR(%, +) }
extern "C" void d_pair_sub() { small(1); ALL(-) }
extern "C" void d_quot_sub() { small(0); PAIR(/, -) PAIR(%, -) }
extern "C" void d_pair_lt() { small(1); ALL(<) }
extern "C" void d_quot_lt() { small(0); PAIR(/, <) PAIR(%, <) }
extern "C" void d_pair_gt() { small(1); ALL(>) }
extern "C" void d_quot_gt() { small(0); PAIR(/, >) PAIR(%, >) }
extern "C" void d_pair_le() { small(1); ALL(<=) }
extern "C" void d_quot_le() { small(0); PAIR(/, <=) PAIR(%, <=) }
extern "C" void d_pair_ge() { small(1); ALL(>=) }
extern "C" void d_quot_ge() { small(0); PAIR(/, >=) PAIR(%, >=) }
extern "C" void d_pair_eq() { small(1); ALL(==) }
extern "C" void d_quot_eq() { small(0); PAIR(/, ==) PAIR(%, ==) }
extern "C" void d_pair_ne() { small(1); ALL(!=) }
extern "C" void d_quot_ne() { small(0); PAIR(/, !=) PAIR(%, !=) }
extern "C" void d_pair_and() { small(1); ALL(&) }
extern "C" void d_quot_and() { small(0); PAIR(/, &) PAIR(%, &) }
extern "C" void d_pair_xor() { small(1); ALL(^) }
extern "C" void d_quot_xor() { small(0); PAIR(/, ^) PAIR(%, ^) }
extern "C" void d_pair_or() { small(1); ALL(|) }
extern "C" void d_quot_or() { small(0); PAIR(/, |) PAIR(%, |) }
extern "C" void d_pair_land() { small(1); ALL(&&) }
extern "C" void d_quot_land() { small(0); PAIR(/, &&) PAIR(%, &&) }
extern "C" void d_pair_lor() { small(1); ALL(||) }
extern "C" void d_quot_lor() { small(0); PAIR(/, ||) PAIR(%, ||) }
#define SHIFTED(q) PAIR(+, q) PAIR(<<, q) PAIR(>>, q) PAIR(<, q) PAIR(>, q) PAIR(<=, q) PAIR(>=, q) PAIR(==, q) PAIR(!=, q) \
  PAIR(&, q) PAIR(^, q) PAIR(|, q) PAIR(&&, q) PAIR(||, q) PAIR(*, q)

extern "C" void d_pair_shift() { small(1); SHIFTED(<<) SHIFTED(>>) }
extern "C" void d_pair_div() { small(0);
#define DIVIDED(q) PAIR(*, q) PAIR(/, q) PAIR(%, q) PAIR(+, q) PAIR(-, q) PAIR(<<, q) PAIR(>>, q) PAIR(<, q) PAIR(==, q) PAIR(&, q) PAIR(^, q) PAIR(|, q) PAIR(&&, q) PAIR(||, q)
  DIVIDED(/) DIVIDED(%) }
extern "C" void d_triple()
{
  small(1);
  SAY("ram[0]?ram[1]:ram[2]", a ? b : c)
  SAY("ram[0]?ram[1]?1:2:ram[2]?3:4", a ? b ? 1 : 2 : c ? 3 : 4)
  SAY("ram[0]?5:ram[1]?6:ram[2]?7:8", a ? 5 : b ? 6 : c ? 7 : 8)
  SAY("ram[0]||ram[1]?ram[2]+1:ram[2]-1", a || b ? c + 1 : c - 1)
  SAY("ram[0],ram[1],ram[2]+1", c + 1)
  SAY("(ram[0],ram[1])+ram[2]", b + c)
  SAY("ram[0]-(ram[1]-ram[2])", a - (b - c))
  SAY("(ram[0]|ram[1])*ram[2]", (a | b) * c)
  SAY("((((ram[0]))))", a)
  SAY("~(ram[0]&(ram[1]^ram[2]))", ~(a & (b ^ c)))
  SAY("ram[0]+ram[1]*ram[2]-(ram[0]<ram[1]&&ram[2]>2)", a + b * c - (a < b && c > 2))
  SAY("  ram [ 0 ]\t+ram[ 1]  ", a + b)
  SAY("ram[1+1]", c)
}
extern "C" void d_one_operand()
{
  values(8);
  SAY("-ram[0]", -a)
  SAY("+ram[0]", a)
  SAY("~ram[0]", ~a)
  SAY("!ram[0]", !a)
  SAY("!!ram[0]", !!a)
  SAY("-~ram[0]", a + 1)
  SAY("-ram[0]*ram[1]", -a * b)
  SAY("ram[0]- -ram[1]", a + b)
  SAY("!ram[0]+ram[1]", !a + b)
  SAY("&ram[2]", 2)
  SAY("&ram[1+ram[0]*0]", 1)
  SAY("(int)ram[0]", (signed char)a)
  SAY("(int)ram[0]+ram[1]", (signed char)a + b)
  SAY("ram[0]-ram[1]", a - b)
  SAY("ram_chip[1]", b)
  SAY("rom[3]", uc->rom->get(3))
}
// values below zero
static long sa, sb;
static void signed_values() { values(8); sa = (signed char)a, sb = (signed char)b; }
#define NEG(op) SAY("(int)ram[0] " #op " (int)ram[1]", sa op sb)
#define NEGC(op, c) SAY("(int)ram[0] " #op " " #c, sa op c) SAY("(ram[0]-256) " #op " " #c, (a - 256L) op c)
extern "C" void d_negative()
{
  signed_values();
  NEG(+) NEG(-) NEG(<) NEG(>) NEG(<=) NEG(>=) NEG(==) NEG(!=) NEG(&) NEG(^) NEG(|) NEG(&&) NEG(||)
}
extern "C" void d_negative_const()
{
  signed_values();
  NEGC(*, 3) NEGC(*, -5) NEGC(/, 7) NEGC(/, -7) NEGC(%, 7) NEGC(%, -7) NEGC(<<, 5) NEGC(>>, 3) NEGC(<, -3) NEGC(>, -3) NEGC(>=, -128) NEGC(<=, -128) NEGC(<, 0) NEGC(>, 0) NEGC(>=, 0) NEGC(<=, 0)
  NEGC(==, -1) NEGC(!=, -1) NEGC(&, -16) NEGC(&&, 1) NEGC(&&, -1) NEGC(||, 0)
  SAY("-((int)ram[0])", -sa) SAY("~((int)ram[0])", ~sa) SAY("!((int)ram[0])", !sa) SAY("!(ram[0]-128)", a == 128) SAY("+((int)ram[0])", sa)
  SAY("(int)ram[0]?1:2", sa ? 1 : 2) SAY("(ram[0]-256)?1:2", 1) SAY("((int)ram[0]<0)?-((int)ram[0]):(int)ram[0]", sa < 0 ? -sa : sa)
}
extern "C" void d_numbers()
{
  machine();
  SAY("0", 0) SAY("1", 1) SAY("9", 9) SAY("10", 10) SAY("1080", 1080) SAY("255", 255) SAY("65536", 65536) SAY("2147483647", 2147483647) SAY("4294967295", 4294967295u)
  SAY("98765", 98765) SAY("43210", 43210) SAY("987654321", 987654321)
  SAY("0x0", 0) SAY("0x12", 0x12) SAY("0X12", 0x12) SAY("0xabcdef", 0xabcdef) SAY("0xABCDEF", 0xabcdef) SAY("0x1234567", 0x1234567) SAY("0x89ab", 0x89ab) SAY("0xffffffff", 0xffffffffu)
  SAY("$12", 0x12) SAY("$fF", 0xff) SAY("$9aBc", 0x9abc)
  SAY("012", 10) SAY("0777", 0777) SAY("01234567", 01234567) SAY("00", 0) SAY("00017", 15)
  SAY("0b0", 0) SAY("0b010101", 21) SAY("0b11111111", 255) SAY("0b1", 1) SAY("0b1000000000000001", 0x8001)
  SAY("'A'", 65) SAY("'a'", 97) SAY("'0'", 48) SAY("' '", 32) SAY("'\\n'", 10) SAY("'\\r'", 13) SAY("'\\t'", 9) SAY("'\\033'", 27) SAY("'z'+1", 123)
  SAY("12*(34+56)", 1080)
}

// assignments: the cell gets the value, the result is the value, nothing else changes
static int keep[4];
static void other(const char *what, int except)
{
  for (int i = 0; i < 4; i++)
    if (i != except)
      ucsa_eq(what, uc->ram->get(i), keep[i]);
}
static void cells(int width)
{
  values(width);
  keep[0] = a, keep[1] = b, keep[2] = c, keep[3] = 0x3c;
}
#define SET(E, V) SET2(cells(8), E, V)
#define SET3(E, V) SET2(small_cells(), E, V)
#define SET2(I, E, V) { I; ucsa_eq(E ": result is the assigned value", (unsigned int)expr(E), (V) & 0xff); \
    ucsa_eq(E ": cell holds the value", uc->ram->get(0), (V) & 0xff); other(E ": no other cell changes", 0); }
static void small_cells() { cells(3); ucsa_assume(b && c); }
extern "C" void d_assign()
{
  SET("ram[0]= ram[1]", b)
  SET("ram[0]= ram[1]+ram[2]", b + c)
  SET("ram[0]= 0x1234", 0x34)
  SET("ram[0]*= 3", a * 3)
  SET("ram[0]+= ram[1]", a + b)
  SET("ram[0]-= ram[1]", a - b)
  SET("ram[0]&= ram[1]", a & b)
  SET("ram[0]^= ram[1]", a ^ b)
  SET("ram[0]|= ram[1]", a | b)
  SET("ram[0]|= ram[1]|ram[2]", a | b | c)
  SET("ram[0]<<= 3", a << 3)
  SET("ram[0]>>= 3", a >> 3)
  SET("ram[0]/= 7", a / 7)
  SET("ram[0]%= 7", a % 7)
  SET("ram_chip[0]= ram[1]", b)
}
extern "C" void d_assign_small()
{
  SET3("ram[0]*= ram[1]", a * b)
  SET3("ram[0]/= ram[1]", a / b)
  SET3("ram[0]%= ram[1]", a % b)
  SET3("ram[0]<<= ram[1]", a << b)
  SET3("ram[0]>>= ram[1]", a >> b)
  SET3("ram[0]-= ram[1]-ram[2]", a - (b - c))
}
#define STEP(E, R, V) { cells(8); ucsa_eq(E ": result", (unsigned int)expr(E), (unsigned int)(R)); \
    ucsa_eq(E ": cell", uc->ram->get(0), (V) & 0xff); other(E ": no other cell changes", 0); }
extern "C" void d_step()
{
  STEP("ram[0]++", a, a + 1)
  STEP("ram[0]--", a, a - 1)
  STEP("++ram[0]", (a + 1) & 0xff, a + 1)
  STEP("--ram[0]", (a - 1) & 0xff, a - 1)
  STEP("ram[0]++ + ram[0]", a + ((a + 1) & 0xff), a + 1)
  STEP("ram[0]++, ram[0]", (a + 1) & 0xff, a + 1)
  STEP("ram[0]= ram[1], ram[0]+1", b + 1, b)
  STEP("(ram[0]= ram[1])+1", b + 1, b)
  STEP("ram[0]", a, a)
  STEP("ram[0]==ram[1]", a == b, a)
  STEP("ram[0]<=ram[1]", a <= b, a)
}
extern "C" void d_chain()
{
  cells(8);
  ucsa_eq("value of a chain of assignments", (unsigned int)expr("ram[0]= ram[1]= ram[2]"), c);
  ucsa_eq("first cell of a chain of assignments", uc->ram->get(0), c);
  ucsa_eq("second cell of a chain of assignments", uc->ram->get(1), c);
  ucsa_eq("source of a chain of assignments", uc->ram->get(2), c);
}
// bits of a cell
extern "C" void d_bit_read()
{
  cells(8);
  SAY("ram[0].0", a & 1) SAY("ram[0].1", a >> 1 & 1) SAY("ram[0].2", a >> 2 & 1) SAY("ram[0].3", a >> 3 & 1)
  SAY("ram[0].4", a >> 4 & 1) SAY("ram[0].5", a >> 5 & 1) SAY("ram[0].6", a >> 6 & 1) SAY("ram[0].7", a >> 7 & 1)
  SAY("ram[0].(1+2)", a >> 3 & 1)
  SAY("ram[0][7:0]", a) SAY("ram[0][5:2]", a >> 2 & 15) SAY("ram[0][2:5]", a >> 2 & 15) SAY("ram[0][4:4]", a >> 4 & 1) SAY("ram[0][7:4]", a >> 4)
  SAY("!ram[0].7", !(a >> 7))
  other("reading bits changes no cell", -1);
}
#define BITS(E, lo, m, V) { cells(8); ucsa_eq(E ": result is the assigned value", (unsigned int)expr(E), (V)); \
    ucsa_eq(E ": only the named bits change", uc->ram->get(0), (a & ~((m) << (lo))) | (V) << (lo)); other(E ": no other cell changes", 0); }
extern "C" void d_bit_write()
{
  BITS("ram[0].0= 1", 0, 1, 1) BITS("ram[0].0= 0", 0, 1, 0) BITS("ram[0].1= 1", 1, 1, 1) BITS("ram[0].3= 1", 3, 1, 1) BITS("ram[0].5= 0", 5, 1, 0)
  BITS("ram[0].7= 1", 7, 1, 1) BITS("ram[0].7= 0", 7, 1, 0)
  BITS("ram[0].4= ram[1].6", 4, 1, b >> 6 & 1)
  BITS("ram[0][5:2]= 9", 2, 15, 9) BITS("ram[0][5:2]= ram[1]&15", 2, 15, b & 15) BITS("ram[0][2:5]= ram[1][7:4]", 2, 15, b >> 4)
  BITS("ram[0][7:0]= ram[1]", 0, 255, b) BITS("ram[0][7:4]= 12", 4, 15, 12)
}
// variables
static void variables()
{
  bool had = uc;
  cells(8);
  if (had)
    return;
  class cl_memory *m = uc->memory("ram");
  uc->vars->add("v1", m, 0, -1, -1, "a variable");
  uc->vars->add("bb", m, 0, 5, 2, "bits");
  uc->vars->add("cc", m, 0, 2, 5, "the same bits");
  uc->vars->add("b4", m, 0, 4, 4, "one bit");
}
#define VAR(E, R, V) { variables(); ucsa_eq(E ": result", (unsigned int)expr(E), (unsigned int)(R)); \
    ucsa_eq(E ": cell", uc->ram->get(0), (V) & 0xff); other(E ": no other cell changes", 0); }
extern "C" void d_variable()
{
  VAR("v1", a, a) VAR("v1+ram[1]", a + b, a) VAR("v1= ram[1]", b, b) VAR("v1+= ram[1]", (a + b) & 0xff, a + b) VAR("v1++", a, a + 1) VAR("--v1", (a - 1) & 0xff, a - 1)
  VAR("&v1", 0, a) VAR("v1.6", a >> 6 & 1, a) VAR("v1[5:2]", a >> 2 & 15, a) VAR("v1.1= 1", 1, a | 2)
}
extern "C" void d_bit_variable()
{
  VAR("bb", a >> 2 & 15, a) VAR("bb= 5", 5, (a & ~0x3c) | 5 << 2) VAR("bb= ram[1]&15", b & 15, (a & ~0x3c) | (b & 15) << 2)
  VAR("cc", a >> 2 & 15, a) VAR("cc= 5", 5, (a & ~0x3c) | 5 << 2) VAR("cc= ram[1]&15", b & 15, (a & ~0x3c) | (b & 15) << 2)
  VAR("b4", a >> 4 & 1, a) VAR("b4= 1", 1, a | 0x10) VAR("b4= 0", 0, a & ~0x10)
}
// errors never stop the simulator, whatever the cells hold
#define SAFE(E) { cells(8); (void)expr(E); other(E ": cells survive", -1); }
extern "C" void d_errors()
{
  SAFE("ram[0]/ram[1]") SAFE("ram[0]%ram[1]") SAFE("ram[0]/0") SAFE("ram[0]%0") SAFE("ram[0]/(ram[1]-ram[1])")
  SAFE("") SAFE("+") SAFE("ram[") SAFE("ram[0") SAFE("ram[0]+") SAFE("1 2") SAFE("(1") SAFE("1)") SAFE("nothing") SAFE("nothing+1") SAFE("ram") SAFE("?") SAFE("ram[0]. ") SAFE("@#") SAFE("'") SAFE("$") SAFE("0x")
  SAFE("-0x80000000/(0-1)") SAFE("ram[0x7fffffff]") SAFE("ram[0-1]")
  { cells(8); (void)expr("ram[0]/= ram[1]-ram[1]"); other("division by zero in an assignment", 0); }
  { cells(8); (void)expr("ram[0]%= 0"); other("division by zero in an assignment", 0); }
  cells(8);
  (void)expr("1+"); 
  ucsa_eq("an expression after a wrong one", (unsigned int)expr("ram[0]+2"), a + 2);
  ucsa_eq("an expression after a right one", (unsigned int)expr("ram[1]"), b);
}
