// obligations of the drivers; the analyser gives these calls their meaning
#pragma once
extern "C" {
  unsigned long long ucsa_sym(const char *name, int width);      // any value of that width
  int ucsa_pick(const char *name, int lo, int hi);               // case split
  void ucsa_assume(int cond);                                    // consider only these states
  void ucsa_eq(const char *what, unsigned long long got, unsigned long long want);
  void ucsa_same(const char *what, const void *got, const void *want);
  void ucsa_never(const char *what);
  void ucsa_show(const char *what, unsigned long long v);
}
static inline unsigned int SYM32(const char *n) { return (unsigned int)ucsa_sym(n, 32); }
static inline unsigned int SYM8(const char *n) { return (unsigned int)ucsa_sym(n, 8); }
static inline unsigned int SYM16(const char *n) { return (unsigned int)ucsa_sym(n, 16); }
