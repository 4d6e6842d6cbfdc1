// Abstract domain: every bit of every value is a node of a hash-consed value
// graph (constant, small boolean function in truth-table normal form, carry bit
// of a linear form, zero test, table/operator bit, gated join) or "unknown"
// carrying the set of entry bits it may depend on; plus unsigned ranges and
// points-to sets.  Everything is a dataflow lattice value; no solver is used.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <vector>
#include <algorithm>
#include <cassert>

typedef uint32_t Bit; // 0,1 constants, 2: unknown (any dependency), else node id
static const Bit BT = 2;
typedef uint32_t Dep; // hash-consed set of entry bits; 0 empty, 1 everything

struct IV;
struct SymInfo { std::string name; int w; int space = -1; std::shared_ptr<IV> addr; };
extern std::vector<SymInfo> Syms;
int internSym(const std::string &name, int w);

Bit symBit(int s, int b);
bool bitTop(Bit b);
Bit bNot(Bit a);
Bit bAnd(Bit a, Bit b);
Bit bOr(Bit a, Bit b);
Bit bXor(Bit a, Bit b);
Bit bIte(Bit c, Bit a, Bit b);
Bit bNor(std::vector<Bit> v);
Bit bTopDep(Dep d);
Dep bitDep(Bit b);
Dep depUnion(Dep a, Dep b);
bool depHas(Dep d, int sym, int bit);
std::string depStr(Dep d);
std::string bitStr(Bit b);

struct Lin { int m = 64; std::vector<std::pair<Bit, uint64_t>> t; uint64_t k = 0; bool operator==(const Lin &o) const { return m == o.m && k == o.k && t == o.t; } };
typedef std::shared_ptr<const Lin> LinP;

struct IV {
  int w = 0;
  std::vector<Bit> b;
  mutable LinP lin;           // cached: value == lin mod 2^w (only when no bit is unknown)
  mutable LinP low; mutable int lowTop = 0;
  uint64_t lo = 0, hi = ~0ull;
  bool isConst() const { return lo == hi; }
  bool operator==(const IV &o) const { return w == o.w && lo == o.lo && hi == o.hi && b == o.b; }
  bool operator!=(const IV &o) const { return !(*this == o); }
};

inline uint64_t maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
IV ivConst(int w, uint64_t v);
IV ivTop(int w);
IV ivTopDep(int w, Dep d);
IV ivSym(int w, int sym);
IV ivBits(int w, std::vector<Bit> b);
bool ivHasTop(const IV &v);
Dep ivDep(const IV &v);
IV ivAdd(const IV &a, const IV &b);
IV ivSub(const IV &a, const IV &b);
IV ivMul(const IV &a, const IV &b);
IV ivAnd(const IV &a, const IV &b);
IV ivOr(const IV &a, const IV &b);
IV ivXor(const IV &a, const IV &b);
IV ivShl(const IV &a, const IV &b);
IV ivLshr(const IV &a, const IV &b);
IV ivAshr(const IV &a, const IV &b);
IV ivUdiv(const IV &a, const IV &b);
IV ivUrem(const IV &a, const IV &b);
IV ivSdiv(const IV &a, const IV &b);
IV ivSrem(const IV &a, const IV &b);
IV ivTrunc(const IV &a, int w);
IV ivZext(const IV &a, int w);
IV ivSext(const IV &a, int w);
IV ivIte(Bit c, const IV &a, const IV &b);
IV ivLookup(const std::vector<uint64_t> &tab, int w, const IV &idx, const std::string &name); // tab[idx], idx relative
enum Pred { EQ, NE, UGT, UGE, ULT, ULE, SGT, SGE, SLT, SLE };
IV ivCmp(Pred p, const IV &a, const IV &b);
// join; sel is a bit that tells a from b when it is not unknown; d: what the choice depends on
struct Gate { Bit sel = BT; Dep dep = 0; bool widen = false; bool nogate = false; };
IV ivJoin(const IV &a, const IV &b, const Gate &g);
void ivNorm(IV &v);
int ivDiffer(const IV &a, const IV &b); // 1 surely different, 0 surely equal, -1 unknown
std::string ivStr(const IV &v);
std::string ivKey(const IV &v); // canonical key, "" when unknown

// valuation of value graphs, 64 lanes at a time
struct Valuation {
  uint64_t seed = 1; int mode = 0; // 0: random with shared patterns; 1: exhaustive over `vars`
  std::vector<std::pair<int,int>> vars; uint64_t base = 0;
  std::map<std::tuple<int, uint64_t>, uint64_t> fixedMem; // lane independent
  std::map<int, uint64_t> fixedSym;
  std::vector<std::tuple<int, IV, uint64_t>> pinned;     // (space, addr, value)
  std::map<Bit, uint64_t> bit; std::map<uint32_t, uint64_t> atom; std::map<int, std::vector<uint64_t>> sym;
  std::map<int, std::vector<uint64_t>> pinAddr;
  uint64_t eval(Bit b); uint64_t memAt(int space, uint64_t a, int lane, int w, bool x = false); uint64_t evalAtom(uint32_t a); const std::vector<uint64_t> &evalSym(int s); std::vector<uint64_t> lanes(const IV &v);
};
void primaryBits(Bit b, std::set<std::pair<int,int>> &out, bool intoAddr);

struct PT { int r; int64_t off; int64_t span; int ix = 0; // span>0: somewhere in [off,off+span); ix: index expression
  bool operator<(const PT &o) const { return std::tie(r, off, span, ix) < std::tie(o.r, o.off, o.span, o.ix); }
  bool operator==(const PT &o) const { return r == o.r && off == o.off && span == o.span && ix == o.ix; } };
struct IdxExpr { IV idx; int64_t stride; };
extern std::vector<IdxExpr> IdxTab;
int internIdx(const IV &i, int64_t stride);

struct Val {
  enum K { Bot, Int, Ptr, Agg, Top } k = Bot;
  IV i;
  std::vector<PT> p;   // sorted set; region 0 is null
  std::vector<Bit> pg; // when it is this one of several (driver mode; empty: not known)
  bool pTop = false;
  std::vector<Val> agg;
  bool operator==(const Val &o) const {
    if (k != o.k) return false;
    switch (k) { case Int: return i == o.i; case Ptr: return pTop == o.pTop && p == o.p && pg == o.pg && (!pTop || i == o.i); // i: the number of an integer kept as a pointer
      case Agg: return agg == o.agg; default: return true; }
  }
};
extern bool PtrGuards;
Val vInt(const IV &i);
Val vPtr(int r, int64_t off = 0);
Val vPtrTop();
Val vTop();
Val vJoin(const Val &a, const Val &b, const Gate &g);
