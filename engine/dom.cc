#include "dom.h"
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <unordered_map>

template <class V> static inline size_t hv(const V &v) { size_t h = 1469598103934665603ull; for (auto x : v) { h ^= (size_t)x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; } return h; }
struct VecH { size_t operator()(const std::vector<uint32_t> &v) const { return hv(v); } };
struct Vec64H { size_t operator()(const std::vector<uint64_t> &v) const { return hv(v); } };

// ---------------------------------------------------------------- symbols
std::vector<SymInfo> Syms;
static std::unordered_map<std::string, int> SymTab;
int internSym(const std::string &name, int w) {
  auto it = SymTab.find(name); if (it != SymTab.end()) return it->second;
  int id = (int)Syms.size(); SymInfo s; s.name = name; s.w = w; Syms.push_back(s); SymTab[name] = id; return id;
}
// ---------------------------------------------------------------- dependency sets
static std::vector<std::vector<uint32_t>> Deps{{}, {0xffffffffu}};
static std::unordered_map<std::vector<uint32_t>, Dep, VecH> DepTab;
static std::unordered_map<uint64_t, Dep> DepU;
static Dep mkDep(const std::vector<uint32_t> &v) { if (v.empty()) return 0; auto it = DepTab.find(v); if (it != DepTab.end()) return it->second; Dep d = (Dep)Deps.size(); Deps.push_back(v); DepTab[v] = d; return d; }
Dep depUnion(Dep a, Dep b) {
  if (a == b || b == 0) return a; if (a == 0) return b; if (a == 1 || b == 1) return 1;
  if (a > b) std::swap(a, b); uint64_t k = ((uint64_t)a << 32) | b; auto it = DepU.find(k); if (it != DepU.end()) return it->second;
  std::vector<uint32_t> v; std::set_union(Deps[a].begin(), Deps[a].end(), Deps[b].begin(), Deps[b].end(), std::back_inserter(v)); Dep d = mkDep(v); DepU[k] = d; return d;
}
bool depHas(Dep d, int sym, int bit) { if (d == 1) return true; return std::binary_search(Deps[d].begin(), Deps[d].end(), (uint32_t)(sym * 64 + bit)); }
std::string depStr(Dep d) { if (d == 1) return "*"; std::string s; std::map<int, std::vector<int>> m; for (auto x : Deps[d]) m[x / 64].push_back(x % 64); for (auto &q : m) { if (!s.empty()) s += ","; s += Syms[q.first].name; if ((int)q.second.size() != Syms[q.first].w) { s += "{"; for (size_t i = 0; i < q.second.size(); i++) { if (i) s += ","; s += std::to_string(q.second[i]); } s += "}"; } } return "{" + s + "}"; }

// ---------------------------------------------------------------- atoms and bit nodes
enum AK : uint8_t { ASym, ALin, ANor, AOp, AIte, AAnd, AXor };
struct OpNode { std::string op; int w; std::vector<IV> a; std::shared_ptr<std::vector<uint64_t>> tab; };
struct Atom { AK k; int x = 0, y = 0; LinP l; std::vector<Bit> v; Dep dep = 0; };
static std::deque<Atom> Atoms; static std::deque<OpNode> Ops;
struct BNode { uint8_t n = 0; bool top = false; uint32_t s[6]; uint64_t tt = 0; Dep dep = 0; };
static std::deque<BNode> BN(3);
static std::unordered_map<std::vector<uint64_t>, Bit, Vec64H> BNTab;
static std::unordered_map<std::vector<uint64_t>, uint32_t, Vec64H> AtomTab;
static const int K = 6;
static const uint64_t VAR[6] = {0xAAAAAAAAAAAAAAAAull, 0xCCCCCCCCCCCCCCCCull, 0xF0F0F0F0F0F0F0F0ull, 0xFF00FF00FF00FF00ull, 0xFFFF0000FFFF0000ull, 0xFFFFFFFF00000000ull};

bool bitTop(Bit b) { return b == BT || (b > 2 && BN[b].top); }
Dep bitDep(Bit b) { if (b < 2) return 0; if (b == BT) return 1; return BN[b].dep; }
Bit bTopDep(Dep d) {
  if (d == 1) return BT; static std::unordered_map<Dep, Bit> T; auto it = T.find(d); if (it != T.end()) return it->second;
  BNode n; n.top = true; n.dep = d; Bit id = (Bit)BN.size(); BN.push_back(n); T[d] = id; return id;
}
// truth tables are kept replicated to 64 bits, so the same function has one table
static Bit mkFun(std::vector<uint32_t> sup, uint64_t tt) {
  for (int i = (int)sup.size() - 1; i >= 0; i--) { // drop variables without influence
    uint64_t hi = tt & VAR[i], lo = tt & ~VAR[i]; int sh = 1 << i;
    if ((hi >> sh) == lo) { // remove var i: compact
      std::vector<uint32_t> ns(sup); ns.erase(ns.begin() + i); uint64_t nt = 0; int n = (int)ns.size();
      for (int q = 0; q < 64; q++) { int idx = 0; for (int j = 0; j < n; j++) if ((q >> j) & 1) idx |= 1 << (j < i ? j : j + 1); if ((tt >> idx) & 1) nt |= 1ull << q; }
      sup = ns; tt = nt;
    }
  }
  if (sup.empty()) return tt & 1;
  std::vector<uint64_t> key; for (auto x : sup) key.push_back(x); key.push_back(tt | 0); key.push_back(sup.size());
  auto it = BNTab.find(key); if (it != BNTab.end()) return it->second;
  BNode n; n.n = (uint8_t)sup.size(); n.tt = tt; for (size_t i = 0; i < sup.size(); i++) { n.s[i] = sup[i]; n.dep = depUnion(n.dep, Atoms[sup[i]].dep); }
  Bit id = (Bit)BN.size(); BN.push_back(n); BNTab[key] = id; return id;
}
static Bit atomBit(uint32_t a) { return mkFun({a}, VAR[0]); }
static uint32_t mkAtom(Atom a, const std::vector<uint64_t> &key) { auto it = AtomTab.find(key); if (it != AtomTab.end()) return it->second; uint32_t id = (uint32_t)Atoms.size(); Atoms.push_back(std::move(a)); AtomTab[key] = id; return id; }
Bit symBit(int s, int b) { Atom a; a.k = ASym; a.x = s; a.y = b; a.dep = 0; std::vector<uint64_t> key{0, (uint64_t)s, (uint64_t)b}; auto it = AtomTab.find(key); if (it != AtomTab.end()) return atomBit(it->second); a.dep = mkDep({(uint32_t)(s * 64 + b)}); return atomBit(mkAtom(a, key)); }
static bool expand(const BNode &n, const std::vector<uint32_t> &sup, uint64_t &out) {
  int pos[6]; for (int i = 0; i < n.n; i++) { pos[i] = (int)(std::lower_bound(sup.begin(), sup.end(), n.s[i]) - sup.begin()); }
  bool id = true; for (int i = 0; i < n.n; i++) if (pos[i] != i) id = false; if (id) { out = n.tt; return true; }
  out = 0; for (int q = 0; q < 64; q++) { int idx = 0; for (int i = 0; i < n.n; i++) if ((q >> pos[i]) & 1) idx |= 1 << i; if ((n.tt >> idx) & 1) out |= 1ull << q; }
  return true;
}
static bool support(const std::vector<Bit> &v, std::vector<uint32_t> &sup) { for (Bit b : v) if (b > 2) { auto &n = BN[b]; for (int i = 0; i < n.n; i++) { auto it = std::lower_bound(sup.begin(), sup.end(), n.s[i]); if (it == sup.end() || *it != n.s[i]) { if (sup.size() >= (size_t)K) return false; sup.insert(it, n.s[i]); } } } return true; }
static uint64_t ttOf(Bit b, const std::vector<uint32_t> &sup) { if (b == 0) return 0; if (b == 1) return ~0ull; uint64_t t; expand(BN[b], sup, t); return t; }
Bit bNot(Bit a) { if (a < 2) return 1 - a; if (bitTop(a)) return a; auto n = BN[a]; return mkFun(std::vector<uint32_t>(n.s, n.s + n.n), ~n.tt); }
static std::unordered_map<uint64_t, Bit> AndC, XorC;
Bit bAnd(Bit a, Bit b) {
  if (a == 0 || b == 0) return 0; if (a == 1) return b; if (b == 1) return a; if (a == b && !bitTop(a)) return a;
  if (bitTop(a) || bitTop(b)) return bTopDep(depUnion(bitDep(a), bitDep(b)));
  if (a > b) std::swap(a, b); uint64_t key = ((uint64_t)a << 32) | b; auto it = AndC.find(key); if (it != AndC.end()) return it->second;
  std::vector<uint32_t> sup; Bit r;
  if (support({a, b}, sup)) r = mkFun(sup, ttOf(a, sup) & ttOf(b, sup));
  else if (a == bNot(b)) r = 0;
  else { Atom t; t.k = AAnd; t.v = {a, b}; t.dep = depUnion(bitDep(a), bitDep(b)); r = atomBit(mkAtom(t, {5, a, b})); }
  AndC[key] = r; return r;
}
Bit bOr(Bit a, Bit b) { if (a == 1 || b == 1) return 1; if (a == 0) return b; if (b == 0) return a; return bNot(bAnd(bNot(a), bNot(b))); }
Bit bXor(Bit a, Bit b) {
  if (a == 0) return b; if (b == 0) return a; if (a == 1) return bNot(b); if (b == 1) return bNot(a); 
  if (bitTop(a) || bitTop(b)) return bTopDep(depUnion(bitDep(a), bitDep(b)));
  if (a == b) return 0;
  if (a > b) std::swap(a, b); uint64_t key = ((uint64_t)a << 32) | b; auto it = XorC.find(key); if (it != XorC.end()) return it->second;
  std::vector<uint32_t> sup; Bit r;
  if (support({a, b}, sup)) r = mkFun(sup, ttOf(a, sup) ^ ttOf(b, sup));
  else if (a == bNot(b)) r = 1;
  else { Atom t; t.k = AXor; t.v = {a, b}; t.dep = depUnion(bitDep(a), bitDep(b)); r = atomBit(mkAtom(t, {6, a, b})); }
  XorC[key] = r; return r;
}
Bit bIte(Bit c, Bit a, Bit b) {
  if (c == 1) return a; if (c == 0) return b; if (a == b && !bitTop(a)) return a;
  if (bitTop(c) || bitTop(a) || bitTop(b)) { if (a == b) return a; return bTopDep(depUnion(bitDep(c), depUnion(bitDep(a), bitDep(b)))); }
  if (a == 1 && b == 0) return c; if (a == 0 && b == 1) return bNot(c);
  std::vector<uint32_t> sup;
  if (support({c, a, b}, sup)) { uint64_t t = ttOf(c, sup); return mkFun(sup, (t & ttOf(a, sup)) | (~t & ttOf(b, sup))); }
  if (a == 0) return bAnd(bNot(c), b); if (b == 0) return bAnd(c, a); if (a == 1) return bOr(c, b); if (b == 1) return bOr(bNot(c), a);
  Bit nc = bNot(c); if (nc < c) { std::swap(a, b); c = nc; }
  Atom t; t.k = AIte; t.v = {c, a, b}; t.dep = depUnion(bitDep(c), depUnion(bitDep(a), bitDep(b))); return atomBit(mkAtom(t, {4, c, a, b}));
}
Bit bNor(std::vector<Bit> v) {
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
  Dep d = 0; bool top = false; std::vector<Bit> u;
  for (Bit b : v) { if (b == 1) return 0; if (b == 0) continue; if (bitTop(b)) top = true; d = depUnion(d, bitDep(b)); u.push_back(b); }
  if (u.empty()) return 1; if (top) return bTopDep(d);
  std::vector<uint32_t> sup; if (support(u, sup)) { uint64_t t = 0; for (Bit b : u) t |= ttOf(b, sup); return mkFun(sup, ~t); }
  for (size_t i = 0; i < u.size(); i++) if (std::binary_search(u.begin(), u.end(), bNot(u[i]))) return 0;
  Atom a; a.k = ANor; a.v = u; a.dep = d; std::vector<uint64_t> key{2}; for (Bit b : u) key.push_back(b); return atomBit(mkAtom(a, key));
}
static std::vector<Bit> opBits(const std::string &op, int w, const std::vector<IV> &args, std::shared_ptr<std::vector<uint64_t>> tab, const std::string &tabname) {
  Dep d = 0; bool top = false; for (auto &a : args) for (Bit b : a.b) { if (bitTop(b)) top = true; d = depUnion(d, bitDep(b)); }
  if (top) return std::vector<Bit>(w, bTopDep(d));
  static std::unordered_map<std::string, int> T; std::string key = op + ":" + std::to_string(w) + ":" + tabname; for (auto &a : args) { key += "|" + std::to_string(a.w); for (Bit b : a.b) { key += ","; key += std::to_string(b); } }
  int id; auto it = T.find(key); if (it != T.end()) id = it->second; else { id = (int)Ops.size(); OpNode o; o.op = op; o.w = w; o.a = args; o.tab = tab; Ops.push_back(o); T[key] = id; }
  std::vector<Bit> r; for (int i = 0; i < w; i++) { Atom a; a.k = AOp; a.x = id; a.y = i; a.dep = d; r.push_back(atomBit(mkAtom(a, {3, (uint64_t)id, (uint64_t)i}))); } return r;
}

// ---------------------------------------------------------------- linear forms over bits
static void linNorm(Lin &l) {
  uint64_t M = maskw(l.m); std::sort(l.t.begin(), l.t.end()); std::vector<std::pair<Bit, uint64_t>> t;
  for (auto &x : l.t) { if (!t.empty() && t.back().first == x.first) t.back().second += x.second; else t.push_back(x); }
  l.t.clear(); for (auto &x : t) { x.second &= M; if (x.second) l.t.push_back(x); } l.k &= M;
}
static void linAddBit(Lin &l, Bit b, uint64_t c) { if (b == 0) return; if (b == 1) { l.k += c; return; } Bit n = bNot(b); if (n < b) { l.k += c; l.t.push_back({n, (uint64_t)(0 - c)}); } else l.t.push_back({b, c}); }
static Bit linBit(const Lin &L, int i);
static std::unordered_map<std::vector<uint64_t>, Bit, Vec64H> LinBitC;
static std::unordered_map<Bit, std::pair<Lin, int>> CarryOf; // a carry out in majority form -> the sum it comes from
static Bit linBit0(const Lin &L0, int i);
static Bit linBit(const Lin &L, int i) {
  // a pure carry out of position i-1 is the majority of the two top operands and the carry into them
  if (i < 2 || i > 40) return linBit0(L, i);
  int64_t top = 1ll << i, half = 1ll << (i - 1), all = top * 2; Lin Rr; Rr.m = i; std::vector<std::pair<Bit, int>> xs; int64_t lo = 0, hi = 0;
  for (auto &x : L.t) { int64_t c = (int64_t)(x.second & (uint64_t)(all - 1)); if (!c) continue; if (c == top) return linBit0(L, i); if (c > top) c -= all;
    if (c == half || c == -half) { xs.push_back({x.first, c > 0 ? 1 : -1}); continue; } if (c >= half || c <= -half) return linBit0(L, i);
    Rr.t.push_back({x.first, (uint64_t)c}); if (c > 0) hi += c; else lo += c; if (hi - lo >= top) return linBit0(L, i); }
  if (xs.empty() || xs.size() > 3) return linBit0(L, i);
  int64_t k = (int64_t)(L.k & (uint64_t)(all - 1)), kl = k & (half - 1), S0 = k / half; lo += kl; hi += kl; int64_t q = (lo - (((lo % half) + half) % half)) / half; lo -= q * half; hi -= q * half; S0 += q;
  if (hi >= top) return linBit0(L, i);
  Rr.k = (uint64_t)(kl - q * half); linNorm(Rr); Bit c = hi < half ? (Bit)0 : linBit0(Rr, i - 1), r = 0;
  for (unsigned m = 0; m < (1u << (xs.size() + 1)); m++) { // bit 1 of S0 + sum of the top operands + carry
    int64_t s = S0; Bit cond = (m & 1) ? c : bNot(c); if (m & 1) s++; for (size_t j = 0; j < xs.size(); j++) { bool on = (m >> (j + 1)) & 1; if (on) s += xs[j].second; cond = bAnd(cond, on ? xs[j].first : bNot(xs[j].first)); }
    if ((s >> 1) & 1) r = bOr(r, cond); }
  if (r > 1 && !CarryOf.count(r)) { Lin Q = L; Q.m = i + 1; linNorm(Q); CarryOf[r] = {Q, i}; }
  return r;
}
static Bit linBit0(const Lin &L0, int i) { // bit i of L
  Lin L; L.m = i + 1; L.k = L0.k & maskw(i + 1); L.t.reserve(L0.t.size()); uint64_t M = maskw(i + 1);
  for (auto &x : L0.t) { uint64_t c = x.second & M; if (c) L.t.push_back({x.first, c}); }
  if (L.t.empty()) return (L.k >> i) & 1;
  std::vector<uint64_t> key; key.reserve(L.t.size() * 2 + 2); key.push_back(i); key.push_back(L.k); for (auto &x : L.t) { key.push_back(x.first); key.push_back(x.second); }
  auto it = LinBitC.find(key); if (it != LinBitC.end()) return it->second;
  Bit r = 0; uint64_t top = 1ull << i; Lin Lo; Lo.m = i + 1; Lo.k = L.k;
  if (Lo.k & top) { r = 1; Lo.k &= ~top; }
  std::vector<Bit> xs; for (auto &x : L.t) { if (x.second == top) xs.push_back(x.first); else Lo.t.push_back(x); }
  unsigned __int128 mx = Lo.k; for (auto &x : Lo.t) mx += x.second;
  if (mx >= top) { // lower part may reach bit i
    std::vector<uint32_t> sup; std::vector<Bit> vb; for (auto &x : Lo.t) vb.push_back(x.first);
    // several terms may stand for few atoms
    if (support(vb, sup)) {
      std::vector<uint64_t> tts; for (Bit b : vb) tts.push_back(ttOf(b, sup)); uint64_t tt = 0;
      for (int q = 0; q < 64; q++) { uint64_t s = Lo.k; for (size_t j = 0; j < vb.size(); j++) if ((tts[j] >> q) & 1) s += Lo.t[j].second; if ((s >> i) & 1) tt |= 1ull << q; }
      r = bXor(r, mkFun(sup, tt));
    } else {
      Atom a; a.k = ALin; a.l = std::make_shared<Lin>(Lo); a.y = i; for (auto &x : Lo.t) a.dep = depUnion(a.dep, bitDep(x.first));
      std::vector<uint64_t> k2{1, (uint64_t)i, Lo.k}; for (auto &x : Lo.t) { k2.push_back(x.first); k2.push_back(x.second); }
      r = bXor(r, atomBit(mkAtom(a, k2)));
    }
  }
  for (Bit x : xs) r = bXor(r, x);
  LinBitC[key] = r; return r;
}
// the linear form of a value whose bits are all known functions; tries to fold
// runs of carry bits back into the sum they came from
static LinP linOf(const IV &v) {
  if (v.lin) return v.lin;
  for (Bit b : v.b) if (bitTop(b)) return nullptr;
  auto L = std::make_shared<Lin>(); L->m = v.w;
  int hi = v.w; // fold: find the highest carry atom, compare with its sum
  int top = v.w - 1; while (top >= 0 && v.b[top] == 0) top--;
  bool folded = false;
  if (top > 1) if (auto it = CarryOf.find(v.b[top]); it != CarryOf.end() && it->second.second == top) {
    Lin D = it->second.first; D.m = top + 1; linNorm(D); bool ok = true; for (int i = top; i >= 0 && ok; i--) if (linBit(D, i) != v.b[i]) ok = false;
    if (ok) { if (top == v.w - 1) { D.m = v.w; *L = D; folded = true; } else { unsigned __int128 mx = D.k; for (auto &x : D.t) mx += x.second; if (mx <= maskw(top + 1)) { D.m = v.w; *L = D; folded = true; } } }
  }
  if (!folded && top > 1 && BN[v.b[top]].n && v.b[top] > 2) {
    auto &n = BN[v.b[top]];
    for (int q = 0; q < n.n && !folded; q++) { auto &A = Atoms[n.s[q]]; if (A.k != ALin || A.y != top) continue;
      // candidate: lower part of the carry plus the xored bits at position top
      Lin C = *A.l; C.m = 64;
      for (int z = 0; z < n.n; z++) if (z != q) C.t.push_back({atomBit(n.s[z]), 1ull << top});
      for (int neg = 0; neg < 2 && !folded; neg++) { Lin D = C; if (neg) D.k += 1ull << top; D.m = top + 1; linNorm(D); bool ok = true; for (int i = top; i >= 0 && ok; i--) if (linBit(D, i) != v.b[i]) ok = false;
        if (ok) { if (top == v.w - 1) { D.m = v.w; *L = D; folded = true; } else { unsigned __int128 mx = D.k; for (auto &x : D.t) mx += x.second; if (mx <= maskw(top + 1)) { D.m = v.w; *L = D; folded = true; } } } }
    }
  }
  if (!folded) { for (int i = 0; i < hi; i++) linAddBit(*L, v.b[i], 1ull << i); }
  linNorm(*L); v.lin = L; return v.lin;
}
// the sum the low bits of v are taken from: v mod 2^m == result (m = result->m);
// canonical for values that were cut to m bits and zero extended
static LinP lowLin(const IV &v) {
  if (v.low && v.lowTop == v.w) return v.low; int top = v.w - 1; while (top >= 0 && v.b[top] == 0) top--;
  if (top < 1 || top == v.w - 1) return linOf(v);
  for (Bit b : v.b) if (bitTop(b)) return nullptr;
  LinP f = linOf(v); IV t; t.w = top + 1; t.b.assign(v.b.begin(), v.b.begin() + top + 1); LinP l = linOf(t);
  unsigned __int128 mx = l->k; for (auto &x : l->t) mx += x.second; if (mx <= maskw(top + 1)) l = f; // no wrap
  v.low = l; v.lowTop = v.w; return l;
}
static IV fromLin(int w, Lin l) { l.m = w; linNorm(l); IV v; v.w = w; v.b.resize(w); for (int i = 0; i < w; i++) v.b[i] = linBit(l, i); v.lo = 0; v.hi = maskw(w);
  unsigned __int128 mx = l.k; for (auto &x : l.t) mx += x.second; if (mx <= maskw(w)) { v.lo = l.k; v.hi = (uint64_t)mx; }
  auto L = std::make_shared<Lin>(l); v.lin = L; ivNorm(v); return v; }

void ivNorm(IV &v) {
  if (v.b.size() != (size_t)v.w) v.b.resize(v.w, BT);
  uint64_t M = maskw(v.w); if (v.hi > M) v.hi = M;
  uint64_t mn = 0, mx = 0; 
  for (int i = 0; i < v.w; i++) { if (v.b[i] == 1) { mn |= 1ull << i; mx |= 1ull << i; } else if (v.b[i] != 0) mx |= 1ull << i; }
  v.lo = std::max(v.lo, mn); v.hi = std::min(v.hi, mx);
  if (v.lo > v.hi) { v.lo = mn; v.hi = mx; }
  if (v.lo == v.hi) { for (int i = 0; i < v.w; i++) v.b[i] = (v.lo >> i) & 1; v.lin = nullptr; }
  for (int i = v.w - 1; i >= 0; i--) { if (v.hi >> i) break; if (v.b[i] != 0) { v.b[i] = 0; } }
}
IV ivConst(int w, uint64_t c) { IV v; v.w = w; c &= maskw(w); v.b.resize(w); for (int i = 0; i < w; i++) v.b[i] = (c >> i) & 1; v.lo = v.hi = c; return v; }
IV ivTop(int w) { IV v; v.w = w; v.b.assign(w, BT); v.lo = 0; v.hi = maskw(w); return v; }
IV ivTopDep(int w, Dep d) { IV v; v.w = w; v.b.assign(w, bTopDep(d)); v.lo = 0; v.hi = maskw(w); return v; }
IV ivBits(int w, std::vector<Bit> b) { IV v; v.w = w; v.b = std::move(b); v.hi = maskw(w); ivNorm(v); return v; }
IV ivSym(int w, int s) { int sw = Syms[s].w; std::vector<Bit> b(w, 0); for (int i = 0; i < w && i < sw; i++) b[i] = symBit(s, i); return ivBits(w, b); }
bool ivHasTop(const IV &v) { for (Bit b : v.b) if (bitTop(b)) return true; return false; }
Dep ivDep(const IV &v) { Dep d = 0; for (Bit b : v.b) d = depUnion(d, bitDep(b)); return d; }

// ripple addition for values with unknown bits: known low part stays exact
static IV addTop(const IV &a, const IV &b, Bit c) {
  IV v; v.w = a.w; v.b.resize(a.w); Dep d = bitDep(c); bool top = false; int n = 0; // n: prefix without unknowns
  while (n < a.w && !bitTop(a.b[n]) && !bitTop(b.b[n])) n++;
  if (n) { Lin l; l.m = n; for (int i = 0; i < n; i++) { linAddBit(l, a.b[i], 1ull << i); linAddBit(l, b.b[i], 1ull << i); } linAddBit(l, c, 1); linNorm(l); for (int i = 0; i < n; i++) v.b[i] = linBit(l, i); }
  // carry is determined only when the low part cannot overflow
  Bit cy = BT; { bool z = true; for (int i = 0; i < n; i++) { if (a.b[i] != 0 && b.b[i] != 0) z = false; } if (z && (c == 0 || (n == 0))) cy = n == 0 ? c : 0; if (n == 0) cy = c; }
  for (int i = 0; i < n; i++) d = depUnion(d, depUnion(bitDep(a.b[i]), bitDep(b.b[i])));
  for (int i = n; i < a.w; i++) {
    Bit x = a.b[i], y = b.b[i]; d = depUnion(d, depUnion(bitDep(x), bitDep(y)));
    if (!top && cy == 0 && (x == 0 || y == 0)) { v.b[i] = x == 0 ? y : x; if (bitTop(v.b[i])) {} continue; }
    top = true; v.b[i] = bTopDep(d); cy = BT;
  }
  v.lo = 0; v.hi = maskw(a.w); return v;
}
static uint64_t addRange(IV &v, const IV &a, const IV &b) {
  if (a.hi + b.hi >= a.hi && a.hi + b.hi <= maskw(a.w)) { v.lo = a.lo + b.lo; v.hi = a.hi + b.hi; }
  else if (b.isConst() && ((b.lo >> (a.w - 1)) & 1)) { uint64_t n = (~b.lo + 1) & maskw(a.w); if (a.lo >= n) { v.lo = a.lo - n; v.hi = a.hi - n; } }
  return 0;
}
static Lin linComb(const Lin &a, const Lin &b, uint64_t cb) { Lin l; l.m = std::min(a.m, b.m); l.t = a.t; l.k = a.k + cb * b.k; for (auto &x : b.t) l.t.push_back({x.first, cb * x.second}); linNorm(l); return l; }
static void meetRange(IV &v, uint64_t lo, uint64_t hi) { v.lo = std::max(v.lo, lo); v.hi = std::min(v.hi, hi); ivNorm(v); }
static void lowFix(IV &v, const IV &a, const IV &b, uint64_t cb) {
  LinP p = lowLin(a), q = lowLin(b); if (!p || !q || (p->m >= v.w && q->m >= v.w)) return;
  Lin l = linComb(*p, *q, cb); bool ch = false; for (int i = 0; i < l.m; i++) { Bit n = linBit(l, i); if (n != v.b[i]) { v.b[i] = n; ch = true; } }
  for (int m : {16}) { // sums that carried beyond a register width and are cut back later
    if (m >= l.m || a.w < m) continue; auto cut = [&](const IV &x, bool &hi) { IV t; t.w = m; t.b.assign(x.b.begin(), x.b.begin() + m); for (int i = m; i < x.w; i++) if (x.b[i] > 1) hi = true; return linOf(t); };
    bool ha = false, hb = false; LinP x = cut(a, ha), y = cut(b, hb); if (!ha && !hb) continue; Lin c = linComb(*x, *y, cb); c.m = m; linNorm(c);
    for (int i = 0; i < m; i++) { Bit n = linBit(c, i); if (n != v.b[i]) { v.b[i] = n; ch = true; } }
  }
  if (ch) { v.lin = nullptr; } v.low = nullptr; ivNorm(v);
}
IV ivAdd(const IV &a, const IV &b) {
  if (a.isConst() && b.isConst()) return ivConst(a.w, a.lo + b.lo);
  if (a.isConst() && a.lo == 0) return b; if (b.isConst() && b.lo == 0) return a;
  IV r; r.lo = 0; r.hi = maskw(a.w); r.w = a.w; addRange(r, a, b);
  LinP x = linOf(a), y = x ? linOf(b) : nullptr;
  IV v = (x && y) ? fromLin(a.w, linComb(*x, *y, 1)) : addTop(a, b, 0);
  if (x && y) lowFix(v, a, b, 1);
  meetRange(v, r.lo, r.hi); return v;
}
static IV ivNotI(const IV &a) { IV v; v.w = a.w; v.b.resize(a.w); for (int i = 0; i < a.w; i++) v.b[i] = bNot(a.b[i]); v.lo = maskw(a.w) - a.hi; v.hi = maskw(a.w) - a.lo;
  if (a.lin) { Lin l; l.m = a.w; l.k = ~a.lin->k; for (auto &t : a.lin->t) l.t.push_back({t.first, (uint64_t)(0 - t.second)}); linNorm(l); v.lin = std::make_shared<Lin>(l); } ivNorm(v); return v; }
IV ivSub(const IV &a, const IV &b) {
  if (a.isConst() && b.isConst()) return ivConst(a.w, a.lo - b.lo);
  if (b.isConst() && b.lo == 0) return a;
  uint64_t lo = 0, hi = maskw(a.w); if (a.lo >= b.hi) { lo = a.lo - b.hi; hi = a.hi - b.lo; }
  LinP x = linOf(a), y = x ? linOf(b) : nullptr;
  IV v = (x && y) ? fromLin(a.w, linComb(*x, *y, ~0ull)) : addTop(a, ivNotI(b), 1);
  if (x && y) lowFix(v, a, b, ~0ull);
  meetRange(v, lo, hi); return v;
}
static IV mulC(const IV &a, uint64_t c) {
  if (c == 0) return ivConst(a.w, 0); if (c == 1) return a;
  uint64_t lo = 0, hi = maskw(a.w); unsigned __int128 h = (unsigned __int128)a.hi * c; if (h <= maskw(a.w)) { lo = a.lo * c; hi = (uint64_t)h; }
  IV v;
  if (LinP x = linOf(a)) { Lin l; l.m = a.w; l.k = x->k * c; for (auto &t : x->t) l.t.push_back({t.first, t.second * c}); v = fromLin(a.w, l); }
  else if ((c & (c - 1)) == 0) { int s = __builtin_ctzll(c); v.w = a.w; v.b.resize(a.w); for (int i = 0; i < a.w; i++) v.b[i] = i < s ? 0 : a.b[i - s]; v.lo = 0; v.hi = maskw(a.w); }
  else v = ivTopDep(a.w, ivDep(a));
  meetRange(v, lo, hi); return v;
}
IV ivMul(const IV &a, const IV &b) {
  if (a.isConst() && b.isConst()) return ivConst(a.w, a.lo * b.lo);
  if (b.isConst()) return mulC(a, b.lo); if (a.isConst()) return mulC(b, a.lo);
  // bit times value
  int na = 0, nb = 0; for (Bit x : a.b) if (x) na++; for (Bit x : b.b) if (x) nb++;
  if (a.b[0] && na == 1) return ivIte(a.b[0], b, ivConst(a.w, 0)); if (b.b[0] && nb == 1) return ivIte(b.b[0], a, ivConst(a.w, 0));
  IV v; v.w = a.w; v.lo = 0; v.hi = maskw(a.w); std::vector<IV> ar{a, b}; if (b.b < a.b) std::swap(ar[0], ar[1]); v.b = opBits("mul", a.w, ar, nullptr, "");
  unsigned __int128 h = (unsigned __int128)a.hi * b.hi; if (h <= maskw(a.w)) { v.lo = a.lo * b.lo; v.hi = (uint64_t)h; } ivNorm(v); return v;
}
IV ivAnd(const IV &a, const IV &b) { IV v; v.w = a.w; v.b.resize(a.w); for (int i = 0; i < a.w; i++) v.b[i] = bAnd(a.b[i], b.b[i]); v.lo = 0; v.hi = std::min(a.hi, b.hi); if (v.b == a.b) { v.lin = a.lin; v.lo = a.lo; v.hi = a.hi; } ivNorm(v); return v; }
IV ivOr(const IV &a, const IV &b) { IV v; v.w = a.w; v.b.resize(a.w); for (int i = 0; i < a.w; i++) v.b[i] = bOr(a.b[i], b.b[i]); v.lo = std::max(a.lo, b.lo); v.hi = maskw(a.w); ivNorm(v); return v; }
IV ivXor(const IV &a, const IV &b) { if (b.isConst() && b.lo == maskw(b.w)) return ivNotI(a); if (a.isConst() && a.lo == maskw(a.w)) return ivNotI(b);
  IV v; v.w = a.w; v.b.resize(a.w); for (int i = 0; i < a.w; i++) v.b[i] = bXor(a.b[i], b.b[i]); v.lo = 0; v.hi = maskw(a.w); ivNorm(v); return v; }
static IV shiftVar(const char *op, const IV &a, const IV &b, int kind) {
  // small variable amounts: gated sum over the amount bits
  if (!ivHasTop(b) && b.hi < (uint64_t)a.w && b.hi <= 63) {
    IV r = a; for (int i = 0; i < b.w; i++) { if (b.b[i] == 0) continue; IV s = kind == 0 ? ivShl(r, ivConst(a.w, 1ull << i)) : kind == 1 ? ivLshr(r, ivConst(a.w, 1ull << i)) : ivAshr(r, ivConst(a.w, 1ull << i)); r = ivIte(b.b[i], s, r); } return r;
  }
  IV v; v.w = a.w; v.lo = 0; v.hi = kind == 1 ? a.hi : maskw(a.w); v.b = opBits(op, a.w, {a, b}, nullptr, ""); ivNorm(v); return v;
}
IV ivShl(const IV &a, const IV &b) { if (!b.isConst()) { if (a.isConst() && a.lo == 0) return a; return shiftVar("shl", a, b, 0); } if (b.lo >= (uint64_t)a.w) return ivConst(a.w, 0); return mulC(a, 1ull << b.lo); }
IV ivLshr(const IV &a, const IV &b) {
  if (!b.isConst()) return shiftVar("lshr", a, b, 1); if (b.lo >= (uint64_t)a.w) return ivConst(a.w, 0); if (b.lo == 0) return a;
  IV v; v.w = a.w; v.b.resize(a.w); for (int i = 0; i < a.w; i++) v.b[i] = i + (int)b.lo < a.w ? a.b[i + b.lo] : 0; v.lo = a.lo >> b.lo; v.hi = a.hi >> b.lo; ivNorm(v); return v;
}
IV ivAshr(const IV &a, const IV &b) {
  if (a.w > 0 && a.b[a.w - 1] == 0) return ivLshr(a, b); if (!b.isConst()) return shiftVar("ashr", a, b, 2);
  int s = b.lo >= (uint64_t)a.w ? a.w - 1 : (int)b.lo; IV v; v.w = a.w; v.b.resize(a.w); for (int i = 0; i < a.w; i++) v.b[i] = i + s < a.w ? a.b[i + s] : a.b[a.w - 1]; v.lo = 0; v.hi = maskw(a.w); ivNorm(v); return v;
}
static int64_t sx(uint64_t v, int w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static IV opIV(const char *op, const IV &a, const IV &b) { IV v; v.w = a.w; v.lo = 0; v.hi = maskw(a.w); v.b = opBits(op, a.w, {a, b}, nullptr, ""); return v; }
IV ivUdiv(const IV &a, const IV &b) {
  if (b.isConst() && b.lo) { if (a.isConst()) return ivConst(a.w, a.lo / b.lo); if (!(b.lo & (b.lo - 1))) return ivLshr(a, ivConst(a.w, __builtin_ctzll(b.lo))); }
  IV v = opIV("udiv", a, b); uint64_t d = std::max<uint64_t>(1, b.lo); v.hi = a.hi / d; if (b.hi) v.lo = a.lo / b.hi; ivNorm(v); return v;
}
IV ivUrem(const IV &a, const IV &b) {
  if (b.isConst() && b.lo) { if (a.isConst()) return ivConst(a.w, a.lo % b.lo); if (!(b.lo & (b.lo - 1))) return ivAnd(a, ivConst(a.w, b.lo - 1)); if (a.hi < b.lo) return a; }
  IV v = opIV("urem", a, b); if (b.hi) v.hi = std::min(a.hi, b.hi - 1); ivNorm(v); return v;
}
IV ivSdiv(const IV &a, const IV &b) { if (a.w && a.b[a.w - 1] == 0 && b.b[b.w - 1] == 0) return ivUdiv(a, b); if (a.isConst() && b.isConst() && b.lo && a.w <= 32) return ivConst(a.w, (uint64_t)(sx(a.lo, a.w) / sx(b.lo, b.w))); IV v = opIV("sdiv", a, b); ivNorm(v); return v; }
IV ivSrem(const IV &a, const IV &b) { if (a.w && a.b[a.w - 1] == 0 && b.b[b.w - 1] == 0) return ivUrem(a, b); if (a.isConst() && b.isConst() && b.lo && a.w <= 32) return ivConst(a.w, (uint64_t)(sx(a.lo, a.w) % sx(b.lo, b.w))); IV v = opIV("srem", a, b); ivNorm(v); return v; }
IV ivTrunc(const IV &a, int w) {
  IV v; v.w = w; v.b.assign(a.b.begin(), a.b.begin() + w); v.lo = 0; v.hi = maskw(w); if (a.hi <= maskw(w)) { v.lo = a.lo; v.hi = a.hi; }
  if (a.lin) { Lin l = *a.lin; l.m = w; linNorm(l); v.lin = std::make_shared<Lin>(l); } ivNorm(v); return v;
}
IV ivZext(const IV &a, int w) { if (w == a.w) return a; IV v; v.w = w; v.b = a.b; v.b.resize(w, 0); v.lo = a.lo; v.hi = a.hi;
  if (a.lin) { unsigned __int128 mx = a.lin->k; for (auto &x : a.lin->t) mx += x.second; if (mx <= maskw(a.w)) { Lin l = *a.lin; l.m = w; v.lin = std::make_shared<Lin>(l); } } ivNorm(v); return v; }
IV ivSext(const IV &a, int w) { if (a.w == w) return a; if (a.isConst()) return ivConst(w, (uint64_t)sx(a.lo, a.w)); if (a.b[a.w - 1] == 0) return ivZext(a, w);
  IV v; v.w = w; v.b.resize(w); for (int i = 0; i < w; i++) v.b[i] = i < a.w ? a.b[i] : a.b[a.w - 1]; v.lo = 0; v.hi = maskw(w); ivNorm(v); return v; }
IV ivIte(Bit c, const IV &a, const IV &b) {
  if (c == 1) return a; if (c == 0) return b; if (a == b && !ivHasTop(a)) return a;
  IV v; v.w = a.w; v.b.resize(a.w); for (int i = 0; i < a.w; i++) v.b[i] = bIte(c, a.b[i], b.b[i]); v.lo = std::min(a.lo, b.lo); v.hi = std::max(a.hi, b.hi); ivNorm(v); return v;
}
IV ivLookup(const std::vector<uint64_t> &tab, int w, const IV &idx, const std::string &name0) {
  { bool idn = idx.hi < tab.size() && !ivHasTop(idx); for (uint64_t i = idx.lo; idn && i <= idx.hi; i++) if (tab[i] != i) idn = false; if (idn) return w <= idx.w ? ivTrunc(idx, w) : ivZext(idx, w); }
  { // table of a table
    int id = -1; bool ok = true; for (int i = 0; ok && i < idx.w; i++) { Bit b = idx.b[i]; if (b < 2) continue; if (bitTop(b) || BN[b].n != 1 || BN[b].tt != VAR[0]) { ok = false; break; } const Atom &a = Atoms[BN[b].s[0]]; if (a.k != AOp || a.y != i || (id >= 0 && a.x != id) || Ops[a.x].op != "tab") { ok = false; break; } id = a.x; }
    if (ok && id >= 0 && Ops[id].tab) { std::vector<uint64_t> t2; for (uint64_t v : *Ops[id].tab) { uint64_t k = v & maskw(idx.w); t2.push_back(k < tab.size() ? tab[k] : 0); } IV in = Ops[id].a[0]; return ivLookup(t2, w, in, name0 + "o"); }
  }
  uint64_t hh = tab.size(); for (uint64_t v : tab) hh = hh * 1099511628211ull + v + 7; std::string name = name0 + "#" + std::to_string(hh);
  IV v; v.w = w; v.lo = 0; v.hi = maskw(w); auto t = std::make_shared<std::vector<uint64_t>>(tab); v.b = opBits("tab", w, {idx}, t, name);
  uint64_t mn = ~0ull, mx = 0, an = ~0ull, orr = 0; for (size_t i = 0; i < tab.size(); i++) { if (i < idx.lo || i > idx.hi) continue; mn = std::min(mn, tab[i]); mx = std::max(mx, tab[i]); an &= tab[i]; orr |= tab[i]; }
  if (mn <= mx) { for (int i = 0; i < w; i++) { if ((an >> i) & 1) v.b[i] = 1; else if (!((orr >> i) & 1)) v.b[i] = 0; } v.lo = mn; v.hi = mx; }
  ivNorm(v); return v;
}
int ivDiffer(const IV &a, const IV &b) {
  if (a.isConst() && b.isConst()) return a.lo != b.lo;
  if (a.hi < b.lo || b.hi < a.lo) return 1;
  bool same = a.w == b.w; 
  for (int i = 0; i < a.w && i < b.w; i++) { Bit x = a.b[i], y = b.b[i]; if (bitTop(x) || bitTop(y) || x != y) same = false; if (x < 2 && y < 2 && x != y) return 1; if (!bitTop(x) && !bitTop(y) && x != y && x == bNot(y)) return 1; }
  if (same) return 0;
  if (a.w == b.w) { LinP x = linOf(a), y = x ? linOf(b) : nullptr; if (x && y) { Lin d = linComb(*x, *y, ~0ull); if (d.t.empty()) return d.k != 0;
      // all coefficients share a power of two that the constant lacks
      uint64_t g = 0; for (auto &t : d.t) g |= t.second; int z = __builtin_ctzll(g); if (d.k & maskw(z)) return 1; } }
  return -1;
}
static Bit ltBit(const IV &a0, const IV &b0) { // a < b unsigned
  IV a = a0, b = b0; int w = 1; uint64_t mx = std::max(a.hi, b.hi); while (w < a.w && (mx >> w)) w++;
  if (b.isConst() && b.lo && (b.lo & (b.lo - 1)) == 0) { int k = __builtin_ctzll(b.lo); std::vector<Bit> v(a.b.begin() + k, a.b.end()); return bNor(v); }
  if (a.isConst() && ((a.lo + 1) & a.lo) == 0) { int k = 0; while (k < a.w && ((a.lo >> k) & 1)) k++; std::vector<Bit> v(b.b.begin() + k, b.b.end()); return bNot(bNor(v)); }
  if (w >= 63) { if (ivHasTop(a) || ivHasTop(b)) return bTopDep(depUnion(ivDep(a), ivDep(b))); std::vector<Bit> o = opBits("ult", 1, {a, b}, nullptr, ""); return o[0]; }
  IV x = ivZext(ivTrunc(a, w), w + 1), y = ivZext(ivTrunc(b, w), w + 1); IV d; LinP p = linOf(x), q = p ? linOf(y) : nullptr;
  if (p && q) return linBit(linComb(*p, *q, ~0ull), w);
  return bTopDep(depUnion(ivDep(a), ivDep(b)));
}
IV ivCmp(Pred p, const IV &a, const IV &b) {
  auto B = [](bool x) { return ivConst(1, x); }; auto BV = [](Bit x) { return ivBits(1, {x}); };
  if (p == EQ || p == NE) {
    int d = ivDiffer(a, b); if (d >= 0) return B((d == 1) == (p == NE));
    std::vector<Bit> v; for (int i = 0; i < a.w; i++) v.push_back(bXor(a.b[i], b.b[i])); Bit r = bNor(v); return BV(p == NE ? bNot(r) : r);
  }
  bool sg = p >= SGT; Pred q = p; IV x = a, y = b;
  if (sg) {
    uint64_t S = 1ull << (a.w - 1);
    if (a.isConst() && b.isConst()) { int64_t m = sx(a.lo, a.w), n = sx(b.lo, b.w); return B(p == SGT ? m > n : p == SGE ? m >= n : p == SLT ? m < n : m <= n); }
    if (b.isConst() && b.lo == 0 && (p == SLT || p == SGE)) { Bit s = a.b[a.w - 1]; return BV(p == SGE ? bNot(s) : s); }
    if (b.isConst() && b.lo == maskw(b.w) && (p == SGT || p == SLE)) { Bit s = a.b[a.w - 1]; return BV(p == SGT ? bNot(s) : s); }
    bool an = a.lo >= S, ap = a.hi < S, bn = b.lo >= S, bp = b.hi < S;
    if (an && bp) return B(p == SLT || p == SLE); if (ap && bn) return B(p == SGT || p == SGE);
    q = (Pred)(p - SGT + UGT);
    if (!((ap && bp) || (an && bn))) { // drop repeated sign bits, then flip the sign
      int w = a.w; while (w > 1 && !bitTop(a.b[w - 1]) && !bitTop(b.b[w - 1]) && a.b[w - 1] == a.b[w - 2] && b.b[w - 1] == b.b[w - 2]) w--;
      x = ivTrunc(a, w); y = ivTrunc(b, w); x.lo = y.lo = 0; x.hi = y.hi = maskw(w); x.lin = y.lin = nullptr; x.b[w - 1] = bNot(x.b[w - 1]); y.b[w - 1] = bNot(y.b[w - 1]); ivNorm(x); ivNorm(y);
    }
  }
  switch (q) {
  case UGT: if (x.lo > y.hi) return B(true); if (x.hi <= y.lo) return B(false); break;
  case UGE: if (x.lo >= y.hi) return B(true); if (x.hi < y.lo) return B(false); break;
  case ULT: if (x.hi < y.lo) return B(true); if (x.lo >= y.hi) return B(false); break;
  case ULE: if (x.hi <= y.lo) return B(true); if (x.lo > y.hi) return B(false); break;
  default: break;
  }
  if (ivDiffer(x, y) == 0) return B(q == UGE || q == ULE);
  switch (q) { case ULT: return BV(ltBit(x, y)); case UGE: return BV(bNot(ltBit(x, y))); case UGT: return BV(ltBit(y, x)); default: return BV(bNot(ltBit(y, x))); }
}
IV ivJoin(const IV &a, const IV &b, const Gate &g) {
  if (a == b) return a;
  IV v; v.w = a.w; v.b.resize(a.w); bool gate = !g.nogate && !g.widen && !bitTop(g.sel);
  for (int i = 0; i < a.w && i < b.w; i++) { Bit x = a.b[i], y = b.b[i]; v.b[i] = x == y ? x : gate ? bIte(g.sel, x, y) : bTopDep(depUnion(g.dep, depUnion(bitDep(x), bitDep(y)))); }
  v.lo = std::min(a.lo, b.lo); v.hi = std::max(a.hi, b.hi);
  if (g.widen) { if (b.lo < a.lo) v.lo = 0; if (b.hi > a.hi) v.hi = maskw(a.w); }
  ivNorm(v); return v;
}
// ---------------------------------------------------------------- printing
static std::string linStr(const Lin &l0);
static std::string atomStr(uint32_t a) {
  auto &A = Atoms[a];
  switch (A.k) {
  case ASym: return Syms[A.x].w == 1 ? Syms[A.x].name : Syms[A.x].name + "." + std::to_string(A.y);
  case ALin: return "(" + linStr(*A.l) + ")." + std::to_string(A.y);
  case ANor: { IV v; v.w = (int)A.v.size(); v.b = A.v; std::string s = "nor("; for (size_t i = 0; i < A.v.size(); i++) { if (i) s += ","; s += bitStr(A.v[i]); if (s.size() > 300) { s += ".."; break; } } return s + ")"; }
  case AOp: { auto &O = Ops[A.x]; std::string s = O.op + "("; for (size_t i = 0; i < O.a.size(); i++) { if (i) s += ","; s += ivStr(O.a[i]); if (s.size() > 300) { s += ".."; break; } } return s + ")." + std::to_string(A.y); }
  case AIte: return "ite(" + bitStr(A.v[0]) + "," + bitStr(A.v[1]) + "," + bitStr(A.v[2]) + ")";
  case AAnd: return "(" + bitStr(A.v[0]) + "&" + bitStr(A.v[1]) + ")";
  case AXor: return "(" + bitStr(A.v[0]) + "^" + bitStr(A.v[1]) + ")";
  }
  return "?";
}
std::string bitStr(Bit b) {
  static int depth = 0; if (b < 2) return b ? "1" : "0"; if (b == BT) return "?"; auto n = BN[b]; if (n.top) return "?" + depStr(n.dep);
  if (depth > 4) return "#" + std::to_string(b); depth++; std::string s;
  if (n.n == 1) s = (n.tt & 1 ? "~" : "") + atomStr(n.s[0]);
  else { int cnt = 1 << n.n; uint64_t t = n.n == 6 ? n.tt : n.tt & ((1ull << cnt) - 1); bool x = true, nx = true, an = t == 1ull << (cnt - 1), orr = t == (n.n == 6 ? ~1ull : ((1ull << cnt) - 2)); for (int i = 0; i < cnt; i++) { bool p = __builtin_popcount(i) & 1, v = (t >> i) & 1; if (p != v) x = false; if (p == v) nx = false; }
    const char *op = x ? "^" : nx ? "^" : an ? "&" : orr ? "|" : ","; char buf[40]; snprintf(buf, 40, "f%llx", (unsigned long long)t); s = x || an || orr ? "(" : nx ? "~(" : std::string(buf) + "("; for (int i = 0; i < n.n; i++) { if (i) s += op; s += atomStr(n.s[i]); } s += ")"; }
  depth--; return s;
}
static std::string linStr(const Lin &l) {
  // group runs of one symbol's bits
  std::string s; char buf[64]; uint64_t M = maskw(l.m); std::map<std::pair<int, uint64_t>, std::map<int, bool>> g; // (sym, base coef) -> bits
  std::vector<std::pair<std::string, uint64_t>> terms; std::map<int, std::map<int, uint64_t>> bysym;
  for (auto &t : l.t) { auto &n = BN[t.first]; if (n.n == 1 && !(n.tt & 1) && Atoms[n.s[0]].k == ASym) bysym[Atoms[n.s[0]].x][Atoms[n.s[0]].y] = t.second; else terms.push_back({bitStr(t.first), t.second}); }
  std::vector<std::pair<std::string, uint64_t>> out;
  for (auto &q : bysym) { auto m = q.second; while (!m.empty()) { int b0 = m.begin()->first; uint64_t c = m.begin()->second; int e = b0; m.erase(m.begin()); while (!m.empty() && m.begin()->first == e + 1 && m.begin()->second == ((c << (e + 1 - b0)) & M)) { e++; m.erase(m.begin()); }
      bool sxn = false; if (!m.empty() && m.begin()->first == e + 1 && m.begin()->second == ((0 - (c << (e + 1 - b0))) & M) && e + 1 == Syms[q.first].w - 1) { e++; m.erase(m.begin()); sxn = true; }
      bool cut = b0 == 0 && ((c << (e + 1)) & M) == 0; std::string n = Syms[q.first].name; if (Syms[q.first].w > 1 && !(b0 == 0 && (e == Syms[q.first].w - 1 || cut))) n += b0 == e ? "." + std::to_string(b0) : "[" + std::to_string(e) + ":" + std::to_string(b0) + "]"; if (sxn) n = "sx(" + n + ")"; out.push_back({n, c}); } }
  std::sort(out.begin(), out.end()); for (auto &t : terms) out.push_back(t);
  for (auto &t : out) { uint64_t c = t.second, n = (0 - c) & M; bool neg = n < c; if (!s.empty() && !neg) s += "+"; if (neg) { s += "-"; c = n; } if (c != 1) { snprintf(buf, 64, "%llu*", (unsigned long long)c); s += buf; } s += t.first; if (s.size() > 400) { s += "..."; break; } }
  if (l.k || out.empty()) { uint64_t n = (0 - l.k) & M; if (!s.empty() && n < l.k) { snprintf(buf, 64, "-%llu", (unsigned long long)n); s += buf; } else { if (!s.empty()) s += "+"; snprintf(buf, 64, "%llu", (unsigned long long)l.k); s += buf; } }
  return s;
}
std::string ivKey(const IV &v) {
  char buf[32]; if (v.isConst()) { snprintf(buf, 32, "0x%llx", (unsigned long long)v.lo); return buf; }
  int top = v.w; while (top > 1 && v.b[top - 1] == 0) top--; std::string s = "b"; s.reserve(top * 6);
  for (int i = 0; i < top; i++) { if (bitTop(v.b[i])) return ""; snprintf(buf, 32, ":%x", v.b[i]); s += buf; } return s;
}
static std::string ivShow(const IV &v) {
  char buf[32]; if (v.isConst()) { snprintf(buf, 32, "0x%llx", (unsigned long long)v.lo); return buf; }
  for (Bit b : v.b) if (bitTop(b)) return "";
  LinP l = linOf(v); int m = v.w; uint64_t mxc = 0; bool carry = false; (void)carry; (void)mxc;
  // values that were cut to m bits print as "sum%m"
  int top = v.w; while (top > 1 && v.b[top - 1] == 0) top--;
  if (top < v.w) { IV t = ivTrunc(v, top); t.lin = nullptr; LinP lt = linOf(t); unsigned __int128 mx = lt->k; for (auto &x : lt->t) mx += x.second; if (mx > maskw(top)) { return linStr(*lt) + "%" + std::to_string(top); } return linStr(*lt); }
  (void)m; return linStr(*l) + (v.w < 32 && false ? "" : "");
}
std::string ivStr(const IV &v) {
  std::string k = ivShow(v); if (!k.empty()) return k;
  bool allTop = true; for (Bit b : v.b) if (!bitTop(b)) allTop = false; if (allTop) { Dep d = ivDep(v); return d == 1 ? "?" : "?" + depStr(d); }
  int top = v.w; while (top > 1 && v.b[top - 1] == 0) top--; std::string s = "["; for (int i = top - 1; i >= 0; i--) { s += bitStr(v.b[i]); if (i) s += ","; } return s + "]";
}
// ---------------------------------------------------------------- valuation
static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
std::vector<uint64_t> Valuation::lanes(const IV &v) { std::vector<uint64_t> r(64, 0); for (int i = 0; i < v.w; i++) { uint64_t x = eval(v.b[i]); if (!x) continue; for (int l = 0; l < 64; l++) if ((x >> l) & 1) r[l] |= 1ull << i; } return r; }
static uint64_t sparse(uint64_t h, int w) { uint64_t M = maskw(w), one = 1ull << ((h >> 8) % (w > 0 ? w : 1)); switch (h % 5) { case 0: return 0; case 1: return M; case 2: return one; case 3: return M & ~one; default: return M & (one | (1ull << ((h >> 16) % (w > 0 ? w : 1)))); } }
// a value: a corner of its width, the corner shared by the lane, a relative of the lane's value, or anything
static uint64_t draw(uint64_t h, uint64_t lane, int w) {
  static const uint64_t pat[] = {0, 1, 2, 0x7f, 0x80, 0xff, 0x0f, 0xf0, 0x99, 0x55, 0x10, 0xfe, 0x09, 0x90, 0x8000, 0x7fff};
  uint64_t top = 1ull << (w > 0 ? w - 1 : 0), M = maskw(w); const uint64_t wide[] = {top, top - 1, M, M - 1, top + 1, top | top >> 1, 0xffff & M, top};
  auto corner = [&](uint64_t q) { return w > 8 && (q >> 4 & 1) ? wide[q & 7] : pat[q & 15]; };
  switch (mix(h) % 8) {
  case 0: case 1: return corner(h) & M;
  case 2: return corner(mix(lane)) & M;
  case 3: { uint64_t v = mix(lane + 77); switch (h % 8) { case 0: case 1: case 2: break; case 3: v++; break; case 4: v--; break; case 5: v = ~v; break; case 6: v = 0 - v; break; default: v ^= top; } return v & M; }
  default: return (h >> 7) & M; }
}
uint64_t Valuation::memAt(int space, uint64_t a, int l, int w, bool) {
  for (size_t i = 0; i < pinned.size(); i++) if (std::get<0>(pinned[i]) == space) { auto it = pinAddr.find((int)i); if (it == pinAddr.end()) it = pinAddr.emplace((int)i, lanes(std::get<1>(pinned[i]))).first; if (it->second[l] == a) return std::get<2>(pinned[i]) & maskw(w); }
  if (!fixedMem.empty()) { auto it = fixedMem.find({space, a}); if (it != fixedMem.end()) return it->second & maskw(w); }
  if (l % 8 == 7) return sparse(mix(seed * 7919 + l * 131 + space * 977 + a * 1000003ull), w);
  uint64_t h = mix(seed * 7919 + l * 131 + space * 977 + a * 1000003ull), x_ = draw(h, seed * 64 + l, w); return x_;
}
const std::vector<uint64_t> &Valuation::evalSym(int s) {
  auto it = sym.find(s); if (it != sym.end()) return it->second;
  std::vector<uint64_t> r(64); int w = Syms[s].w; uint64_t M = maskw(w);
  if (fixedSym.count(s)) { for (auto &x : r) x = fixedSym[s] & M; }
  else if (mode == 0 && Syms[s].addr) {
    std::vector<uint64_t> a = lanes(*Syms[s].addr);
    for (int l = 0; l < 64; l++) r[l] = memAt(Syms[s].space, a[l], l, w, true);
  } else if (mode == 0) { for (int l = 0; l < 64; l++) { uint64_t h = mix(seed * 104729 + l * 31 + (uint64_t)s * 1009); if (l % 8 == 7) { r[l] = sparse(h, w); continue; } r[l] = draw(h, seed * 64 + l, w); } }
  sym[s] = r; return sym[s];
}
uint64_t Valuation::evalAtom(uint32_t a) {
  auto it = atom.find(a); if (it != atom.end()) return it->second; uint64_t r = 0; auto &A = Atoms[a];
  switch (A.k) {
  case ASym: if (mode == 1) { for (size_t i = 0; i < vars.size(); i++) if (vars[i].first == A.x && vars[i].second == A.y) { r = i < 6 ? VAR[i] : ((base >> (i - 6)) & 1) ? ~0ull : 0; break; } if (fixedSym.count(A.x)) r = (fixedSym[A.x] >> A.y) & 1 ? ~0ull : 0; } else { auto v = evalSym(A.x); for (int l = 0; l < 64; l++) if ((v[l] >> A.y) & 1) r |= 1ull << l; } break;
  case ALin: { LinP L = A.l; std::vector<uint64_t> s(64, L->k); for (auto &t : L->t) { uint64_t x = eval(t.first); if (!x) continue; for (int l = 0; l < 64; l++) if ((x >> l) & 1) s[l] += t.second; } int y = Atoms[a].y; for (int l = 0; l < 64; l++) if ((s[l] >> y) & 1) r |= 1ull << l; break; }
  case ANor: { uint64_t o = 0; auto v = A.v; for (Bit b : v) o |= eval(b); r = ~o; break; }
  case AIte: { auto v = A.v; uint64_t c = eval(v[0]); r = (c & eval(v[1])) | (~c & eval(v[2])); break; }
  case AAnd: { auto v = A.v; r = eval(v[0]) & eval(v[1]); break; }
  case AXor: { auto v = A.v; r = eval(v[0]) ^ eval(v[1]); break; }
  case AOp: { int y = A.y; OpNode O = Ops[A.x]; std::vector<std::vector<uint64_t>> in; for (auto &x : O.a) in.push_back(lanes(x));
    for (int l = 0; l < 64; l++) { uint64_t p = in[0][l], q = in.size() > 1 ? in[1][l] : 0, v = 0; int w = O.a[0].w;
      if (O.op == "mul") v = p * q; else if (O.op == "udiv") v = q ? p / q : 0; else if (O.op == "urem") v = q ? p % q : 0; else if (O.op == "sdiv") { int64_t d = sx(q, w), n = sx(p, w); v = d == 0 ? 0 : d == -1 ? (uint64_t)(0 - (uint64_t)n) : (uint64_t)(n / d); } else if (O.op == "srem") { int64_t d = sx(q, w), n = sx(p, w); v = (d == 0 || d == -1) ? 0 : (uint64_t)(n % d); }
      else if (O.op == "shl") v = q >= (uint64_t)w ? 0 : p << q; else if (O.op == "lshr") v = q >= (uint64_t)w ? 0 : p >> q; else if (O.op == "ashr") v = (uint64_t)(sx(p, w) >> (q >= (uint64_t)w ? w - 1 : q)); else if (O.op == "ult") v = p < q; else if (O.op == "tab") v = p < O.tab->size() ? (*O.tab)[p] : 0;
      if ((v >> y) & 1) r |= 1ull << l; }
    break; }
  }
  atom[a] = r; return r;
}
uint64_t Valuation::eval(Bit b) {
  if (b == 0) return 0; if (b == 1) return ~0ull; if (bitTop(b)) return 0; auto it = bit.find(b); if (it != bit.end()) return it->second;
  BNode n = BN[b]; uint64_t v[6]; for (int i = 0; i < n.n; i++) v[i] = evalAtom(n.s[i]);
  uint64_t r = 0; int cnt = 1 << n.n; for (int q = 0; q < cnt; q++) if ((n.tt >> q) & 1) { uint64_t m = ~0ull; for (int i = 0; i < n.n; i++) m &= (q >> i) & 1 ? v[i] : ~v[i]; r |= m; }
  bit[b] = r; return r;
}
static void primAtom(uint32_t a, std::set<std::pair<int,int>> &out, bool ad, std::set<uint32_t> &seen) {
  if (!seen.insert(a).second) return; auto &A = Atoms[a]; std::vector<Bit> v;
  std::function<void(Bit)> go = [&](Bit b) { if (b <= 2 || BN[b].top) return; BNode n = BN[b]; for (int i = 0; i < n.n; i++) primAtom(n.s[i], out, ad, seen); };
  switch (A.k) { case ASym: out.insert({A.x, A.y}); if (ad && Syms[A.x].addr) { IV t = *Syms[A.x].addr; for (Bit b : t.b) go(b); } break;
  case ALin: { LinP L = A.l; for (auto &t : L->t) go(t.first); break; } case AOp: { OpNode O = Ops[A.x]; for (auto &x : O.a) for (Bit b : x.b) go(b); break; } default: { auto w = A.v; for (Bit b : w) go(b); } }
}
void primaryBits(Bit b, std::set<std::pair<int,int>> &out, bool ad) { if (b <= 2 || BN[b].top) return; std::set<uint32_t> seen; BNode n = BN[b]; for (int i = 0; i < n.n; i++) primAtom(n.s[i], out, ad, seen); }

std::vector<IdxExpr> IdxTab(1);
int internIdx(const IV &i, int64_t st) { for (size_t q = 1; q < IdxTab.size(); q++) if (IdxTab[q].stride == st && IdxTab[q].idx == i) return (int)q; IdxTab.push_back({i, st}); return (int)IdxTab.size() - 1; }
Val vInt(const IV &i) { Val v; v.k = Val::Int; v.i = i; return v; }
Val vPtr(int r, int64_t off) { Val v; v.k = Val::Ptr; v.p.push_back({r, off, 0}); return v; }
Val vPtrTop() { Val v; v.k = Val::Ptr; v.pTop = true; return v; }
Val vTop() { Val v; v.k = Val::Top; return v; }
bool PtrGuards = false;
static void joinGuards(Val &v, const Val &a, const Val &b, const Gate &g) {
  if (!PtrGuards || v.p.size() < 2 || v.p.size() > 16 || g.nogate || g.widen || bitTop(g.sel)) return;
  if (a.p == b.p && a.pg == b.pg) { v.pg = a.pg; return; }
  auto of = [](const Val &x, const PT &t) -> Bit { for (size_t i = 0; i < x.p.size(); i++) if (x.p[i] == t) return x.p.size() == 1 ? (Bit)1 : x.pg.empty() ? BT : x.pg[i]; return 0; };
  for (auto &t : v.p) { Bit c = bIte(g.sel, of(a, t), of(b, t)); if (bitTop(c)) { v.pg.clear(); return; } v.pg.push_back(c); }
}
Val vJoin(const Val &a, const Val &b, const Gate &g) {
  if (a.k == Val::Bot) return b; if (b.k == Val::Bot) return a;
  if (a.k == Val::Top || b.k == Val::Top) return vTop(); if (a.k != b.k) return vTop();
  switch (a.k) {
  case Val::Int: if (a.i.w != b.i.w) return vTop(); return vInt(ivJoin(a.i, b.i, g));
  case Val::Ptr: { if (a.pTop && b.pTop && a.i.w == 64 && b.i.w == 64) { Val v = vPtrTop(); v.i = ivJoin(a.i, b.i, g); return v; } if (a.pTop || b.pTop) return vPtrTop(); Val v; v.k = Val::Ptr; std::set_union(a.p.begin(), a.p.end(), b.p.begin(), b.p.end(), std::back_inserter(v.p)); if (v.p.size() > 40) return vPtrTop(); joinGuards(v, a, b, g); return v; }
  case Val::Agg: { if (a.agg.size() != b.agg.size()) return vTop(); Val v; v.k = Val::Agg; for (size_t i = 0; i < a.agg.size(); i++) v.agg.push_back(vJoin(a.agg[i], b.agg[i], g)); return v; }
  default: return vTop();
  }
}
