// ucsa: flow-sensitive, context-sensitive (inlining) abstract interpreter over
// LLVM IR for the ucsim code base.  See DESIGN.md for the domain and the rules.
#include "dom.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <iostream>
#include <regex>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <pthread.h>
#include <unistd.h>

using namespace llvm;
typedef std::string Str;

static std::unique_ptr<Module> M;
static const DataLayout *DL;
static LLVMContext Ctx;

// ---------------------------------------------------------------- regions
enum RK { RNull, RFunc, RGlobal, RAlloca, RHeap, REntry, RAS, RCell, RString };
struct Region {
  RK k; Str name; const GlobalValue *gv = nullptr; uint64_t size = 0; Str cls;
  int parent = -1; int64_t poff = 0;        // REntry: child of; RCell: address space
  IV addr; bool addrKnown = false;          // RCell
  int width = 8;                            // RAS
  bool zero = false;                        // calloc'ed
  bool ext = false;                         // may have been filled by code that is not analysed
};
static std::vector<Region> R;
static std::map<const GlobalValue *, int> GReg;
static std::map<Str, int> NamedReg;
static int newRegion(RK k, const Str &name) { R.push_back(Region()); R.back().k = k; R.back().name = name; return (int)R.size() - 1; }
static int namedRegion(RK k, const Str &key, const Str &name) { auto it = NamedReg.find(key); if (it != NamedReg.end()) return it->second; int r = newRegion(k, name); NamedReg[key] = r; return r; }

// ---------------------------------------------------------------- state
struct Cell { uint32_t size; Val v; bool operator==(const Cell &o) const { return size == o.size && v == o.v; } };
struct ASEnt { IV addr; IV v; Bit guard; int64_t id; bool operator==(const ASEnt &o) const { return addr == o.addr && v == o.v && guard == o.guard; } };
struct RegState {
  std::map<int64_t, Cell> c;
  std::vector<ASEnt> as;     // guarded writes in program order (address spaces)
  bool topAll = false;
  bool freed = false;        // released on every path that leads here
};
struct Ev { Str kind; Str space; IV addr; std::vector<Val> v; Bit guard = 1; Str loc; int64_t id = 0; };
struct Lit { int64_t serial; int side; Bit bit; Dep dep; bool simple; bool operator==(const Lit &o) const { return serial == o.serial && side == o.side && bit == o.bit; } };
static const Gate GateTop = [] { Gate g; g.dep = 1; return g; }();
static int64_t Serial = 0; static int FixMode = 0;
typedef std::map<const Value *, Val> Env;
struct State {
  std::map<int, std::shared_ptr<RegState>> mem;
  std::map<Str, IV> cnt; std::vector<Lit> path; std::map<const Value *, Val> orig; bool lostLog = false; Str fork;
  std::shared_ptr<std::vector<Ev>> log = std::make_shared<std::vector<Ev>>();
  std::shared_ptr<Env> env = std::make_shared<Env>();
  RegState &wreg(int r) { auto &p = mem[r]; if (!p) p = std::make_shared<RegState>(); else if (p.use_count() > 1) p = std::make_shared<RegState>(*p); return *p; }
  const RegState *rreg(int r) const { auto it = mem.find(r); return it == mem.end() ? nullptr : it->second.get(); }
  Env &wenv() { if (env.use_count() > 1) env = std::make_shared<Env>(*env); return *env; }
  std::vector<Ev> &wlog() { if (log.use_count() > 1) log = std::make_shared<std::vector<Ev>>(*log); return *log; }
};

// ---------------------------------------------------------------- options of a scenario set
struct CntRule { std::regex re; Str name; int arg; bool opaque; bool event; Str ret; };
struct Opts {
  std::vector<std::regex> opaque, inl;
  std::vector<CntRule> counters;
  std::set<Str> noaliasAS;       // unknown addresses in these spaces do not hit constant cells
  std::vector<std::pair<int, std::pair<int64_t, int>>> part; // region, off, size
  std::vector<Str> partCnt;
  bool evMem = true; bool noSelfMod = true; bool driver = false;
  std::map<Str, std::vector<int>> bytes; // per run: given bytes at PC0+k of the code space (-1 unknown)
  int maxPart = 48;
  int unroll = 24, looplimit = 5000;
} O;
struct Diag { std::set<Str> opaque, unknownCalls, unknownStores, nonconv, notes; bool budget = false; } D;
static int64_t Steps, StepLimit = 4000000;

static bool matchAny(const std::vector<std::regex> &v, const Str &s) { for (auto &r : v) if (std::regex_search(s, r)) return true; return false; }

// ---------------------------------------------------------------- debug-info layout
struct Fld { int64_t off; int size; Str path; char kind; /* i int, p pointer, f float, o other */ bool inObj; };
static std::map<Str, const DICompositeType *> DITypes;
static std::map<Str, int64_t> Enums;
static void collectDI() {
  DebugInfoFinder F; F.processModule(*M);
  for (const DIType *T : F.types())
    if (auto *C = dyn_cast<DICompositeType>(T)) if (C->getTag() == dwarf::DW_TAG_enumeration_type)
      for (auto *E : C->getElements()) if (auto *N = dyn_cast<DIEnumerator>(E)) Enums[N->getName().str()] = N->getValue().getSExtValue();
  for (const DIType *T : F.types())
    if (auto *C = dyn_cast<DICompositeType>(T))
      if (!C->getName().empty() && !C->isForwardDecl()) { auto &s = DITypes[C->getName().str()]; if (!s) s = C; }
}
static const DIType *strip(const DIType *T) {
  while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
    unsigned t = D->getTag();
    if (t == dwarf::DW_TAG_typedef || t == dwarf::DW_TAG_const_type || t == dwarf::DW_TAG_volatile_type) T = D->getBaseType(); else break;
  }
  return T;
}
static void flatten(const DIType *T, int64_t off, const Str &path, bool inObj, std::vector<Fld> &out, int depth = 0) {
  T = strip(T); if (!T || depth > 12) return;
  int sz = (int)(T->getSizeInBits() / 8);
  if (auto *B = dyn_cast<DIBasicType>(T)) { out.push_back({off, sz, path, B->getEncoding() == dwarf::DW_ATE_float ? 'f' : 'i', inObj}); return; }
  if (auto *Dv = dyn_cast<DIDerivedType>(T)) { if (Dv->getTag() == dwarf::DW_TAG_pointer_type || Dv->getTag() == dwarf::DW_TAG_reference_type) out.push_back({off, 8, path, 'p', inObj}); else out.push_back({off, sz, path, 'o', inObj}); return; }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->isForwardDecl()) { auto it = DITypes.find(C->getName().str()); if (it == DITypes.end()) return; C = it->second; }
    if (C->getTag() == dwarf::DW_TAG_enumeration_type) { out.push_back({off, sz, path, 'i', inObj}); return; }
    if (C->getTag() == dwarf::DW_TAG_array_type) {
      int64_t n = 1; for (auto *E : C->getElements()) if (auto *S = dyn_cast<DISubrange>(E)) if (auto *CI = dyn_cast_if_present<ConstantInt *>(S->getCount())) n *= CI->getSExtValue();
      const DIType *BT = strip(C->getBaseType()); int es = BT ? (int)(BT->getSizeInBits() / 8) : 0; if (es <= 0 || n <= 0) return;
      if (n > 300) { out.push_back({off, (int)(n * es), path + "[]", 'o', inObj}); return; }
      for (int64_t i = 0; i < n; i++) flatten(BT, off + i * es, path + "[" + std::to_string(i) + "]", inObj, out, depth + 1);
      return;
    }
    bool hasV = false;
    for (auto *E : C->getElements()) if (auto *Dv = dyn_cast<DIDerivedType>(E)) if (Dv->getName().starts_with("_vptr")) hasV = true;
    for (auto *E : C->getElements()) if (auto *Dv = dyn_cast<DIDerivedType>(E)) {
      if (Dv->isStaticMember()) continue;
      if (Dv->getTag() == dwarf::DW_TAG_inheritance) flatten(Dv->getBaseType(), off + Dv->getOffsetInBits() / 8, path, inObj, out, depth + 1);
      else if (Dv->getTag() == dwarf::DW_TAG_member) {
        if (Dv->getName().starts_with("_vptr")) { out.push_back({off + (int64_t)Dv->getOffsetInBits() / 8, 8, path.empty() ? "_vptr" : path + "._vptr", 'v', inObj}); continue; }
        Str p = path; if (!Dv->getName().empty()) p = path.empty() ? Dv->getName().str() : path + "." + Dv->getName().str();
        const DIType *BT = strip(Dv->getBaseType()); bool io = inObj;
        if (auto *BC = dyn_cast_or_null<DICompositeType>(BT)) if (depth >= 0 && (BC->getTag() == dwarf::DW_TAG_class_type || BC->getTag() == dwarf::DW_TAG_structure_type)) {
          // a member object of class type with virtual functions keeps its constructed content
          const DICompositeType *Q = BC; if (Q->isForwardDecl()) { auto it = DITypes.find(Q->getName().str()); if (it != DITypes.end()) Q = it->second; }
          std::function<bool(const DICompositeType *)> poly = [&](const DICompositeType *X) -> bool { for (auto *E2 : X->getElements()) if (auto *D2 = dyn_cast<DIDerivedType>(E2)) { if (D2->getName().starts_with("_vptr")) return true; if (D2->getTag() == dwarf::DW_TAG_inheritance) if (auto *B2 = dyn_cast_or_null<DICompositeType>(strip(D2->getBaseType()))) if (poly(B2)) return true; } return false; };
          if (poly(Q)) io = true;
        }
        int64_t bo = Dv->getOffsetInBits();
        if (Dv->isBitField()) { out.push_back({off + bo / 8, (int)Dv->getSizeInBits() / 8, p, 'b', io}); continue; }
        flatten(BT, off + bo / 8, p, io, out, depth + 1);
      }
    }
  }
}
static std::map<Str, std::vector<Fld>> FldCache;
static const std::vector<Fld> &fields(const Str &cls) {
  auto it = FldCache.find(cls); if (it != FldCache.end()) return it->second;
  auto &v = FldCache[cls]; auto d = DITypes.find(cls); if (d != DITypes.end()) flatten(d->second, 0, "", false, v); return v;
}
static const Fld *field(const Str &cls, const Str &path) { // "name#2": the field of a derived class that hides the first one
  Str p = path; int n = 1; auto q = p.find('#'); if (q != Str::npos) { n = atoi(p.c_str() + q + 1); p = p.substr(0, q); }
  for (auto &f : fields(cls)) if (f.path == p && --n == 0) return &f; return nullptr; }

// ---------------------------------------------------------------- helpers on memory
static std::unordered_set<const GlobalVariable *> StoredGV, StoredOutsideMain; static bool PreludeUsed = false;
// content known: never stored to, or stored to only by main, whose effect is part of the base state
static bool frozenGV(const GlobalVariable *V) { return V->hasInitializer() && (V->isConstant() || (!StoredGV.count(V) && !V->getInitializer()->isNullValue()) || (PreludeUsed && StoredGV.count(V) && !StoredOutsideMain.count(V) && V->getValueType()->isArrayTy())); }
static void collectStored() {
  for (auto &F : *M) for (auto &I : instructions(F)) {
    const Value *P = nullptr;
    if (auto *S = dyn_cast<StoreInst>(&I)) P = S->getPointerOperand();
    else if (auto *C = dyn_cast<MemIntrinsic>(&I)) P = C->getRawDest();
    if (!P) continue;
    P = P->stripInBoundsOffsets();
    while (auto *G = dyn_cast<GEPOperator>(P)) P = G->getPointerOperand()->stripInBoundsOffsets();
    if (auto *G = dyn_cast<GlobalVariable>(P)) { StoredGV.insert(G); if (F.getName() != "main") StoredOutsideMain.insert(G); }
  }
}
static int regionOf(const GlobalValue *GV) {
  if (auto *A = dyn_cast<GlobalAlias>(GV)) GV = A->getAliaseeObject();
  auto it = GReg.find(GV); if (it != GReg.end()) return it->second;
  int r = newRegion(isa<Function>(GV) ? RFunc : RGlobal, GV->getName().str()); R[r].gv = GV;
  if (auto *G = dyn_cast<GlobalVariable>(GV)) R[r].size = DL->getTypeAllocSize(G->getValueType());
  GReg[GV] = r; return r;
}
static Val constVal(const Constant *C);
static Val toInt(const Val &v, int w) {
  if (v.k == Val::Int) { if (v.i.w == w) return v; return vInt(v.i.w > w ? ivTrunc(v.i, w) : ivZext(v.i, w)); }
  if (v.k == Val::Ptr && v.pTop && v.i.w == 64) return vInt(w == 64 ? v.i : w < 64 ? ivTrunc(v.i, w) : ivZext(v.i, w));
  if (v.k == Val::Ptr && w == 64) { if (v.p.size() == 1 && v.p[0].r == 0 && v.p[0].span == 0) return vInt(ivConst(w, (uint64_t)v.p[0].off)); return v; }
  return vInt(ivTop(w));
}
static Val toPtr(const Val &v) {
  if (v.k == Val::Ptr) return v;
  if (v.k == Val::Int && v.i.isConst() && v.i.lo == 0) return vPtr(0, 0);
  if (v.k == Val::Int && v.i.isConst()) return vPtr(0, (int64_t)v.i.lo);
  if (v.k == Val::Int && v.i.w == 64 && !ivHasTop(v.i)) { Val p = vPtrTop(); p.i = v.i; return p; }
  return vPtrTop();
}
static Val topOf(Type *T) {
  if (T->isIntegerTy() && T->getIntegerBitWidth() <= 64) return vInt(ivTop(T->getIntegerBitWidth()));
  if (T->isPointerTy()) return vPtrTop();
  if (auto *S = dyn_cast<StructType>(T)) { Val v; v.k = Val::Agg; for (Type *E : S->elements()) v.agg.push_back(topOf(E)); return v; }
  return vTop();
}
static Str fieldName(int r, int64_t off, int size) {
  if (R[r].cls.empty()) return "+" + std::to_string(off);
  const Fld *best = nullptr;
  for (auto &f : fields(R[r].cls)) { if (f.off == off && f.size == size) { best = &f; break; } if (f.off <= off && off < f.off + f.size) if (!best || f.size < best->size) best = &f; }
  if (!best) return "+" + std::to_string(off);
  if (best->off == off && best->size == size) return best->path;
  return best->path + "@" + std::to_string(off - best->off);
}
static Bit entryBit(int r, int64_t byte, int bit) {
  static std::map<std::pair<int, int64_t>, int> cache;
  auto key = std::make_pair(r, byte); auto it = cache.find(key); int s;
  if (it != cache.end()) s = it->second;
  else { s = internSym(R[r].name + (R[r].cls.empty() ? "+" + std::to_string(byte) : "." + fieldName(r, byte, 1)) + "#" + std::to_string(r) + "_" + std::to_string(byte), 8); cache[key] = s;
    Syms[s].name = (R[r].cls.empty() ? R[r].name + "+" + std::to_string(byte) : fieldName(r, byte, 1)); }
  return symBit(s, bit);
}
// memory nothing was stored into yet (drivers)
static std::map<int, std::pair<int, int64_t>> UninitSyms;
static bool tracksUninit(int r);
static Bit uninitBit(int r, int64_t byte, int bit) {
  static std::map<std::pair<int, int64_t>, int> cache;
  auto key = std::make_pair(r, byte); auto it = cache.find(key); int s;
  if (it != cache.end()) s = it->second;
  else { Str n = "uninitialised " + R[r].name + "+" + std::to_string(byte); s = internSym(n + "#" + std::to_string(r), 8); Syms[s].name = n; cache[key] = s; UninitSyms[s] = key; }
  return symBit(s, bit);
}
static bool entryLike(int r) { return R[r].k == REntry; }
static int entryChild(int r, int64_t off) {
  Str key = "child:" + std::to_string(r) + ":" + std::to_string(off);
  int c = namedRegion(REntry, key, R[r].name + "->" + fieldName(r, off, 8)); R[c].parent = r; R[c].poff = off; return c;
}
// initial content of a region
static Val initLoad(int r, int64_t off, Type *T, int w) {
  Region &G = R[r];
  switch (G.k) {
  case RGlobal: {
    auto *V = dyn_cast<GlobalVariable>(G.gv);
    if (V && V->hasInitializer()) {
      bool usable = frozenGV(V) || O.driver;
      if (usable && off >= 0) {
        if (Constant *C = ConstantFoldLoadFromConst(const_cast<Constant *>(V->getInitializer()), T, APInt(64, off), *DL)) return constVal(C);
        return topOf(T);
      }
    }
    if (T->isPointerTy()) { int c = entryChild(r, off); Val v = vPtr(0); v.p.push_back({c, 0, 0}); std::sort(v.p.begin(), v.p.end()); return v; }
    if (T->isIntegerTy()) { std::vector<Bit> b; for (int i = 0; i < w; i++) b.push_back(entryBit(r, off + i / 8, i % 8)); return vInt(ivBits(w, b)); }
    return topOf(T);
  }
  case RAS:
  case REntry: {
    if (T->isPointerTy()) { int c = entryChild(r, off); Val v = vPtr(0); v.p.push_back({c, 0, 0}); std::sort(v.p.begin(), v.p.end()); return v; }
    if (T->isIntegerTy() && w <= 64) { std::vector<Bit> b; for (int i = 0; i < w; i++) b.push_back(entryBit(r, off + i / 8, i % 8)); return vInt(ivBits(w, b)); }
    return topOf(T);
  }
  case RHeap: if (G.zero) { if (T->isPointerTy()) return vPtr(0); if (T->isIntegerTy()) return vInt(ivConst(w, 0)); }
    if (tracksUninit(r) && T->isIntegerTy() && w <= 64) { std::vector<Bit> b; for (int i = 0; i < w; i++) b.push_back(uninitBit(r, off + i / 8, i % 8)); return vInt(ivBits(w, b)); }
    return topOf(T);
  default: return topOf(T);
  }
}
static std::vector<Bit> bitsOfCell(const Cell &c) {
  std::vector<Bit> b(c.size * 8, BT);
  if (c.v.k == Val::Int) for (unsigned i = 0; i < c.size * 8; i++) b[i] = (int)i < c.v.i.w ? c.v.i.b[i] : 0;
  else if (c.v.k == Val::Ptr && !c.v.pTop && c.v.p.size() == 1 && c.v.p[0].r == 0) for (unsigned i = 0; i < c.size * 8; i++) b[i] = i < 64 ? (c.v.p[0].off >> i) & 1 : 0;
  return b;
}
static int vtableRegionFor(const Str &cls) { auto *G = M->getNamedGlobal("_ZTV" + std::to_string(cls.size()) + cls); return G ? regionOf(G) : -1; }
static int storeSize(Type *T) { return (int)DL->getTypeStoreSize(T).getFixedValue(); }
static Val loadAt(State &S, int r, int64_t off, Type *T) {
  int sz = storeSize(T), w = T->isIntegerTy() ? T->getIntegerBitWidth() : sz * 8;
  if (R[r].k == RCell && off == 0 && T->isPointerTy()) {
    int as = R[r].parent; int wd = as >= 0 ? R[as].width : 8;
    int v = vtableRegionFor(wd == 1 ? "cl_bit_cell8" : wd <= 8 ? "cl_cell8" : wd <= 16 ? "cl_cell16" : "cl_cell32");
    if (v >= 0) return vPtr(v, 16);
  }
  const RegState *rs = S.rreg(r);
  if (rs) {
    auto it = rs->c.find(off);
    if (it != rs->c.end() && (int)it->second.size == sz) {
      const Val &v = it->second.v;
      if (T->isIntegerTy() && w <= 64) return toInt(v, w);
      if (T->isPointerTy()) return toPtr(v);
      return v;
    }
    // overlap?
    auto lo = rs->c.upper_bound(off); bool ov = false;
    if (lo != rs->c.begin()) { auto p = std::prev(lo); if (p->first + p->second.size > off) ov = true; }
    if (!ov && lo != rs->c.end() && lo->first < off + sz) ov = true;
    if (rs->topAll && !ov) return topOf(T);
    if (ov) {
      if (!(T->isIntegerTy() && w <= 64)) { if (T->isPointerTy()) return vPtrTop(); return topOf(T); }
      std::vector<Bit> b(sz * 8, BT);
      Val base = rs->topAll ? vInt(ivTop(sz * 8)) : initLoad(r, off, IntegerType::get(Ctx, sz * 8), sz * 8);
      if (base.k == Val::Int) b = base.i.b;
      auto p = lo; if (p != rs->c.begin()) p = std::prev(p);
      for (; p != rs->c.end() && p->first < off + sz; ++p) {
        if (p->first + p->second.size <= off) continue;
        auto cb = bitsOfCell(p->second);
        for (unsigned i = 0; i < cb.size(); i++) { int64_t q = (p->first - off) * 8 + i; if (q >= 0 && q < sz * 8) b[q] = cb[i]; }
      }
      b.resize(w, BT); return vInt(ivBits(w, b));
    }
  }
  return initLoad(r, off, T, w);
}
static void eraseOverlap(State &S, int r, int64_t off, int sz) {
  RegState &rs = S.wreg(r);
  auto p = rs.c.lower_bound(off);
  if (p != rs.c.begin()) { auto q = std::prev(p); if (q->first + q->second.size > off) p = q; }
  std::vector<std::pair<int64_t, Cell>> add;
  while (p != rs.c.end() && p->first < off + sz) {
    int64_t a = p->first; Cell c = p->second;
    p = rs.c.erase(p);
    if (a >= off && a + c.size <= off + sz) continue;
    auto b = bitsOfCell(c); // keep the bytes outside
    for (unsigned i = 0; i < c.size; i++) if (a + i < off || a + i >= off + sz) { std::vector<Bit> x(b.begin() + i * 8, b.begin() + i * 8 + 8); add.push_back({a + i, {1, vInt(ivBits(8, x))}}); }
  }
  for (auto &x : add) rs.c[x.first] = x.second;
}
static void storeAt(State &S, int r, int64_t off, int sz, const Val &v) { eraseOverlap(S, r, off, sz); S.wreg(r).c[off] = {(uint32_t)sz, v}; }
static Str locOf(const Instruction *I) {
  if (!I) return "";
  if (const DebugLoc &L = I->getDebugLoc()) { auto *Sc = cast<DIScope>(L.getScope()); Str f = Sc->getFilename().str(); auto p = f.rfind('/'); if (p != Str::npos) f = f.substr(p + 1); return f + ":" + std::to_string(L.getLine()); }
  return I->getFunction()->getName().str();
}
static void accessCheck(State &S, const Val &p, int sz, const Instruction *I, const char *what);
static void divCheck(State &S, const IV &x, const IV &y, const Instruction *I);
static void uninitPtr(State &S, const Val &p, const Instruction *I);
static void uninitUse(State &S, Bit b, const Instruction *I);
static Val vJoinSz(const Val &a, const Val &b, int size, const Gate &g);
static Val load(State &S, const Val &p, Type *T, const Instruction *I) {
  if (p.k != Val::Ptr || p.pTop) return topOf(T);
  if (O.driver) { accessCheck(S, p, storeSize(T), I, "read"); if (T->isPointerTy()) uninitPtr(S, p, I); }
  Val r; bool any = false;
  for (auto &t : p.p) {
    if (t.r == 0) continue;
    any = true;
    if (t.span > 0) {
      // unknown element of a constant table: join of the elements when the table is small
      if (R[t.r].k == RGlobal && t.span <= 2048) {
        auto *V = dyn_cast<GlobalVariable>(R[t.r].gv); int sz = storeSize(T);
        if (V && frozenGV(V) && sz > 0 && t.ix && T->isIntegerTy() && T->getIntegerBitWidth() <= 64) {
          auto &X = IdxTab[t.ix]; std::vector<uint64_t> tab; bool ok = true; // entries lo..hi of the index
          uint64_t lo = X.idx.lo, hi = X.idx.hi; if (hi - lo < 4096) { for (uint64_t q = 0; q <= hi && ok; q++) { if (q < lo) { tab.push_back(0); continue; } int64_t o = t.off + (int64_t)(q - lo) * X.stride; if (o < 0 || o + sz > (int64_t)R[t.r].size) { tab.push_back(0); continue; } Val x = loadAt(S, t.r, o, T); if (x.k != Val::Int || !x.i.isConst()) ok = false; else tab.push_back(x.i.lo); }
            if (ok) { uint64_t h = 1469598103934665603ull; for (auto x : tab) h = (h ^ x) * 1099511628211ull; Val x = vInt(ivLookup(tab, T->getIntegerBitWidth(), X.idx, std::to_string(h))); if (p.p.size() == 1) return x; r = vJoin(r, x, GateTop); continue; } } }
        if (V && frozenGV(V) && sz > 0) { Val j; for (int64_t o = t.off; o + sz <= t.off + t.span; o += sz) { j = vJoin(j, loadAt(S, t.r, o, T), GateTop); if (j.k == Val::Top) break; } if (j.k != Val::Bot) { r = vJoin(r, j, GateTop); continue; } }
      }
      return topOf(T);
    }
    Gate g = GateTop; if (!p.pg.empty()) { g = Gate(); g.sel = p.pg[&t - &p.p[0]]; Val n = loadAt(S, t.r, t.off, T); if (r.k == Val::Bot) r = n; else if (n.k == r.k || n.k == Val::Bot) r = vJoin(n, r, g); else r = vJoinSz(n, r, storeSize(T), g); continue; }
    r = vJoin(r, loadAt(S, t.r, t.off, T), g);
  }
  if (!any) { if (p.p.empty()) return topOf(T); return topOf(T); }
  if (r.k == Val::Top || r.k == Val::Bot) return topOf(T);
  return r;
}
static void store(State &S, const Val &p, const Val &v, Type *T, const Instruction *I) {
  int sz = storeSize(T);
  if (p.k != Val::Ptr || p.pTop) { D.unknownStores.insert(locOf(I)); return; }
  if (O.driver) accessCheck(S, p, sz, I, "write");
  int real = 0; for (auto &t : p.p) if (t.r != 0) real++;
  for (auto &t : p.p) {
    if (t.r == 0) continue;
    if (t.span > 0) {
      if (t.span > 8192) { S.wreg(t.r).topAll = true; S.wreg(t.r).c.clear(); continue; }
      for (int64_t o = t.off; o < t.off + t.span; o += sz) storeAt(S, t.r, o, sz, topOf(T));
      continue;
    }
    if (real == 1) storeAt(S, t.r, t.off, sz, v);
    else { Gate g = GateTop; if (!p.pg.empty()) { g = Gate(); g.sel = p.pg[&t - &p.p[0]]; } storeAt(S, t.r, t.off, sz, vJoin(v, loadAt(S, t.r, t.off, T), g)); }
  }
}

// ---------------------------------------------------------------- address spaces
static int CodeAS = -1, PCBits = 16; static IV PC0; static std::vector<int64_t> Bytes; static bool havePC0 = false;
static Bit eqBit(const IV &a, const IV &b) { IV c = ivCmp(EQ, a.w == b.w ? a : ivZext(a, 32), a.w == b.w ? b : ivZext(b, 32)); return c.isConst() ? (Bit)c.lo : c.b[0]; }
static IV asBase(int as, const IV &a) {
  int w = R[as].width; if (w <= 0 || w > 32) w = 8;
  Str k = ivKey(a); if (k.empty()) return ivZext(ivTop(w), 32);
  Str sk = "mem:" + std::to_string(as) + "[" + k; bool fresh = false; static std::unordered_set<Str> seen; fresh = seen.insert(sk).second;
  int s = internSym(sk, w); if (fresh) { Syms[s].name = R[as].name + "[" + ivStr(a) + "]"; Syms[s].space = as; Syms[s].addr = std::make_shared<IV>(a); }
  return ivSym(32, s);
}
// address spaces whose cells live in another space: banked windows, bit views,
// addresses where reading is answered by a device instead of the latch
struct Alias { Str from, to, bankAS, field, bankField; int fOff = -1, fSize = 0, bOff = -1, bSize = 0; uint64_t fOr = 0, bankAdd = 0; uint64_t lo = 0, hi = 0, base = 0, bankAddr = 0, bankMask = 0, stride = 1; bool bit = false, readOnly = false; };
static std::vector<Alias> Aliases; static int MainObj = -1;
struct ParHook { Str space; uint64_t src, dst, bit; }; static std::vector<ParHook> ParHooks;
static int spaceNamed(const Str &n) { for (size_t i = 0; i < R.size(); i++) if (R[i].k == RAS && R[i].name == n) return (int)i; return -1; }
static const Alias *aliasOf(int as, const IV &a, bool viaRead) {
  if (Aliases.empty() || !a.isConst()) return nullptr;
  for (auto &x : Aliases) if (x.from == R[as].name && (x.field.empty() || x.fOff >= 0) && a.lo >= x.lo && a.lo <= x.hi && (!x.readOnly || viaRead)) return &x;
  return nullptr;
}
static IV asReadIV(State &S, int as, const IV &a, bool *code = nullptr, bool via = false);
static IV aliasAddr(State &S, const Alias &x, const IV &a) {
  if (x.bit) return ivConst(32, x.base + ((a.lo - x.lo) >> 3) * x.stride);
  IV r = ivConst(32, x.base + a.lo - x.lo);
  if (x.bOff >= 0) { IV b = toInt(loadAt(S, MainObj, x.bOff, IntegerType::get(Ctx, x.bSize * 8)), 32).i; r = ivIte(bNot(bNor(ivAnd(b, ivConst(32, x.bankMask)).b)), ivAdd(r, ivConst(32, x.bankAdd)), r); }
  if (!x.bankAS.empty()) r = ivAdd(r, ivAnd(asReadIV(S, spaceNamed(x.bankAS), ivConst(32, x.bankAddr)), ivConst(32, x.bankMask)));
  return r;
}
static IV asReadIV(State &S, int as, const IV &a, bool *code, bool via) {
  if (const Alias *x = aliasOf(as, a, via)) {
    if (x->fOff >= 0) return toInt(loadAt(S, MainObj, x->fOff, IntegerType::get(Ctx, x->fSize * 8)), 32).i; int to = spaceNamed(x->to); IV v = asReadIV(S, to, aliasAddr(S, *x, a), nullptr, via); return x->bit ? ivZext(ivTrunc(ivLshr(v, ivConst(32, a.lo & 7)), 1), 32) : v; }
  int w = R[as].width; if (w <= 0 || w > 32) w = 8;
  IV v; bool have = false;
  if (as == CodeAS && havePC0) { IV d = ivSub(a, PC0); if (!d.isConst() && PCBits < a.w) { static std::vector<IV> Pc; while (Pc.size() < 8) Pc.push_back(ivZext(ivTrunc(ivAdd(PC0, ivConst(32, Pc.size())), PCBits), 32)); for (size_t k = 0; k < Pc.size(); k++) if (Pc[k].b == a.b) d = ivConst(32, k); } d.lin = nullptr; if (d.isConst()) { if (d.lo < Bytes.size() && Bytes[d.lo] >= 0) { v = ivConst(32, Bytes[d.lo]); have = true; } if (d.lo < 32 && code) *code = true; } }
  if (!have) v = asBase(as, a);
  if (const RegState *rs = S.rreg(as)) {
    bool na = O.noaliasAS.count(R[as].name);
    for (auto &x : rs->as) {
      if (have && O.noSelfMod) continue;
      if (na && x.addr.isConst() != a.isConst()) continue;
      Bit e = eqBit(x.addr, a); if (e == 0) continue; v = ivIte(bAnd(e, x.guard), x.v, v); }
  }
  return ivTrunc(v, 32);
}
static Val asRead(State &S, int as, const IV &a0, const Instruction *I, bool log) {
  IV a = ivZext(ivTrunc(a0, std::min(32, a0.w)), 32); bool code = false; IV v = asReadIV(S, as, a, &code, log);
  if (log && O.evMem && !code) { Ev e; e.kind = "rd"; e.space = R[as].name; e.addr = a; e.v.push_back(vInt(v)); e.loc = locOf(I); e.id = ++Serial; S.wlog().push_back(e); }
  return vInt(v);
}
static bool InitPhase = false;
static void asWrite(State &S, int as, const IV &a0, const Val &val, const Instruction *I, bool weak, bool log, bool via = false) {
  if (InitPhase) return;
  IV a = ivZext(ivTrunc(a0, std::min(32, a0.w)), 32);
  if (const Alias *x = aliasOf(as, a, false)) {
    if (x->fOff >= 0) { Val v = toInt(val, x->fSize * 8); if (via && x->fOr) v.i = ivOr(v.i, ivConst(x->fSize * 8, x->fOr)); storeAt(S, MainObj, x->fOff, x->fSize, v); return; }
    int to = spaceNamed(x->to); IV ad = aliasAddr(S, *x, a);
    if (!x->bit) { asWrite(S, to, ad, val, I, weak, log, via); return; }
    IV v = toInt(val, 32).i; Bit nz = bNot(bNor(v.b)); IV old = asReadIV(S, to, ad); std::vector<Bit> b = old.b; b[a.lo & 7] = nz; Val nv = vInt(ivBits(32, b)); asWrite(S, to, ad, nv, I, weak, log, via); return; }
  if (via && !ParHooks.empty() && a.isConst()) for (auto &h : ParHooks) if (h.space == R[as].name && h.src == a.lo) {
    IV v = toInt(val, 32).i; Bit p = 0; for (int i = 0; i < 8; i++) p = bXor(p, v.b[i]); IV old = asReadIV(S, as, ivConst(32, h.dst)); std::vector<Bit> b = old.b; b[h.bit] = p; Val nv = vInt(ivBits(32, b)); asWrite(S, as, ivConst(32, h.dst), nv, I, weak, false, false); }
  int w = R[as].width; if (w <= 0 || w > 32) w = 8;
  Val v = toInt(val, 32); v.i = ivZext(ivTrunc(v.i, w), 32);
  if (log && O.evMem) { Ev e; e.kind = "wr"; e.space = R[as].name; e.addr = a; e.v.push_back(v); e.loc = locOf(I); if (weak) e.guard = BT; e.id = ++Serial; S.wlog().push_back(e); }
  RegState &rs = S.wreg(as);
  if (!weak && !FixMode) for (size_t i = 0; i < rs.as.size();) { if (ivDiffer(rs.as[i].addr, a) == 0) rs.as.erase(rs.as.begin() + i); else i++; }
  if (FixMode) { for (auto &x : rs.as) if (x.addr == a && x.guard == BT) { x.v = ivJoin(x.v, v.i, GateTop); return; } if (rs.as.size() > 40) { IV t = ivTop(32); for (auto &x : rs.as) if (x.addr == t) return; rs.as.push_back({t, ivZext(ivTop(w), 32), BT, ++Serial}); return; } }
  rs.as.push_back({a, v.i, (weak || FixMode) ? BT : (Bit)1, ++Serial});
}
static int cellRegion(int as, const IV &a) {
  Str k = ivKey(a); static int uniq = 0;
  int r;
  if (k.empty()) { r = namedRegion(RCell, "cell?" + std::to_string(as) + ":" + ivStr(a), R[as].name + "[?]"); uniq++; }
  else r = namedRegion(RCell, "cell:" + std::to_string(as) + ":" + k, R[as].name + "[" + k + "]");
  R[r].parent = as; R[r].addr = a; R[r].addrKnown = true; return r;
}

// ---------------------------------------------------------------- joins of states
static bool isEntryDefault(State &S, int r, int64_t off, const Cell &c) { return false; }
static Type *intTy(int w) { return IntegerType::get(Ctx, w); }
static Val cellOrInit(State &S, int r, int64_t off, int size, const Val &shape) {
  Type *T = shape.k == Val::Ptr ? (Type *)PointerType::get(Ctx, 0) : shape.k == Val::Int ? intTy(size * 8) : nullptr;
  if (!T || (shape.k == Val::Int && size > 8)) return vTop();
  return loadAt(S, r, off, T);
}
static Val vJoinSz(const Val &a, const Val &b, int size, const Gate &g) {
  if (a.k == Val::Int && b.k == Val::Int && a.i.w != b.i.w) { int w = size * 8; return vInt(ivJoin(toInt(a, w).i, toInt(b, w).i, g)); }
  if (a.k == Val::Ptr && b.k == Val::Int) return vJoin(a, toPtr(b), g);
  if (a.k == Val::Int && b.k == Val::Ptr) return vJoin(toPtr(a), b, g);
  return vJoin(a, b, g);
}
static Bit conj(const std::vector<Lit> &p, size_t from) { Bit r = 1; for (size_t i = from; i < p.size(); i++) r = bAnd(r, p[i].bit); return r; }
static Dep litDep(const std::vector<Lit> &p, size_t from) { Dep d = 0; for (size_t i = from; i < p.size(); i++) d = depUnion(d, p[i].dep); return d; }
// the gate that tells A from B, and the path of the merged state
static Gate gateOf(const State &A, const State &B, bool widen, std::vector<Lit> &path) {
  Gate g; g.widen = widen; size_t p = 0;
  while (p < A.path.size() && p < B.path.size() && A.path[p].serial == B.path[p].serial && A.path[p].side == B.path[p].side && A.path[p].bit == B.path[p].bit) p++;
  g.dep = depUnion(litDep(A.path, p), litDep(B.path, p));
  path.assign(A.path.begin(), A.path.begin() + p);
  if (FixMode || widen) { g.nogate = true; return g; }
  if (p < A.path.size() && p < B.path.size() && A.path[p].serial == B.path[p].serial) {
    const Lit &a = A.path[p], &b = B.path[p]; bool compl_ = a.simple && b.simple && a.side != b.side;
    if (compl_) g.sel = a.bit; else { g.sel = conj(A.path, p); if (bitTop(g.sel)) { Bit o = conj(B.path, p); if (!bitTop(o)) g.sel = bNot(o); } }
    if (compl_ && A.path.size() == p + 1 && B.path.size() == p + 1) return g;
    Lit l; l.serial = a.serial; l.side = 2; l.simple = false; l.dep = g.dep; Bit ca = conj(A.path, p), cb = conj(B.path, p); l.bit = bOr(ca, cb); if (compl_ && !bitTop(a.bit)) l.bit = bIte(a.bit, conj(A.path, p + 1), conj(B.path, p + 1));
    if (l.bit != 1) path.push_back(l);
    return g;
  }
  g.nogate = true; if (A.path.size() == p && B.path.size() == p) { g.dep = 1; }
  return g;
}
static void joinInto(State &A, State &B, bool widen = false, Gate *useGate = nullptr) {
  std::vector<Lit> npath; Gate g = gateOf(A, B, widen, npath); if (useGate) *useGate = g;
  // memory
  std::set<int> regs; for (auto &x : A.mem) regs.insert(x.first); for (auto &x : B.mem) regs.insert(x.first);
  for (int r : regs) {
    auto ia = A.mem.find(r), ib = B.mem.find(r);
    if (ia != A.mem.end() && ib != B.mem.end() && ia->second == ib->second) continue;
    bool local = R[r].k == RAlloca || R[r].k == RHeap;
    if (local && (ia == A.mem.end() || ib == B.mem.end())) { if (ia == A.mem.end()) A.mem[r] = ib->second; if (A.mem[r]->freed) A.wreg(r).freed = false; continue; }
    static RegState empty; const RegState &ra = ia == A.mem.end() ? empty : *ia->second; const RegState &rb = ib == B.mem.end() ? empty : *ib->second;
    auto out = std::make_shared<RegState>(); out->topAll = ra.topAll || rb.topAll; out->freed = ra.freed && rb.freed;
    std::set<int64_t> offs; for (auto &c : ra.c) offs.insert(c.first); for (auto &c : rb.c) offs.insert(c.first);
    for (int64_t o : offs) {
      auto ca = ra.c.find(o), cb = rb.c.find(o);
      if (ca != ra.c.end() && cb != rb.c.end() && ca->second.size == cb->second.size) { Val v = vJoinSz(ca->second.v, cb->second.v, ca->second.size, g); out->c[o] = {ca->second.size, v}; continue; }
      // sizes differ or missing on one side
      const Cell &c = ca != ra.c.end() ? ca->second : cb->second; int sz = c.size;
      if (ca != ra.c.end() && cb != rb.c.end()) sz = std::max(ca->second.size, cb->second.size);
      // skip when covered already
      auto pv = out->c.upper_bound(o); if (pv != out->c.begin()) { auto q = std::prev(pv); if (q->first + q->second.size > o) { if (q->first + q->second.size >= o + sz) continue; } }
      Val va = cellOrInit(A, r, o, sz, c.v), vb = cellOrInit(B, r, o, sz, c.v);
      if (c.v.k == Val::Ptr) { va = toPtr(va); vb = toPtr(vb); }
      out->c[o] = {(uint32_t)sz, vJoinSz(va, vb, sz, g)};
    }
    // drop cells overlapped by a bigger predecessor
    int64_t end = INT64_MIN; for (auto it = out->c.begin(); it != out->c.end();) { if (it->first < end) it = out->c.erase(it); else { end = it->first + it->second.size; ++it; } }
    if (R[r].k == RAS) {
      size_t i = 0; while (i < ra.as.size() && i < rb.as.size() && ra.as[i] == rb.as[i]) i++;
      out->as.assign(ra.as.begin(), ra.as.begin() + i); Bit sa = g.nogate ? BT : g.sel; Bit sb = bitTop(sa) ? (g.nogate ? BT : sa) : bNot(sa);
      if (ra.as.size() == rb.as.size()) { // same cells written on both sides
        bool same = true; for (size_t q = i; q < ra.as.size(); q++) if (ra.as[q].addr != rb.as[q].addr || ra.as[q].guard != rb.as[q].guard) same = false;
        if (same) { for (size_t q = i; q < ra.as.size(); q++) out->as.push_back({ra.as[q].addr, ivJoin(ra.as[q].v, rb.as[q].v, g), ra.as[q].guard, ++Serial}); i = ra.as.size(); }
      }
      for (size_t q = i; q < ra.as.size(); q++) { auto x = ra.as[q]; x.guard = bitTop(sa) ? bTopDep(depUnion(bitDep(x.guard), g.dep)) : bAnd(x.guard, sa); bool dup = false; if (FixMode) for (auto &y : out->as) if (y == x) dup = true; if (!dup) out->as.push_back(x); }
      for (size_t q = i; q < rb.as.size(); q++) { auto x = rb.as[q]; x.guard = bitTop(sb) ? bTopDep(depUnion(bitDep(x.guard), g.dep)) : bAnd(x.guard, sb); bool dup = false; if (FixMode) for (auto &y : out->as) if (y == x) dup = true; if (!dup) out->as.push_back(x); }
    }
    A.mem[r] = out;
  }
  for (auto &c : B.cnt) if (!A.cnt.count(c.first)) A.cnt[c.first] = ivConst(32, 0);
  for (auto &c : A.cnt) { auto it = B.cnt.find(c.first); c.second = ivJoin(c.second, it == B.cnt.end() ? ivConst(32, 0) : it->second, g); }
  // logs
  if (A.log != B.log) {
    auto &la = A.wlog(); auto &lb = *B.log; size_t i = 0; while (i < la.size() && i < lb.size() && la[i].id == lb[i].id && la[i].guard == lb[i].guard) i++;
    Bit sa = g.nogate ? BT : g.sel; Bit sb = bitTop(sa) ? sa : bNot(sa);
    for (size_t j = i; j < la.size(); j++) la[j].guard = bAnd(la[j].guard, sa);
    for (size_t j = i; j < lb.size(); j++) { if (la.size() >= 400) { A.lostLog = true; break; } Ev e = lb[j]; e.guard = bAnd(e.guard, sb); bool dup = false; if (FixMode) for (auto &y : la) if (y.kind == e.kind && y.space == e.space && y.addr == e.addr && y.v == e.v) dup = true; if (!dup) la.push_back(e); }
  }
  A.lostLog |= B.lostLog;
  if (A.env != B.env) {
    auto e = std::make_shared<Env>();
    for (auto &x : *A.env) { auto it = B.env->find(x.first); if (it == B.env->end()) continue;
      if (x.second == it->second) { (*e)[x.first] = x.second; continue; }
      auto oa = A.orig.find(x.first), ob = B.orig.find(x.first); const Val &ua = oa != A.orig.end() ? oa->second : x.second, &ub = ob != B.orig.end() ? ob->second : it->second;
      (*e)[x.first] = ua == ub ? ua : vJoin(x.second, it->second, g); }
    A.env = e;
  }
  for (auto it = A.orig.begin(); it != A.orig.end();) { auto b = B.orig.find(it->first); if (b == B.orig.end() || !(b->second == it->second)) it = A.orig.erase(it); else ++it; }
  A.path = npath;
}
static bool sameState(State &A, State &B) {
  if (A.cnt != B.cnt) return false;
  std::set<int> regs; for (auto &x : A.mem) regs.insert(x.first); for (auto &x : B.mem) regs.insert(x.first);
  for (int r : regs) { auto a = A.rreg(r), b = B.rreg(r); if (a == b) continue; if (!a || !b) return false; if (!(a->c == b->c && a->as == b->as && a->topAll == b->topAll && a->freed == b->freed)) return false; }
  if (*A.env == *B.env) return true; return false;
}
static Str partKey(State &S) {
  Str k;
  for (auto &p : O.part) { Val v = loadAt(S, p.first, p.second.first, intTy(p.second.second * 8)); k += v.k == Val::Int ? ivKey(v.i) : "T"; k += "|"; }
  for (auto &c : O.partCnt) { auto it = S.cnt.find(c); if (it == S.cnt.end()) k += "0|"; else k += ivKey(it->second) + "|"; }
  return k + S.fork;
}
static bool AnyFork = false;
// merge the states of one partition, deepest common path first
static size_t commonPath(const State &A, const State &B) { size_t p = 0; while (p < A.path.size() && p < B.path.size() && A.path[p].serial == B.path[p].serial && A.path[p].side == B.path[p].side && A.path[p].bit == B.path[p].bit) p++; return p; }
template <class T, class GetS, class JoinF> static void mergeGroup(std::vector<T> &v, GetS st, JoinF jf) {
  while (v.size() > 1) {
    size_t bi = 0, bj = 1; long best = -1;
    for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) { long c = (long)commonPath(st(v[i]), st(v[j])); if (c > best) { best = c; bi = i; bj = j; } }
    jf(v[bi], v[bj]); v.erase(v.begin() + bj);
  }
}
static void mergeStates(std::vector<State> &v) {
  if (v.size() <= 1) return;
  auto st = [](State &x) -> State & { return x; }; auto jf = [](State &a, State &b) { joinInto(a, b); };
  if (O.part.empty() && O.partCnt.empty() && !AnyFork) { mergeGroup(v, st, jf); return; }
  std::map<Str, std::vector<State>> grp; for (auto &s : v) grp[partKey(s)].push_back(std::move(s));
  if ((int)grp.size() > O.maxPart) { D.notes.insert("partition limit"); std::vector<State> all; for (auto &g : grp) for (auto &s : g.second) all.push_back(std::move(s)); mergeGroup(all, st, jf); v.swap(all); return; }
  v.clear(); for (auto &g : grp) { mergeGroup(g.second, st, jf); v.push_back(std::move(g.second[0])); }
}

// ---------------------------------------------------------------- values
static Val gepOffset(State *S, const GEPOperator *G, Val base, std::function<Val(const Value *)> ev) {
  if (base.k != Val::Ptr) base = toPtr(base);
  if (base.pTop) return base;
  int64_t off = 0; bool unk = false; int64_t span = 0; bool unbounded = false; int ix = 0, nix = 0;
  bool first = true; Type *prev = nullptr;
  for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
    const Value *Ix = it.getOperand();
    if (StructType *ST = it.getStructTypeOrNull()) { off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(Ix)->getZExtValue()); first = false; prev = it.getIndexedType(); continue; }
    int64_t es = DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
    Val iv = ev(Ix);
    if (iv.k == Val::Int && iv.i.isConst()) { int w = iv.i.w; int64_t x = w >= 64 ? (int64_t)iv.i.lo : (int64_t)(iv.i.lo << (64 - w)) >> (64 - w); off += x * es; }
    else {
      int64_t n = -1; int64_t base0 = 0;
      if (iv.k == Val::Int && iv.i.hi < (1ull << 31) && (iv.i.hi - iv.i.lo) < 5000) { n = (int64_t)(iv.i.hi - iv.i.lo + 1); base0 = (int64_t)iv.i.lo; }
      if (auto *AT = first ? nullptr : dyn_cast_or_null<ArrayType>(prev)) { int64_t c = (int64_t)AT->getNumElements(); if (n < 0 || n > c) { n = c; base0 = 0; } }
      if (n < 0) unbounded = true; else { off += base0 * es; span = std::max(span, n * es); unk = true; nix++; if (iv.k == Val::Int && iv.i.lo == (uint64_t)base0 && iv.i.hi - iv.i.lo + 1 <= (uint64_t)n) ix = internIdx(iv.i, es); else if (iv.k == Val::Int && base0 == 0) { IV q = iv.i; q.lo = 0; q.hi = std::min<uint64_t>(q.hi, n - 1); ix = internIdx(q, es); } }
    }
    first = false; prev = it.getIndexedType();
  }
  Val r; r.k = Val::Ptr;
  for (auto t : base.p) {
    if (t.r == 0) { if (base.p.size() == 1) { r.p.push_back({0, t.off + off, 0}); } else r.p.push_back(t); continue; }
    PT q = t; q.off += off;
    if (unbounded) { uint64_t sz = R[t.r].size; if (sz == 0) { return vPtrTop(); } if (t.off > 0 || off > 0) { q.off = t.off + off; q.span = std::max<int64_t>(1, (int64_t)sz - q.off); } else { q.off = 0; q.span = sz; } }
    else if (unk) { q.ix = (q.span == 0 && nix == 1) ? ix : 0; q.span = std::max<int64_t>(q.span, span); }
    r.p.push_back(q);
  }
  std::sort(r.p.begin(), r.p.end()); r.p.erase(std::unique(r.p.begin(), r.p.end()), r.p.end());
  if (!unk && !unbounded && r.p.size() == base.p.size()) r.pg = base.pg;
  return r;
}
static Val constVal(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) { if (I->getBitWidth() > 64) return vTop(); return vInt(ivConst(I->getBitWidth(), I->getZExtValue())); }
  if (isa<ConstantPointerNull>(C)) return vPtr(0, 0);
  if (isa<UndefValue>(C)) return topOf(C->getType());
  if (auto *G = dyn_cast<GlobalValue>(C)) return vPtr(regionOf(G), 0);
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    if (auto *G = dyn_cast<GEPOperator>(E)) return gepOffset(nullptr, G, constVal(cast<Constant>(G->getPointerOperand())), [](const Value *V) { return constVal(cast<Constant>(V)); });
    if (E->getOpcode() == Instruction::PtrToInt || E->getOpcode() == Instruction::IntToPtr || E->getOpcode() == Instruction::BitCast) return constVal(cast<Constant>(E->getOperand(0)));
    if (E->getOpcode() == Instruction::Sub || E->getOpcode() == Instruction::Add) return topOf(C->getType());
  }
  if (auto *A = dyn_cast<ConstantAggregate>(C)) { Val v; v.k = Val::Agg; for (auto &o : A->operands()) v.agg.push_back(constVal(cast<Constant>(o))); return v; }
  if (C->getType()->isStructTy() && C->isNullValue()) { Val v; v.k = Val::Agg; for (unsigned i = 0; i < C->getType()->getStructNumElements(); i++) v.agg.push_back(constVal(C->getAggregateElement(i))); return v; }
  return topOf(C->getType());
}
static Val evalV(State &S, const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return constVal(C);
  auto it = S.env->find(V); if (it != S.env->end()) return it->second;
  return topOf(V->getType());
}

// ---------------------------------------------------------------- functions
struct FInfo { Str dem, base, cls; std::unique_ptr<DominatorTree> DT; std::unique_ptr<LoopInfo> LI; std::vector<const BasicBlock *> rpo; int isOpaque = -1; std::vector<int> cr; bool crDone = false; };
static std::unordered_map<const Function *, FInfo> FI;
static void splitName(FInfo &f) {
  // class::name(args)
  Str d = f.dem; size_t p = d.find('('); Str q = p == Str::npos ? d : d.substr(0, p);
  if (q.compare(0, 5, "non-v") == 0) q = q.substr(q.rfind(' ') + 1);
  size_t c = q.rfind("::"); if (c != Str::npos) { f.cls = q.substr(0, c); f.base = q.substr(c + 2); } else f.base = q;
}
static FInfo &finfo(const Function *F) {
  auto it = FI.find(F); if (it != FI.end()) return it->second;
  FInfo &f = FI[F]; f.dem = demangle(F->getName().str()); splitName(f); return f;
}
static FInfo &fbody(const Function *F) {
  FInfo &f = finfo(F);
  if (!f.LI) {
    f.DT.reset(new DominatorTree(*const_cast<Function *>(F))); f.LI.reset(new LoopInfo(*f.DT));
    ReversePostOrderTraversal<const Function *> T(F); for (auto *B : T) f.rpo.push_back(B);
  }
  return f;
}
static bool derivesFrom(const Str &cls, const Str &base) {
  if (cls == base) return true; auto it = DITypes.find(cls); if (it == DITypes.end()) return false;
  for (auto *E : it->second->getElements()) if (auto *Dv = dyn_cast<DIDerivedType>(E)) if (Dv->getTag() == dwarf::DW_TAG_inheritance) if (auto *B = strip(Dv->getBaseType())) if (derivesFrom(B->getName().str(), base)) return true;
  return false;
}
typedef std::vector<std::pair<State, Val>> Outs;
static Outs runFunction(const Function *F, const std::vector<Val> &args, State in, int ctx, int depth);
static std::map<std::tuple<int, const void *>, int> CtxTab; static int ctxOf(int c, const void *i) { auto k = std::make_tuple(c, i); auto it = CtxTab.find(k); if (it != CtxTab.end()) return it->second; int n = (int)CtxTab.size() + 1; CtxTab[k] = n; return n; }
static int HeapCount = 0;
static std::vector<const Function *> CallStack;

static Str constStr(State &S, const Val &v) {
  if (v.k != Val::Ptr || v.p.size() != 1) return "";
  auto &t = v.p[0]; if (t.r <= 0 || R[t.r].k != RGlobal) return "";
  auto *G = dyn_cast<GlobalVariable>(R[t.r].gv); if (!G || !G->hasInitializer()) return "";
  if (auto *A = dyn_cast<ConstantDataArray>(G->getInitializer())) if (A->isString()) { Str s = A->getAsString().str(); s = s.c_str(); if (t.off >= 0 && (size_t)t.off <= s.size()) return s.substr(t.off); }
  return "";
}
static const std::set<Str> CellClasses = {"cl_memory_cell", "cl_cell_data", "cl_bit_cell", "cl_cell8", "cl_bit_cell8", "cl_cell16", "cl_bit_cell16", "cl_cell32", "cl_mc32", "cl_bit_cell32", "cl_dummy_cell"};
static const std::set<Str> ASClasses = {"cl_memory", "cl_address_space", "cl_chip_data", "cl_memory_chip", "cl_chip8", "cl_chip16", "cl_chip32"};
static void setField(State &S, int r, int64_t base, const Str &cls, const Str &f, const Val &v) { if (const Fld *x = field(cls, f)) storeAt(S, r, base + x->off, x->size, v); }

static Val cmpPtr(ICmpInst::Predicate P, const Val &a, const Val &b);
static int decided(Bit c, Bit path);
#include "driver.inc"
// returns true when handled
static bool intrinsic(const CallBase *CB, const Function *F, FInfo &f, const std::vector<Val> &args, State &S, Val &ret, int ctx) {
  Type *RT = F->getReturnType();
  StringRef N = F->getName();
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: {
      if (args[0].k == Val::Ptr && args[1].k == Val::Ptr && args[2].k == Val::Int && args[2].i.isConst() && !args[0].pTop && !args[1].pTop && args[0].p.size() == 1 && args[1].p.size() == 1 && args[0].p[0].span == 0 && args[1].p[0].span == 0 && args[1].p[0].r && args[0].p[0].r) {
        int dr = args[0].p[0].r, sr = args[1].p[0].r; int64_t d = args[0].p[0].off, s = args[1].p[0].off, n = args[2].i.lo;
        if (n <= 4096) { int64_t i = 0; std::vector<std::pair<int64_t, Cell>> tmp;
          while (i < n) { const RegState *rs = S.rreg(sr); int sz = 1; bool cell = false; if (rs) { auto it = rs->c.find(s + i); if (it != rs->c.end() && i + it->second.size <= n) { tmp.push_back({d + i, it->second}); sz = it->second.size; cell = true; } }
            if (!cell) { int step = ((s + i) % 8 == 0 && i + 8 <= n) ? 8 : 1; // keep pointers whole
              bool ov = false; if (rs) { auto lo = rs->c.lower_bound(s + i); if (lo != rs->c.end() && lo->first < s + i + step) ov = true; }
              if (ov) step = 1; Type *T = step == 8 ? (Type *)PointerType::get(Ctx, 0) : intTy(8); Val v = loadAt(S, sr, s + i, T); if (step == 8 && v.k == Val::Ptr && v.pTop) v = vTop(); tmp.push_back({d + i, {(uint32_t)step, v}}); sz = step; }
            i += sz; }
          for (auto &x : tmp) storeAt(S, dr, x.first, x.second.size, x.second.v); return true; }
      }
      if (args[0].k == Val::Ptr && !args[0].pTop) for (auto &t : args[0].p) if (t.r) { S.wreg(t.r).topAll = true; S.wreg(t.r).c.clear(); }
      return true;
    }
    case Intrinsic::memset: {
      if (args[0].k == Val::Ptr && !args[0].pTop && args[0].p.size() == 1 && args[2].k == Val::Int && args[2].i.isConst() && args[2].i.lo <= 65536 && args[0].p[0].r) { int64_t n = args[2].i.lo; int r = args[0].p[0].r; bool z = args[1].k == Val::Int && args[1].i.isConst() && args[1].i.lo == 0; int64_t o = args[0].p[0].off;
        for (int64_t i = 0; i < n;) { int st = (z && n - i >= 8 && (o + i) % 8 == 0) ? 8 : 1; storeAt(S, r, o + i, st, st == 8 ? vPtr(0) : toInt(args[1], 8)); i += st; } return true; }
      if (args[0].k == Val::Ptr && !args[0].pTop) for (auto &t : args[0].p) if (t.r) { S.wreg(t.r).topAll = true; S.wreg(t.r).c.clear(); }
      return true;
    }
    case Intrinsic::vastart: if (O.driver && !VaStack.empty() && onePtr(args[0])) storeAt(S, args[0].p[0].r, args[0].p[0].off + 16, 8, vPtr(VaStack.back())); ret = topOf(RT); return true;
    case Intrinsic::vacopy: if (O.driver && onePtr(args[0]) && onePtr(args[1])) storeAt(S, args[0].p[0].r, args[0].p[0].off + 16, 8, loadAt(S, args[1].p[0].r, args[1].p[0].off + 16, PointerType::get(Ctx, 0))); ret = topOf(RT); return true;
    case Intrinsic::abs: case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: ret = topOf(RT); return true;
    default: ret = topOf(RT); return true;
    }
  }
  if (N == "_Znwm" || N == "_Znam" || N == "malloc" || N == "calloc") {
    Str key = "heap:" + std::to_string(ctx) + ":" + std::to_string((uintptr_t)CB) + (FixMode ? ":fix" : ":" + std::to_string(HeapCount++));
    int r = namedRegion(RHeap, key, "heap@" + locOf(CB)); if (N == "calloc") R[r].zero = true;
    if (args[0].k == Val::Int && args[0].i.isConst()) R[r].size = args[0].i.lo; if (FixMode) { S.wreg(r).topAll = true; } ret = vPtr(r); return true;
  }
  if ((O.driver || N == "strchr" || N == "strlen" || N == "strcmp") && F->isDeclaration() && driverCall(CB, (N.starts_with("__isoc23_") ? N.drop_front(9) : N).str(), args, S, ret, ctx)) return true;
  if (N == "exit" || N == "abort" || N == "__cxa_pure_virtual" || N == "__assert_fail") { ret = topOf(RT); return true; }
  if (F->isDeclaration()) {
    // library calls: no effect on tracked objects other than through explicit out-pointers
    for (auto &a : args) if (a.k == Val::Ptr && !a.pTop) for (auto &t : a.p) if (t.r > 0 && (R[t.r].k == RAlloca)) { S.wreg(t.r).topAll = true; S.wreg(t.r).c.clear(); } else if (t.r > 0) R[t.r].ext = true;
    ret = topOf(RT); return true;
  }
  if (O.driver) return false;
  // constructors of memories mark their object as an abstract memory
  if (!f.cls.empty() && !args.empty() && args[0].k == Val::Ptr && !args[0].pTop && args[0].p.size() == 1) {
    int r = args[0].p[0].r; int64_t o = args[0].p[0].off;
    bool derivedAS = f.base == f.cls && f.cls != "cl_address_space" && derivesFrom(f.cls, "cl_address_space");
    if (f.base == f.cls && (derivedAS || f.cls == "cl_address_space" || f.cls == "cl_memory_chip" || f.cls == "cl_chip_data" || f.cls == "cl_chip8" || f.cls == "cl_chip16" || f.cls == "cl_chip32") && R[r].k == RHeap) {
      R[r].k = RAS; R[r].cls = derivedAS ? "cl_address_space" : f.cls; bool as = R[r].cls == "cl_address_space";
      Str nm = args.size() > 1 ? constStr(S, args[1]) : ""; if (nm.empty()) nm = "mem@" + locOf(CB); R[r].name = nm + (as ? "" : "_chip");
      unsigned wi = as ? 4 : 3; if (args.size() > wi && args[wi].k == Val::Int && args[wi].i.isConst()) R[r].width = (int)args[wi].i.lo;
      int vt = vtableRegionFor(R[r].cls); if (vt >= 0) storeAt(S, r, o, 8, vPtr(vt, 16));
      setField(S, r, o, "cl_memory", "width", vInt(ivConst(32, R[r].width)));
      setField(S, r, o, "cl_memory", "data_mask", vInt(ivConst(32, maskw(R[r].width))));
      if (as && args.size() > 3) { setField(S, r, o, "cl_memory", "start_address", toInt(args[2], 32)); setField(S, r, o, "cl_memory", "size", toInt(args[3], 32)); }
      else if (args.size() > 2) { setField(S, r, o, "cl_memory", "start_address", vInt(ivConst(32, 0))); setField(S, r, o, "cl_memory", "size", toInt(args[2], 32)); }
      ret = topOf(RT); return true;
    }
    if (ASClasses.count(f.cls) && R[r].k == RAS) {
      const Str &b = f.base;
      if (b == "read" || b == "get" || (b == "d" && args.size() == 2)) { Val j; for (auto &t : args[0].p) if (R[t.r].k == RAS) j = vJoin(j, asRead(S, t.r, toInt(args[1], 32).i, CB, b != "get" && args.size() < 3), GateTop); ret = RT->isIntegerTy() ? toInt(j, RT->getIntegerBitWidth()) : topOf(RT); return true; }
      if (b == "write" || b == "set" || b == "download" || (b == "d" && args.size() == 3)) { asWrite(S, r, toInt(args[1], 32).i, args[2], CB, false, true, b == "write"); ret = RT->isVoidTy() ? vTop() : toInt(args[2], 32); if (RT->isIntegerTy()) { ret.i = ivZext(ivTrunc(ret.i, R[r].width), 32); } return true; }
      if (b == "get_cell" || b == "register_hw") { ret = vPtr(cellRegion(r, toInt(args[1], 32).i)); return true; }
      if (b == "get_slot") { ret = vPtr(namedRegion(RHeap, "slots:" + std::to_string(r), R[r].name + "_slots"), 0); if (args[1].k == Val::Int && args[1].i.isConst()) ret.p[0].off = args[1].i.lo; else ret = vPtrTop(); return true; }
      if (b == "inc_address") { IV n = args.size() > 2 ? toInt(args[2], 32).i : ivConst(32, 1); ret = vInt(ivAdd(toInt(args[1], 32).i, n)); return true; }
      if (b == "validate_address") return false;
      if (b == "valid_address") { ret = vInt(ivConst(RT->getIntegerBitWidth(), 1)); return true; }
      if (b == "get_start_address" || b == "get_size" || b == "lowest_valid_address" || b == "highest_valid_address" || b == "is_chip" || b == "is_address_space") return false;
      ret = topOf(RT); D.opaque.insert(f.dem); return true;
    }
    if (R[r].k == RCell) {
      const Str &b = f.base;
      if (CellClasses.count(f.cls)) {
        if (b == "read" || b == "R" || b == "get" || (b == "d" && args.size() == 1)) { ret = toInt(asRead(S, R[r].parent, R[r].addr, CB, b != "get" && args.size() < 2), 32); return true; }
        if (b == "write" || b == "W" || b == "set" || b == "download" || (b == "d" && args.size() == 2) || b == "operator=") { asWrite(S, R[r].parent, R[r].addr, args[1], CB, false, true, b == "write" || b == "W" || b == "operator="); ret = RT->isIntegerTy() ? toInt(args[1], 32) : RT->isPointerTy() ? args[0] : vTop(); if (RT->isIntegerTy()) { ret.i = ivZext(ivTrunc(ret.i, R[R[r].parent].width), 32); } return true; }
        if (b == "add_hw") { ret = args[0]; return true; }
        ret = topOf(RT); D.opaque.insert(f.dem); return true;
      }
    }
  }
  return false;
}
// calls through a set of memory objects: run one callee per object, weak updates
static bool isMemObj(int r) { return R[r].k == RAS || R[r].k == RCell; }

static Outs oneOut(State &S, Val v) { Outs o; o.emplace_back(std::move(S), std::move(v)); return o; }
static Outs callFunction(const CallBase *CB, const Function *F, std::vector<Val> args, State S, int ctx, int depth) {
  FInfo &f = finfo(F); Type *RT = F->getReturnType(); Val ret = topOf(RT);
  if (!f.crDone) { for (size_t i = 0; i < O.counters.size(); i++) if (std::regex_search(f.dem, O.counters[i].re)) f.cr.push_back((int)i); f.crDone = true; }
  bool opq = false; bool haveRet = false;
  for (int ci : f.cr) {
    CntRule &c = O.counters[ci];
    IV inc = ivConst(32, 1); if (c.arg >= 0 && (int)args.size() > c.arg) inc = args[c.arg].k == Val::Int ? (args[c.arg].i.w > 32 ? ivTrunc(args[c.arg].i, 32) : ivSext(args[c.arg].i, 32)) : ivTop(32);
    { auto it = S.cnt.find(c.name); S.cnt[c.name] = it == S.cnt.end() ? inc : ivAdd(it->second, inc); }
    if (c.event) { Ev e; e.kind = "call"; e.space = c.name; e.v = args; e.loc = locOf(CB); e.id = ++Serial; S.wlog().push_back(e); }
    if (c.opaque) opq = true;
    if (!c.ret.empty() && RT->isIntegerTy()) { haveRet = true; if (c.ret[0] == 'a') ret = toInt(args[atoi(c.ret.c_str() + 1)], RT->getIntegerBitWidth()); else if (c.ret[0] == '?') ret = vInt(ivSym(RT->getIntegerBitWidth(), internSym(c.ret.substr(1), RT->getIntegerBitWidth()))); else ret = vInt(ivConst(RT->getIntegerBitWidth(), strtoull(c.ret.c_str(), 0, 0))); }
    if (c.ret == "cell" && RT->isPointerTy() && args.size() > 2 && args[1].k == Val::Ptr && args[1].p.size() == 1 && args[1].p[0].r > 0 && R[args[1].p[0].r].k == RAS && args[2].k == Val::Int) ret = vPtr(cellRegion(args[1].p[0].r, ivZext(ivTrunc(args[2].i, std::min(32, args[2].i.w)), 32)));
  }
  (void)haveRet;
  if (opq) return oneOut(S, ret);
  // several memory objects as receiver
  if (!args.empty() && args[0].k == Val::Ptr && !args[0].pTop && args[0].p.size() > 1) {
    std::vector<PT> mem; for (auto &t : args[0].p) if (t.r > 0 && isMemObj(t.r)) mem.push_back(t);
    if (!mem.empty()) {
      Outs outs; for (auto &t : args[0].p) { if (t.r == 0) continue; auto a2 = args; a2[0] = Val(); a2[0].k = Val::Ptr; a2[0].p = {t}; auto o = callFunction(CB, F, a2, S, ctx, depth); outs.insert(outs.end(), o.begin(), o.end()); }
      return outs;
    }
  }
  if (O.driver && F->isDeclaration() && F->getName().starts_with("ucsa_")) { Outs o; if (driverSplit(CB, F->getName().str(), args, S, o)) return o; }
  if (O.driver && F->isDeclaration() && (F->getName() == "exit" || F->getName() == "abort" || F->getName() == "__assert_fail")) return {};
  if (intrinsic(CB, F, f, args, S, ret, ctx)) return oneOut(S, ret);
  if (f.isOpaque < 0) f.isOpaque = matchAny(O.opaque, f.dem) && !matchAny(O.inl, f.dem);
  int rec = 0; for (auto *x : CallStack) if (x == F) rec++;
  if (f.isOpaque && O.driver) for (auto &a : args) if (a.k == Val::Ptr && !a.pTop) for (auto &t : a.p) if (t.r > 0) R[t.r].ext = true;
  if (f.isOpaque || depth > (O.driver ? 150 : 40) || rec > (O.driver ? 40 : 2)) { D.opaque.insert(f.dem + (f.isOpaque ? "" : " [depth]")); return oneOut(S, topOf(RT)); }
  if (PtrGuards && !FixMode && !args.empty() && args[0].k == Val::Ptr && args[0].p.size() > 1 && args[0].p.size() <= 12 && !args[0].pg.empty() && !F->isDeclaration()) { // one path per receiver
    Outs outs; int64_t sn = ++Serial; Dep cd = 0; for (Bit g : args[0].pg) cd = depUnion(cd, bitDep(g)); int side = 10; Bit pb = conj(S.path, 0);
    for (size_t i = 0; i < args[0].p.size(); i++) {
      if (decided(args[0].pg[i], pb) == 0) continue;
      State q = S; q.path.push_back({sn, side++, args[0].pg[i], cd, false}); auto a2 = args; a2[0] = Val(); a2[0].k = Val::Ptr; a2[0].p = {args[0].p[i]};
      auto o = callFunction(CB, F, a2, std::move(q), ctx, depth); outs.insert(outs.end(), o.begin(), o.end());
    }
    return outs;
  }
  auto savedEnv = S.env; auto savedOrig = S.orig; S.orig.clear(); S.env = std::make_shared<Env>();
  CallStack.push_back(F); bool va = O.driver && F->isVarArg();
  if (va) { int r = newRegion(RHeap, "va"); VaArgs[r] = args.size() > F->arg_size() ? std::vector<Val>(args.begin() + F->arg_size(), args.end()) : std::vector<Val>(); VaStack.push_back(r); }
  Outs outs = runFunction(F, args, std::move(S), ctxOf(ctx, CB), depth + 1);
  CallStack.pop_back(); if (va) VaStack.pop_back();
  for (auto &o : outs) { o.first.env = savedEnv; o.first.orig = savedOrig; }
  return outs;
}
static Outs doCall(const CallBase *CB, State S, int ctx, int depth) {
  std::vector<Val> args; for (auto &a : CB->args()) args.push_back(a->getType()->isMetadataTy() ? vTop() : evalV(S, a));
  const Value *CV = CB->getCalledOperand()->stripPointerCasts();
  if (auto *A = dyn_cast<GlobalAlias>(CV)) CV = A->getAliaseeObject();
  if (auto *F = dyn_cast<Function>(CV)) { return callFunction(CB, F, args, std::move(S), ctx, depth); }
  if (isa<InlineAsm>(CV)) return {{S, topOf(CB->getType())}};
  Val fv = evalV(S, CV); Outs outs; bool unknown = fv.k != Val::Ptr || fv.pTop;
  std::vector<const Function *> fs;
  if (!unknown) for (auto &t : fv.p) { if (t.r == 0) continue; if (R[t.r].k == RFunc && t.off == 0 && t.span == 0) fs.push_back(cast<Function>(R[t.r].gv)); else unknown = true; }
  if (PtrGuards && !FixMode && !unknown && fv.p.size() > 1 && !args.empty() && args[0].k == Val::Ptr && args[0].p.size() > 1 && !args[0].pg.empty()) // a virtual call: one path per receiver
    if (auto *L1 = dyn_cast<LoadInst>(CV)) {
      const Value *vp = L1->getPointerOperand(); APInt off(64, 0); vp = vp->stripAndAccumulateConstantOffsets(*DL, off, true);
      if (auto *L2 = dyn_cast<LoadInst>(vp)) if (evalV(S, L2->getPointerOperand()) == args[0]) {
        int64_t sn = ++Serial; Dep cd = 0; for (Bit g : args[0].pg) cd = depUnion(cd, bitDep(g)); int side = 10;
        for (size_t i = 0; i < args[0].p.size(); i++) {
          const PT &t = args[0].p[i]; if (t.r == 0 || t.span) continue;
          Val vt = loadAt(S, t.r, t.off, L2->getType()); if (vt.k != Val::Ptr || vt.pTop || vt.p.size() != 1) { unknown = true; break; }
          Val fp = loadAt(S, vt.p[0].r, vt.p[0].off + (int64_t)off.getSExtValue(), L1->getType()); if (fp.k != Val::Ptr || fp.pTop || fp.p.size() != 1 || fp.p[0].r == 0 || R[fp.p[0].r].k != RFunc) { unknown = true; break; }
          State q = S; q.path.push_back({sn, side++, args[0].pg[i], cd, false}); if (decided(args[0].pg[i], conj(S.path, 0)) == 0) continue;
          auto a2 = args; a2[0] = Val(); a2[0].k = Val::Ptr; a2[0].p = {t};
          auto o = callFunction(CB, cast<Function>(R[fp.p[0].r].gv), a2, std::move(q), ctx, depth); outs.insert(outs.end(), o.begin(), o.end());
        }
        if (!unknown) return outs;
        unknown = false; outs.clear();
      }
    }
  if (fs.empty()) unknown = true;
  if (unknown) { D.unknownCalls.insert(locOf(CB)); outs.push_back({S, topOf(CB->getType())}); }
  for (auto *F : fs) {
    if (F->arg_size() != args.size() && !F->isVarArg()) continue;
    if (fs.size() == 1 && !unknown && (fs[0]->arg_size() == args.size() || fs[0]->isVarArg())) return callFunction(CB, fs[0], args, std::move(S), ctx, depth);
    auto a2 = args;
    // virtual dispatch on a set of receivers: keep only the receivers this callee belongs to
    auto o = callFunction(CB, F, a2, S, ctx, depth); outs.insert(outs.end(), o.begin(), o.end()); }
  if (outs.empty() && !O.driver) outs.push_back({S, topOf(CB->getType())});
  return outs;
}

static Val cmpPtr(ICmpInst::Predicate P, const Val &a, const Val &b) {
  if (P != ICmpInst::ICMP_EQ && P != ICmpInst::ICMP_NE) {
    if (a.k == Val::Ptr && b.k == Val::Ptr && !a.pTop && !b.pTop && a.p.size() == 1 && b.p.size() == 1 && a.p[0].r == b.p[0].r && !a.p[0].span && !b.p[0].span) { int64_t x = a.p[0].off, y = b.p[0].off; bool r = false;
      switch (P) { case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: r = x < y; break; case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: r = x <= y; break; case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: r = x > y; break; default: r = x >= y; } return vInt(ivConst(1, r)); }
    if (O.driver && a.k == Val::Ptr && b.k == Val::Ptr && !a.pTop && !b.pTop && a.p.size() == 1 && b.p.size() == 1 && a.p[0].r != b.p[0].r && !a.p[0].span && !b.p[0].span) { // objects lie at increasing addresses
      bool lt = a.p[0].r < b.p[0].r; return vInt(ivConst(1, lt == (P == ICmpInst::ICMP_ULT || P == ICmpInst::ICMP_SLT || P == ICmpInst::ICMP_ULE || P == ICmpInst::ICMP_SLE))); }
    return vInt(ivTop(1)); }
  if (a.k != Val::Ptr || b.k != Val::Ptr || a.pTop || b.pTop) return vInt(ivTop(1));
  if ((a.p.size() > 1 && !a.pg.empty() && (b.p.size() == 1 || !b.pg.empty())) || (b.p.size() > 1 && !b.pg.empty() && a.p.size() == 1)) {
    Bit e = 0; bool ok = true;
    for (size_t i = 0; i < a.p.size(); i++) for (size_t j = 0; j < b.p.size(); j++) if (a.p[i].r == b.p[j].r) { if (a.p[i].span || b.p[j].span) ok = false; else if (a.p[i].off == b.p[j].off) e = bOr(e, bAnd(a.pg.empty() ? (Bit)1 : a.pg[i], b.pg.empty() ? (Bit)1 : b.pg[j])); }
    if (ok && !bitTop(e)) { IV v = ivTop(1); v.b[0] = P == ICmpInst::ICMP_EQ ? e : bNot(e); ivNorm(v); return vInt(v); }
  }
  bool canEq = false, canNe = false;
  for (auto &x : a.p) for (auto &y : b.p) {
    if (x.r != y.r) canNe = true;
    else if (x.span || y.span) canEq = canNe = true;
    else if (x.off == y.off) canEq = true; else canNe = true;
  }
  if (a.p.size() > 1 || b.p.size() > 1) { if (canEq) canNe = true; }
  if (canEq && canNe) return vInt(ivTop(1));
  return vInt(ivConst(1, canEq == (P == ICmpInst::ICMP_EQ)));
}
static Val execI(State &S, const Instruction &I, int ctx) {
  auto E = [&](unsigned n) { return evalV(S, I.getOperand(n)); };
  Type *T = I.getType();
  if (auto *B = dyn_cast<BinaryOperator>(&I)) {
    if (!T->isIntegerTy() || T->getIntegerBitWidth() > 64) return topOf(T);
    int w = T->getIntegerBitWidth(); Val a = E(0), b = E(1);
    if (a.k == Val::Ptr || b.k == Val::Ptr) { // member function pointer arithmetic
      if (a.k == Val::Ptr && !a.pTop && b.k == Val::Int && b.i.isConst()) {
        bool fn = true; for (auto &t : a.p) if (t.r == 0 || R[t.r].k != RFunc) fn = false;
        if (B->getOpcode() == Instruction::And && b.i.lo == 1 && fn) return vInt(ivConst(w, 0));
        if (B->getOpcode() == Instruction::Sub || B->getOpcode() == Instruction::Add) { Val r = a; for (auto &t : r.p) t.off += B->getOpcode() == Instruction::Sub ? -(int64_t)b.i.lo : (int64_t)b.i.lo; return r; }
      }
      if (a.k == Val::Ptr && b.k == Val::Ptr && B->getOpcode() == Instruction::Sub && a.p.size() == 1 && b.p.size() == 1 && a.p[0].r == b.p[0].r && !a.p[0].span && !b.p[0].span) return vInt(ivConst(w, a.p[0].off - b.p[0].off));
      return vInt(ivTop(w));
    }
    IV x = toInt(a, w).i, y = toInt(b, w).i;
    if (O.driver && B->isIntDivRem()) divCheck(S, x, y, B);
    switch (B->getOpcode()) {
    case Instruction::Add: return vInt(ivAdd(x, y)); case Instruction::Sub: return vInt(ivSub(x, y)); case Instruction::Mul: return vInt(ivMul(x, y));
    case Instruction::And: return vInt(ivAnd(x, y)); case Instruction::Or: return vInt(ivOr(x, y)); case Instruction::Xor: return vInt(ivXor(x, y));
    case Instruction::Shl: return vInt(ivShl(x, y)); case Instruction::LShr: return vInt(ivLshr(x, y)); case Instruction::AShr: return vInt(ivAshr(x, y));
    case Instruction::UDiv: return vInt(ivUdiv(x, y)); case Instruction::URem: return vInt(ivUrem(x, y)); case Instruction::SDiv: return vInt(ivSdiv(x, y)); case Instruction::SRem: return vInt(ivSrem(x, y));
    default: return topOf(T);
    }
  }
  switch (I.getOpcode()) {
  case Instruction::Alloca: { auto *A = cast<AllocaInst>(&I); int r = namedRegion(RAlloca, "al:" + std::to_string(ctx) + ":" + std::to_string((uintptr_t)A), A->getName().str()); R[r].size = DL->getTypeAllocSize(A->getAllocatedType()); R[r].parent = ctx; S.mem.erase(r); S.wreg(r); return vPtr(r); }
  case Instruction::Load: return load(S, E(0), T, &I);
  case Instruction::Store: { auto *St = cast<StoreInst>(&I); store(S, evalV(S, St->getPointerOperand()), evalV(S, St->getValueOperand()), St->getValueOperand()->getType(), &I); return vTop(); }
  case Instruction::GetElementPtr: return gepOffset(&S, cast<GEPOperator>(&I), E(0), [&](const Value *V) { return evalV(S, V); });
  case Instruction::ICmp: {
    auto *C = cast<ICmpInst>(&I); Val a = E(0), b = E(1);
    if (C->getOperand(0)->getType()->isPointerTy()) return cmpPtr(C->getPredicate(), toPtr(a), toPtr(b));
    if (!C->getOperand(0)->getType()->isIntegerTy()) return vInt(ivTop(1));
    if (a.k == Val::Ptr || b.k == Val::Ptr) return cmpPtr(C->getPredicate(), toPtr(a), toPtr(b));
    int w = C->getOperand(0)->getType()->getIntegerBitWidth(); if (w > 64) return vInt(ivTop(1));
    IV x = toInt(a, w).i, y = toInt(b, w).i;
    switch (C->getPredicate()) {
    case ICmpInst::ICMP_EQ: return vInt(ivCmp(EQ, x, y)); case ICmpInst::ICMP_NE: return vInt(ivCmp(NE, x, y));
    case ICmpInst::ICMP_UGT: return vInt(ivCmp(UGT, x, y)); case ICmpInst::ICMP_UGE: return vInt(ivCmp(UGE, x, y)); case ICmpInst::ICMP_ULT: return vInt(ivCmp(ULT, x, y)); case ICmpInst::ICMP_ULE: return vInt(ivCmp(ULE, x, y));
    case ICmpInst::ICMP_SGT: return vInt(ivCmp(SGT, x, y)); case ICmpInst::ICMP_SGE: return vInt(ivCmp(SGE, x, y)); case ICmpInst::ICMP_SLT: return vInt(ivCmp(SLT, x, y)); case ICmpInst::ICMP_SLE: return vInt(ivCmp(SLE, x, y));
    default: return vInt(ivTop(1));
    }
  }
  case Instruction::Select: { Val c = E(0), a = E(1), b = E(2); if (c.k == Val::Int && c.i.w == 1) { if (c.i.isConst()) return c.i.lo ? a : b; if (a.k == Val::Int && b.k == Val::Int && a.i.w == b.i.w) return vInt(ivIte(c.i.b[0], a.i, b.i)); if (PtrGuards && a.k == Val::Ptr && b.k == Val::Ptr) { Gate g; g.sel = c.i.b[0]; return vJoin(a, b, g); } } return vJoin(a, b, GateTop); }
  case Instruction::Trunc: { int w = T->getIntegerBitWidth(); Val a = E(0); if (a.k == Val::Ptr || a.k != Val::Int) return vInt(ivTop(w)); return vInt(ivTrunc(a.i, w)); }
  case Instruction::ZExt: { int w = T->isIntegerTy() ? T->getIntegerBitWidth() : 99; if (w > 64) return topOf(T); Val a = E(0); if (a.k != Val::Int) return vInt(ivZext(ivTop(I.getOperand(0)->getType()->getIntegerBitWidth()), w)); return vInt(ivZext(a.i, w)); }
  case Instruction::SExt: { int w = T->isIntegerTy() ? T->getIntegerBitWidth() : 99; if (w > 64) return topOf(T); Val a = E(0); if (a.k != Val::Int) return vInt(ivTop(w)); return vInt(ivSext(a.i, w)); }
  case Instruction::PtrToInt: { Val a = E(0); if (T->getIntegerBitWidth() != 64) return topOf(T); return toInt(a, 64); }
  case Instruction::IntToPtr: return toPtr(E(0));
  case Instruction::BitCast: case Instruction::Freeze: { Val a = E(0); if (T->isIntegerTy() && a.k != Val::Int && a.k != Val::Ptr) return topOf(T); return a; }
  case Instruction::ExtractValue: { Val a = E(0); for (unsigned ix : cast<ExtractValueInst>(&I)->getIndices()) { if (a.k != Val::Agg || ix >= a.agg.size()) return topOf(T); a = a.agg[ix]; } return a; }
  case Instruction::InsertValue: { auto *X = cast<InsertValueInst>(&I); Val a = E(0); if (a.k != Val::Agg) a = topOf(T); if (X->getNumIndices() == 1 && a.k == Val::Agg && *X->idx_begin() < a.agg.size()) a.agg[*X->idx_begin()] = E(1); return a; }
  default: return topOf(T);
  }
}

// ---------------------------------------------------------------- refinement by branch conditions
static void setEnv(State &S, const Value *V, const Val &v) { auto &e = S.wenv(); auto it = e.find(V); if (it != e.end() && !S.orig.count(V)) S.orig[V] = it->second; e[V] = v; }
static void defEnv(State &S, const Value *V, Val v) { if (!S.orig.empty()) S.orig.erase(V); S.wenv()[V] = std::move(v); }
static bool refine(State &S, const Value *Cond, bool taken, int depth = 0) {
  if (depth > 4) return true;
  if (auto *SI = dyn_cast<SelectInst>(Cond)) { // a && b, a || b
    auto *Tc = dyn_cast<ConstantInt>(SI->getTrueValue()); auto *Fc = dyn_cast<ConstantInt>(SI->getFalseValue());
    if (Fc && Fc->isZero() && taken) return refine(S, SI->getCondition(), true, depth + 1) && refine(S, SI->getTrueValue(), true, depth + 1);
    if (Tc && Tc->isOne() && !taken) return refine(S, SI->getCondition(), false, depth + 1) && refine(S, SI->getFalseValue(), false, depth + 1);
    return true;
  }
  auto *C = dyn_cast<ICmpInst>(Cond); if (!C) return true;
  auto P = taken ? C->getPredicate() : C->getInversePredicate();
  const Value *A = C->getOperand(0), *B = C->getOperand(1);
  Val a = evalV(S, A), b = evalV(S, B);
  if (a.k == Val::Ptr && b.k == Val::Ptr && !a.pTop && b.p.size() == 1 && b.p[0].r == 0 && b.p[0].off == 0) {
    if (P == ICmpInst::ICMP_EQ || P == ICmpInst::ICMP_NE) {
      Val n; n.k = Val::Ptr; for (auto &t : a.p) if ((t.r == 0) == (P == ICmpInst::ICMP_EQ)) { n.p.push_back(t); if (!a.pg.empty()) n.pg.push_back(a.pg[&t - &a.p[0]]); }
      if (n.p.size() < 2) n.pg.clear();
      if (n.p.empty()) return false;
      if (!isa<Constant>(A)) setEnv(S, A, n);
      if (auto *L = dyn_cast<LoadInst>(A)) { // the location itself, when nothing was stored since (same block, checked by value equality)
        Val pv = evalV(S, L->getPointerOperand()); if (pv.k == Val::Ptr && !pv.pTop && pv.p.size() == 1 && pv.p[0].r > 0 && pv.p[0].span == 0) { Val cur = loadAt(S, pv.p[0].r, pv.p[0].off, L->getType()); if (cur == a) storeAt(S, pv.p[0].r, pv.p[0].off, 8, n); }
      }
    }
    return true;
  }
  if (a.k != Val::Int || b.k != Val::Int) return true;
  auto clamp = [&](const Value *V, IV x, uint64_t lo, uint64_t hi) { if (isa<Constant>(V)) return true; if (lo > x.lo) x.lo = lo; if (hi < x.hi) x.hi = hi; if (x.lo > x.hi) return false; ivNorm(x); 
    setEnv(S, V, vInt(x));
    const Value *W = V; IV y = x;
    while (true) { // propagate through extensions to the loaded location
      if (auto *Z = dyn_cast<ZExtInst>(W)) { W = Z->getOperand(0); y = ivTrunc(y, W->getType()->getIntegerBitWidth()); Val ov = evalV(S, W); if (ov.k == Val::Int) { IV q = ov.i; q.lo = std::max(q.lo, x.lo); q.hi = std::min(q.hi, x.hi); if (q.lo <= q.hi) { ivNorm(q); setEnv(S, W, vInt(q)); y = q; } } continue; }
      if (auto *L = dyn_cast<LoadInst>(W)) { Val pv = evalV(S, L->getPointerOperand()); if (pv.k == Val::Ptr && !pv.pTop && pv.p.size() == 1 && pv.p[0].r > 0 && pv.p[0].span == 0 && y.w % 8 == 0) { Val cur = loadAt(S, pv.p[0].r, pv.p[0].off, L->getType()); if (cur.k == Val::Int && cur.i.w == y.w) { IV q = cur.i; bool same = q.b == y.b; if (same && !q.isConst()) { /* leave provenance intact: only ranges narrow */ } } } }
      break;
    }
    return true; };
  switch (P) {
  case ICmpInst::ICMP_EQ:
    if (b.i.isConst()) { if (a.i.lo > b.i.lo || a.i.hi < b.i.lo) return false; for (int i = 0; i < a.i.w; i++) if (a.i.b[i] < 2 && a.i.b[i] != ((b.i.lo >> i) & 1)) return false; if (!isa<Constant>(A)) setEnv(S, A, b); }
    break;
  case ICmpInst::ICMP_NE:
    if (b.i.isConst()) { uint64_t c = b.i.lo; if (a.i.isConst() && a.i.lo == c) return false; if (a.i.lo == c) return clamp(A, a.i, c + 1, a.i.hi); if (a.i.hi == c) return clamp(A, a.i, a.i.lo, c - 1); }
    break;
  case ICmpInst::ICMP_ULT: if (b.i.hi == 0) return false; return clamp(A, a.i, 0, b.i.hi - 1) && (b.i.isConst() || clamp(B, b.i, a.i.lo + 1, ~0ull));
  case ICmpInst::ICMP_ULE: return clamp(A, a.i, 0, b.i.hi) && (b.i.isConst() || clamp(B, b.i, a.i.lo, ~0ull));
  case ICmpInst::ICMP_UGT: if (b.i.lo == ~0ull) return false; return clamp(A, a.i, b.i.lo + 1, ~0ull) && (b.i.isConst() || a.i.hi == 0 || clamp(B, b.i, 0, a.i.hi - 1));
  case ICmpInst::ICMP_UGE: return clamp(A, a.i, b.i.lo, ~0ull) && (b.i.isConst() || clamp(B, b.i, 0, a.i.hi));
  default: {
    uint64_t Sg = 1ull << (a.i.w - 1);
    if (a.i.hi < Sg && b.i.hi < Sg) {
      if (P == ICmpInst::ICMP_SLT) { if (b.i.hi == 0) return false; return clamp(A, a.i, 0, b.i.hi - 1); }
      if (P == ICmpInst::ICMP_SLE) return clamp(A, a.i, 0, b.i.hi);
      if (P == ICmpInst::ICMP_SGT) return clamp(A, a.i, b.i.lo + 1, ~0ull);
      if (P == ICmpInst::ICMP_SGE) return clamp(A, a.i, b.i.lo, ~0ull);
    }
  }
  }
  return true;
}

// ---------------------------------------------------------------- function bodies
// a condition that has one value wherever the path condition holds: 0 or 1, else -1;
// only conditions over few bits are decided, by the values of the bits they depend on
static int decided(Bit c, Bit path) {
  static std::map<std::pair<Bit, Bit>, int> memo; if (bitTop(path)) path = 1; auto it = memo.find({c, path}); if (it != memo.end()) return it->second;
  int r = -1; std::set<std::pair<int, int>> pb; primaryBits(c, pb, false);
  if (pb.size() <= 16) { std::set<std::pair<int, int>> pq = pb; primaryBits(path, pq, false); if (pq.size() > 16) path = 1; else pb.swap(pq);
    bool can[2] = {false, false}; Valuation V; V.mode = 1; V.vars.assign(pb.begin(), pb.end()); uint64_t n = pb.size() > 6 ? 1ull << (pb.size() - 6) : 1;
    for (uint64_t q = 0; q < n && !(can[0] && can[1]); q++) { V.base = q; V.bit.clear(); V.atom.clear(); uint64_t x = V.eval(c), y = V.eval(path); if (x & y) can[1] = true; if (~x & y) can[0] = true; }
    if (can[0] != can[1]) r = can[1]; }
  return memo[{c, path}] = r;
}
struct Run {
  const Function *F; FInfo &f; int ctx, depth; Outs outs;
  std::map<const BasicBlock *, std::vector<State>> pend; std::map<const Loop *, std::vector<State>> back;
  Run(const Function *F, FInfo &f, int c, int d) : F(F), f(f), ctx(c), depth(d) {}
  void edge(State &N, const BasicBlock *from, const BasicBlock *to, const Loop *L) { // N is used up
    std::vector<std::pair<const Value *, Val>> ph; State &S = N;
    for (auto &P : to->phis()) ph.push_back({&P, evalV(S, P.getIncomingValueForBlock(from))});
    for (auto &x : ph) defEnv(N, x.first, x.second);
    if (L && to == L->getHeader()) back[L].push_back(std::move(N)); else pend[to].push_back(std::move(N));
  }
  void block(const BasicBlock *B, std::vector<State> states, const Loop *L) {
    mergeStates(states);
    auto it = B->begin(); while (isa<PHINode>(*it)) ++it;
    for (; it != B->end(); ++it) {
      const Instruction &I = *it; if (I.isTerminator()) break;
      if (I.isDebugOrPseudoInst()) continue;
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (isa<DbgInfoIntrinsic>(CB)) continue;
        std::vector<State> next;
        for (auto &s : states) { if (++Steps > StepLimit) { D.budget = true; return; } Outs o = doCall(CB, std::move(s), ctx, depth); for (auto &x : o) { if (!I.getType()->isVoidTy()) defEnv(x.first, &I, x.second); next.push_back(std::move(x.first)); } if (D.budget) return; }
        states.swap(next); mergeStates(states);
        if (states.empty()) return;
        continue;
      }
      for (auto &s : states) { if (++Steps > StepLimit) { D.budget = true; return; } Val v = execI(s, I, ctx); if (!I.getType()->isVoidTy()) defEnv(s, &I, std::move(v)); }
    }
    const Instruction *T = B->getTerminator();
    for (auto &s : states) {
      if (auto *Ret = dyn_cast<ReturnInst>(T)) { Val rv = Ret->getReturnValue() ? evalV(s, Ret->getReturnValue()) : vTop(); outs.emplace_back(std::move(s), std::move(rv)); continue; }
      if (auto *Br = dyn_cast<BranchInst>(T)) {
        if (Br->isUnconditional()) { edge(s, B, Br->getSuccessor(0), L); continue; }
        Val c = evalV(s, Br->getCondition());
        bool t = true, e = true; if (c.k == Val::Int && c.i.isConst()) { t = c.i.lo & 1; e = !t; }
        if (t && e && Br->getSuccessor(0) == Br->getSuccessor(1)) { edge(s, B, Br->getSuccessor(0), L); continue; }
        Bit cb = c.k == Val::Int && c.i.w == 1 && !FixMode ? c.i.b[0] : BT; Dep cd = c.k == Val::Int ? ivDep(c.i) : 1; int64_t sn = (t && e) ? ++Serial : 0;
        State qt, qe; bool okt = false, oke = false;
        if (O.driver && t && e && bitTop(cb) && !FixMode) { static bool tell = getenv("UCSA_UNKNOWN"); if (tell) { errs() << "unknown decision " << sn << " in " << B->getParent()->getName() << ": "; Br->getCondition()->print(errs()); if (auto &dl = Br->getDebugLoc()) errs() << " line " << dl.getLine(); errs() << " path " << bitStr(conj(s.path, 0)) << "\n"; } cb = symBit(internSym("?" + std::to_string(sn), 1), 0); cd = 1; } // an unknown decision, the same wherever the paths meet again
        else if (O.driver && t && e && !bitTop(cb)) { int k = decided(cb, conj(s.path, 0)); if (k >= 0) { t = k; e = !t; } else uninitUse(s, cb, Br); }
        if (t != e) { edge(s, B, Br->getSuccessor(t ? 0 : 1), L); continue; }
        if (t) { qt = s; okt = !e || refine(qt, Br->getCondition(), true); }
        if (e) { qe = std::move(s); oke = !t || refine(qe, Br->getCondition(), false); }
        if (okt && oke) { qt.path.push_back({sn, 1, cb, cd, true}); qe.path.push_back({sn, 0, bitTop(cb) ? cb : bNot(cb), cd, true}); }
        if (okt) edge(qt, B, Br->getSuccessor(0), L);
        if (oke) edge(qe, B, Br->getSuccessor(1), L);
        continue;
      }
      if (auto *Sw = dyn_cast<SwitchInst>(T)) {
        Val c = evalV(s, Sw->getCondition());
        if (c.k == Val::Int && c.i.isConst()) { auto *CI = ConstantInt::get(cast<IntegerType>(Sw->getCondition()->getType()), c.i.lo); edge(s, B, const_cast<SwitchInst *>(Sw)->findCaseValue(CI)->getCaseSuccessor(), L); continue; }
        uint64_t ncase = 0; int64_t sn = ++Serial; Dep cd = c.k == Val::Int ? ivDep(c.i) : 1; std::map<const BasicBlock *, Bit> gb; std::vector<const BasicBlock *> order; Bit any = 0;
        for (auto &cs : Sw->cases()) {
          Bit e = BT;
          if (c.k == Val::Int) { uint64_t v = cs.getCaseValue()->getZExtValue(); if (v < c.i.lo || v > c.i.hi) continue; IV q = ivCmp(EQ, c.i, ivConst(c.i.w, v)); if (q.isConst() && !q.lo) continue; ncase++; e = FixMode ? BT : q.isConst() ? (Bit)q.lo : q.b[0]; }
          auto it = gb.find(cs.getCaseSuccessor()); if (it == gb.end()) { gb[cs.getCaseSuccessor()] = e; order.push_back(cs.getCaseSuccessor()); } else it->second = bOr(it->second, e);
          any = bOr(any, e);
        }
        bool all = c.k == Val::Int && c.i.hi - c.i.lo < 100000 && ncase == c.i.hi - c.i.lo + 1;
        if (!all) { const BasicBlock *d = Sw->getDefaultDest(); Bit e = bNot(any); auto it = gb.find(d); if (it == gb.end()) { gb[d] = e; order.push_back(d); } else it->second = bOr(it->second, e); }
        int side = 10; for (auto *d : order) { State q = s; if (order.size() > 1) q.path.push_back({sn, side++, gb[d], cd, false}); edge(q, B, d, L); }
        continue;
      }
      // unreachable: path ends
    }
  }
  void region(const Loop *L) {
    for (auto *B : f.rpo) {
      if (D.budget) return;
      if (L && !L->contains(B)) continue;
      const Loop *BL = f.LI->getLoopFor(B);
      if (BL != L) { // inside an inner loop
        const Loop *X = BL; while (X && X->getParentLoop() != L) X = X->getParentLoop();
        if (X && X->getHeader() == B) { auto it = pend.find(B); if (it == pend.end() || it->second.empty()) continue; auto st = std::move(it->second); pend.erase(B); loop(X, std::move(st)); }
        continue;
      }
      auto it = pend.find(B); if (it == pend.end() || it->second.empty()) continue;
      auto st = std::move(it->second); pend.erase(it); block(B, std::move(st), L);
    }
  }
  size_t exitCount(const Loop *L) { size_t n = 0; for (auto &p : pend) if (!L->contains(p.first)) n += p.second.size(); return n + outs.size(); }
  void loop(const Loop *L, std::vector<State> cur) {
    int it = 0, und = 0;
    while (!cur.empty() && !D.budget) {
      size_t before = exitCount(L);
      pend[L->getHeader()] = std::move(cur); back[L].clear(); 
      // run one iteration
      { auto st = std::move(pend[L->getHeader()]); pend.erase(L->getHeader()); bodyOnce(L, std::move(st)); }
      cur = std::move(back[L]); back[L].clear(); mergeStates(cur);
      it++; if (!cur.empty() && exitCount(L) != before) und++;
      if (O.driver && !InitPhase && !und && it > O.looplimit) { endless(cur, L->getHeader()->getFirstNonPHI()); return; }
      if (und > O.unroll || it > (InitPhase ? 1100 : 70000)) break;
    }
    if (cur.empty() || D.budget) return;
    // fixpoint with widening
    FixMode++;
    State acc = cur[0]; for (size_t i = 1; i < cur.size(); i++) joinInto(acc, cur[i]);
    auto savedPart = O.part; 
    for (int k = 0; k < 60; k++) {
      back[L].clear(); bodyOnce(L, {acc}); if (D.budget) break;
      auto nx = std::move(back[L]); back[L].clear(); if (nx.empty()) break;
      State n = nx[0]; for (size_t i = 1; i < nx.size(); i++) joinInto(n, nx[i]);
      State j = acc; joinInto(j, n, k > 1);
      if (sameState(j, acc)) { FixMode--; return; }
      acc = j;
      if (k == 59) D.nonconv.insert(finfo(F).dem);
    }
    FixMode--;
  }
  void bodyOnce(const Loop *L, std::vector<State> st) {
    // blocks of L in RPO; the header first
    bool first = true;
    for (auto *B : f.rpo) {
      if (D.budget) return;
      if (!L->contains(B)) continue;
      if (first) { first = false; block(B, std::move(st), L); continue; }
      const Loop *BL = f.LI->getLoopFor(B);
      if (BL != L) { const Loop *X = BL; while (X && X->getParentLoop() != L) X = X->getParentLoop(); if (X && X->getHeader() == B) { auto it = pend.find(B); if (it == pend.end() || it->second.empty()) continue; auto s2 = std::move(it->second); pend.erase(B); loop(X, std::move(s2)); } continue; }
      auto it = pend.find(B); if (it == pend.end() || it->second.empty()) continue; auto s2 = std::move(it->second); pend.erase(it); block(B, std::move(s2), L);
    }
  }
};
static Outs runFunction(const Function *F, const std::vector<Val> &args, State in, int ctx, int depth) {
  FInfo &f = fbody(F);
  static int Tr = getenv("UCSA_TRACE") ? atoi(getenv("UCSA_TRACE")) : -1; if (depth <= Tr) fprintf(stderr, "%*s%s steps=%lld regions=%zu\n", depth, "", f.dem.c_str(), (long long)Steps, R.size());
  Run r(F, f, ctx, depth);
  { auto &e = in.wenv(); unsigned i = 0; for (auto &A : F->args()) { if (i < args.size()) { Val v = args[i]; if (A.getType()->isIntegerTy() && A.getType()->getIntegerBitWidth() <= 64) v = toInt(v, A.getType()->getIntegerBitWidth()); else if (A.getType()->isPointerTy()) v = toPtr(v); e[&A] = v; } i++; } }
  r.pend[&F->getEntryBlock()].push_back(std::move(in));
  r.region(nullptr);
  // merge outputs by partition
  if (r.outs.size() > 1) {
    std::map<Str, Outs> grp; bool pt = !(O.part.empty() && O.partCnt.empty()) || AnyFork, rk = !(O.part.empty() && O.partCnt.empty());
    for (auto &o : r.outs) {
      Str k = pt ? partKey(o.first) : Str();
      if (rk && o.second.k == Val::Int && o.second.i.isConst() && o.second.i.w <= 32) k += "#" + std::to_string(o.second.i.lo);
      o.first.env = std::make_shared<Env>(); o.first.orig.clear(); grp[k].push_back(std::move(o));
    }
    Outs o2; typedef std::pair<State, Val> SV;
    for (auto &g : grp) { mergeGroup(g.second, [](SV &x) -> State & { return x.first; }, [](SV &a, SV &b) { Gate gt; joinInto(a.first, b.first, false, &gt); a.second = vJoin(a.second, b.second, gt); }); o2.push_back(std::move(g.second[0])); }
    r.outs.swap(o2);
  }
  if (depth <= Tr) for (auto &o : r.outs) fprintf(stderr, "%*s< %s = %s %s path %s\n", depth, "", f.base.c_str(), o.second.k == Val::Int ? ivStr(o.second.i).c_str() : o.second.k == Val::Ptr ? "ptr" : "?", o.first.fork.c_str(), bitStr(conj(o.first.path, 0)).c_str());
  // drop the allocas of this frame
  for (auto &o : r.outs) for (auto it = o.first.mem.begin(); it != o.first.mem.end();) { if (O.driver && R[it->first].k == RAlloca && R[it->first].parent == ctx) it = o.first.mem.erase(it); else ++it; }
  return r.outs;
}

// ---------------------------------------------------------------- driver
static const Function *findFunction(const Str &dem) {
  const Function *best = nullptr;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue; FInfo &f = finfo(&F);
    if (f.dem == dem || f.dem.compare(0, dem.size() + 1, dem + "(") == 0) { best = &F; break; }
  }
  return best;
}
static const Function *findCtor(const Str &cls, int nargs) {
  const Function *best = nullptr;
  for (auto &F : *M) { if (F.isDeclaration()) continue; FInfo &f = finfo(&F); if (f.cls == cls && f.base == cls && (nargs < 0 || (int)F.arg_size() == nargs)) { if (F.getName().contains("C1E")) return &F; best = &F; } }
  return best;
}
static const Function *virtualOf(const Str &cls, const Str &name) { // name or name(args)
  auto *G = M->getNamedGlobal("_ZTV" + std::to_string(cls.size()) + cls); if (!G || !G->hasInitializer()) return nullptr;
  auto *S = dyn_cast<ConstantStruct>(G->getInitializer()); if (!S) return nullptr;
  for (unsigned i = 0; i < S->getNumOperands(); i++) if (auto *A = dyn_cast<ConstantArray>(S->getOperand(i))) for (auto &O2 : A->operands()) {
    const Value *V = O2.get()->stripPointerCasts(); if (auto *Al = dyn_cast<GlobalAlias>(V)) V = Al->getAliaseeObject();
    if (auto *F = dyn_cast<Function>(V)) { FInfo &f = finfo(F); if (f.base == name) return F; size_t p = f.dem.find('('); if (p != Str::npos && f.base + f.dem.substr(p) == name) return F; }
  }
  return nullptr;
}
static int entryObj(const Str &cls, const Str &name) { int r = namedRegion(REntry, "obj:" + name, name); R[r].cls = cls; if (auto it = DITypes.find(cls); it != DITypes.end()) R[r].size = it->second->getSizeInBits() / 8; return r; }

static Val parseArg(State &S, const json::Value &J, const Str &name) {
  if (auto n = J.getAsInteger()) return vInt(ivConst(64, (uint64_t)*n));
  if (J.kind() == json::Value::Null) return vPtr(0);
  if (auto s = J.getAsString()) {
    Str t = s->str();
    if (t == "top") return vTop(); if (t == "ptr") return vPtrTop();
    if (t.compare(0, 5, "enum:") == 0) { auto it = Enums.find(t.substr(5)); if (it == Enums.end()) { errs() << "no enumerator " << t << "\n"; exit(3); } return vInt(ivConst(64, (uint64_t)it->second)); }
    if (t.compare(0, 4, "sym:") == 0) { auto p = t.find(':', 4); int w = atoi(t.substr(4, p - 4).c_str()); return vInt(ivSym(w, internSym(t.substr(p + 1), w))); }
    if (t.compare(0, 4, "obj:") == 0) { auto p = t.find(':', 4); Str c = p == Str::npos ? t.substr(4) : t.substr(4, p - 4); int r = entryObj(c, p == Str::npos ? name + "_" + c : t.substr(p + 1)); if (const Fld *vf = field(c, "_vptr")) { int v = vtableRegionFor(c); if (v > 0) storeAt(S, r, vf->off, 8, vPtr(v, 16)); } return vPtr(r); }
    if (t.compare(0, 3, "as:") == 0) { // as:NAME:WIDTH a fresh abstract address space
      auto p = t.find(':', 3); Str n = t.substr(3, p - 3); int r = namedRegion(RAS, "as:" + n, n); R[r].cls = "cl_address_space"; R[r].width = p == Str::npos ? 8 : atoi(t.substr(p + 1).c_str()); int vt = vtableRegionFor("cl_address_space"); if (vt >= 0) storeAt(S, r, 0, 8, vPtr(vt, 16)); return vPtr(r); }
    if (t.compare(0, 5, "cell:") == 0) { // cell:AS:addrconst
      auto p = t.find(':', 5); Str n = t.substr(5, p - 5); int r = namedRegion(RAS, "as:" + n, n); return vPtr(cellRegion(r, ivConst(32, strtoull(t.substr(p + 1).c_str(), 0, 0)))); }
  }
  if (auto *o = J.getAsObject()) {
    if (auto c = o->getString("obj")) {
      int r = entryObj(c->str(), name + "_" + c->str());
      if (auto *st = o->getObject("set")) for (auto &kv : *st) { const Fld *f = field(c->str(), kv.first.str()); if (!f) { errs() << "no field " << kv.first << " in " << *c << "\n"; exit(3); } Val v = parseArg(S, kv.second, name + "." + kv.first.str()); if (v.k == Val::Int && f->kind != 'p') v = toInt(v, f->size * 8); else if (f->kind == 'p') v = toPtr(v); storeAt(S, r, f->off, f->size, v); }
      return vPtr(r);
    }
  }
  return vTop();
}
static json::Value valJ(const Val &v) {
  switch (v.k) {
  case Val::Int: return json::Value(ivStr(v.i));
  case Val::Ptr: { if (v.pTop) return "ptr?"; Str s; for (auto &t : v.p) { if (!s.empty()) s += "|"; s += t.r == 0 ? (t.off ? "0x" + std::to_string(t.off) : Str("null")) : R[t.r].k == RFunc ? finfo(cast<Function>(R[t.r].gv)).dem : "&" + R[t.r].name + (t.off || t.span ? (R[t.r].cls.empty() ? "+" + std::to_string(t.off) : "." + fieldName(t.r, t.off, 0)) : "") + (t.span ? "[..]" : ""); } return s; }
  case Val::Agg: { json::Array a; for (auto &x : v.agg) a.push_back(valJ(x)); return a; }
  default: return "?";
  }
}
static Str bitsJ(const IV &v) { Str s; for (int i = v.w - 1; i >= 0; i--) { Bit b = v.b[i]; s += b == 0 ? "0" : b == 1 ? "1" : b == BT ? "?" : "s"; } return s; }

#include "expect.inc"
#include "checks.inc"
static int realMain(int argc, char **argv);
int main(int argc, char **argv) {
  int rc = 2; std::vector<char *> av(argv, argv + argc);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)2 << 30); struct A { int c; char **v; int rc; } a{argc, argv, 2};
  pthread_t t; if (pthread_create(&t, &at, [](void *p) -> void * { A *x = (A *)p; x->rc = realMain(x->c, x->v); return nullptr; }, &a)) return 2;
  pthread_join(t, nullptr); fflush(nullptr); _exit(a.rc); }
static int realMain(int argc, char **argv) {
  if (argc < 3) { errs() << "usage: ucsa module.bc scenario.json [out.json]\n"; return 2; }
  SMDiagnostic Err; M = parseIRFile(argv[1], Err, Ctx); if (!M) { Err.print("ucsa", errs()); return 2; }
  DL = &M->getDataLayout(); newRegion(RNull, "null"); collectDI(); collectStored();
  std::ifstream in(argv[2]); std::stringstream ss; ss << in.rdbuf();
  auto P = json::parse(ss.str()); if (!P) { errs() << "bad json: " << toString(P.takeError()) << "\n"; return 2; }
  json::Object &J = *P->getAsObject();
  auto regs = [&](const char *k, std::vector<std::regex> &v) { if (auto *a = J.getArray(k)) for (auto &x : *a) v.push_back(std::regex(x.getAsString()->str())); };
  regs("opaque", O.opaque); regs("inline", O.inl);
  auto readCounters = [&](const json::Array *a) { for (auto &x : *a) { auto *o = x.getAsObject(); CntRule c; c.re = std::regex(o->getString("re")->str()); c.name = o->getString("name")->str(); c.arg = o->getInteger("arg").value_or(-1); c.opaque = o->getBoolean("opaque").value_or(false); c.event = o->getBoolean("event").value_or(false); c.ret = o->getString("ret").value_or("").str(); O.counters.push_back(c); } };
  if (auto *a = J.getArray("counters")) readCounters(a);
  if (auto *a = J.getArray("noalias")) for (auto &x : *a) O.noaliasAS.insert(x.getAsString()->str());
  if (auto *a = J.getArray("aliases")) for (auto &x : *a) { auto *o = x.getAsObject(); Alias l; auto str = [&](const char *k) { return o->getString(k).value_or("").str(); }; auto num = [&](const char *k, int64_t d) { return (uint64_t)o->getInteger(k).value_or(d); };
    l.from = str("from"); l.field = str("field"); l.fOr = num("or", 0); l.bankField = str("bank_field"); l.bankAdd = num("bank_add", 0); l.to = str("to"); l.lo = num("lo", 0); l.hi = num("hi", 0xffffffff); l.base = num("base", 0); l.stride = num("stride", 1); l.bit = o->getBoolean("bit").value_or(false); l.readOnly = o->getBoolean("readonly").value_or(false); l.bankAS = str("bank_space"); l.bankAddr = num("bank_addr", 0); l.bankMask = num("bank_mask", 0); Aliases.push_back(l);
    if (spaceNamed(l.to) < 0 && l.readOnly) { int r = namedRegion(RAS, "as:" + l.to, l.to); R[r].width = 8; R[r].cls = "cl_address_space"; } }
  if (auto *a = J.getArray("parity")) for (auto &x : *a) { auto *o = x.getAsObject(); ParHooks.push_back({o->getString("space")->str(), (uint64_t)*o->getInteger("src"), (uint64_t)*o->getInteger("dst"), (uint64_t)*o->getInteger("bit")}); }
  O.driver = J.getBoolean("driver").value_or(false); if (O.driver) { O.maxPart = 20000; InitPhase = false; PtrGuards = true; }
  if (auto n = J.getInteger("unroll")) O.unroll = *n;
  if (auto n = J.getInteger("looplimit")) O.looplimit = *n;
  if (auto n = J.getInteger("steps")) StepLimit = *n;
  if (auto n = J.getInteger("maxpart")) O.maxPart = *n;
  if (auto lf = J.getString("listfields")) { for (auto &f : fields(lf->str())) outs() << f.path << " off=" << f.off << " size=" << f.size << " " << f.kind << (f.inObj ? " obj" : "") << "\n"; outs().flush(); return 0; }
  // build the base object
  State base; Str cls = J.getString("class").value_or("").str(); int obj = -1;
  json::Object out; json::Array results;
  std::function<void(const Str &)> fail = [&](const Str &m) { errs() << "ucsa: " << m << "\n"; exit(3); };
  if (!cls.empty()) {
    if (DITypes.find(cls) == DITypes.end()) fail("class not found: " + cls);
    bool raw = J.getBoolean("raw").value_or(false);
    obj = newRegion(raw ? REntry : RHeap, "uc"); R[obj].cls = cls; R[obj].size = DITypes[cls]->getSizeInBits() / 8;
    int64_t sl = StepLimit; StepLimit = J.getInteger("initsteps").value_or(60000000);
    bool savedEv = O.evMem; O.evMem = false; InitPhase = true;
    if (!raw) {
      std::vector<Val> args = {vPtr(obj)};
      if (auto *a = J.getArray("ctor")) { int i = 0; for (auto &x : *a) args.push_back(parseArg(base, x, "ctor" + std::to_string(i++))); }
      if (auto *a = J.getArray("prelude")) PreludeUsed = true;
      if (auto *a = J.getArray("prelude")) for (auto &x : *a) { auto *F = findFunction(x.getAsString()->str()); if (!F) fail("no function " + x.getAsString()->str());
        std::vector<Val> pa; for (auto &A : F->args()) pa.push_back(A.getType()->isIntegerTy() ? vInt(ivTop(A.getType()->getIntegerBitWidth())) : vPtrTop());
        base.env = std::make_shared<Env>(); Steps = 0; Outs o = runFunction(F, pa, base, ctxOf(0, F), 0); if (o.empty() || D.budget) fail("prelude analysis failed: " + finfo(F).dem); base = o[0].first; for (size_t i = 1; i < o.size(); i++) joinInto(base, o[i].first); base.env = std::make_shared<Env>(); Steps = 0; }
      auto *C = findCtor(cls, (int)args.size()); if (!C) fail("no constructor for " + cls);
      Outs o = runFunction(C, args, base, ctxOf(0, C), 0); if (o.empty() || D.budget) fail("constructor analysis failed for " + cls);
      base = o[0].first;
      if (auto *a = J.getArray("init")) for (auto &x : *a) {
        Str nm = x.getAsString()->str(); auto *F = nm.find("::") != Str::npos ? findFunction(nm) : virtualOf(cls, nm); if (!F) fail("no virtual " + x.getAsString()->str() + " in " + cls);
        base.env = std::make_shared<Env>(); Steps = 0; Outs o = runFunction(F, {vPtr(obj)}, base, ctxOf(0, F), 0); if (o.empty() || D.budget) fail("init analysis failed: " + finfo(F).dem); base = o[0].first; for (size_t i = 1; i < o.size(); i++) joinInto(base, o[i].first);
      }
      // forget scalars: the run starts from an arbitrary machine state
      R[obj].k = REntry;
      std::set<Str> keep; if (auto *a = J.getArray("keep")) for (auto &x : *a) keep.insert(x.getAsString()->str());
      auto &rs = base.wreg(obj); std::vector<std::pair<int64_t, int64_t>> kr;
      for (auto &f : fields(cls)) if (f.inObj || f.kind == 'v' || keep.count(f.path)) kr.push_back({f.off, f.size});
      for (auto it = rs.c.begin(); it != rs.c.end();) {
        bool kp = false; for (auto &q : kr) if (it->first >= q.first && it->first < q.first + q.second) { kp = true; break; }
        if (!kp) { if (it->second.v.k == Val::Ptr && !it->second.v.pTop && it->second.size == 8) { Val &v = it->second.v; bool nul = false; for (auto &t : v.p) if (t.r == 0) nul = true; kp = !nul; } }
        if (kp) ++it; else it = rs.c.erase(it);
      }
      rs.topAll = false;
    } else {
      if (auto *a = J.getArray("vptrs")) {} 
      int vt = vtableRegionFor(cls); if (vt >= 0) storeAt(base, obj, 0, 8, vPtr(vt, 16));
    }
    O.evMem = savedEv; InitPhase = false; StepLimit = sl; base.env = std::make_shared<Env>(); base.cnt.clear(); base.path.clear(); base.orig.clear(); base.log = std::make_shared<std::vector<Ev>>();
  }
  auto setFields = [&](State &S, const json::Object *st) {
    for (auto &kv : *st) {
      const Fld *f = field(cls, kv.first.str()); if (!f) fail("no field " + kv.first.str() + " in " + cls);
      Val v = parseArg(S, kv.second, kv.first.str()); if (f->kind == 'p') v = toPtr(v); else v = toInt(v, f->size * 8); storeAt(S, obj, f->off, f->size, v);
    } };
  if (O.driver) if (auto *a = J.getArray("prelude")) for (auto &x : *a) { auto *F = findFunction(x.getAsString()->str()); if (!F) fail("no function " + x.getAsString()->str());
    base.env = std::make_shared<Env>(); Outs o = runFunction(F, {}, base, ctxOf(0, F), 0); if (o.size() != 1 || D.budget) fail("prelude analysis failed: " + finfo(F).dem); base = o[0].first; base.env = std::make_shared<Env>(); base.path.clear(); base.orig.clear(); Steps = 0; }
  if (auto *st = J.getObject("set")) setFields(base, st);
  if (auto *st = J.getObject("same")) for (auto &kv : *st) { // a hidden pointer found by name at run time
    const Fld *f = field(cls, kv.first.str()), *g = field(cls, kv.second.getAsString()->str()); if (!f || !g) fail("no field for same");
    storeAt(base, obj, f->off, f->size, loadAt(base, obj, g->off, PointerType::get(Ctx, 0))); }
  out["init_opaque"] = json::Array(); for (auto &s : D.opaque) out["init_opaque"].getAsArray()->push_back(s);
  out["init_unknown_calls"] = (int64_t)D.unknownCalls.size();
  if (J.getBoolean("dumpbase").value_or(false) && obj >= 0) {
    json::Object b; if (auto *rs = base.rreg(obj)) for (auto &c : rs->c) b[fieldName(obj, c.first, c.second.size)] = valJ(c.second.v); out["base"] = std::move(b);
  }
  MainObj = obj; for (auto &x : Aliases) {
    if (!x.field.empty()) { const Fld *f = field(cls, x.field); if (!f) fail("no field " + x.field); x.fOff = f->off; x.fSize = f->size; }
    if (!x.bankField.empty()) { const Fld *f = field(cls, x.bankField); if (!f) fail("no field " + x.bankField); x.bOff = f->off; x.bSize = f->size; } }
  if (auto p = J.getString("code")) { // field holding the code space
    const Fld *f = field(cls, p->str()); if (!f) fail("no code field"); Val v = loadAt(base, obj, f->off, PointerType::get(Ctx, 0));
    if (v.k == Val::Ptr && v.p.size() == 1 && v.p[0].r > 0 && R[v.p[0].r].k == RAS) CodeAS = v.p[0].r; else fail("code space unresolved for " + cls);
  }
  if (auto p = J.getString("pc")) { const Fld *f = field(cls, p->str()); if (!f) fail("no pc field"); int nb = J.getInteger("pcbits").value_or(16); PCBits = nb;
    PC0 = ivSym(32, internSym("PC0", nb)); havePC0 = true; storeAt(base, obj, f->off, f->size, vInt(ivZext(ivTrunc(PC0, std::min(32, f->size * 8)), f->size * 8)));
    if (const Fld *g = field(cls, "instPC")) storeAt(base, obj, g->off, g->size, vInt(ivZext(ivTrunc(PC0, std::min(32, g->size * 8)), g->size * 8))); }
  if (auto *a = J.getArray("partition")) for (auto &x : *a) { const Fld *f = field(cls, x.getAsString()->str()); if (!f) fail("no field " + x.getAsString()->str()); O.part.push_back({obj, {f->off, f->size}}); }
  if (auto *a = J.getArray("partition_counters")) for (auto &x : *a) O.partCnt.push_back(x.getAsString()->str());
  std::vector<std::pair<Str, Fld>> watch; if (auto *a = J.getArray("watch")) for (auto &x : *a) { const Fld *f = field(cls, x.getAsString()->str()); if (!f) fail("no field " + x.getAsString()->str()); watch.push_back({x.getAsString()->str(), *f}); }
  std::vector<std::pair<Str, Str>> asq; if (auto *a = J.getArray("watch_mem")) for (auto &x : *a) { Str s = x.getAsString()->str(); auto p = s.find(':'); asq.push_back({s.substr(0, p), s.substr(p + 1)}); }
  bool wantDiff = J.getBoolean("diff").value_or(true); bool wantEv = J.getBoolean("events").value_or(true);
  for (auto &rj : *J.getArray("runs")) {
    json::Object &r = *rj.getAsObject(); State S = base; D = Diag(); Steps = 0; CallStack.clear();
    Bytes.clear(); if (auto *b = r.getArray("bytes")) for (auto &x : *b) Bytes.push_back(x.getAsInteger().value_or(-1));
    if (auto *st = r.getObject("set")) setFields(S, st);
    State start = S;
    Str call = r.getString("call")->str(); const Function *F = nullptr;
    if (!cls.empty() && call.find("::") == Str::npos) F = virtualOf(cls, call); if (!F) F = findFunction(call); if (!F) fail("function not found: " + call);
    std::vector<Val> args; bool st0 = r.getBoolean("static").value_or(false); if (!st0) args.push_back(vPtr(obj));
    if (auto *a = r.getArray("args")) { int i = 0; for (auto &x : *a) { Val v; Str s = x.getAsString().value_or("").str(); if (s == "this") v = vPtr(obj); else if (s == "PC0") v = vInt(PC0); else v = parseArg(S, x, "arg" + std::to_string(i)); args.push_back(v); i++; } }
    { unsigned i = 0; for (auto &A : F->args()) { if (i < args.size() && A.getType()->isIntegerTy()) args[i] = toInt(args[i], A.getType()->getIntegerBitWidth()); i++; } }
    Outs o = runFunction(F, args, S, ctxOf(0, F), 0);
    json::Object ro; if (O.driver) { ro["checks"] = takeChecks(o); } ro["id"] = r.getString("id").value_or("").str(); ro["fn"] = finfo(F).dem; ro["steps"] = Steps;
    if (D.budget) ro["budget"] = true;
    json::Array ex;
    if (!O.driver) for (auto &x : o) {
      json::Object e; e["ret"] = valJ(x.second); json::Object c; for (auto &k : x.first.cnt) c[k.first] = ivStr(k.second); e["cnt"] = std::move(c);
      json::Object wj; for (auto &w : watch) { Val v = loadAt(x.first, obj, w.second.off, w.second.kind == 'p' ? (Type *)PointerType::get(Ctx, 0) : intTy(w.second.size * 8)); wj[w.first] = valJ(v); }
      for (auto &q : asq) { for (size_t ri = 0; ri < R.size(); ri++) if (R[ri].k == RAS && R[ri].name == q.first) { Val v = asRead(x.first, ri, ivConst(32, strtoull(q.second.c_str(), 0, 0)), nullptr, false); wj[q.first + ":" + q.second] = valJ(v); break; } }
      e["watch"] = std::move(wj);
      if (wantDiff && obj >= 0) {
        json::Object d; const RegState *rs = x.first.rreg(obj);
        if (rs) { for (auto &cc : rs->c) { if (cc.second.size > 8) continue; Type *T = cc.second.v.k == Val::Ptr ? (Type *)PointerType::get(Ctx, 0) : intTy(cc.second.size * 8); Val ov = loadAt(start, obj, cc.first, T); Val nv = cc.second.v.k == Val::Int ? toInt(cc.second.v, cc.second.size * 8) : cc.second.v; if (!(ov == nv)) d[fieldName(obj, cc.first, cc.second.size)] = valJ(nv); } if (rs->topAll) d["*"] = "?"; }
        e["diff"] = std::move(d);
      }
      if (wantEv) { json::Array ev; for (auto &y : *x.first.log) { json::Object q; q["k"] = y.kind; q["s"] = y.space; if (y.addr.w) q["a"] = ivStr(y.addr); json::Array vs; for (auto &z : y.v) vs.push_back(valJ(z)); q["v"] = std::move(vs); if (y.guard != 1) q["g"] = bitStr(y.guard); q["loc"] = y.loc; ev.push_back(std::move(q)); } e["ev"] = std::move(ev); }
      if (auto *xs = r.getArray("expect")) { json::Array xa; for (auto &xp : *xs) xa.push_back(runExpect(*xp.getAsObject(), start, x.first, x.second, obj, cls, fail)); e["expect"] = std::move(xa); }
      ex.push_back(std::move(e));
    }
    ro["exits"] = std::move(ex);
    auto setJ = [&](const char *k, std::set<Str> &s) { if (s.empty()) return; json::Array a; for (auto &q : s) a.push_back(q); ro[k] = std::move(a); };
    setJ("opaque", D.opaque); setJ("unknown_calls", D.unknownCalls); setJ("unknown_stores", D.unknownStores); setJ("nonconv", D.nonconv); setJ("notes", D.notes);
    results.push_back(std::move(ro));
  }
  out["results"] = std::move(results);
  Str js; raw_string_ostream os(js); os << json::Value(std::move(out)); os.flush();
  if (argc > 3) { std::ofstream f(argv[3]); f << js << "\n"; } else std::cout << js << "\n";
  return 0;
}
