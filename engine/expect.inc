// ---------------------------------------------------------------- comparison with a manual's description
// "expect" gives, for every register, space and counter, an expression over the
// entry state.  The expression is built in the same value graph as the program's
// final values, so equality is identity of normal forms.  When the normal forms
// differ, a witness valuation decides whether they really differ.
struct Expect {
  State *start, *fin; int obj; Str cls; std::map<Str, IV> defs; const std::function<void(const Str &)> *fail;
  int asByName(const Str &n) {
    for (size_t i = 0; i < R.size(); i++) if (R[i].k == RAS && R[i].name == n && !(R[i].name.size() > 5 && R[i].name.substr(R[i].name.size() - 5) == "_chip")) return (int)i;
    if (const Fld *f = field(cls, n)) { Val v = loadAt(*start, obj, f->off, PointerType::get(Ctx, 0)); if (v.k == Val::Ptr && v.p.size() == 1 && R[v.p[0].r].k == RAS) return v.p[0].r; }
    (*fail)("no address space " + n); return -1;
  }
  IV get(State &S, const Str &n, bool &ok) {
    if (auto g = n.find('>'); g != Str::npos) { ok = false; for (size_t i = 0; i < R.size(); i++) if (R[i].k == REntry && R[i].name == n.substr(0, g)) if (const Fld *f = field(R[i].cls, n.substr(g + 1))) { ok = true; Val v = loadAt(S, i, f->off, intTy(f->size * 8)); return v.k == Val::Int ? v.i : ivTop(f->size * 8); } (*fail)("no field " + n); }
    const Fld *f = field(cls, n); if (!f) { (*fail)("no field " + n + " in " + cls); }
    Val v = loadAt(S, obj, f->off, intTy(f->size * 8)); ok = v.k == Val::Int; return ok ? v.i : ivTop(f->size * 8);
  }
  static void same(IV &a, IV &b) { if (a.w < b.w) a = ivZext(a, b.w); else if (b.w < a.w) b = ivZext(b, a.w); }
  IV ev(const json::Value &J) {
    auto &a = *J.getAsArray(); Str op = a[0].getAsString()->str();
    auto n = [&](int i) { return (int64_t)*a[i].getAsInteger(); }; auto s = [&](int i) { return a[i].getAsString()->str(); };
    if (op == "c") return ivConst((int)n(1), (uint64_t)n(2));
    if (op == "v") { auto it = defs.find(s(1)); if (it == defs.end()) (*fail)("undefined " + s(1)); return it->second; }
    if (op == "f" || op == "fin") { bool ok; return get(op == "f" ? *start : *fin, s(1), ok); }
    if (op == "pc0") return PC0;
    if (op == "sym") return ivSym((int)n(2), internSym(s(1), (int)n(2)));
    if (op == "rd" || op == "rdfin") { int as = asByName(s(1)); IV ad = ev(a[2]); ad = ad.w > 32 ? ivTrunc(ad, 32) : ivZext(ad, 32); int w = R[as].width; if (w <= 0 || w > 32) w = 8; State e; IV v = asReadIV(op == "rd" ? e : *fin, as, ad); return ivTrunc(v, w); }
    if (op == "cnt") { auto it = fin->cnt.find(s(1)); return it == fin->cnt.end() ? ivConst(32, 0) : it->second; }
    if (op == "tr") { IV x = ev(a[2]); int w = (int)n(1); return x.w > w ? ivTrunc(x, w) : ivZext(x, w); }
    if (op == "zx") { IV x = ev(a[2]); return ivZext(x, (int)n(1)); }
    if (op == "sx") { IV x = ev(a[2]); return ivSext(x, (int)n(1)); }
    if (op == "bits") { IV x = ev(a[3]); return ivTrunc(ivLshr(x, ivConst(x.w, (uint64_t)n(2))), (int)(n(1) - n(2) + 1)); }
    if (op == "cat") { std::vector<Bit> b; for (int i = (int)a.size() - 1; i >= 1; i--) { IV x = ev(a[i]); b.insert(b.end(), x.b.begin(), x.b.end()); } return ivBits((int)b.size(), b); }
    if (op == "not") { IV x = ev(a[1]); return ivXor(x, ivConst(x.w, maskw(x.w))); }
    if (op == "ite") { IV c = ev(a[1]), x = ev(a[2]), y = ev(a[3]); same(x, y); std::vector<Bit> cb = c.b; Bit nz = bNot(bNor(cb)); return ivIte(nz, x, y); }
    if (op == "par") { IV x = ev(a[1]); Bit p = 1; for (Bit b : x.b) p = bXor(p, b); return ivBits(1, {p}); } // 1 when even
    if (op == "tab") { std::vector<uint64_t> t; for (auto &x : *a[1].getAsArray()) t.push_back((uint64_t)*x.getAsInteger()); IV ix = ev(a[3]); uint64_t h = 1469598103934665603ull; for (auto x : t) h = (h ^ x) * 1099511628211ull; return ivLookup(t, (int)n(2), ix, std::to_string(h)); }
    IV x = ev(a[1]), y = ev(a[2]); same(x, y);
    auto cmp = [&](Pred p) { IV r = ivCmp(p, x, y); return r; };
    if (op == "add") return ivAdd(x, y); if (op == "sub") return ivSub(x, y); if (op == "and") return ivAnd(x, y); if (op == "or") return ivOr(x, y); if (op == "xor") return ivXor(x, y);
    if (op == "mul") return ivMul(x, y); if (op == "udiv") return ivUdiv(x, y); if (op == "urem") return ivUrem(x, y); if (op == "sdiv") return ivSdiv(x, y); if (op == "srem") return ivSrem(x, y);
    if (op == "shl") return ivShl(x, y); if (op == "lshr") return ivLshr(x, y); if (op == "ashr") return ivAshr(x, y);
    if (op == "eq") return cmp(EQ); if (op == "ne") return cmp(NE); if (op == "ult") return cmp(ULT); if (op == "ule") return cmp(ULE); if (op == "slt") return cmp(SLT); if (op == "sle") return cmp(SLE);
    (*fail)("bad operator " + op); return x;
  }
  // ---- comparisons
  Bit assume = 1; int rounds = 48; json::Array res; int nEq = 0, nSamp = 0, nUnk = 0, nNe = 0, nExh = 0;
  std::vector<std::tuple<int, IV, uint64_t>> pins;
  std::vector<std::unique_ptr<Valuation>> vals;
  Valuation &val(int i) { while ((int)vals.size() <= i) { auto v = std::make_unique<Valuation>(); v->seed = vals.size() + 1; v->pinned = pins; vals.push_back(std::move(v)); } return *vals[i]; }
  Str witness(Valuation &V, int lane, const std::vector<Bit> &bits) {
    std::set<std::pair<int, int>> pb; for (Bit b : bits) primaryBits(b, pb, true); std::set<int> syms; for (auto &p : pb) syms.insert(p.first);
    Str s; char buf[64]; for (int q : syms) { uint64_t x = V.evalSym(q)[lane]; snprintf(buf, 64, "=0x%llx", (unsigned long long)x); if (!s.empty()) s += " "; Str nm = Syms[q].name; if (nm.size() > 60) nm = nm.substr(0, 60) + ".."; s += nm + buf; if (s.size() > 500) { s += " .."; break; } } return s;
  }
  void note(const Str &t, const char *v, const Str &w, const IV *a, const IV *b) { json::Object o; o["t"] = t; o["v"] = v; if (!w.empty()) o["w"] = w; if (a) o["act"] = ivStr(*a).substr(0, 300); if (b) o["exp"] = ivStr(*b).substr(0, 300); res.push_back(std::move(o)); }
  void compare(const Str &t, IV a, IV b, uint64_t mask) {
    same(a, b); bool eq = true, top = false; std::vector<Bit> diff;
    for (int i = 0; i < a.w; i++) { if (!((mask >> i) & 1)) continue; if (bitTop(a.b[i]) || bitTop(b.b[i])) { top = true; eq = false; continue; } if (a.b[i] != b.b[i]) { eq = false; diff.push_back(bXor(a.b[i], b.b[i])); } }
    if (eq) { nEq++; return; }
    for (int r = 0; r < rounds && !diff.empty(); r++) { Valuation &V = val(r); uint64_t d = 0; for (Bit x : diff) d |= V.eval(x); d &= V.eval(assume);
      if (d) { int l = __builtin_ctzll(d); std::vector<Bit> bs(diff); bs.push_back(assume); auto va = V.lanes(a), vb = V.lanes(b); char buf[96]; snprintf(buf, 96, "got 0x%llx expected 0x%llx when ", (unsigned long long)va[l], (unsigned long long)vb[l]); nNe++; note(t, "ne", buf + witness(V, l, bs), &a, &b); return; } }
    if (top) { nUnk++; note(t, "unk", "", &a, &b); return; }
    if (zero(diff)) { nExh++; return; }
    if (Valuation *V = refuted(diff)) { uint64_t d = 0; for (Bit x : diff) d |= V->eval(x); d &= V->eval(assume); int l = __builtin_ctzll(d); std::vector<Bit> bs(diff); bs.push_back(assume); auto va = V->lanes(a), vb = V->lanes(b); char buf[96]; snprintf(buf, 96, "got 0x%llx expected 0x%llx when ", (unsigned long long)va[l], (unsigned long long)vb[l]); nNe++; note(t, "ne", buf + witness(*V, l, bs), &a, &b); return; }
    nSamp++; note(t, "samp", "", &a, &b);
  }
  // a truth table that is not 0 names values of the bits: is there a whole machine state that has them?
  std::map<std::pair<int, int>, int> bad_; std::unique_ptr<Valuation> ref_; bool haveBad = false;
  Valuation *refuted(const std::vector<Bit> &diff) {
    if (!haveBad) return nullptr; haveBad = false; std::map<int, uint64_t> want; for (auto &b : bad_) { auto &w = want[b.first.first]; if (b.second) w |= 1ull << b.first.second; }
    for (uint64_t seed = 1; seed <= 8; seed++) { auto mk = [&](const Valuation *o) { auto v = std::make_unique<Valuation>(); v->seed = seed; v->pinned = pins; if (o) { v->fixedSym = o->fixedSym; v->fixedMem = o->fixedMem; } return v; };
      auto V = mk(nullptr);
      for (auto &w : want) { uint64_t keep = 0; for (auto &b : bad_) if (b.first.first == w.first) keep |= 1ull << b.first.second; uint64_t old = V->evalSym(w.first)[0], x = (old & ~keep) | w.second;
        if (Syms[w.first].addr) { uint64_t ad = V->lanes(*Syms[w.first].addr)[0]; V->fixedMem[{Syms[w.first].space, ad}] = x; } else V->fixedSym[w.first] = x;
        V = mk(V.get()); }
      uint64_t d = 0; for (Bit x : diff) d |= V->eval(x); if (d & V->eval(assume)) { ref_ = std::move(V); return ref_.get(); } }
    return nullptr;
  }
  // every differing bit is 0 under every valuation of the bits it depends on
  bool zero(const std::vector<Bit> &diff) {
    std::set<std::pair<int, int>> pb; for (Bit x : diff) primaryBits(x, pb, false); std::set<std::pair<int, int>> pn = pb; primaryBits(assume, pb, false); Bit cond = assume; size_t lim = rounds > 1000 ? 22 : 19;
    if (pb.size() > lim && pn.size() <= lim && diff.size() == 1) { pb = pn; cond = 1; } // true without the assumption is true with it
    if (pb.size() > lim) { if (diff.size() < 2) return false; for (Bit x : diff) if (!zero({x})) return false; return true; }
    bool bad = false; Valuation V; V.mode = 1; V.vars.assign(pb.begin(), pb.end()); uint64_t n = pb.size() > 6 ? 1ull << (pb.size() - 6) : 1;
    for (uint64_t q = 0; q < n && !bad; q++) { V.base = q; V.bit.clear(); V.atom.clear(); uint64_t d = 0; for (Bit x : diff) d |= V.eval(x); if ((d &= V.eval(cond))) { bad = true; int l = __builtin_ctzll(d); haveBad = true; bad_.clear(); for (size_t i = 0; i < V.vars.size(); i++) bad_[V.vars[i]] = i < 6 ? (l >> i) & 1 : (q >> (i - 6)) & 1; } }
    return !bad;
  }
  struct W { Bit g; IV a, v; };
  // the final contents at one address after the writes of a list
  IV contents(int as, const std::vector<W> &L, const IV &a) { IV v = asBase(as, a); for (auto &w : L) { Bit e = eqBit(w.a, a); if (e == 0) continue; v = ivIte(bAnd(e, w.g), w.v, v); } return v; }
  uint64_t baseAt(Valuation &V, int as, uint64_t addr, int l) { // content of a space at a concrete address, as evalSym draws it
    return V.memAt(as, addr, l, R[as].width <= 0 || R[as].width > 32 ? 8 : R[as].width);
  }
  void compareMem(const Str &t, int as, const std::vector<W> &A, const std::vector<W> &B) {
    bool same_ = A.size() == B.size(), top = false;
    for (auto *L : {&A, &B}) for (auto &w : *L) if (bitTop(w.g) || ivHasTop(w.a) || ivHasTop(w.v)) top = true;
    if (same_ && !top) { // as sets when the addresses never meet, else in order
      for (size_t i = 0; i < A.size(); i++) if (A[i].g != B[i].g || A[i].a.b != B[i].a.b || A[i].v.b != B[i].v.b) same_ = false;
    }
    if (!same_ && !top && A.size() == B.size()) { // the same writes in another order, where the reordered ones never meet
      std::vector<int> to(A.size(), -1); std::vector<bool> used(B.size(), false); same_ = true;
      for (size_t i = 0; i < A.size() && same_; i++) { for (size_t j = 0; j < B.size() && to[i] < 0; j++) if (!used[j] && A[i].g == B[j].g && A[i].a.b == B[j].a.b && A[i].v.b == B[j].v.b) { to[i] = j; used[j] = true; } if (to[i] < 0) same_ = false; }
      auto apart = [&](const W &x, const W &y) { return bAnd(x.g, y.g) == 0 || ivDiffer(x.a, y.a) == 1 || (x.a.w > 16 && ivDiffer(ivTrunc(x.a, 16), ivTrunc(y.a, 16)) == 1); };
      for (size_t i = 0; i < A.size() && same_; i++) for (size_t k = i + 1; k < A.size() && same_; k++) if (to[i] > to[k] && !apart(A[i], A[k])) same_ = false;
    }
    if (same_ && !top) { nEq++; return; }
    for (int r = 0; r < rounds; r++) { Valuation &V = val(r); uint64_t as_ = V.eval(assume); if (!as_) continue;
      struct C { uint64_t g; std::vector<uint64_t> a, v; bool t; }; std::vector<C> ca, cb; uint64_t skip = 0; 
      for (auto *L : {&A, &B}) for (auto &w : *L) { C c; bool tg = bitTop(w.g); c.g = tg ? 0 : V.eval(w.g); c.t = tg || ivHasTop(w.a); if (c.t) { skip |= tg ? ~0ull : c.g; } c.a = V.lanes(w.a); c.v = V.lanes(w.v); if (ivHasTop(w.v)) skip |= c.g; (L == &A ? ca : cb).push_back(c); }
      for (int l = 0; l < 64; l++) { if (!((as_ >> l) & 1) || ((skip >> l) & 1)) continue; std::map<uint64_t, uint64_t> ma, mb;
        for (auto &c : ca) if ((c.g >> l) & 1) ma[c.a[l]] = c.v[l]; for (auto &c : cb) if ((c.g >> l) & 1) mb[c.a[l]] = c.v[l];
        std::set<uint64_t> ks; for (auto &k : ma) ks.insert(k.first); for (auto &k : mb) ks.insert(k.first);
        for (uint64_t k : ks) { uint64_t x = ma.count(k) ? ma[k] : baseAt(V, as, k, l), y = mb.count(k) ? mb[k] : baseAt(V, as, k, l); if (x != y) { std::vector<Bit> bs{assume}; for (auto *L : {&A, &B}) for (auto &w : *L) { bs.push_back(w.g); bs.insert(bs.end(), w.a.b.begin(), w.a.b.end()); bs.insert(bs.end(), w.v.b.begin(), w.v.b.end()); }
            char buf[128]; snprintf(buf, 128, "cell 0x%llx ends as 0x%llx, expected 0x%llx when ", (unsigned long long)k, (unsigned long long)x, (unsigned long long)y); nNe++; note(t, "ne", buf + witness(V, l, bs), nullptr, nullptr); return; } } }
    }
    if (top) { nUnk++; note(t, "unk", "", nullptr, nullptr); return; }
    // address by address: the spaces agree when they agree wherever one of the lists writes
    bool all = true, exh = false; std::vector<IV> seen;
    for (auto *L : {&A, &B}) for (auto &w : *L) { if (!all) break; bool dup = false; for (auto &x : seen) if (x.b == w.a.b) dup = true; if (dup) continue; seen.push_back(w.a);
      IV x = contents(as, A, w.a), y = contents(as, B, w.a); same(x, y); std::vector<Bit> diff; for (int i = 0; i < x.w; i++) if (x.b[i] != y.b[i]) { if (bitTop(x.b[i]) || bitTop(y.b[i])) all = false; else diff.push_back(bXor(x.b[i], y.b[i])); }
      if (!all || diff.empty()) continue; exh = true; if (!zero(diff)) { all = false; if (Valuation *V = refuted(diff)) { uint64_t d = 0; for (Bit q : diff) d |= V->eval(q); d &= V->eval(assume); int l = __builtin_ctzll(d); std::vector<Bit> bs(diff); bs.push_back(assume); char buf[128]; snprintf(buf, 128, "cell 0x%llx ends as 0x%llx, expected 0x%llx when ", (unsigned long long)V->lanes(w.a)[l], (unsigned long long)V->lanes(x)[l], (unsigned long long)V->lanes(y)[l]); nNe++; note(t, "ne", buf + witness(*V, l, bs), nullptr, nullptr); return; } } }
    if (all) { if (exh) nExh++; else nEq++; return; }
    nSamp++; note(t, "samp", "", nullptr, nullptr);
  }
};
static json::Value runExpect(const json::Object &X, State &start, State &fin, const Val &ret, int obj, const Str &cls, const std::function<void(const Str &)> &fail) {
  Expect E; E.start = &start; E.fin = &fin; E.obj = obj; E.cls = cls; E.fail = &fail; if (auto n = X.getInteger("rounds")) E.rounds = (int)*n;
  if (CodeAS >= 0 && havePC0) for (size_t i = 0; i < Bytes.size(); i++) if (Bytes[i] >= 0) E.pins.push_back({CodeAS, i ? ivZext(ivTrunc(ivAdd(PC0, ivConst(32, i)), PCBits), 32) : PC0, (uint64_t)Bytes[i]});
  if (auto *d = X.getArray("defs")) for (auto &q : *d) { auto &p = *q.getAsArray(); E.defs[p[0].getAsString()->str()] = E.ev(p[1]); }
  if (auto *a = X.getArray("assume")) for (auto &q : *a) { IV c = E.ev(q); std::vector<Bit> cb = c.b; E.assume = bAnd(E.assume, bNot(bNor(cb))); }
  // registers
  std::set<Str> named; std::vector<std::regex> ign; if (auto *a = X.getArray("ignore")) for (auto &q : *a) ign.push_back(std::regex(q.getAsString()->str()));
  if (auto *a = X.getArray("fields")) for (auto &q : *a) { auto &p = *q.getAsArray(); Str n = p[0].getAsString()->str(); named.insert(n); bool ok; IV act = E.get(fin, n, ok); IV e = E.ev(p[1]); uint64_t mask = p.size() > 2 ? (uint64_t)*p[2].getAsInteger() : ~0ull; mask &= maskw(act.w); if (e.w < act.w) e = ivZext(e, act.w); if (e.w > act.w) e = ivTrunc(e, act.w); E.compare(n, act, e, mask); }
  std::vector<std::pair<int64_t, int>> arch; bool haveArch = false; if (auto *a = X.getArray("arch")) { haveArch = true; for (auto &q : *a) if (const Fld *x = field(cls, q.getAsString()->str())) arch.push_back({x->off, x->size}); }
  if (X.getBoolean("frame").value_or(true)) if (const RegState *rs = fin.rreg(obj)) {
    std::vector<std::pair<int64_t, int>> offs; for (auto &f : named) if (const Fld *x = field(cls, f)) offs.push_back({x->off, x->size});
    for (auto &c : rs->c) { if (c.second.size > 8) continue; bool cov = false; for (auto &o : offs) if (c.first >= o.first && c.first < o.first + o.second) cov = true; if (cov) continue; if (haveArch) { bool in = false; for (auto &o : arch) if (c.first < o.first + o.second && o.first < c.first + (int64_t)c.second.size) in = true; if (!in) continue; }
      Str n = fieldName(obj, c.first, c.second.size); bool ig = false; for (auto &r : ign) if (std::regex_search(n, r)) ig = true; if (ig) continue;
      if (c.second.v.k == Val::Ptr) { Val ov = loadAt(start, obj, c.first, PointerType::get(Ctx, 0)); if (!(ov == c.second.v)) { E.nUnk++; E.note("frame:" + n, "unk", "", nullptr, nullptr); } continue; }
      Val ov = loadAt(start, obj, c.first, intTy(c.second.size * 8)); if (c.second.v.k != Val::Int || ov.k != Val::Int) continue; IV nv = c.second.v.i; if (nv.w < (int)c.second.size * 8) nv = ivZext(nv, c.second.size * 8); if (nv == ov.i) continue; E.compare("frame:" + n, nv, ov.i, ~0ull); }
    if (rs->topAll) { E.nUnk++; E.note("frame:object", "unk", "", nullptr, nullptr); }
  }
  // address spaces
  std::set<int> seenAS; std::vector<Str> igs; std::set<Str> ignAS; if (auto *a = X.getArray("ignore_mem")) for (auto &q : *a) ignAS.insert(q.getAsString()->str());
  auto actual = [&](int as) { std::vector<Expect::W> v; if (auto *rs = fin.rreg(as)) for (auto &w : rs->as) v.push_back({w.guard, w.addr, w.v}); return v; };
  if (auto *a = X.getArray("mem")) for (auto &q : *a) { auto &p = *q.getAsArray(); int as = E.asByName(p[0].getAsString()->str()); seenAS.insert(as); int w = R[as].width <= 0 || R[as].width > 32 ? 8 : R[as].width; std::vector<Expect::W> ex;
      for (auto &y : *p[1].getAsArray()) { auto &t = *y.getAsArray(); IV g = E.ev(t[0]); std::vector<Bit> gb = g.b; IV ad = ivZext(E.ev(t[1]), 32); IV v = E.ev(t[2]); if (v.w > w) v = ivTrunc(v, w); v = ivZext(v, 32); Bit gg = bNot(bNor(gb)); if (gg == 0) continue; for (size_t i = 0; i < ex.size() && gg == 1;) if (ivDiffer(ex[i].a, ad) == 0) ex.erase(ex.begin() + i); else i++; ex.push_back({gg, ad, v}); }
      E.compareMem("mem:" + p[0].getAsString()->str(), as, actual(as), ex); }
  if (X.getBoolean("frame").value_or(true)) for (auto &m : fin.mem) if (R[m.first].k == RAS && m.second && !m.second->as.empty() && !seenAS.count(m.first) && !ignAS.count(R[m.first].name)) E.compareMem("mem:" + R[m.first].name, m.first, actual(m.first), {});
  if (auto *a = X.getArray("cnt")) for (auto &q : *a) { auto &p = *q.getAsArray(); json::Array c{"cnt", p[0].getAsString()->str()}; json::Value cv(std::move(c)); E.compare("cnt:" + p[0].getAsString()->str(), E.ev(cv), E.ev(p[1]), maskw(32)); }
  if (auto *a = X.getArray("vals")) for (auto &q : *a) { auto &p = *q.getAsArray(); E.compare(p[0].getAsString()->str(), E.ev(p[1]), E.ev(p[2]), ~0ull); }
  if (auto *p = X.get("ret")) if (p->kind() != json::Value::Null) { IV e = E.ev(*p); IV a = ret.k == Val::Int ? ret.i : ivTop(e.w); if (a.w > e.w) a = ivTrunc(a, e.w); E.compare("ret", a, e, ~0ull); }
  json::Object o; o["eq"] = E.nEq; o["exh"] = E.nExh; o["samp"] = E.nSamp; o["unk"] = E.nUnk; o["ne"] = E.nNe; if (!E.res.empty()) o["d"] = std::move(E.res); if (E.assume == 0) o["vacuous"] = true;
  return json::Value(std::move(o));
}
