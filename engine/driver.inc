
// ---------------------------------------------------------------- drivers
// A driver is a C++ function in /verif/drivers that builds objects of the
// program with the program's own constructors and states obligations:
//   ucsa_sym(name, w)        an arbitrary value of w bits
//   ucsa_pick(name, lo, hi)  case split over a small range
//   ucsa_assume(c)           only states where c holds
//   ucsa_eq(what, a, b)      obligation: a and b have the same value
//   ucsa_same(what, p, q)    obligation: the same object
//   ucsa_never(what)         obligation: not reached
struct Chk { Str what, loc; IV a, b; Bit cond; int kind = 0; /* 0 values, 1 never, 2 unknown, 3 equal */ Str note; };
static std::vector<Chk> Checks;
static Bit pathBit(State &S) { return conj(S.path, 0); }
static bool cstrOf(State &S, const Val &v, Str &out) {
  if (v.k != Val::Ptr || v.pTop || v.p.size() != 1 || v.p[0].span || v.p[0].r == 0) return false;
  out.clear(); for (int i = 0; i < 4096; i++) { Val b = loadAt(S, v.p[0].r, v.p[0].off + i, intTy(8)); if (b.k != Val::Int || !b.i.isConst()) return false; if (!b.i.lo) return true; out += (char)b.i.lo; }
  return false;
}
// bytes of a string; bytes that are not constant are known not to be 0
static bool symStr(State &S, const Val &v, std::vector<IV> &out) {
  if (v.k != Val::Ptr || v.pTop || v.p.size() != 1 || v.p[0].span || v.p[0].r == 0) return false;
  out.clear(); for (int i = 0; i < 4096; i++) { Val b = loadAt(S, v.p[0].r, v.p[0].off + i, intTy(8)); if (b.k != Val::Int) return false; if (b.i.isConst() && !b.i.lo) return true; if (b.i.lo == 0) return false; out.push_back(b.i); }
  return false;
}
static Bit inSet(const IV &c, const std::function<bool(int)> &f) { // membership of a byte
  bool any = false, all = true; for (uint64_t k = c.lo; k <= std::min<uint64_t>(c.hi, 255); k++) (f((int)k) ? any : all) = f((int)k);
  if (!any) return 0; if (all) return 1; std::vector<uint64_t> t(256); for (int k = 0; k < 256; k++) t[k] = f(k); return ivLookup(t, 1, ivTrunc(c, 8), "ctype").b[0];
}
static bool isChr(const Str &N, int c) { return N == "isdigit" ? isdigit(c) : N == "isxdigit" ? isxdigit(c) : N == "isspace" ? isspace(c) : N == "isalpha" ? isalpha(c) : N == "isalnum" ? isalnum(c) : isprint(c); }
static bool onePtr(const Val &v) { return v.k == Val::Ptr && !v.pTop && v.p.size() == 1 && !v.p[0].span && v.p[0].r; }
static void putStr(State &S, const Val &d, const Str &s) { for (size_t i = 0; i <= s.size(); i++) storeAt(S, d.p[0].r, d.p[0].off + i, 1, vInt(ivConst(8, i < s.size() ? (unsigned char)s[i] : 0))); }
static void copyCells(State &S, int dr, int64_t d, int sr, int64_t s, int64_t n) {
  std::vector<std::pair<int64_t, Cell>> tmp; const RegState *rs = S.rreg(sr); if (rs && rs->topAll) { S.wreg(dr).topAll = true; }
  if (rs) for (auto &c : rs->c) if (c.first >= s && c.first + c.second.size <= s + n) tmp.push_back({d + c.first - s, c.second});
  for (auto &x : tmp) storeAt(S, dr, x.first, x.second.size, x.second.v);
}
// printf family on constant arguments
static std::map<int, std::vector<Val>> VaArgs; static std::vector<int> VaStack;
static bool formatOf(State &S, const Val &fv, const std::vector<Val> &args, size_t from, Str &out) {
  Str fmt; if (!cstrOf(S, fv, fmt)) return false; out.clear();
  for (size_t i = 0; i < fmt.size();) {
    if (fmt[i] != '%') { out += fmt[i++]; continue; }
    if (fmt[i + 1] == '%') { out += '%'; i += 2; continue; }
    size_t j = i + 1; Str spec = "%"; int lng = 0;
    while (j < fmt.size() && strchr("-+ #0123456789.*", fmt[j])) { if (fmt[j] == '*') { if (from >= args.size() || args[from].k != Val::Int || !args[from].i.isConst()) return false; spec += std::to_string((int)args[from++].i.lo); } else spec += fmt[j]; j++; }
    while (j < fmt.size() && strchr("lhzjt", fmt[j])) { if (fmt[j] == 'l' || fmt[j] == 'z' || fmt[j] == 'j' || fmt[j] == 't') lng++; else lng--; j++; }
    char c = j < fmt.size() ? fmt[j] : 0; i = j + 1; if (from >= args.size()) return false; const Val &a = args[from++]; char buf[600];
    if (c == 's') { Str t; if (!cstrOf(S, a, t) || t.size() > 500) return false; spec += 's'; snprintf(buf, sizeof buf, spec.c_str(), t.c_str()); }
    else if (c && strchr("dixXuoc", c)) { if (a.k != Val::Int || !a.i.isConst()) return false; uint64_t v = a.i.lo; if (c == 'c') { spec += c; snprintf(buf, sizeof buf, spec.c_str(), (int)v); } else { spec += "ll"; spec += c; bool sg = c == 'd' || c == 'i'; int w = lng > 0 ? 64 : lng == -1 ? 16 : lng == -2 ? 8 : 32; long long x = sg ? (w == 64 ? (long long)v : w == 32 ? (long long)(int32_t)v : w == 16 ? (long long)(int16_t)v : (long long)(int8_t)v) : (long long)(w == 64 ? v : v & ((1ull << w) - 1)); snprintf(buf, sizeof buf, spec.c_str(), x); } }
    else return false;
    out += buf;
  }
  return true;
}
static bool driverPrintf(const Str &N, const std::vector<Val> &args, State &S, Val &ret) {
  bool v = N[0] == 'v'; Str b = v ? N.substr(1) : N; int fi = b == "sprintf" ? 1 : b == "snprintf" ? 2 : b == "asprintf" ? 1 : b == "printf" ? 0 : b == "fprintf" ? 1 : -1; if (fi < 0 || b == "printf" || b == "fprintf") return false;
  if ((int)args.size() <= fi) return false; std::vector<Val> va; size_t from = fi + 1; bool ok = true; Str out; std::vector<Val> use = args;
  if (v) { ok = false; if ((int)args.size() > fi + 1 && onePtr(args[fi + 1])) { Val q = loadAt(S, args[fi + 1].p[0].r, args[fi + 1].p[0].off + 16, PointerType::get(Ctx, 0)); if (onePtr(q)) { auto it = VaArgs.find(q.p[0].r); if (it != VaArgs.end()) { use = it->second; from = 0; ok = true; } } } }
  ok = ok && formatOf(S, args[fi], use, from, out);
  if (b == "asprintf") { if (!onePtr(args[0])) return false; if (!ok) return false; int r = newRegion(RHeap, "str"); R[r].size = out.size() + 1; Val p = vPtr(r); putStr(S, p, out); storeAt(S, args[0].p[0].r, args[0].p[0].off, 8, p); ret = vInt(ivConst(32, out.size())); return true; }
  if (!ok) { if (args[0].k == Val::Ptr && !args[0].pTop) for (auto &t : args[0].p) if (t.r > 0) { S.wreg(t.r).topAll = true; S.wreg(t.r).c.clear(); } ret = vInt(ivTop(32)); return true; }
  ret = vInt(ivConst(32, out.size())); if (b == "snprintf") { if (args[1].k != Val::Int || !args[1].i.isConst()) return false; uint64_t n = args[1].i.lo; if (n == 0) return true; if (out.size() >= n) out.resize(n - 1); }
  if (onePtr(args[0])) putStr(S, args[0], out); return true;
}
static bool driverSplit(const CallBase *CB, const Str &N, const std::vector<Val> &args, State &S, Outs &out) {
  if (N == "ucsa_assume") {
    IV c = toInt(args[0], 32).i; Bit b = bNot(bNor(c.b)); if (b == 0) return true;
    if (b != 1) { State q = S; q.path.push_back({++Serial, 1, b, ivDep(c), false}); out.push_back({q, vTop()}); return true; }
    out.push_back({S, vTop()}); return true;
  }
  if (N == "ucsa_pick") {
    Str nm; cstrOf(S, args[0], nm); int64_t lo = (int32_t)toInt(args[1], 32).i.lo, hi = (int32_t)toInt(args[2], 32).i.lo; AnyFork = true;
    for (int64_t k = lo; k <= hi; k++) { State q = S; q.fork += "|" + nm + "=" + std::to_string(k); out.push_back({q, vInt(ivConst(32, (uint64_t)k & 0xffffffff))}); }
    return true;
  }
  return false;
}
static void release(State &S, const Val &p, const Instruction *I) {
  if (FixMode || p.k != Val::Ptr || p.p.size() != 1 || p.p[0].span || !p.p[0].r) return;
  auto &t = p.p[0]; Str why;
  if (R[t.r].k == RAlloca || R[t.r].k == RGlobal) why = R[t.r].name;
  else if (R[t.r].k != RHeap) return;
  else if (t.off) why = "the inside of " + R[t.r].name;
  else if (auto *rs = S.rreg(t.r); rs && rs->freed) why = R[t.r].name + " again";
  if (!why.empty()) { Chk c; c.what = "release of " + why + " in " + finfo(I->getFunction()).dem; c.note = locOf(I); c.loc = S.fork; c.a = ivConst(1, 0); c.b = ivConst(1, 1); c.kind = 1; c.cond = pathBit(S); Checks.push_back(c); return; }
  S.wreg(t.r).freed = true;
}
static bool driverCall(const CallBase *CB, const Str &N, const std::vector<Val> &args, State &S, Val &ret, int ctx) {
  auto I = [&](int i, int w) { return toInt(args[i], w).i; }; Str a, b; Type *RT = CB->getType();
  auto retI = [&](int64_t v) { ret = vInt(ivConst(RT->getIntegerBitWidth(), (uint64_t)v & maskw(RT->getIntegerBitWidth()))); };
  if (N == "ucsa_sym") { Str nm; cstrOf(S, args[0], nm); int w = (int)I(1, 32).lo; ret = vInt(ivZext(ivSym(w, internSym(nm, w)), 64)); return true; }
  if (N == "ucsa_eq") { Chk c; cstrOf(S, args[0], c.what); c.loc = S.fork; c.a = I(1, 64); c.b = I(2, 64); c.cond = FixMode ? BT : pathBit(S); Checks.push_back(c); return true; }
  if (N == "ucsa_never") { Chk c; cstrOf(S, args[0], c.what); c.loc = S.fork; c.a = ivConst(1, 0); c.b = ivConst(1, 1); c.kind = 1; c.cond = FixMode ? BT : pathBit(S); Checks.push_back(c); return true; }
  if (N == "ucsa_same") { Chk c; cstrOf(S, args[0], c.what); c.loc = S.fork; Val e = cmpPtr(CmpInst::ICMP_EQ, toPtr(args[1]), toPtr(args[2])); c.a = ivZext(toInt(e, 1).i, 64); c.b = ivConst(64, 1); c.cond = FixMode ? BT : pathBit(S); Checks.push_back(c); return true; }
  if (N == "ucsa_show") { Str nm; cstrOf(S, args[0], nm); errs() << nm << " " << S.fork << " = " << (args[1].k == Val::Int ? ivStr(args[1].i) : args[1].k == Val::Ptr ? "ptr" : "?") << " path " << bitStr(pathBit(S)) << "\n"; return true; }
  if (N == "__errno_location") { int r = newRegion(RHeap, "errno@" + locOf(CB)); R[r].size = 4; ret = vPtr(r); storeAt(S, r, 0, 4, vInt(ivConst(32, 0))); return true; }
  if (N == "isatty" || N == "fileno") { retI(0); return true; }
  if (N == "free" || N == "_ZdlPv" || N == "_ZdaPv" || N == "_ZdlPvm" || N == "_ZdaPvm") { release(S, args[0], CB); return true; }
  if (N == "realloc") {
    int r = newRegion(RHeap, "heap@" + locOf(CB)); if (args[1].k == Val::Int && args[1].i.isConst()) R[r].size = args[1].i.lo; else return false;
    if (onePtr(args[0])) { copyCells(S, r, 0, args[0].p[0].r, args[0].p[0].off, R[r].size); release(S, args[0], CB); } ret = vPtr(r); return true; }
  if (N.size() > 6 && N.compare(N.size() - 6, 6, "printf") == 0) return driverPrintf(N, args, S, ret);
  std::vector<IV> sa, sb; auto put = [&](Val d, const std::vector<IV> &v) { for (size_t i = 0; i <= v.size(); i++) storeAt(S, d.p[0].r, d.p[0].off + i, 1, vInt(i < v.size() ? v[i] : ivConst(8, 0))); };
  if (N == "strlen" && symStr(S, args[0], sa)) { retI(sa.size()); return true; }
  if (N == "strdup" && symStr(S, args[0], sa)) { int r = newRegion(RHeap, "str@" + locOf(CB)); R[r].size = sa.size() + 1; ret = vPtr(r); put(ret, sa); return true; }
  if ((N == "strcpy" || N == "strcat") && symStr(S, args[1], sa) && onePtr(args[0])) { if (N == "strcat") { if (!symStr(S, args[0], sb)) return false; sb.insert(sb.end(), sa.begin(), sa.end()); sa = sb; } put(args[0], sa); ret = args[0]; return true; }
  if (N == "strcmp" && !(cstrOf(S, args[0], a) && cstrOf(S, args[1], b)) && symStr(S, args[0], sa) && symStr(S, args[1], sb)) { Bit e = sa.size() == sb.size(); for (size_t i = 0; e != 0 && i < sa.size(); i++) e = bAnd(e, ivCmp(EQ, sa[i], sb[i]).b[0]); ret = vInt(ivIte(e, ivConst(32, 0), ivConst(32, 1))); return true; }
  if ((N == "strspn" || N == "strcspn") && symStr(S, args[0], sa) && cstrOf(S, args[1], b)) { size_t i = 0; bool in = N == "strspn"; for (; i < sa.size(); i++) { Bit m = inSet(sa[i], [&](int k) { return k && b.find((char)k) != Str::npos; }); if (m > 1) return false; if ((m == 1) != in) break; } retI(i); return true; }
  if ((N == "toupper" || N == "tolower") && !I(0, 32).isConst()) { IV c = I(0, 32); if (c.hi > 255) return false; std::vector<uint64_t> t(256); for (int k = 0; k < 256; k++) t[k] = N == "toupper" ? toupper(k) : tolower(k); ret = vInt(ivLookup(t, 32, ivTrunc(c, 8), N)); return true; }
  if ((N == "isdigit" || N == "isxdigit" || N == "isspace" || N == "isalpha" || N == "isalnum" || N == "isprint") && !I(0, 32).isConst()) { IV c = I(0, 32); if (c.hi > 255) return false; ret = vInt(ivIte(inSet(c, [&](int k) { return isChr(N, k); }), ivConst(32, 1), ivConst(32, 0))); return true; }
  if ((N == "strtol" || N == "strtoul" || N == "strtoll") && !cstrOf(S, args[0], a) && symStr(S, args[0], sa) && I(2, 32).isConst() && I(2, 32).lo == 16 && sa.size() <= 8 && args[1].k == Val::Ptr && args[1].p.size() == 1 && args[1].p[0].r == 0) {
    if (inSet(sa[0], [](int k) { return isspace(k) || k == '+' || k == '-'; }) != 0) return false;
    std::vector<uint64_t> t(256); for (int k = 0; k < 256; k++) t[k] = isdigit(k) ? k - '0' : isxdigit(k) ? toupper(k) - 'A' + 10 : 0;
    IV acc = ivConst(64, 0); Bit alive = 1; for (auto &c : sa) { alive = bAnd(alive, inSet(c, [](int k) { return isxdigit(k); })); acc = ivIte(alive, ivAdd(ivShl(acc, ivConst(64, 4)), ivLookup(t, 64, ivTrunc(c, 8), "digit")), acc); }
    ret = vInt(acc); return true; }
  if (N == "strlen") { if (cstrOf(S, args[0], a)) { retI(a.size()); return true; } return false; }
  if (N == "strcmp" || N == "strcasecmp" || N == "strncmp" || N == "strncasecmp") { if (cstrOf(S, args[0], a) && cstrOf(S, args[1], b)) { size_t n = N[3] == 'n' ? I(2, 64).lo : 1 << 20; int r = N.find("case") != Str::npos ? strncasecmp(a.c_str(), b.c_str(), n) : strncmp(a.c_str(), b.c_str(), n); retI(r < 0 ? -1 : r > 0); return true; } return false; }
  if (N == "strdup") { if (!cstrOf(S, args[0], a)) return false; int r = newRegion(RHeap, "str@" + locOf(CB)); R[r].size = a.size() + 1; ret = vPtr(r); putStr(S, ret, a); return true; }
  if (N == "strcpy" || N == "strcat") { if (!cstrOf(S, args[1], a) || !onePtr(args[0])) return false; if (N == "strcat") { if (!cstrOf(S, args[0], b)) return false; a = b + a; } putStr(S, args[0], a); ret = args[0]; return true; }
  if (N == "strncpy") { if (!cstrOf(S, args[1], a) || !onePtr(args[0]) || !I(2, 64).isConst() || I(2, 64).lo > 4096) return false; a.resize(I(2, 64).lo, 0); for (size_t i = 0; i < a.size(); i++) storeAt(S, args[0].p[0].r, args[0].p[0].off + i, 1, vInt(ivConst(8, (unsigned char)a[i]))); ret = args[0]; return true; }
  if (N == "strchr" || N == "strrchr") { if (!cstrOf(S, args[0], a) || !I(1, 32).isConst()) return false; int ch = (int)(char)I(1, 32).lo; size_t p = ch == 0 ? a.size() : N == "strchr" ? a.find((char)ch) : a.rfind((char)ch); if (p == Str::npos) ret = vPtr(0); else { ret = args[0]; ret.p[0].off += p; } return true; }
  if (N == "strstr") { if (!cstrOf(S, args[0], a) || !cstrOf(S, args[1], b)) return false; size_t p = a.find(b); if (p == Str::npos) ret = vPtr(0); else { ret = args[0]; ret.p[0].off += p; } return true; }
  if (N == "toupper" || N == "tolower" || N == "isdigit" || N == "isxdigit" || N == "isspace" || N == "isalpha" || N == "isalnum" || N == "isprint") { if (!I(0, 32).isConst()) return false; int c = (int)I(0, 32).lo; if (c < -1 || c > 255) return false; retI(N == "toupper" ? toupper(c) : N == "tolower" ? tolower(c) : N == "isdigit" ? !!isdigit(c) : N == "isxdigit" ? !!isxdigit(c) : N == "isspace" ? !!isspace(c) : N == "isalpha" ? !!isalpha(c) : N == "isalnum" ? !!isalnum(c) : !!isprint(c)); return true; }
  if (N == "strtol" || N == "strtoul" || N == "strtoll" || N == "atoi") { if (!cstrOf(S, args[0], a)) return false; char *e; long v = N == "atoi" ? atoi(a.c_str()) : strtol(a.c_str(), &e, (int)I(2, 32).lo); retI(v); if (N != "atoi" && onePtr(args[1])) { Val q = args[0]; q.p[0].off += e - a.c_str(); storeAt(S, args[1].p[0].r, args[1].p[0].off, 8, q); } return true; }
  return false;
}
static void accessCheck(State &S, const Val &p, int sz, const Instruction *I, const char *what) {
  if (FixMode) return;
  for (auto &t : p.p) {
    if (p.p.size() != 1) continue; bool bad = false; Str why;
    if (t.r == 0) { bad = t.off >= -65536 && t.off < 65536; why = "null pointer"; }
    else if (!t.span && (R[t.r].k == RHeap || R[t.r].k == RAlloca || R[t.r].k == RGlobal) && R[t.r].size && (t.off < 0 || t.off + sz > (int64_t)R[t.r].size)) { bad = true; why = "outside of " + R[t.r].name; }
    else if (R[t.r].k == RHeap) { auto *rs = S.rreg(t.r); if (rs && rs->freed) { bad = true; why = "released " + R[t.r].name; } }
    if (!bad) continue;
    Chk c; c.what = Str("invalid ") + what + ": " + why + " in " + finfo(I->getFunction()).dem; c.note = locOf(I); c.loc = S.fork; c.a = ivConst(1, 0); c.b = ivConst(1, 1); c.kind = 1; c.cond = pathBit(S); Checks.push_back(c);
  }
}
static bool tracksUninit(int r) { return O.driver && !FixMode && !R[r].ext && !R[r].zero; }
static Str uninitName(State &S, int r, int64_t off, int size) {
  const RegState *rs = S.rreg(r); Str cls;
  if (rs) { auto it = rs->c.find(0); if (it != rs->c.end() && it->second.v.k == Val::Ptr && it->second.v.p.size() == 1) { auto &G = R[it->second.v.p[0].r]; if (G.gv && G.gv->getName().starts_with("_ZTV")) { Str m = G.gv->getName().substr(4).str(); size_t i = 0; while (i < m.size() && isdigit(m[i])) i++; cls = m.substr(i); } } }
  if (cls.empty()) return R[r].name + "+" + std::to_string(off);
  Str keep = R[r].cls; R[r].cls = cls; Str n = cls + "::" + fieldName(r, off, size); R[r].cls = keep; return n;
}
static void uninitReport(State &S, const Str &what, const Instruction *I) {
  Chk c; c.what = what + " in " + finfo(I->getFunction()).dem; c.note = locOf(I); c.loc = S.fork; c.a = ivConst(1, 0); c.b = ivConst(1, 1); c.kind = 1; c.cond = pathBit(S); Checks.push_back(c);
}
static void uninitUse(State &S, Bit b, const Instruction *I) {
  if (FixMode || UninitSyms.empty()) return;
  static std::map<Bit, int> memo; auto it = memo.find(b); int s = -1;
  if (it != memo.end()) s = it->second;
  else { std::set<std::pair<int, int>> pr; primaryBits(b, pr, true); for (auto &x : pr) if (UninitSyms.count(x.first)) { s = x.first; break; } memo[b] = s; }
  if (s >= 0 && !R[UninitSyms[s].first].ext) uninitReport(S, "decision on uninitialised " + uninitName(S, UninitSyms[s].first, UninitSyms[s].second, 1), I);
}
static void uninitPtr(State &S, const Val &p, const Instruction *I) {
  if (FixMode || p.p.size() != 1 || p.p[0].span || !p.p[0].r || R[p.p[0].r].k != RHeap || !tracksUninit(p.p[0].r)) return;
  const RegState *rs = S.rreg(p.p[0].r); if (rs) { if (rs->topAll) return; auto lo = rs->c.upper_bound(p.p[0].off + 7); if (lo != rs->c.begin()) { auto q = std::prev(lo); if (q->first + (int64_t)q->second.size > p.p[0].off) return; } }
  uninitReport(S, "use of the uninitialised pointer " + uninitName(S, p.p[0].r, p.p[0].off, 8), I);
}
static void divCheck(State &S, const IV &x, const IV &y, const Instruction *I) {
  if (FixMode) return;
  auto add = [&](Bit b, const char *why) {
    if (b == 0 || bitTop(b)) return;
    Bit p = pathBit(S); Bit c2 = bitTop(p) ? p : bAnd(p, b); if (c2 == 0) return;
    Chk c; c.what = Str(why) + " in " + finfo(I->getFunction()).dem; c.note = locOf(I); c.loc = S.fork; c.a = ivConst(1, 0); c.b = ivConst(1, 1); c.kind = 1; c.cond = c2; Checks.push_back(c);
  };
  add(ivCmp(EQ, y, ivConst(y.w, 0)).b[0], "division by zero");
  if (I->getOpcode() == Instruction::SDiv || I->getOpcode() == Instruction::SRem)
    add(bAnd(ivCmp(EQ, y, ivConst(y.w, ~0ull)).b[0], ivCmp(EQ, x, ivConst(x.w, 1ull << (x.w - 1))).b[0]), "quotient too big");
}
static void endless(std::vector<State> &st, const Instruction *I) {
  for (auto &S : st) { Chk c; c.what = "loop does not end in " + finfo(I->getFunction()).dem; c.note = locOf(I); c.loc = S.fork; c.a = ivConst(1, 0); c.b = ivConst(1, 1); c.kind = 1; c.cond = pathBit(S); Checks.push_back(c); }
}
