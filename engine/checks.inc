
// verdicts of the obligations a driver met
static json::Value takeChecks(Outs &) {
  json::Object all; struct T { int eq = 0, exh = 0, samp = 0, unk = 0, ne = 0, n = 0; Str w; bool never = false; }; std::map<Str, T> tot; std::vector<Str> ord;
  std::function<void(const Str &)> fail = [](const Str &m) { errs() << m << "\n"; exit(3); }; State dummy;
  for (auto &c : Checks) {
    Str key = c.what + (c.note.empty() ? "" : " (" + c.note + ")"); if (!tot.count(key)) ord.push_back(key); T &t = tot[key]; t.n++; t.never |= c.kind == 1;
    if (c.cond == 0) { t.eq++; continue; }
    Expect E; E.start = &dummy; E.fin = &dummy; E.obj = -1; E.fail = &fail; E.rounds = 64; E.assume = c.cond;
    if (bitTop(c.cond)) { bool same = c.a.b == c.b.b; for (Bit x : c.a.b) if (bitTop(x)) same = false; if (same) t.eq++; else t.unk++; continue; }
    E.compare(c.what, c.a, c.b, ~0ull);
    if (E.nNe) { std::set<std::pair<int, int>> pb; primaryBits(c.cond, pb, false); for (int i = 0; i < c.a.w && i < c.b.w; i++) if (c.a.b[i] != c.b.b[i]) { primaryBits(c.a.b[i], pb, false); primaryBits(c.b.b[i], pb, false); }
      bool open = false; for (auto &x : pb) if (Syms[x.first].name[0] == '?') open = true; if (open) { E.nNe = 0; E.nUnk = 1; } }
    t.eq += E.nEq; t.exh += E.nExh; t.samp += E.nSamp; t.unk += E.nUnk; t.ne += E.nNe;
    if ((E.nNe || E.nUnk || E.nSamp) && t.w.empty()) for (auto &d : E.res) { auto *o = d.getAsObject(); t.w = c.loc + " " + o->getString("w").value_or("").str(); if (!E.nNe) t.w += " ACT " + ivStr(c.a).substr(0, 200) + " EXP " + ivStr(c.b).substr(0, 200); break; }
  }
  for (auto &k : ord) { T &t = tot[k]; json::Object o; o["n"] = t.n; o["eq"] = t.eq; o["exh"] = t.exh; o["samp"] = t.samp; o["unk"] = t.unk; o["ne"] = t.ne; if (t.never) o["never"] = true; if (!t.w.empty()) o["w"] = t.w; all[k] = std::move(o); }
  Checks.clear(); return json::Value(std::move(all));
}
