// join / widening / stability of states, liveness of symbols
static std::vector<std::vector<Sym>> ATOMS; // base symbols of each expression
static const std::vector<Sym> &atomsOf(Sym s) {
  if ((size_t)s >= ATOMS.size()) ATOMS.resize(EX.size());
  if (!ATOMS[s].empty()) return ATOMS[s];
  std::set<Sym> r; const Expr &e = EX[s];
  if (e.args.empty() || e.k == E_ATOM) r.insert(s);
  else { if (e.k == E_LOADSYM || e.k == E_STRFN) r.insert(s); for (auto &a : e.args) for (auto &p : a.t) { auto q = atomsOf(p.first); r.insert(q.begin(), q.end()); } if (r.empty()) r.insert(s); }
  std::vector<Sym> v(r.begin(), r.end()); if ((size_t)s >= ATOMS.size()) ATOMS.resize(EX.size()); ATOMS[s] = v; return ATOMS[s];
}
template <class F> static void linsOfVal(const AbsVal &v, F f) {
  if (v.k == V_INT || v.k == V_FLT) f(v.l); else if (v.k == V_PTR) { for (auto &t : v.t) f(t.off); } else if (v.k == V_COND) { f(v.c->d); if (v.c->s >= 0) f(Lin::sym(v.c->s)); }
}
template <class F> static void linsOfState(const State &S, F f) {
  for (auto &fr : S.stack) for (auto &e : fr->env) linsOfVal(e.second, f);
  for (auto &m : S.mem) { f(m.second.size); for (auto &c : m.second.c->cells) linsOfVal(c.second.v, f); for (auto &s : m.second.c->strs) { f(s.start); f(s.s.len); for (auto &l : s.s.vals) f(l); } for (auto &n : m.second.c->nuls) f(n); for (auto &n : m.second.c->pres) { f(n.start); f(n.end); } }
}
static void liveSyms(const State &S, std::set<Sym> &L) { linsOfState(S, [&](const Lin &l) { for (auto &p : l.t) L.insert(p.first); }); }
static bool baseLive(const State &S, Sym s, const std::set<Sym> &liveAtoms) {
  if (liveAtoms.count(s)) return true;
  const Expr &e = EX[s];
  if (e.k == E_FILL) { auto it = S.mem.find((ObjId)e.x[0]); const Content *c = it != S.mem.end() ? it->second.c.get() : OBJ[e.x[0]].init.get(); if (!c) return false;
    for (auto &g : c->segs) if (g.k == S_UNK && g.ver == e.x[1] && g.lo <= e.x[2] && e.x[2] + e.x[3] <= g.hi) return true; return false; }
  if (e.k == E_LOADSYM || e.k == E_STRFN) { auto it = S.mem.find((ObjId)e.x[0]); const Content *c = it != S.mem.end() ? it->second.c.get() : OBJ[e.x[0]].init.get(); return c && c->ver == e.x[1]; }
  return false;
}
static bool symRetained(const State &S, Sym s, const std::set<Sym> &L, const std::set<Sym> &LA) {
  if (L.count(s)) return true;
  for (Sym a : atomsOf(s)) if (!baseLive(S, a, LA)) return false;
  return true;
}
static void liveAtomSet(const std::set<Sym> &L, std::set<Sym> &LA) { for (Sym s : L) { LA.insert(s); for (Sym a : atomsOf(s)) LA.insert(a); } }
static void gcNum(State &S) {
  std::set<Sym> L, LA; liveSyms(S, L); liveAtomSet(L, LA);
  std::set<Sym> all; for (auto &i : S.num.itv) all.insert(i.first); for (auto &e : S.num.edge) { all.insert(e.first.first); all.insert(e.first.second); } for (auto &e : S.num.excl) all.insert(e.first);
  for (Sym s : all) if (!symRetained(S, s, L, LA)) {
    std::vector<std::pair<Sym, i128>> in, out;
    for (auto it = S.num.edge.begin(); it != S.num.edge.end();) { if (it->first.first == s) { out.push_back({it->first.second, it->second}); it = S.num.edge.erase(it); } else if (it->first.second == s) { in.push_back({it->first.first, it->second}); it = S.num.edge.erase(it); } else ++it; }
    for (auto &a : in) for (auto &b : out) if (a.first != b.first) { i128 c = satAdd(a.second, b.second); Itv ia = S.num.get(a.first), ib = S.num.get(b.first); if (c < satAdd(ia.hi, -ib.lo)) { auto f = S.num.edge.find({a.first, b.first}); if (f == S.num.edge.end() || f->second > c) S.num.edge.put(a.first, b.first, c); } }
    S.num.itv.erase(s); S.num.excl.erase(s);
  }
  for (auto it = S.num.imp.begin(); it != S.num.imp.end();) { if (symRetained(S, it->first, L, LA)) ++it; else it = S.num.imp.erase(it); }
  for (size_t i = 0; i < S.num.le.size();) { bool ok = true; for (auto &p : S.num.le[i].t) if (!symRetained(S, p.first, L, LA)) ok = false; if (ok) i++; else S.num.le.erase(S.num.le.begin() + i); }
  for (auto it = S.num.ne.begin(); it != S.num.ne.end();) { bool ok = true; for (auto &p : it->first) if (!symRetained(S, p.first, L, LA)) ok = false; if (ok) ++it; else it = S.num.ne.erase(it); }
  for (auto it = S.num.fact.begin(); it != S.num.fact.end();) { bool ok = EX[it->first].k != E_ATOM ? true : L.count(it->first); if (ok) { if (EX[it->first].k != E_ATOM) for (Sym a : atomsOf(it->first)) if (!baseLive(S, a, LA)) { ok = false; break; } } if (ok) ++it; else it = S.num.fact.erase(it); }
}
static std::vector<i128> THR1, THR2; // widening thresholds: constants of the program, then type bounds only
static int wLevel = 1; static bool noAffine = false;
static std::set<i128> THRX; // sizes of the allocations in the states being joined
static i128 thrUp(i128 v) { auto &T = wLevel > 1 ? THR2 : THR1; auto it = std::lower_bound(T.begin(), T.end(), v); i128 r = it == T.end() || wLevel > 2 ? INF : *it; if (wLevel <= 2) { auto x = THRX.lower_bound(v); if (x != THRX.end() && *x < r) r = *x; } return r; }
static i128 thrDown(i128 v) { auto &T = wLevel > 1 ? THR2 : THR1; auto it = std::upper_bound(T.begin(), T.end(), v); return it == T.begin() || wLevel > 2 ? -INF : *(it - 1); }

struct Joiner {
  State A, B, R; bool widen, implied = true, onesided = false;
  struct NS { Sym s; Lin a, b; };
  struct Rep { Lin a, b; Lin r; };
  std::map<std::pair<std::vector<std::pair<Sym, i128>>, std::vector<std::pair<Sym, i128>>>, std::vector<Rep>> memo;
  std::vector<NS> news; bool leInit = false; std::vector<Sym> leSyms;
  Joiner(const State &a, const State &b, bool w) : A(a), B(b), widen(w) {}
  Lin lin(Lin a, Lin b) {
    a = norm(A, a); b = norm(B, b);
    if (a == b) return a;
    auto key = std::make_pair(a.t, b.t);
    auto &v = memo[key];
    for (auto &r : v) if (a.c - r.a.c == b.c - r.b.c) return r.r + Lin(a.c - r.a.c);
    { Lin d = b - a; // affine relation with a value already generalised: lin = p * s + q on both sides
      for (auto &n : news) { i128 ps[3] = {1, -1, 0}; int np = 2; Lin e = n.b - n.a; if (!e.t.empty() && !d.t.empty() && d.t[0].first == e.t[0].first && d.t[0].second % e.t[0].second == 0) { i128 p = d.t[0].second / e.t[0].second; if (p != 1 && p != -1 && p <= 4096 && p >= -4096) ps[np++] = p; } if (d.isConst() && e.isConst()) { if (d.c == 0 || e.c == 0 || d.c % e.c) continue; ps[0] = d.c / e.c; np = 1; if (ps[0] > 4096 || ps[0] < -4096) continue; } else if (d.isConst() != e.isConst()) continue;
        for (int z = 0; z < np; z++) { i128 p = ps[z]; Lin q1 = a - linScale(n.a, p), q2 = b - linScale(n.b, p); if ((noAffine && p != 1 && p != -1) || q1.t.size() > (widen && wLevel > 2 ? 0u : 6u) || !(q1 == q2)) continue;
          Lin r = linScale(Lin::sym(n.s), p) + q1; v.push_back({a, b, r}); return r; } } }
    { // a sum of symbols that bounds are known about, plus a constant, on both sides
      if (!leInit) { leInit = true; std::set<Sym> x, y; for (auto &g : A.num.le) for (auto &p : g.t) x.insert(p.first); for (auto &g : B.num.le) for (auto &p : g.t) y.insert(p.first); for (Sym s : x) if (y.count(s)) leSyms.push_back(s); if (leSyms.size() > 6) leSyms.resize(6); }
      if (leSyms.size() >= 2 && !noAffine) for (int m = 1; m < 1 << leSyms.size(); m++) { if (__builtin_popcount(m) > 4) continue; Lin q; for (size_t i = 0; i < leSyms.size(); i++) if (m >> i & 1) q = q + Lin::sym(leSyms[i]);
        Itv x = A.num.range(a - q); if (!x.single()) continue; Itv y = B.num.range(b - q); if (!y.single() || x.lo != y.lo) continue;
        Lin r = q + Lin(x.lo); v.push_back({a, b, r}); return r; } }
    if (getenv("JDBG")) { for (auto &g : A.num.le) fprintf(stderr, "   leA %s\n", linStr(g).c_str()); } if (getenv("JDBG")) fprintf(stderr, "join %s <=%s | %s <=%s widen %d\n", linStr(a).c_str(), i128s(A.num.ub(a)).c_str(), linStr(b).c_str(), i128s(B.num.ub(b)).c_str(), widen);
    Sym s = mkAtom(-INF, INF, "j"); Lin r = Lin::sym(s);
    v.push_back({a, b, r}); news.push_back({s, a, b});
    Itv x = A.num.range(a), y = B.num.range(b); Itv h{std::min(x.lo, y.lo), std::max(x.hi, y.hi)};
    if (widen) { if (y.lo < x.lo) h.lo = thrDown(y.lo); if (y.hi > x.hi) h.hi = thrUp(y.hi); }
    R.num.itv[s] = h;
    return r;
  }
  Lin linOff(const Lin &a0, const Lin &b0) { // offsets into an array of larger elements: which element
    Lin a = norm(A, a0), b = norm(B, b0); if (a == b || widen) return lin(a, b);
    i128 g = a.c < b.c ? b.c - a.c : a.c - b.c; auto gc = [&](i128 x) { if (x < 0) x = -x; while (x) { i128 t = g % x; g = x; x = t; } };
    for (auto &p : a.t) gc(p.second); for (auto &p : b.t) gc(p.second);
    if (g < 8 || g > 4096) return lin(a, b);
    Lin x = a - Lin(a.c), y = b - Lin(a.c); x.c /= g; y.c /= g; for (auto &p : x.t) p.second /= g; for (auto &p : y.t) p.second /= g;
    return linScale(lin(x, y), g) + Lin(a.c); }
  Lin linW(const Lin &a0, const Lin &b0, int w) { // modular values of width w: agree on an interpretation
    Lin a = norm(A, a0), b = norm(B, b0); if (a == b) return a;
    Itv x = A.num.range(a), y = B.num.range(b); i128 m = pow2(w), h = pow2(w - 1);
    bool sa = x.lo >= -h && x.hi < h, sb = y.lo >= -h && y.hi < h;
    if (sa && sb) return lin(a, b);
    bool ua = x.lo >= 0 && x.hi < m, ub = y.lo >= 0 && y.hi < m;
    if (ua && ub) return lin(a, b);
    if (linMod(a, w) == linMod(b, w)) return linMod(a, w);
    return lin(asU(A, a, w), asU(B, b, w));
  }
  static bool isZero(State &S, const AbsVal &v) { Lin l = norm(S, v.l); return l.isConst() && l.c == 0; }
  AbsVal val(const AbsVal &a, const AbsVal &b) {
    if (a.k == V_UNDEF && b.k == V_UNDEF) return a;
    if (a.k == V_UNDEF || b.k == V_UNDEF) { // may be uninitialised: keep the other value's range, forget its identity
      AbsVal u; u.w = a.k == V_UNDEF ? b.w : a.w; return u; }
    if ((a.k == V_INT || a.k == V_COND) && (b.k == V_INT || b.k == V_COND)) {
      if (a.k == V_COND && b.k == V_COND) { if (a == b) return a; Lin la = condToLin(A, *a.c), lb = condToLin(B, *b.c); Lin r = lin(la, lb); return mkCond(2, r); }
      return mkInt(a.w, linW(toLin(A, a), toLin(B, b), a.w)); }
    if (a.k == V_FLT && b.k == V_FLT) { if (a.l == b.l) return a; AbsVal v = a; v.l = Lin::sym(mkAtom(0, 0, "f")); R.num.itv[v.l.t[0].first] = {0, 1}; return v; }
    if (a.k == V_PTR && b.k == V_INT && isZero(B, b)) return val(a, mkNull());
    if (b.k == V_PTR && a.k == V_INT && isZero(A, a)) return val(mkNull(), b);
    if (a.k == V_PTR && b.k == V_PTR) {
      AbsVal r; r.k = V_PTR; r.w = 64; 
      if (a.t == b.t) { r = a; bool same = true; for (size_t i = 0; i < a.t.size(); i++) { r.t[i].off = linOff(a.t[i].off, b.t[i].off); if (a.t[i].so != b.t[i].so || a.t[i].sn != b.t[i].sn) { r.t[i].so = -1; r.t[i].sn = 0; } } (void)same; return r; }
      std::vector<bool> used(b.t.size(), false);
      for (auto &x : a.t) { bool f = false; for (size_t j = 0; j < b.t.size(); j++) if (!used[j] && b.t[j].o == x.o) { used[j] = true; Tgt q{x.o, linOff(x.off, b.t[j].off)}; if (x.so == b.t[j].so && x.sn == b.t[j].sn) { q.so = x.so; q.sn = x.sn; } r.t.push_back(q); f = true; break; } if (!f) r.t.push_back(x); }
      for (size_t j = 0; j < b.t.size(); j++) if (!used[j]) r.t.push_back(b.t[j]);
      // offsets over symbols of one side only: generalise
      for (auto &x : r.t) { (void)x; }
      if (r.t.size() > 1) r.pid = (a.pid && a.pid == b.pid) ? a.pid : pidFor(a, b);
      if (r.t.size() > 24) return mkTop(64);
      return r; }
    return mkTop(a.w);
  }
  std::map<std::string, int> pids;
  int pidFor(const AbsVal &a, const AbsVal &b) { std::string k; for (auto &t : a.t) k += std::to_string(t.o) + ":" + linStr(t.off) + ","; k += "p" + std::to_string(a.pid) + "|"; for (auto &t : b.t) k += std::to_string(t.o) + ":" + linStr(t.off) + ","; k += "p" + std::to_string(b.pid); auto it = pids.find(k); if (it != pids.end()) return it->second; return pids[k] = ++VERCTR; }
  std::shared_ptr<Content> cont(ObjId o, const std::shared_ptr<Content> &ca, const std::shared_ptr<Content> &cb) {
    if (ca == cb) { // values identical; still may need renaming through norm: keep
      return ca; }
    auto r = std::make_shared<Content>(); r->ver = ++VERCTR;
    // segments
    std::set<i64> cuts; for (auto &s : ca->segs) { cuts.insert(s.lo); cuts.insert(s.hi); } for (auto &s : cb->segs) { cuts.insert(s.lo); cuts.insert(s.hi); }
    std::vector<i64> cv(cuts.begin(), cuts.end());
    for (size_t i = 0; i + 1 < cv.size(); i++) {
      i64 lo = cv[i], hi = cv[i + 1]; const Seg *a = nullptr, *b = nullptr;
      for (auto &s : ca->segs) if (s.lo <= lo && hi <= s.hi) a = &s; for (auto &s : cb->segs) if (s.lo <= lo && hi <= s.hi) b = &s;
      Seg n; n.lo = lo; n.hi = hi;
      if (!a || !b) { n.k = S_UNK; n.ver = ++VERCTR; }
      else if (a->k == b->k && a->k == S_UNINIT) n.k = S_UNINIT;
      else if (a->k == S_UNK && b->k == S_UNK && (a->ver == b->ver || (a->bl == a->bh && b->bl == b->bh && a->bl == b->bl))) { n = *a; n.lo = lo; n.hi = hi; n.mu = a->mu || b->mu; n.bl = std::min(a->bl, b->bl); n.bh = std::max(a->bh, b->bh); }
      else if (a->k == S_BYTES && b->k == S_BYTES && a->by->compare(a->bo + lo - a->lo, hi - lo, *b->by, b->bo + lo - b->lo, hi - lo) == 0) { n = *a; n.bo = a->bo + lo - a->lo; n.lo = lo; n.hi = hi; }
      else { int bl = 255, bh = 0; bool mu = false; Content ta, tb; ta.segs.push_back(*a); tb.segs.push_back(*b); regionHull(A, ta, lo, hi, bl, bh, mu); regionHull(B, tb, lo, hi, bl, bh, mu); n.k = S_UNK; n.ver = ++VERCTR; if (bl > bh) { bl = 0; bh = 255; } n.bl = bl; n.bh = bh; n.mu = mu; }
      if (!r->segs.empty() && r->segs.back().k == n.k && n.k == S_UNINIT) r->segs.back().hi = n.hi;
      else r->segs.push_back(n);
    }
    // cells
    auto addCell = [&](i64 off, int len) { AbsVal a = contGet(A, o, *ca, off, len), b = contGet(B, o, *cb, off, len); AbsVal v = val(a, b); r->cells[off] = Cell{len, v}; };
    std::set<std::pair<i64, int>> ks; for (auto &c : ca->cells) ks.insert({c.first, c.second.len}); for (auto &c : cb->cells) ks.insert({c.first, c.second.len});
    // drop overlapping with different extents -> byte cells
    std::vector<std::pair<i64, int>> kv(ks.begin(), ks.end());
    i64 last = -1;
    for (size_t i = 0; i < kv.size(); i++) {
      i64 off = kv[i].first; int len = kv[i].second; bool ov = off < last || (i + 1 < kv.size() && kv[i + 1].first < off + len);
      if (!ov) { addCell(off, len); last = std::max(last, off + len); }
      else { for (i64 q = off; q < off + len; q++) if (!r->cells.count(q) || r->cells[q].len == 1) { if (!r->cells.count(q)) { bool covered = false; for (auto j = r->cells.lower_bound(q - 16); j != r->cells.end() && j->first <= q; ++j) if (j->first + j->second.len > q) covered = true; if (!covered) addCell(q, 1); } } last = std::max(last, off + len); }
    }
    // strings
    std::vector<bool> used(cb->strs.size(), false);
    std::set<const StrInfo *> doneA;
    auto symJ = [&](AbsStr &n, const AbsStr &x, const AbsStr &y) { if (n.exact) return; std::string t, u; std::vector<Lin> v, w; if (!symOf(x, t, v) || !symOf(y, u, w) || t != u) return; size_t h = 0;
      for (size_t i = 0; i < v.size(); i++) { h = t.find('\2', h) + 1; char cv = t[h - 2]; if (v[i] == w[i]) n.vals.push_back(v[i]); else if (cv == 's' || strchr("fFgGeEaA", cv)) { n.vals.clear(); return; } else n.vals.push_back(lin(v[i], w[i])); } n.sym = true; n.tpl = t; };
    auto addStr = [&](const Lin &st, const AbsStr &x, const AbsStr &y) { StrInfo n; n.start = st; n.s.exact = x.exact && y.exact && x.lit == y.lit; if (n.s.exact) n.s.lit = x.lit; n.s.len = lin(x.len, y.len); n.s.safe = x.safe && y.safe; n.s.hasMarkup = x.hasMarkup || y.hasMarkup; n.s.tag = tagJoin(x.tag, y.tag); symJ(n.s, x, y); r->strs.push_back(n); };
    for (auto &x : ca->strs) for (size_t j = 0; j < cb->strs.size(); j++) if (!used[j]) {
      auto &y = cb->strs[j]; Lin sa = norm(A, x.start), sb = norm(B, y.start); if (!(sa == sb)) continue;
      used[j] = true; doneA.insert(&x); StrInfo n; n.start = sa; n.s.exact = x.s.exact && y.s.exact && x.s.lit == y.s.lit; if (n.s.exact) n.s.lit = x.s.lit; n.s.len = lin(x.s.len, y.s.len); n.s.safe = x.s.safe && y.s.safe; n.s.hasMarkup = x.s.hasMarkup || y.s.hasMarkup; n.s.tag = tagJoin(x.s.tag, y.s.tag); symJ(n.s, x.s, y.s); r->strs.push_back(n); break; }
    if (implied) {
      for (auto &x : ca->strs) if (!doneA.count(&x) && x.start.isConst()) { bool k = false; AbsStr y = getStr(B, {o, x.start}, nullptr, &k); if (k) addStr(x.start, x.s, y); }
      for (size_t j = 0; j < cb->strs.size(); j++) if (!used[j] && cb->strs[j].start.isConst()) { auto &y = cb->strs[j]; bool k = false; AbsStr x = getStr(A, {o, y.start}, nullptr, &k); if (k) addStr(y.start, x, y.s); } }
    for (auto &x : ca->nuls) for (auto &y : cb->nuls) { if (r->nuls.size() > 12) break; Lin a = norm(A, x), b = norm(B, y); if (a == b) { bool dup = false; for (auto &q : r->nuls) if (q == a) dup = true; if (!dup) r->nuls.push_back(a); } }
    { std::vector<char> ub(cb->pres.size(), 0); for (auto &x : ca->pres) { Pre q; q.start = norm(A, x.start); bool f = false; for (size_t j = 0; j < cb->pres.size(); j++) if (!ub[j] && norm(B, cb->pres[j].start) == q.start) { ub[j] = 1; q.end = lin(x.end, cb->pres[j].end); q.safe = x.safe && cb->pres[j].safe; q.mkd = x.mkd || cb->pres[j].mkd; if (q.mkd) q.tag = tagJoin(x.fx(), cb->pres[j].fx()); f = true; break; } if (!f && q.start.isConst()) { q.end = lin(x.end, q.start); q.safe = x.safe; q.mkd = x.mkd; if (q.mkd) q.tag = tagJoin(x.tag, TagFx()); f = true; } if (f && r->pres.size() < 4) r->pres.push_back(q); }
      for (size_t j = 0; j < cb->pres.size(); j++) if (!ub[j]) { Pre q; q.start = norm(B, cb->pres[j].start); if (!q.start.isConst()) continue; q.end = lin(q.start, cb->pres[j].end); q.safe = cb->pres[j].safe; q.mkd = cb->pres[j].mkd; if (q.mkd) q.tag = tagJoin(cb->pres[j].tag, TagFx()); if (r->pres.size() < 4) r->pres.push_back(q); } }
    // NUL positions known in both but at different places (one candidate each)
    if (r->nuls.empty() && !ca->nuls.empty() && !cb->nuls.empty()) r->nuls.push_back(lin(ca->nuls.back(), cb->nuls.back()));
    else if (r->nuls.empty() && r->strs.empty() && (!ca->nuls.empty() || !cb->nuls.empty())) {
      // string on one side, NUL on the other
      Lin a, b; bool ha = false, hb = false; if (!ca->nuls.empty()) { a = ca->nuls.back(); ha = true; } else if (!ca->strs.empty()) { a = ca->strs.back().start + ca->strs.back().s.len; ha = true; }
      if (!cb->nuls.empty()) { b = cb->nuls.back(); hb = true; } else if (!cb->strs.empty()) { b = cb->strs.back().start + cb->strs.back().s.len; hb = true; }
      if (ha && hb) r->nuls.push_back(lin(a, b)); }
    return r;
  }
  void orderByDelta() { // generalise slow counters first so that faster ones become multiples of them
    std::vector<std::pair<i128, std::pair<Lin, Lin>>> c;
    auto add = [&](const AbsVal &x, const AbsVal &y) { if (x.k != V_INT || y.k != V_INT || x.w != y.w || x.w < 8) return; Lin a = norm(A, x.l), b = norm(B, y.l); Lin d = b - a; if (!d.isConst() || d.c == 0 || d.c > 64 || d.c < -64) return;
      Itv p = A.num.range(a), q = B.num.range(b); i128 h = pow2(x.w - 1); if (p.lo < -h || q.lo < -h || p.hi >= h || q.hi >= h) return; c.push_back({d.c < 0 ? -d.c : d.c, {a, b}}); };
    for (size_t i = 0; i < A.stack.size(); i++) if (A.stack[i] != B.stack[i]) for (auto &e : A.stack[i]->env) { auto it = B.stack[i]->env.find(e.first); if (it != B.stack[i]->env.end()) add(e.second, it->second); }
    std::stable_sort(c.begin(), c.end(), [](const std::pair<i128, std::pair<Lin, Lin>> &x, const std::pair<i128, std::pair<Lin, Lin>> &y) { return x.first < y.first; });
    for (auto &x : c) lin(x.second.first, x.second.second);
  }
  State run() {
    THRX.clear(); if (widen) for (auto *q : {&A, &B}) for (auto &m : q->mem) if (OBJ[m.first].k == K_HEAP && m.second.st != O_FREED && m.second.size.isConst() && m.second.size.c > 16) THRX.insert(m.second.size.c);
    orderByDelta();
    R.stack.clear(); R.ghost = A.ghost; for (auto it = R.ghost.begin(); it != R.ghost.end();) { auto f = B.ghost.find(it->first); if (f == B.ghost.end() || f->second != it->second) it = R.ghost.erase(it); else ++it; }
    for (size_t i = 0; i < A.stack.size(); i++) {
      if (A.stack[i] == B.stack[i]) { R.stack.push_back(A.stack[i]); continue; }
      auto f = std::make_shared<Frame>(); f->F = A.stack[i]->F; f->ctx = A.stack[i]->ctx; f->site = A.stack[i]->site; f->args = A.stack[i]->args;
      std::set<ObjId> al(A.stack[i]->allocas.begin(), A.stack[i]->allocas.end()); al.insert(B.stack[i]->allocas.begin(), B.stack[i]->allocas.end()); f->allocas.assign(al.begin(), al.end());
      for (auto &e : A.stack[i]->env) { auto it = B.stack[i]->env.find(e.first); if (it == B.stack[i]->env.end()) continue; f->env[e.first] = val(e.second, it->second); }
      R.stack.push_back(f);
    }
    std::set<ObjId> ids; for (auto &m : A.mem) ids.insert(m.first); for (auto &m : B.mem) ids.insert(m.first);
    for (ObjId o : ids) {
      bool ina = A.mem.count(o), inb = B.mem.count(o);
      bool global = OBJ[o].init != nullptr;
      if (!global && !(ina && inb)) { onesided = true; R.mem[o] = ina ? A.mem[o] : B.mem[o]; if (R.mem[o].st == O_LIVE && OBJ[o].k == K_HEAP) R.mem[o].st = R.mem[o].st; continue; }
      ObjSt a = objGet(A, o), b = objGet(B, o), r;
      r.st = a.st == b.st ? a.st : O_MAYBE; r.size = lin(a.size, b.size); r.c = cont(o, a.c, b.c);
      R.mem[o] = r;
    }
    // kept symbols
    std::set<Sym> L, LA; liveSyms(R, L); liveAtomSet(L, LA);
    std::set<Sym> newset; for (auto &n : news) newset.insert(n.s);
    std::set<Sym> cand; for (auto &i : A.num.itv) cand.insert(i.first); for (auto &i : B.num.itv) cand.insert(i.first); for (Sym s : L) cand.insert(s);
    std::set<Sym> kept;
    std::set<Sym> liveA, liveB; if (onesided) { liveSyms(A, liveA); liveSyms(B, liveB); std::set<Sym> t; liveAtomSet(liveA, t); liveA.insert(t.begin(), t.end()); t.clear(); liveAtomSet(liveB, t); liveB.insert(t.begin(), t.end()); }
    for (Sym s : cand) { if (newset.count(s)) continue; if (!symRetained(R, s, L, LA)) continue; kept.insert(s);
      Itv x = A.num.get(s), y = B.num.get(s);
      if (onesided && EX[s].k == E_ATOM) { // occurs only in an object one side does not have: any value will do there
        if (!liveB.count(s) && liveA.count(s) && !B.num.itv.count(s)) y = x; else if (!liveA.count(s) && liveB.count(s) && !A.num.itv.count(s)) x = y; }
      Itv h{std::min(x.lo, y.lo), std::max(x.hi, y.hi)}; Itv d = EX[s].def;
      if (widen) { if (y.lo < x.lo) h.lo = std::max(d.lo, thrDown(y.lo)); if (y.hi > x.hi) h.hi = std::min(d.hi, thrUp(y.hi)); }
      if (h.lo != d.lo || h.hi != d.hi) R.num.itv[s] = h; }
    { std::map<Sym, std::set<i64>> cnd; for (auto &e : A.num.excl) if (kept.count(e.first)) cnd[e.first].insert(e.second.begin(), e.second.end()); for (auto &e : B.num.excl) if (kept.count(e.first)) cnd[e.first].insert(e.second.begin(), e.second.end());
      for (Sym s : kept) { Itv x = A.num.get(s), y = B.num.get(s); if (x.lo > y.lo) std::swap(x, y); if (x.hi < y.lo - 1 && y.lo - x.hi <= 9 && x.hi > -pow2(40) && y.lo < pow2(40)) for (i128 v = x.hi + 1; v < y.lo; v++) cnd[s].insert((i64)v); }
      auto ruled = [](const Num &n, Sym s, i64 v) { Itv r = n.get(s); if (v < r.lo || v > r.hi) return true; auto f = n.excl.find(s); return f != n.excl.end() && f->second.count(v) > 0; };
      for (auto &c : cnd) for (i64 v : c.second) if (ruled(A.num, c.first, v) && ruled(B.num, c.first, v)) { Itv r = R.num.get(c.first); if (v >= r.lo && v <= r.hi) R.num.excl[c.first].insert(v); } }
    // values neither side of a joined number can have
    for (auto &n : news) { auto unit = [](const Lin &l) { return l.isConst() || (l.t.size() == 1 && l.t[0].second == 1); }; if (!unit(n.a) || !unit(n.b)) continue;
      auto exOf = [](const Num &m, const Lin &l) -> const std::set<i64> * { if (l.isConst()) return nullptr; auto f = m.excl.find(l.t[0].first); return f == m.excl.end() || f->second.empty() ? nullptr : &f->second; };
      const std::set<i64> *ea = exOf(A.num, n.a), *eb = exOf(B.num, n.b); if (!ea && !eb) continue; std::set<i64> cnd;
      if (ea && ea->size() <= 300) for (i64 v : *ea) cnd.insert(v + (i64)n.a.c); if (eb && eb->size() <= 300) for (i64 v : *eb) cnd.insert(v + (i64)n.b.c);
      auto ruled = [](const Num &m, const Lin &l, const std::set<i64> *e, i64 v) { Itv r = m.range(l); if (v < r.lo || v > r.hi) return true; return e && e->count(v - (i64)l.c) > 0; };
      Itv r = R.num.get(n.s); for (i64 v : cnd) if (v >= r.lo && v <= r.hi && ruled(A.num, n.a, ea, v) && ruled(B.num, n.b, eb, v)) R.num.excl[n.s].insert(v); }
    for (auto &f : A.num.fact) { auto it = B.num.fact.find(f.first); if (it != B.num.fact.end() && it->second == f.second) R.num.fact.insert(f); }
    { // facts over three or more symbols: keep, or restate over the new symbols, what holds on both sides
      auto addLe = [&](const Lin &g) { for (auto &h : R.num.le) if (h == g) return; if (R.num.le.size() < 16) R.num.le.push_back(g); };
      auto tryLe = [&](const Lin &g, bool sideA) {
        std::vector<std::vector<std::pair<Lin, Lin>>> opt; // per symbol: (form in R, form on the other side)
        for (auto &p : g.t) { std::vector<std::pair<Lin, Lin>> o; if (kept.count(p.first)) o.push_back({Lin::sym(p.first), Lin::sym(p.first)});
          for (auto &n : news) { const Lin &m = sideA ? n.a : n.b; if (m.t.size() == 1 && m.t[0].first == p.first && m.t[0].second == 1 && o.size() < 3) o.push_back({Lin::sym(n.s) - Lin(m.c), (sideA ? n.b : n.a) - Lin(m.c)}); }
          if (o.empty()) return; opt.push_back(o); }
        std::vector<size_t> ix(opt.size(), 0); int n = 0;
        while (n++ < 12) { Lin r(g.c), o(g.c); for (size_t k = 0; k < opt.size(); k++) { r = r + linScale(opt[k][ix[k]].first, g.t[k].second); o = o + linScale(opt[k][ix[k]].second, g.t[k].second); }
          if ((sideA ? B : A).num.ub(o) <= 0 && (r.t.size() >= 3 || (r.t.size() == 2 && r.t[0].second != -r.t[1].second))) addLe(r);
          size_t k = 0; while (k < opt.size() && ++ix[k] == opt[k].size()) ix[k++] = 0; if (k == opt.size()) break; } };
      for (auto &g : A.num.le) tryLe(g, true); if (!widen) for (auto &g : B.num.le) tryLe(g, false); }
    for (auto &f : A.num.ne) { auto it = B.num.ne.find(f.first); if (it == B.num.ne.end()) continue; for (auto c : f.second) if (it->second.count(c)) R.num.ne[f.first].insert(c); }
    // difference bounds among new symbols and kept symbols that have edges
    struct P { Sym s; Lin a, b; }; std::vector<P> ps;
    for (auto &n : news) ps.push_back({n.s, n.a, n.b});
    std::set<Sym> es; for (auto &e : A.num.edge) { es.insert(e.first.first); es.insert(e.first.second); } for (auto &e : B.num.edge) { es.insert(e.first.first); es.insert(e.first.second); }
    { int n = 0; for (auto &g : A.num.le) for (auto &p : g.t) if (n < 24 && es.insert(p.first).second) n++; for (auto &g : B.num.le) for (auto &p : g.t) if (n < 24 && es.insert(p.first).second) n++; }
    { int n = 0; for (auto &m : R.mem) { for (auto &x : m.second.c->strs) for (auto &p : x.s.len.t) if (n < 40 && es.insert(p.first).second) n++; for (auto &x : m.second.c->nuls) for (auto &p : x.t) if (n < 40 && es.insert(p.first).second) n++; } }
    if (!news.empty()) { int n = 0; for (Sym s : kept) if (n < 10 && EX[s].k == E_ATOM) { Itv x = A.num.get(s), y = B.num.get(s); if ((x.lo != y.lo || x.hi != y.hi) && es.insert(s).second) n++; } }
    for (Sym s : kept) { bool rel = es.count(s); if (!rel) for (auto &n : news) { for (auto &p : n.a.t) if (p.first == s) rel = true; for (auto &p : n.b.t) if (p.first == s) rel = true; } if (rel) ps.push_back({s, Lin::sym(s), Lin::sym(s)}); }
    A.num.freeze(); B.num.freeze();
    if (ps.size() <= 220) {
      size_t nn = news.size();
      for (size_t i = 0; i < ps.size(); i++) for (size_t j = 0; j < ps.size(); j++) if (i != j) {
        if (i >= nn && j >= nn && !(es.count(ps[i].s) && es.count(ps[j].s))) continue;
        Lin da = ps[i].a - ps[j].a, db = ps[i].b - ps[j].b;
        i128 h = satAdd(R.num.get(ps[i].s).hi, -R.num.get(ps[j].s).lo);
        i128 ua = A.num.ub(da); if (ua >= h) continue; i128 ub = B.num.ub(db); i128 u = std::max(ua, ub);
        if (widen && ub > ua) u = thrUp(ub);
        if (u < h && u < INF) R.num.edge.put(ps[i].s, ps[j].s, u);
      }
    }
    // bounds of new symbols against sizes that are multiples of symbols
    if (!news.empty() && R.num.le.size() < 16) {
      std::vector<Lin> forms; for (auto &m : R.mem) if (OBJ[m.first].k == K_HEAP && m.second.st != O_FREED && forms.size() < 6) { const Lin &f = m.second.size; if (f.t.size() == 1 && f.t[0].second != 1 && kept.count(f.t[0].first) && std::find(forms.begin(), forms.end(), f) == forms.end()) forms.push_back(f); }
      for (auto &f : forms) for (auto &n : news) { if (R.num.le.size() >= 16) break; i128 h = satAdd(R.num.get(n.s).hi, -R.num.range(f).lo);
        i128 ua = A.num.ub(n.a - f); if (ua >= h) continue; i128 ub = B.num.ub(n.b - f); i128 u = std::max(ua, ub); if (widen && ub > ua) u = thrUp(ub);
        if (u < h && u < pow2(62) && u > -pow2(62)) R.num.le.push_back(Lin::sym(n.s) - f - Lin(u)); }
    }
    // bounds of sums of symbols against symbols whose own bounds changed
    if (!widen) {
      std::vector<Sym> moved; for (Sym x : kept) if (EX[x].k == E_ATOM && es.count(x) && moved.size() < 12) { Itv p = A.num.get(x), q = B.num.get(x); if (p.lo != q.lo || p.hi != q.hi) moved.push_back(x); }
      int n = 0, tries = 0;
      if (!moved.empty()) for (auto &m : memo) for (auto &z : m.second) {
        if (n >= 6 || tries > 60 || z.r.t.empty() || (z.r.t.size() == 1 && (z.r.t[0].second == 1 || z.r.t[0].second == -1))) continue;
        for (Sym s : moved) {
          bool in = n >= 6 || ++tries > 60; for (auto &p : z.r.t) if (p.first == s) in = true; if (in) continue;
          Lin d = z.r - Lin::sym(s); i128 ua = A.num.ub(z.a - Lin::sym(s)); if (ua > 64 || ua < -64) continue;
          i128 ub = B.num.ub(z.b - Lin::sym(s)); if (ub > 64) continue;
          i128 u = std::max(ua, ub); if (R.num.ub(d) <= u || R.num.le.size() >= 16) continue;
          R.num.le.push_back(d - Lin(u)); n++;
        }
      }
    }
    A.num.thaw(); B.num.thaw();
    return R;
  }
};
// J is stable with respect to H: same shape up to renaming of symbols and no weaker numeric facts
struct EqCheck {
  State &J, &H; std::map<Sym, Sym> j2h; std::map<Sym, Sym> h2j; bool eq = true;
  EqCheck(State &j, State &h) : J(j), H(h) {}
  void lin(const Lin &a0, const Lin &b0) {
    if (!eq) return; Lin a = norm(J, a0), b = norm(H, b0);
    if (a.c != b.c || a.t.size() != b.t.size()) { { why = 1; eq = false; } return; }
    if (a == b) { for (auto &p : a.t) bind(p.first, p.first); return; }
    if (a.t.size() == 1 && a.t[0].second == b.t[0].second) { bind(a.t[0].first, b.t[0].first); return; }
    // multi-term: match through existing bindings, then identical symbols, then unique coefficients
    std::vector<std::pair<Sym, i128>> ua; auto vb = b.t;
    for (auto &p : a.t) { auto it = j2h.find(p.first); if (it == j2h.end()) { ua.push_back(p); continue; } bool f = false; for (size_t k = 0; k < vb.size(); k++) if (vb[k].first == it->second && vb[k].second == p.second) { vb.erase(vb.begin() + k); f = true; break; } if (!f) { why = 3; eq = false; return; } }
    for (size_t x = 0; x < ua.size();) { bool f = false; for (size_t k = 0; k < vb.size(); k++) if (vb[k] == ua[x] && !h2j.count(vb[k].first)) { bind(ua[x].first, vb[k].first); vb.erase(vb.begin() + k); f = true; break; } if (f) ua.erase(ua.begin() + x); else x++; }
    for (auto &p : ua) { int hit = -1, n = 0; for (size_t k = 0; k < vb.size(); k++) if (vb[k].second == p.second && !h2j.count(vb[k].first)) { hit = (int)k; n++; } int m = 0; for (auto &q : ua) if (q.second == p.second) m++; if (n != 1 || m != 1) { why = 2; eq = false; return; } bind(p.first, vb[hit].first); }
  }
  void bind(Sym a, Sym b) { auto x = j2h.find(a); if (x != j2h.end()) { if (x->second != b) { why = 4; eq = false; } return; } auto y = h2j.find(b); if (y != h2j.end()) { if (y->second != a) { why = 5; eq = false; } return; } j2h[a] = b; h2j[b] = a; }
  void val(const AbsVal &a, const AbsVal &b) {
    if (!eq) return; if (a.k != b.k || a.w != b.w) { { why = 6; eq = false; } return; }
    if (a.k == V_INT) lin(a.l, b.l);
    else if (a.k == V_FLT) { if (a.l == b.l) return; if (EX[a.l.t[0].first].k == E_ATOM && EX[b.l.t[0].first].k == E_ATOM) bind(a.l.t[0].first, b.l.t[0].first); else eq = false; }
    else if (a.k == V_PTR) { if (a.t.size() != b.t.size()) { { why = 7; eq = false; } return; } for (size_t i = 0; i < a.t.size(); i++) { bool f = false; for (size_t j = 0; j < b.t.size(); j++) if (a.t[i].o == b.t[j].o) { lin(a.t[i].off, b.t[j].off); f = true; break; } if (!f) eq = false; } }
    else if (a.k == V_COND) { if (a.c->op != b.c->op || a.c->neg != b.c->neg) { { why = 8; eq = false; } return; } lin(a.c->d, b.c->d); if (a.c->s >= 0) bind(a.c->s, b.c->s); }
  }
  int why = 0; std::string whyS; bool bad(int n) { why = n; return false; }
  bool run() {
    if (J.ghost != H.ghost) return bad(9);
    for (size_t i = 0; i < H.stack.size() && eq; i++) { if (J.stack[i] == H.stack[i]) continue; for (auto &e : H.stack[i]->env) { auto it = J.stack[i]->env.find(e.first); if (it == J.stack[i]->env.end()) return bad(10); val(it->second, e.second); if (!eq) { if (optVerbose) { auto vs = [&](State &Q, const AbsVal &v) { std::string r = std::to_string(v.k) + ":" + std::to_string(v.w) + " " + linStr(norm(Q, v.l)) + " "; for (auto &t : v.t) r += OBJ[t.o].name + "+" + linStr(norm(Q, t.off)) + ";"; return r; }; std::string nm; raw_string_ostream os(nm); e.first->print(os); whyS = nm + " J=" + vs(J, it->second) + " H=" + vs(H, e.second) + " w" + std::to_string(why); } return bad(11); } } }
    std::set<Sym> L; bool lv = false;
    for (auto &m : J.mem) { auto it = H.mem.find(m.first); if (it == H.mem.end()) { if (!OBJ[m.first].init) return bad(12); ObjSt h = objGet(H, m.first); if (m.second.c != h.c) return bad(13); continue; }
      if (m.second.st != it->second.st) return bad(14); lin(m.second.size, it->second.size);
      auto &a = *m.second.c, &b = *it->second.c; if (m.second.c == it->second.c) continue;
      // implicit FILL/LOAD equalities of H that J does not make
      if (!lv) { liveSyms(H, L); lv = true; }
      for (Sym s : L) if ((EX[s].k == E_FILL || EX[s].k == E_LOADSYM || EX[s].k == E_STRFN) && EX[s].x[0] == m.first) {
        if (EX[s].k != E_FILL) { if (EX[s].x[1] == b.ver) return bad(15); }
        else { bool hb = false, ha = false; for (auto &g : b.segs) if (g.k == S_UNK && g.ver == EX[s].x[1] && g.lo <= EX[s].x[2] && EX[s].x[2] < g.hi) hb = true; for (auto &g : a.segs) if (g.k == S_UNK && g.ver == EX[s].x[1] && g.lo <= EX[s].x[2] && EX[s].x[2] < g.hi) ha = true; if (hb && !ha) return bad(16); } }
      // same shape of segments (by extent)
      { size_t i = 0, j = 0; auto merged = [](const std::vector<Seg> &v) { std::vector<Seg> r; for (auto &s : v) { if (!r.empty() && r.back().k == s.k && r.back().hi == s.lo && s.k != S_BYTES && r.back().bl == s.bl && r.back().bh == s.bh && r.back().mu == s.mu) r.back().hi = s.hi; else r.push_back(s); } return r; };
        auto x = merged(a.segs), y = merged(b.segs); if (x.size() != y.size()) return bad(17);
        for (; i < x.size(); i++, j++) { if (x[i].lo != y[i].lo || x[i].hi != y[i].hi || x[i].k != y[i].k) { whyS = OBJ[m.first].name + " seg"; for (auto &g : x) whyS += " " + std::to_string(g.lo) + "-" + std::to_string(g.hi) + "k" + std::to_string(g.k); whyS += " / "; for (auto &g : y) whyS += " " + std::to_string(g.lo) + "-" + std::to_string(g.hi) + "k" + std::to_string(g.k); return bad(18); } if (x[i].k == S_UNK && (x[i].bl != y[i].bl || x[i].bh != y[i].bh || x[i].mu != y[i].mu)) return bad(19); } }
      if (a.cells.size() != b.cells.size()) return bad(20);
      for (auto ca = a.cells.begin(), cb = b.cells.begin(); ca != a.cells.end(); ++ca, ++cb) { if (ca->first != cb->first || ca->second.len != cb->second.len) return bad(21); val(ca->second.v, cb->second.v); if (!eq) return bad(22); }
      if (a.strs.size() != b.strs.size() || a.nuls.size() != b.nuls.size()) return bad(23);
      for (size_t i = 0; i < a.strs.size(); i++) { lin(a.strs[i].start, b.strs[i].start); lin(a.strs[i].s.len, b.strs[i].s.len); if (a.strs[i].s.exact != b.strs[i].s.exact || a.strs[i].s.safe != b.strs[i].s.safe || a.strs[i].s.hasMarkup != b.strs[i].s.hasMarkup || !(a.strs[i].s.tag == b.strs[i].s.tag)) return bad(24); if (b.strs[i].s.sym) { auto &x = a.strs[i].s, &y = b.strs[i].s; if (!x.sym || x.tpl != y.tpl || x.vals.size() != y.vals.size()) return bad(36); for (size_t k = 0; k < x.vals.size(); k++) if (!(x.vals[k] == y.vals[k])) lin(x.vals[k], y.vals[k]); } }
      for (size_t i = 0; i < a.nuls.size(); i++) lin(a.nuls[i], b.nuls[i]);
      if (a.pres.size() != b.pres.size()) return bad(33); for (size_t i = 0; i < a.pres.size(); i++) { lin(a.pres[i].start, b.pres[i].start); lin(a.pres[i].end, b.pres[i].end); if (a.pres[i].safe != b.pres[i].safe || a.pres[i].mkd != b.pres[i].mkd || !(a.pres[i].fx() == b.pres[i].fx())) return bad(34); }
    }
    if (!eq) return bad(25);
    for (auto &p : h2j) { Itv h = H.num.get(p.first), j = J.num.get(p.second); if (j.lo < h.lo || j.hi > h.hi) return bad(26); }
    for (auto &e : H.num.edge) { auto x = h2j.find(e.first.first), y = h2j.find(e.first.second); Sym a = x == h2j.end() ? e.first.first : x->second, b = y == h2j.end() ? e.first.second : y->second; if ((x == h2j.end() || y == h2j.end())) { } if (J.num.diffub(a, b) > e.second) { whyS = symStr(e.first.first) + " - " + symStr(e.first.second) + " <= " + i128s(e.second) + " now " + i128s(J.num.diffub(a, b)); return bad(27); } }
    for (auto &e : H.num.itv) if (!h2j.count(e.first)) { Itv j = J.num.get(e.first); if (j.lo < e.second.lo || j.hi > e.second.hi) return bad(28); }
    for (auto &e : H.num.excl) { Sym s = h2j.count(e.first) ? h2j[e.first] : e.first; for (i64 v : e.second) { Itv j = J.num.get(s); auto f = J.num.excl.find(s); if (v >= j.lo && v <= j.hi && (f == J.num.excl.end() || !f->second.count(v))) return bad(29); } }
    for (auto &f : H.num.fact) { auto it = J.num.fact.find(f.first); if (it == J.num.fact.end() || it->second != f.second) return bad(30); }
    for (auto &g : H.num.le) { Lin m; m.c = g.c; for (auto &p : g.t) { auto x = h2j.find(p.first); m = m + linScale(Lin::sym(x == h2j.end() ? p.first : x->second), p.second); } if (J.num.ub(m) > 0) return bad(35); }
    for (auto &f : H.num.ne) { auto it = J.num.ne.find(f.first); if (it == J.num.ne.end()) return bad(31); for (auto c : f.second) if (!it->second.count(c)) return bad(32); }
    return true;
  }
};
static State joinStates(const State &a, const State &b, bool widen = false) { Joiner j(a, b, widen); return j.run(); }
