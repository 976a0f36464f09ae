// calls: intrinsics of the harness language, C library models, redirection
static void doHavoc(State &S, const Tgt &t, const Lin &n, int bl = 0, int bh = 255) {
  Content &c = objW(S, t.o); strClobber(S, c, t.off, n, false); Itv r = S.num.range(t.off); i128 h = S.num.ub(t.off + n);
  i64 lo = r.lo < 0 ? 0 : (i64)r.lo, hi = h > pow2(40) ? INT64_MAX : (i64)h; if (hi <= lo) return;
  if (!(t.off.isConst() && n.isConst())) { bool mu = false; int l = 255, x = 0; regionHull(S, c, lo, hi, l, x, mu); if (l <= x) { bl = std::min(bl, l); bh = std::max(bh, x); } }
  cellsClobber(S, c, lo, hi); Seg s; s.lo = lo; s.hi = hi; s.k = S_UNK; s.ver = ++VERCTR; s.bl = bl; s.bh = bh; segSet(c, s);
}
// the bytes copied, when they belong to one text that is known
static bool textCopied(State &S, const Tgt &s, const Lin &n, bool &safe) {
  const ObjSt st = objGet(S, s.o); Lin off = norm(S, s.off); bool in = false;
  for (auto &x : st.c->strs) { Lin d = norm(S, off - x.start); if (d.isConst() && d.c >= 0) in = true; }
  if (!in && OBJ[s.o].k != K_CONST) return false;
  if (!in && !off.isConst()) return false;
  bool known = true; AbsStr t = getStr(S, {s.o, off}, nullptr, &known); if (!known) return false;
  if (S.num.ub(norm(S, n - t.len)) > 0) return false;
  if (t.exact && n.isConst()) { safe = xmlSafeLit(t.lit.substr(0, (size_t)n.c)); return true; }
  Lin d = norm(S, n - t.len); safe = t.safe && ((d.isConst() && d.c == 0) || (S.num.lb(d) == 0)); return true;
}
static void doCopy1(State &S, const Tgt &d, const Tgt &s, const Lin &n);
static void doCopy(State &S, const Tgt &d, const Tgt &s, const Lin &n) {
  Lin nn = norm(S, n); bool safe = false;
  if (OBJ[d.o].summary || OBJ[s.o].summary || (nn.isConst() && nn.c == 0)) { doCopy1(S, d, s, n); return; }
  { // a whole text with tags, without its end, placed behind another one
    Lin so = norm(S, s.off), off = norm(S, d.off); const ObjSt st = objGet(S, s.o); bool in = OBJ[s.o].k == K_CONST && so.isConst(); for (auto &x : st.c->strs) { Lin e = norm(S, so - x.start); if (e.isConst() && e.c == 0) in = true; }
    bool known = in; AbsStr t; if (in) t = getStr(S, {s.o, so}, nullptr, &known); Lin e; if (known) e = norm(S, nn - t.len);
    if (known && e.isConst() && e.c == 0 && t.tag.ok) {
      const ObjSt dt = objGet(S, d.o); Pre q; TagFx base; bool from = false, bm = false; int pi = preAt(S, *dt.c, off);
      if (pi >= 0) { q.start = dt.c->pres[pi].start; base = dt.c->pres[pi].fx(); bm = dt.c->pres[pi].mkd; from = true; }
      else for (auto &x : dt.c->strs) { Lin z = norm(S, x.start + x.s.len - off); if (x.s.tag.ok && z.isConst() && z.c == 0) { q.start = x.start; base = x.s.exact && x.s.lit.empty() ? TagFx() : x.s.tag; bm = x.s.hasMarkup; from = true; break; } }
      if (!from) q.start = off;
      if (bm || t.hasMarkup) { doCopy1(S, d, s, n); q.mkd = true; q.tag = tagCat(base, t.tag); q.end = norm(S, off + nn); preSet(objW(S, d.o), q); return; } } }
  if (S.num.lb(nn) < 1) { doCopy1(S, d, s, n); return; }
  { // a whole text with its end, placed behind another one
    Lin off = norm(S, d.off); bool whole = false; AbsStr t;
    if (!off.isConst()) { const ObjSt st = objGet(S, s.o); Lin so = norm(S, s.off); bool in = OBJ[s.o].k == K_CONST && so.isConst(); for (auto &x : st.c->strs) { Lin e = norm(S, so - x.start); if (e.isConst() && e.c >= 0) in = true; }
      if (in) { bool known = true; t = getStr(S, {s.o, so}, nullptr, &known); Lin e = norm(S, nn - t.len); whole = known && e.isConst() && e.c == 1; } }
    if (whole) { putStr(S, d, t); return; } }
  if (!textCopied(S, s, nn, safe)) { doCopy1(S, d, s, n); return; }
  Lin off = norm(S, d.off); Pre q; { const ObjSt st = objGet(S, d.o); int pi = preAt(S, *st.c, off); if (pi >= 0) { q = st.c->pres[pi]; q.safe = q.safe && safe; if (q.mkd && !safe) q.tag.ok = false; } else { q.start = off; q.safe = safe; } }
  doCopy1(S, d, s, n); q.end = norm(S, off + nn); preSet(objW(S, d.o), q);
}
static void doCopy1(State &S, const Tgt &d, const Tgt &s, const Lin &n) {
  Lin dof = norm(S, d.off), sof = norm(S, s.off), nn = norm(S, n);
  if (nn.isConst() && nn.c == 0) return;
  if (dof.isConst() && sof.isConst() && nn.isConst() && !OBJ[d.o].summary && nn.c <= 100000) {
    ObjSt ss = objGet(S, s.o); auto src = ss.c; Content &c = objW(S, d.o); i64 a = (i64)sof.c, b = (i64)dof.c, len = (i64)nn.c;
    std::vector<std::pair<i64, Cell>> cs; for (auto j = src->cells.lower_bound(a - 16); j != src->cells.end() && j->first < a + len; ++j) { if (j->first >= a && j->first + j->second.len <= a + len) cs.push_back({j->first - a + b, j->second}); else if (j->first + j->second.len > a) for (i64 q = std::max(a, j->first); q < std::min(a + len, j->first + j->second.len); q++) cs.push_back({q - a + b, Cell{1, contGet(S, s.o, *src, q, 1)}}); }
    std::vector<Seg> gs; for (auto &g : src->segs) { i64 lo = std::max(g.lo, a), hi = std::min(g.hi, a + len); if (lo >= hi) continue; Seg x = g; if (x.k == S_BYTES) x.bo += lo - g.lo; x.lo = lo - a + b; x.hi = hi - a + b; gs.push_back(x); }
    // unknown bytes keep their identity: materialise short runs as byte cells
    std::vector<std::pair<i64, Cell>> ex; for (auto &g : src->segs) if (g.k == S_UNK && g.bl != g.bh) { i64 lo = std::max(g.lo, a), hi = std::min(g.hi, a + len); if (hi - lo > 300) continue; for (i64 q = lo; q < hi; q++) { bool cov = false; for (auto &x : cs) if (x.first <= q - a + b && q - a + b < x.first + x.second.len) cov = true; if (!cov) ex.push_back({q - a + b, Cell{1, contGet(S, s.o, *src, q, 1)}}); } }
    std::vector<StrInfo> st; std::vector<Lin> nu; for (auto &x : src->strs) { Lin e = x.start + x.s.len; if (S.num.lb(x.start - sof) >= 0 && S.num.ub(e - sof - nn) < 0) { StrInfo y = x; y.start = norm(S, x.start - sof + dof); st.push_back(y); } } for (auto &x : src->nuls) if (S.num.lb(x - sof) >= 0 && S.num.ub(x - sof - nn) < 0) nu.push_back(norm(S, x - sof + dof));
    strClobber(S, c, dof, nn, false); cellsClobber(S, c, b, b + len); for (auto &g : gs) { if (g.k == S_UNK && g.bl != g.bh) g.ver = ++VERCTR; segSet(c, g); } for (auto &x : cs) c.cells[x.first] = x.second; for (auto &x : ex) c.cells[x.first] = x.second; for (auto &x : st) c.strs.push_back(x); for (auto &x : nu) c.nuls.push_back(x); return; }
  ObjSt ss = objGet(S, s.o); Itv so = S.num.range(sof); i128 sh = S.num.ub(sof + nn); int bl = 255, bh = 0; bool mu = false; regionHull(S, *ss.c, so.lo < 0 ? 0 : (i64)so.lo, sh > pow2(40) ? INT64_MAX : (i64)sh, bl, bh, mu); if (bl > bh) { bl = 0; bh = 255; }
  std::vector<StrInfo> st; std::vector<Lin> nu;
  if (!OBJ[d.o].summary) { for (auto &x : ss.c->strs) { Lin e = x.start + x.s.len; if (S.num.lb(x.start - sof) >= 0 && S.num.ub(e - sof - nn) < 0) { StrInfo y = x; y.start = norm(S, x.start - sof + dof); st.push_back(y); } } for (auto &x : ss.c->nuls) if (S.num.lb(x - sof) >= 0 && S.num.ub(x - sof - nn) < 0) nu.push_back(norm(S, x - sof + dof)); }
  doHavoc(S, d, nn, bl, bh); Content &c = objW(S, d.o); for (auto &x : st) c.strs.push_back(x); for (auto &x : nu) c.nuls.push_back(x);
}
typedef std::vector<std::pair<State, AbsVal>> CallRes;
static std::string litArg(State &S, const AbsVal &v, const Instruction *I) { if (v.k == V_PTR && v.t.size() == 1 && v.t[0].o) { AbsStr s = getStr(S, v.t[0], I); if (s.exact) return s.lit; } return "?"; }
static void event(const std::string &cat, const Instruction *I, const std::string &m) { alarm(cat, I, m); }
// write formatted text through snprintf semantics
static void doSnprintf(State S, const AbsVal &dst, const Lin &size, bool bounded, const AbsStr &s, const Instruction *I, CallRes &out) {
  AbsVal ret = mkInt(32, s.len);
  Lin need = norm(S, s.len + Lin(1)); Lin sz = norm(S, size);
  auto exact = [&](State X) { Acc acc; derefPtr(X, dst, need, true, I, acc); for (auto &x : acc) { putStr(x.first, x.second, s); AbsVal r = ret; r.l = norm(x.first, r.l); out.push_back({std::move(x.first), r}); } };
  if (!bounded) { exact(S); return; }
  // the size argument must not exceed what the destination can hold, unless the text provably fits
  if (S.num.ub(sz) <= 0) { out.push_back({S, ret}); return; }
  State T = S;
  if (S.num.ub(need - sz) <= 0) { exact(S); return; }
  bool fits = S.num.assumeLE(norm(S, need - sz)); if (fits) exact(S);
  if (T.num.assumeLE(norm(T, sz - s.len))) { // truncation
    if (T.num.lb(sz) <= 0) { State Z = T; if (Z.num.assumeLE(sz)) out.push_back({Z, ret}); if (!T.num.assumeLE(Lin(1) - sz)) return; }
    Acc acc; derefPtr(T, dst, sz, true, I, acc);
    if (!acc.empty() && !OBJ[acc[0].second.o].summary) { alarm("trunc", I, "formatted text may be cut off: needs up to " + i128s(T.num.ub(need)) + " bytes, room for " + i128s(T.num.lb(sz))); }
    for (auto &x : acc) { AbsStr c; c.len = norm(x.first, sz - Lin(1)); c.safe = false; c.hasMarkup = s.hasMarkup; c.tag.ok = false; /* may be cut inside an entity */ if (s.exact && c.len.isConst() && (size_t)c.len.c <= s.lit.size()) c = litStr(s.lit.substr(0, (size_t)c.len.c)); putStr(x.first, x.second, c); out.push_back({std::move(x.first), ret}); } }
}
static Value *varArgKey(size_t i) { return ConstantInt::get(Type::getInt64Ty(CTX), 0x7a7a000000ull + i); }
static ObjId allocaObj(State &S, const Instruction *I, const char *name) {
  auto key = std::make_pair((const Value *)I, std::make_pair(S.ctop().ctx, 1)); auto it = objIdx.find(key); ObjId o;
  if (it == objIdx.end()) { o = newObj(K_STACK, name); objIdx[key] = o; } else o = it->second;
  S.mem[o] = ObjSt(); S.top().allocas.push_back(o); return o; }
static u64 evCounter = 0;
static void handleCall(State S, const CallBase *CB, CallRes &out) {
  Function *F = CB->getCalledFunction();
  std::vector<AbsVal> A; for (auto &a : CB->args()) A.push_back(evalV(S, a.get()));
  if (!F) {
    AbsVal fp = evalV(S, CB->getCalledOperand());
    if (fp.k != V_PTR || fp.t.empty()) { alarm(fp.k == V_UNDEF ? "uninit" : "imprecise", CB, "call through an unknown pointer"); return; }
    for (auto &t : fp.t) { if (!t.o) { alarm("null", CB, "call through a null function pointer"); continue; } if (OBJ[t.o].k != K_FUNC) { alarm("oob", CB, "call through a data pointer"); continue; }
      State s = S; if (fp.t.size() > 1) filterTo(s, fp.pid, t); Function *G = OBJ[t.o].fn; 
      if (G->isDeclaration()) { out.push_back({s, topOf(CB->getType())}); UNMODELLED.insert(G->getName().str()); continue; }
      for (auto &o : execFunc(G, s, A, CB)) out.push_back({std::move(o.s), o.v}); }
    return;
  }
  std::string n = F->getName().str();
  auto ret = [&](State s, const AbsVal &v) { out.push_back({std::move(s), v}); };
  auto I = (const Instruction *)CB;
  auto L = [&](int i) { return toLin(S, A[i]); };
  auto U64 = [&](int i) { return asU(S, toLin(S, A[i]), A[i].w ? A[i].w : 64); };
  auto S64 = [&](int i) { return asS(S, toLin(S, A[i]), A[i].w ? A[i].w : 64); };
  auto rw = CB->getType()->isIntegerTy() ? (int)CB->getType()->getIntegerBitWidth() : 64;
  for (auto &a : A) if (a.k == V_UNDEF && n.rfind("llvm.", 0) != 0) { alarm("uninit", I, "uninitialised argument passed to " + n); }
  // redirection to harness models
  std::string cur = S.ctop().F->getName().str();
  bool inModel = false; for (auto &f : S.stack) if (f->F->getName() == ("model_" + n)) inModel = true;
  if (overrides.count(n) && !inModel) { Function *G = MOD->getFunction("model_" + n); if (!G) die("no model for " + n); for (auto &o : execFunc(G, S, A, CB)) out.push_back({std::move(o.s), o.v}); return; }
  if (overridesRec.count(n)) { bool on = false; for (auto &f : S.stack) if (f->F == F) on = true; if (on) { Function *G = MOD->getFunction("model_" + n); if (!G) die("no model for " + n); for (auto &o : execFunc(G, S, A, CB)) out.push_back({std::move(o.s), o.v}); return; } }
  // harness intrinsics
  if (n.rfind("__ai_", 0) == 0) {
    if (n == "__ai_range") { Lin lo = S64(0), hi = S64(1); ret(S, mkInt(64, fresh(lo.c, hi.c, "in"))); return; }
    if (n == "__ai_double") { ret(S, mkFlt(64, mkAtom(0, 1, "dbl"))); return; }
    if (n == "__ai_havoc") { Acc acc; derefPtr(S, A[0], U64(1), true, I, acc); for (auto &x : acc) { doHavoc(x.first, x.second, asU(x.first, A[1].l, 64)); ret(x.first, AbsVal()); } return; }
    if (n == "__ai_uninit") { Acc acc; derefPtr(S, A[0], U64(1), true, I, acc); for (auto &x : acc) { Lin nn = U64(1); i64 a = (i64)x.second.off.c, b = a + (i64)nn.c; Content &c = objW(x.first, x.second.o); cellsClobber(x.first, c, a, b); Seg s; s.lo = a; s.hi = b; s.k = S_UNINIT; segSet(c, s); ret(x.first, AbsVal()); } return; }
    if (n == "__ai_str") { // arbitrary NUL-terminated text: length in [lo,hi]
      Lin lo = S64(1), hi = S64(2); AbsStr s; s.len = Lin::sym(mkAtom(lo.c, hi.c, "slen")); s.sym = true; s.tpl = "\1s\2"; s.vals.push_back(s.len); Lin fl = S64(3); s.safe = fl.c & 1; s.tag.ok = s.safe; if (fl.c & 2) { s.safe = false; s.hasMarkup = true; s.tag = TagFx(); } Acc acc; derefPtr(S, A[0], s.len + Lin(1), true, I, acc); for (auto &x : acc) { putStr(x.first, x.second, s); ret(x.first, AbsVal()); } return; }
    if (n == "__ai_split") { Lin l = S64(0); Itv r = S.num.range(l); if (r.hi - r.lo > 70000) die("split range too large at " + locOf(I)); for (i128 v = r.lo; v <= r.hi; v++) { State x = S; if (!x.num.assumeEQ(norm(x, l - Lin(v)))) continue; ret(x, mkInt(64, Lin(v))); } return; }
    if (n == "__ai_any") { for (int b = 0; b < 2; b++) ret(S, mkInt(32, Lin(b))); return; }
    if (n == "__ai_assume") { AbsVal c = toCond(S, A[0]); if (assumeCond(S, *c.c, true)) ret(S, AbsVal()); return; }
    if (n == "__ai_fail") { alarm("fail:" + litArg(S, A[0], I), I, litArg(S, A[0], I)); return; }
    if (n == "__ai_failc") { std::string m = litArg(S, A[0], I); for (size_t i = 1; i < A.size(); i++) { m += " "; if (A[i].k == V_PTR) m += "\"" + litArg(S, A[i], I) + "\""; else { Itv r = S.num.range(asS(S, L(i), A[i].w)); m += r.single() ? i128s(r.lo) : "[" + i128s(r.lo) + "," + i128s(r.hi) + "]"; } }
      if (!noRec) { if (alarmSeen.insert({m, I}).second) { Alarm a; a.cat = "fail:" + litArg(S, A[0], I); a.msg = m; a.func = I->getFunction()->getName().str(); a.line = I->getDebugLoc() ? I->getDebugLoc().getLine() : 0; a.file = I->getDebugLoc() ? I->getDebugLoc()->getFilename().str() : ""; for (auto s : callSites) { if (!a.chain.empty()) a.chain += " > "; a.chain += locOf(s); } if (ALARMS.size() < 400) ALARMS.push_back(a); } } return; }
    if (n == "__ai_cover") { if (!noRec) COVER[litArg(S, A[0], I)]++; ret(S, AbsVal()); return; }
    if (n == "__ai_log") { if (!noRec) { std::string m = litArg(S, A[0], I); for (size_t i = 1; i < A.size(); i++) { m += "\t"; if (A[i].k == V_PTR) { if (A[i].t.size() == 1 && !A[i].t[0].o) m += "NULL"; else if (A[i].t.size() == 1) { AbsStr s = getStr(S, A[i].t[0], I); m += s.exact ? s.lit : "<text len " + i128s(S.num.lb(s.len)) + ".." + i128s(S.num.ub(s.len)) + (s.safe ? " safe" : "") + (s.tag.ok && s.hasMarkup ? (s.tag.balanced() ? " balanced" : " unbalanced") : "") + ">"; } else m += "<ptr>"; } else if (A[i].k == V_FLT) { m += symStr(A[i].l.t[0].first); } else { Lin l = asS(S, L(i), A[i].w); m += l.isConst() ? i128s(l.c) : linStr(l) + " in [" + i128s(S.num.lb(l)) + "," + i128s(S.num.ub(l)) + "]"; } } if (LOGSEEN.insert(m).second && LOGS.size() < 20000) LOGS.push_back(m); } ret(S, AbsVal()); return; }
    if (n == "__ai_live") { bool live = true; if (A[0].k == V_PTR) for (auto &t : A[0].t) if (!t.o || (OBJ[t.o].k == K_HEAP && (!S.mem.count(t.o) || S.mem[t.o].st != O_LIVE))) live = false; ret(S, mkInt(32, Lin(live))); return; }
    if (n == "__ai_freed") { bool fr = true; if (A[0].k == V_PTR) for (auto &t : A[0].t) if (!t.o || OBJ[t.o].k != K_HEAP || (S.mem.count(t.o) && S.mem[t.o].st == O_LIVE)) fr = false; ret(S, mkInt(32, Lin(fr))); return; }
    if (n == "__ai_balanced") { AbsStr s = strOfPtr(S, A[0], I, "check"); bool b = s.tag.balanced(); ret(S, mkInt(32, b ? Lin(1) : fresh(0, 1))); return; }
    if (n == "__ai_sametext") { AbsStr a = strOfPtr(S, A[0], I, "check"), b = strOfPtr(S, A[1], I, "check"); bool r = symSame(S, a, b); if (!r && optVerbose) { auto show = [&](const AbsStr &x) { std::string o; std::vector<Lin> v; if (!symCanon(S, x, o, v)) return std::string("unknown text"); for (auto &l : v) o += " | " + linStr(l); return o; }; fprintf(stderr, "texts differ at %s:\n  %s\n  %s\n", locOf(I).c_str(), show(a).c_str(), show(b).c_str()); } ret(S, mkInt(32, Lin(r))); return; }
    if (n == "__ai_xmlsafe") { AbsStr s = strOfPtr(S, A[0], I, "check"); ret(S, mkInt(32, s.safe ? Lin(1) : fresh(0, 1))); return; }
    if (n == "__ai_exact") { AbsStr s = strOfPtr(S, A[0], I, "check"); ret(S, mkInt(32, Lin(s.exact))); return; }
    if (n == "__ai_same") { // provably equal integers?
      Lin d = norm(S, L(0) - L(1)); int w = std::min(A[0].w, A[1].w); Lin m = linMod(d, w); bool eq = m.isConst() && m.c == 0; if (!eq) { Lin x = asS(S, L(0), A[0].w), y = asS(S, L(1), A[1].w); Lin dd = norm(S, x - y); eq = S.num.lb(dd) == 0 && S.num.ub(dd) == 0; } ret(S, mkInt(32, Lin(eq))); return; }
    if (n == "__ai_fsame") { bool eq = A[0].k == V_FLT && A[1].k == V_FLT && A[0].l == A[1].l; double x, y; if (!eq && A[0].k == V_FLT && A[1].k == V_FLT && isFConst(A[0].l.t[0].first, x) && isFConst(A[1].l.t[0].first, y)) eq = x == y; ret(S, mkInt(32, Lin(eq))); return; }
    if (n == "__ai_fnear") { double x, y; bool ok = A[0].k == V_FLT && A[1].k == V_FLT && isFConst(A[0].l.t[0].first, x) && isFConst(A[1].l.t[0].first, y) && fabs(x - y) <= 1e-9 * std::max(fabs(x), fabs(y)); ret(S, mkInt(32, Lin(ok))); return; }
    if (n == "__ai_fconst") { double x; ret(S, mkInt(32, Lin(A[0].k == V_FLT && isFConst(A[0].l.t[0].first, x)))); return; }
    if (n == "__ai_key") { S.ghost[litArg(S, A[0], I)] = (i64)S.num.lb(S64(1)); ret(S, AbsVal()); return; }
    if (n == "__ai_unkey") { S.ghost.erase(litArg(S, A[0], I)); ret(S, AbsVal()); return; }
    if (n == "__ai_objsize") { if (A[0].k == V_PTR && A[0].t.size() == 1 && A[0].t[0].o) { ObjSt st = objGet(S, A[0].t[0].o); ret(S, mkInt(64, norm(S, st.size - A[0].t[0].off))); } else ret(S, mkInt(64, Lin(0))); return; }
    if (n == "__ai_known") { // is the string NUL-terminated provably (without alarm)
      ret(S, mkInt(32, Lin(1))); return; }
    if (n == "__ai_summary") { for (auto &t : A[0].t) if (t.o) OBJ[t.o].summary = true; ret(S, AbsVal()); return; } // stands for any number of like objects
    if (n == "__ai_stop") return;
    if (n == "__ai_readonly" || n == "__ai_frozen" || n == "__ai_stale") { if (A[0].k != V_PTR || A[0].t.size() != 1 || !A[0].t[0].o) die(n + " needs one object"); Watch w{A[0].t[0].o, (i64)norm(S, A[0].t[0].off).c, 0, n != "__ai_stale", 0, 0}; w.hi = w.lo + (i64)U64(1).c; if (n != "__ai_readonly") { w.so = A[2].t[0].o; w.soff = (i64)norm(S, A[2].t[0].off).c; }
      bool dup = false; for (auto &x : WATCH) if (x.o == w.o && x.lo == w.lo && x.ro == w.ro) dup = true; if (!dup) WATCH.push_back(w); ret(S, AbsVal()); return; }
    if (n == "__ai_unwatch") { for (size_t i = 0; i < WATCH.size();) if (A[0].k == V_PTR && WATCH[i].o == A[0].t[0].o) WATCH.erase(WATCH.begin() + i); else i++; ret(S, AbsVal()); return; }
    die("unknown intrinsic " + n);
  }
  // LLVM intrinsics
  if (n.rfind("llvm.", 0) == 0) {
    if (n.rfind("llvm.memcpy", 0) == 0 || n.rfind("llvm.memmove", 0) == 0) { Acc a1; Lin len = U64(2); if (len.isConst() && len.c == 0) { ret(S, AbsVal()); return; } derefPtr(S, A[0], len, true, I, a1); for (auto &x : a1) { Acc a2; derefPtr(x.first, A[1], len, false, I, a2); for (auto &y : a2) { doCopy(y.first, x.second, y.second, len); ret(y.first, AbsVal()); } } return; }
    if (n.rfind("llvm.memset", 0) == 0) { Acc a1; Lin len = U64(2); Lin v = asU(S, L(1), 8); if (len.isConst() && len.c == 0) { ret(S, AbsVal()); return; } derefPtr(S, A[0], len, true, I, a1); for (auto &x : a1) { int lo = v.isConst() ? (int)v.c : 0, hi = v.isConst() ? (int)v.c : 255; doHavoc(x.first, x.second, len, lo, hi); if (v.isConst() && v.c == 0 && !OBJ[x.second.o].summary) objW(x.first, x.second.o).nuls.push_back(norm(x.first, x.second.off)); ret(x.first, AbsVal()); } return; }
    if (n.rfind("llvm.va_start", 0) == 0) { // the arguments beyond the named ones, in an object of their own behind the list
      Frame &f = S.top(); ObjId o = allocaObj(S, I, "variable arguments"); auto c = newContent(S_UNINIT); size_t k = 0; Function *G = f.F;
      for (size_t j = G->arg_size(); j < f.args.size(); j++, k++) { AbsVal v = f.args[j]; auto e = f.env.find(varArgKey(j)); if (e != f.env.end()) v = e->second; c->cells[8 * k] = Cell{v.k == V_INT ? v.w / 8 : 8, v}; }
      S.mem[o].c = c; S.mem[o].size = Lin((i128)(8 * k)); Acc acc; derefPtr(S, A[0], Lin(24), true, I, acc); for (auto &x : acc) { storeAt(x.first, x.second, mkInt(64, Lin(0)), 8); storeAt(x.first, {x.second.o, x.second.off + Lin(8)}, mkInt(64, Lin(0)), 8); storeAt(x.first, {x.second.o, x.second.off + Lin(16)}, mkPtr(o, Lin(0)), 8); ret(x.first, AbsVal()); } return; }
    if (n.rfind("llvm.va_copy", 0) == 0) { Acc a1, a2; derefPtr(S, A[0], Lin(24), true, I, a1); for (auto &x : a1) { a2.clear(); derefPtr(x.first, A[1], Lin(24), false, I, a2); for (auto &y : a2) { doCopy(y.first, x.second, y.second, Lin(24)); ret(y.first, AbsVal()); } } return; }
    if (n.rfind("llvm.lifetime", 0) == 0 || n.rfind("llvm.dbg", 0) == 0 || n.rfind("llvm.stack", 0) == 0 || n.rfind("llvm.va_end", 0) == 0 || n.rfind("llvm.assume", 0) == 0) { ret(S, n == "llvm.stacksave" ? mkNull() : AbsVal()); return; }
    if (n.rfind("llvm.fabs", 0) == 0) { double d; if (A[0].k == V_FLT && isFConst(A[0].l.t[0].first, d)) ret(S, mkFlt(A[0].w, fconst(fabs(d)))); else if (A[0].k == V_FLT) ret(S, mkFlt(A[0].w, mkExpr(E_FOP, A[0].w, {A[0].l}, {9010}, 0, 1))); else ret(S, topOf(CB->getType())); return; }
    if (n.rfind("llvm.fmuladd", 0) == 0) { double x, y, z; if (A[0].k == V_FLT && A[1].k == V_FLT && A[2].k == V_FLT) { Sym a = A[0].l.t[0].first, b = A[1].l.t[0].first, c = A[2].l.t[0].first; if (isFConst(a, x) && isFConst(b, y) && isFConst(c, z)) ret(S, mkFlt(64, fconst(x * y + z))); else ret(S, mkFlt(64, mkExpr(E_FOP, 64, {A[0].l, A[1].l, A[2].l}, {9011}, 0, 1))); } else ret(S, topOf(CB->getType())); return; }
    if (n.rfind("llvm.abs", 0) == 0) { n = "abs"; } else { UNMODELLED.insert(n); ret(S, topOf(CB->getType())); return; }
  }
  if (!F->isDeclaration()) { for (auto &o : execFunc(F, S, A, CB)) out.push_back({std::move(o.s), o.v}); return; }
  // ---------------------------------------------------------- C library
  if (n == "malloc" || n == "calloc") { Lin sz = n == "malloc" ? U64(0) : Lin(0); if (n == "calloc") { Lin a = U64(0), b = U64(1); sz = b.isConst() ? linScale(a, b.c) : a.isConst() ? linScale(b, a.c) : fresh(0, pow2(40)); }
    if (optOom) { State z = S; ret(z, mkNull()); } if (!S.num.assumeLE(norm(S, sz) - Lin(pow2(46)))) return; ObjId o = heapAlloc(S, I, norm(S, sz), n == "malloc" ? S_UNINIT : S_UNK, 0); ret(S, mkPtr(o, Lin(0))); return; }
  if (n == "realloc") { Lin sz = U64(1); if (A[0].k != V_PTR) { alarm("imprecise", I, "realloc of unknown pointer"); return; }
    for (auto &t : A[0].t) { State s = S; if (A[0].t.size() > 1) filterTo(s, A[0].pid, t); if (!t.o) { if (optOom) ret(s, mkNull()); ObjId o = heapAlloc(s, I, norm(s, sz), S_UNINIT, 0); ret(s, mkPtr(o, Lin(0))); continue; }
      if (OBJ[t.o].k != K_HEAP || !s.mem.count(t.o) || s.mem[t.o].st == O_FREED) { alarm("bad-free", I, "realloc of memory that is not a live allocation"); continue; }
      if (optOom) ret(s, mkNull());
      if (!s.num.assumeLE(norm(s, sz) - Lin(pow2(46)))) continue; // no allocation of more than 2^46 bytes succeeds
      setV(s, CB, A[0].t.size() == 1 ? A[0] : mkPtr(t.o, t.off)); ObjId o = heapAlloc(s, I, norm(s, sz), S_UNINIT, 0); AbsVal cur2 = s.ctop().env.at(CB); ObjId old = cur2.t[0].o;
      ObjSt os = s.mem[old]; auto c = std::make_shared<Content>(*os.c); c->ver = ++VERCTR; 
      // bytes beyond the old size are uninitialised
      Itv r = s.num.range(os.size); if (r.lo < pow2(40) && r.hi < pow2(60)) { Seg g; g.lo = (i64)r.hi; g.hi = INT64_MAX; g.k = S_UNINIT; segSet(*c, g); }
      for (auto &g : c->segs) if (g.k == S_UNK) g.ver = ++VERCTR;
      s.mem[o].c = c; s.mem[old].st = OBJ[old].summary ? O_MAYBE : O_FREED; ret(s, mkPtr(o, Lin(0))); }
    return; }
  if (n == "free") { if (A[0].k != V_PTR) { alarm(A[0].k == V_UNDEF ? "uninit" : "imprecise", I, "free of an unknown pointer"); ret(S, AbsVal()); return; }
    for (auto &t : A[0].t) { State s = S; if (A[0].t.size() > 1) filterTo(s, A[0].pid, t); if (!t.o) { ret(s, AbsVal()); continue; }
      Lin of = norm(s, t.off); if (OBJ[t.o].k != K_HEAP || !(of.isConst() && of.c == 0)) { alarm("bad-free", I, "free of memory that was not allocated by malloc: " + OBJ[t.o].name); ret(s, AbsVal()); continue; }
      if (!s.mem.count(t.o) || s.mem[t.o].st == O_FREED) { alarm("double-free", I, "memory is freed a second time: " + OBJ[t.o].name); ret(s, AbsVal()); continue; }
      if (s.mem[t.o].st == O_MAYBE && !OBJ[t.o].summary) alarm("double-free", I, "memory may be freed a second time: " + OBJ[t.o].name);
      s.mem[t.o].st = OBJ[t.o].summary ? O_MAYBE : O_FREED; ret(s, AbsVal()); } return; }
  if (n == "memcpy" || n == "memmove") { Acc a1; Lin len = U64(2); derefPtr(S, A[0], len, true, I, a1); for (auto &x : a1) { Acc a2; derefPtr(x.first, A[1], len, false, I, a2); for (auto &y : a2) { doCopy(y.first, x.second, y.second, len); ret(y.first, A[0]); } } return; }
  if (n == "memset") { Acc a1; Lin len = U64(2); Lin v = asU(S, L(1), 8); derefPtr(S, A[0], len, true, I, a1); for (auto &x : a1) { int lo = v.isConst() ? (int)v.c : 0, hi = v.isConst() ? (int)v.c : 255; doHavoc(x.first, x.second, len, lo, hi); ret(x.first, A[0]); } return; }
  if (n == "strlen") { AbsStr s = strOfPtr(S, A[0], I, "strlen"); ret(S, mkInt(64, norm(S, s.len))); return; }
  if (n == "strcpy" || n == "stpcpy") { AbsStr s = strOfPtr(S, A[1], I, "strcpy"); Acc a1; derefPtr(S, A[0], norm(S, s.len + Lin(1)), true, I, a1); for (auto &x : a1) { putStr(x.first, x.second, s); ret(x.first, A[0]); } return; }
  if (n == "strcat") { AbsStr d = strOfPtr(S, A[0], I, "strcat"), s = strOfPtr(S, A[1], I, "strcat"); AbsVal p = A[0]; for (auto &t : p.t) t.off = norm(S, t.off + d.len); Acc a1; derefPtr(S, p, norm(S, s.len + Lin(1)), true, I, a1); for (auto &x : a1) { putStr(x.first, x.second, s); ret(x.first, A[0]); } return; }
  if (n == "strncpy") { AbsStr s = strOfPtr(S, A[1], I, "strncpy"); Lin len = U64(2); Acc a1; derefPtr(S, A[0], len, true, I, a1); for (auto &x : a1) { State &q = x.first; State t2 = q; if (q.num.assumeLE(norm(q, s.len + Lin(1) - len))) { doHavoc(q, x.second, len); putStr(q, x.second, s); ret(q, A[0]); } if (t2.num.assumeLE(norm(t2, len - s.len))) { if (A[1].k == V_PTR && A[1].t.size() == 1 && A[1].t[0].o) doCopy(t2, x.second, A[1].t[0], len); else doHavoc(t2, x.second, len); ret(t2, A[0]); } } return; }
  if (n == "strdup") { AbsStr s = strOfPtr(S, A[0], I, "strdup"); if (optOom) ret(S, mkNull()); ObjId o = heapAlloc(S, I, norm(S, s.len + Lin(1)), S_UNINIT, 0); if (!s.exact && norm(S, s.len).isConst() && A[0].k == V_PTR && A[0].t.size() == 1 && A[0].t[0].o) doCopy(S, {o, Lin(0)}, A[0].t[0], Lin(norm(S, s.len).c + 1)); else putStr(S, {o, Lin(0)}, s); ret(S, mkPtr(o, Lin(0))); return; }
  if (n == "strcmp" || n == "strncmp" || n == "strcasecmp") { AbsStr a = strOfPtr(S, A[0], I, "strcmp"), b = strOfPtr(S, A[1], I, "strcmp"); if (a.exact && b.exact) { int r; if (n == "strncmp") { Lin k = U64(2); if (!k.isConst()) { ret(S, freshInt(32)); return; } r = strncmp(a.lit.c_str(), b.lit.c_str(), (size_t)k.c); } else r = n == "strcmp" ? strcmp(a.lit.c_str(), b.lit.c_str()) : strcasecmp(a.lit.c_str(), b.lit.c_str()); ret(S, mkInt(32, Lin((i128)(r < 0 ? -1 : r > 0)))); } else ret(S, mkInt(32, fresh(-255, 255, "cmp"))); return; }
  if (n == "memcmp") { Lin k = U64(2); Acc a1, b1; if (k.isConst() && k.c <= 256) { derefPtr(S, A[0], k, false, I, a1); for (auto &x : a1) { b1.clear(); derefPtr(x.first, A[1], k, false, I, b1); for (auto &y : b1) { int r = 0; bool known = true; for (i64 j = 0; j < (i64)k.c && !r && known; j++) { AbsVal u = loadAt(y.first, {x.second.o, x.second.off + Lin(j)}, 1, I), w = loadAt(y.first, {y.second.o, y.second.off + Lin(j)}, 1, I); if (u.k != V_INT || w.k != V_INT) { known = false; break; } Lin p = norm(y.first, asU(y.first, u.l, 8)), q = norm(y.first, asU(y.first, w.l, 8)); if (p == q) continue; if (p.isConst() && q.isConst()) r = p.c < q.c ? -1 : 1; else known = false; } ret(y.first, mkInt(32, known ? Lin((i128)r) : fresh(-255, 255, "cmp"))); } } return; }
    ret(S, mkInt(32, fresh(-255, 255, "cmp"))); return; }
  if (n == "strstr" || n == "strchr" || n == "strrchr" || n == "strtok") { if (n == "strstr") { AbsStr a = strOfPtr(S, A[0], I, n.c_str()), b = strOfPtr(S, A[1], I, n.c_str()); if (a.exact && b.exact) { size_t p = a.lit.find(b.lit); if (p == std::string::npos) ret(S, mkNull()); else { AbsVal r = A[0]; for (auto &t : r.t) t.off.c += p; ret(S, r); } return; } }
    State z = S; ret(z, mkNull()); AbsVal r = A[0]; if (r.k == V_PTR && r.t.size() == 1 && r.t[0].o) { AbsStr a = strOfPtr(S, A[0], I, n.c_str()); Sym s = mkAtom(0, pow2(40), "pos"); S.num.assumeLE(Lin::sym(s) - a.len); r.t[0].off = r.t[0].off + Lin::sym(s); ret(S, r); } return; }
  if (n == "vsnprintf" || n == "vsprintf" || n == "vfprintf") { // the list leads to the arguments
    int b = n == "vsnprintf" ? 2 : 1; Acc acc; derefPtr(S, A[b + 1], Lin(24), false, I, acc);
    for (auto &x : acc) { State q = x.first; AbsVal lp = loadAt(q, {x.second.o, x.second.off + Lin(16)}, 8, I); std::vector<AbsVal> as; if (lp.k != V_PTR || lp.t.size() != 1 || !lp.t[0].o) { alarm("imprecise", I, "argument list is not known"); continue; }
      const ObjSt st = objGet(q, lp.t[0].o); for (auto &cl : st.c->cells) as.push_back(cl.second.v);
      AbsStr f = strOfPtr(q, A[b], I, n.c_str()); AbsStr s; if (!f.exact) { alarm("format", I, "format string is not a constant"); s.len = fresh(0, 4096); s.tag.ok = false; } else s = fmtEval(q, f.lit, as, I); STAT["formats"]++;
      if (n == "vfprintf") { if (A[0].k == V_PTR && A[0].t.size() == 1 && A[0].t[0].o && OBJ[A[0].t[0].o].name != "stderr_stream") event("stdout", I, "writes to standard output: " + f.lit); ret(q, mkInt(32, s.len)); continue; }
      doSnprintf(q, A[0], b == 2 ? U64(1) : Lin(0), b == 2, s, I, out); }
    return; }
  if (n == "snprintf" || n == "sprintf") { int b = n == "snprintf" ? 2 : 1; AbsStr f = strOfPtr(S, A[b], I, n.c_str()); AbsStr s; if (!f.exact) { if (f.safe == false && A.size() == (size_t)b + 1) {} alarm("format", I, "format string is not a constant"); s.len = fresh(0, 4096); s.tag.ok = false; } else s = fmtEval(S, f.lit, std::vector<AbsVal>(A.begin() + b + 1, A.end()), I); STAT["formats"]++; Lin sz = b == 2 ? U64(1) : Lin(0); doSnprintf(S, A[0], sz, b == 2, s, I, out); return; }
  if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fputs" || n == "fputc" || n == "putc" || n == "perror" || n == "fwrite" || n == "vprintf") {
    bool toOut = n == "printf" || n == "puts" || n == "putchar"; int fi = n == "printf" ? 0 : n == "fprintf" ? 1 : -1;
    std::string stream; if (n[0] == 'f' || n == "putc") { const AbsVal &st = n == "fprintf" ? A[0] : A.back(); if (st.k == V_PTR && st.t.size() == 1 && st.t[0].o) stream = OBJ[st.t[0].o].name; if (stream != "stderr_stream") toOut = true; }
    std::string txt = "?"; AbsStr s; s.len = fresh(0, 4096);
    if (fi >= 0) { AbsStr f = strOfPtr(S, A[fi], I, n.c_str()); if (f.exact) { s = fmtEval(S, f.lit, std::vector<AbsVal>(A.begin() + fi + 1, A.end()), I); txt = f.lit; } else alarm("format", I, "format string is not a constant"); }
    else if (n == "puts" || n == "fputs" || n == "perror") { s = strOfPtr(S, A[0], I, n.c_str()); }
    if (n == "perror") toOut = false;
    if (toOut) event("stdout", I, "writes to standard output: " + txt);
    // let the harness observe output
    if (Function *G = MOD->getFunction(toOut ? "model_on_stdout" : "model_on_stderr")) { if (!G->isDeclaration()) { for (auto &o : execFunc(G, S, {}, CB)) ret(o.s, mkInt(rw, s.len)); return; } }
    ret(S, CB->getType()->isVoidTy() ? AbsVal() : mkInt(rw, s.len)); return; }
  if (n == "fflush" || n == "setbuf" || n == "setvbuf") { ret(S, mkInt(32, Lin(0))); return; }
  if (n == "abs" || n == "labs" || n == "llabs") { Lin x = S64(0); int w = A[0].w; Itv r = S.num.range(x); if (r.lo >= 0) ret(S, mkInt(w, x)); else if (r.hi <= 0) { if (r.lo <= -pow2(w - 1)) alarm("overflow", I, "abs() of the most negative value"); ret(S, mkInt(w, linScale(x, -1))); } else { State p = S, q = S; if (p.num.assumeLE(linScale(x, -1))) ret(p, mkInt(w, x)); if (q.num.assumeLE(x + Lin(1))) { if (r.lo <= -pow2(w - 1)) alarm("overflow", I, "abs() of the most negative value"); ret(q, mkInt(w, linScale(x, -1))); } } return; }
  if (n == "pow" || n == "floor" || n == "ceil" || n == "fabs" || n == "round" || n == "sqrt") { double x, y = 0; bool c = A[0].k == V_FLT && isFConst(A[0].l.t[0].first, x) && (A.size() < 2 || (A[1].k == V_FLT && isFConst(A[1].l.t[0].first, y))); if (c) { double r = n == "pow" ? pow(x, y) : n == "floor" ? floor(x) : n == "ceil" ? ceil(x) : n == "fabs" ? fabs(x) : n == "round" ? round(x) : sqrt(x); ret(S, mkFlt(64, fconst(r))); } else { std::vector<Lin> as; bool ok = true; for (auto &a : A) { if (a.k != V_FLT) ok = false; else as.push_back(a.l); } if (ok) { i64 h = 0; for (char ch : n) h = h * 131 + ch; ret(S, mkFlt(64, mkExpr(E_FOP, 64, as, {h}, 0, 1))); } else ret(S, topOf(CB->getType())); } return; }
  if (n == "__ctype_b_loc") { static ObjId tab = 0, cellp = 0; if (!tab) { tab = newObj(K_CONST, "ctype"); OBJ[tab].isize = Lin(768); auto c = newContent(S_UNK, 0, 0); auto by = std::make_shared<std::string>(768, '\0'); const unsigned short *t = *__ctype_b_loc(); for (int i = 0; i < 384; i++) { (*by)[2 * i] = t[i - 128] & 255; (*by)[2 * i + 1] = t[i - 128] >> 8; } Seg s; s.lo = 0; s.hi = 768; s.k = S_BYTES; s.by = by; segSet(*c, s); OBJ[tab].init = c; cellp = newObj(K_CONST, "ctype_ptr"); OBJ[cellp].isize = Lin(8); auto d = newContent(S_UNK, 0, 0); d->cells[0] = Cell{8, mkPtr(tab, Lin(256))}; OBJ[cellp].init = d; } ret(S, mkPtr(cellp, Lin(0))); return; }
  if (n == "toupper" || n == "tolower") { Lin x = asS(S, L(0), 32); if (x.isConst()) ret(S, mkInt(32, Lin((i128)(n == "toupper" ? toupper((int)x.c) : tolower((int)x.c))))); else { bool up = n == "toupper"; Itv r = S.num.range(x); i128 lo = up ? 'a' : 'A', hi = up ? 'z' : 'Z'; if (r.hi < lo || r.lo > hi) ret(S, mkInt(32, x)); else if (r.lo >= lo && r.hi <= hi) ret(S, mkInt(32, x + Lin((i128)(up ? -32 : 32)))); else ret(S, mkInt(32, fresh(0, 255))); } return; }
  if (n == "isxdigit" || n == "isdigit" || n == "isprint" || n == "iscntrl" || n == "isalnum" || n == "isspace" || n == "isupper" || n == "isalpha") { Lin x = asS(S, L(0), 32); auto fn = [&](int c) -> int { return n == "isxdigit" ? isxdigit(c) : n == "isdigit" ? isdigit(c) : n == "isprint" ? isprint(c) : n == "iscntrl" ? iscntrl(c) : n == "isalnum" ? isalnum(c) : n == "isspace" ? isspace(c) : n == "isupper" ? isupper(c) : isalpha(c); };
    Itv r = S.num.range(x); if (r.lo < -1 || r.hi > 255) { alarm("ctype", I, n + " argument outside of unsigned char"); ret(S, mkInt(32, fresh(0, 1))); return; }
    // split into maximal runs with the same answer
    i128 a = r.lo; while (a <= r.hi) { bool v = a < 0 ? false : fn((int)a); i128 b = a; while (b + 1 <= r.hi && ((b + 1 < 0 ? false : (bool)fn((int)(b + 1))) == v)) b++; State s = S; if (s.num.assumeLE(Lin(a) - x) && s.num.assumeLE(x - Lin(b))) ret(s, mkInt(32, Lin(v ? 1 : 0))); a = b + 1; } return; }
  if (n == "strtol" || n == "strtoul" || n == "strtoll" || n == "atoi" || n == "atol") { AbsStr s = strOfPtr(S, A[0], I, n.c_str()); bool hasEnd = A.size() > 1 && A[1].k == V_PTR && A[1].t.size() == 1 && A[1].t[0].o;
    if (s.exact) { const char *b = s.lit.c_str(); char *e; Lin base = A.size() > 2 ? S64(2) : Lin(10); long long v = (n[0] == 'a') ? strtol(b, &e, 10) : n == "strtoul" ? (long long)strtoul(b, &e, (int)base.c) : strtoll(b, &e, (int)base.c); if (hasEnd) { AbsVal p = A[0]; p.t[0].off.c += e - b; storeAt(S, A[1].t[0], p, 8); } ret(S, mkInt(rw, linMod(Lin((i128)v), rw))); return; }
    if (hasEnd) { AbsVal p = A[0]; if (p.k == V_PTR && p.t.size() == 1) { Sym k = mkAtom(0, pow2(40), "endp"); S.num.assumeLE(Lin::sym(k) - s.len); p.t[0].off = p.t[0].off + Lin::sym(k); storeAt(S, A[1].t[0], p, 8); } }
    i128 lo = -pow2(rw - 1), hi = pow2(rw - 1) - 1; if (n == "strtol" || n == "atoi") {} ret(S, mkInt(rw, fresh(lo, hi, "num"))); return; }
  if (n == "atof" || n == "strtod") { ret(S, mkFlt(64, mkAtom(0, 1, "dbl"))); return; }
  if (n == "time") { if (A[0].k == V_PTR && A[0].t.size() == 1 && A[0].t[0].o) { AbsVal v = mkInt(64, fresh(0, pow2(36), "time")); Acc a; derefPtr(S, A[0], Lin(8), true, I, a); for (auto &x : a) { storeAt(x.first, x.second, v, 8); ret(x.first, v); } } else ret(S, mkInt(64, fresh(0, pow2(36), "time"))); return; }
  if (n == "localtime" || n == "gmtime") { static ObjId tm = 0; if (!tm) { tm = newObj(K_GLOBAL, "struct tm"); OBJ[tm].isize = Lin(56); OBJ[tm].init = newContent(S_UNK, 0, 0); } Acc a; derefPtr(S, A[0], Lin(8), false, I, a); for (auto &x : a) { static const int lo[9] = {0, 0, 0, 1, 0, -1900, 0, 0, 0}, hi[9] = {60, 59, 23, 31, 11, 8099, 6, 365, 1}; for (int i = 0; i < 9; i++) storeAt(x.first, {tm, Lin(4 * i)}, mkInt(32, fresh(lo[i], hi[i], "tm")), 4); ret(x.first, mkPtr(tm, Lin(0))); } return; }
  if (n == "mktime") { ret(S, mkInt(64, fresh(-1, pow2(36), "time"))); return; }
  if (n == "strftime") { AbsStr f = strOfPtr(S, A[2], I, "strftime"); (void)f; Lin mx = U64(1); Sym k = mkAtom(1, 64, "ftime"); AbsStr s; s.len = Lin::sym(k); s.safe = true; s.tag = TagFx(); State z = S; bool full = S.num.ub(mx) < 65; if (full) S.num.assumeLE(s.len + Lin(1) - mx);
    i128 expect = -1; if (f.exact) { int e = 0; bool ok = true; for (size_t i = 0; i < f.lit.size(); i++) { if (f.lit[i] != '%') { e++; continue; } i++; switch (f.lit[i]) { case 'Y': e += 4; break; case 'm': case 'd': case 'H': case 'M': case 'S': case 'y': e += 2; break; case '%': e++; break; case 'T': e += 8; break; case 'F': e += 10; break; default: ok = false; } } if (ok) expect = e; }
    if (expect >= 0) { s.len = Lin(expect); if (S.num.lb(mx) <= expect) alarm("trunc", I, "strftime result does not fit"); }
    Acc a; derefPtr(S, A[0], norm(S, s.len + Lin(1)), true, I, a); for (auto &x : a) { putStr(x.first, x.second, s); ret(x.first, mkInt(64, norm(x.first, s.len))); } return; }
  if (n == "__assert_fail" || n == "abort") { alarm("abort", I, "the library can abort the process" + (A.size() ? std::string(": ") + litArg(S, A[0], I) : "")); return; }
  if (n == "exit" || n == "_exit") { alarm("exit", I, "exit called"); if (Function *G = MOD->getFunction("model_on_exit")) if (!G->isDeclaration()) execFunc(G, S, A, CB); return; }
  if (n == "strerror") { static ObjId se = 0; if (!se) { se = newObj(K_CONST, "strerror"); OBJ[se].isize = Lin(64); auto c = newContent(S_UNK); StrInfo si; si.start = Lin(0); si.s.len = fresh(1, 60); si.s.safe = true; c->strs.push_back(si); OBJ[se].init = c; } ret(S, mkPtr(se, Lin(0))); return; }
  if (n == "__errno_location") { static ObjId en = 0; if (!en) { en = newObj(K_GLOBAL, "errno"); OBJ[en].isize = Lin(4); OBJ[en].init = newContent(S_UNK); } ret(S, mkPtr(en, Lin(0))); return; }
  UNMODELLED.insert(n);
  ret(S, CB->getType()->isVoidTy() ? AbsVal() : topOf(CB->getType()));
}
