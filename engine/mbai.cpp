// mbai - abstract interpreter over LLVM IR, specialised for libmbus.
// Interprets every function of the linked program in context (calls are followed, including
// indirect ones), with affine forms over symbols + intervals + difference bounds as the numeric
// domain, a field-sensitive memory model with recency abstraction, abstract strings (length,
// exact text, markup effect) and widening/narrowing at loops.  Nothing is executed.
#include "state.h"
#include <cmath>
#include <ctime>
#include <unistd.h>
#include <cctype>
std::vector<Expr> EX; std::map<ExprKey, Sym> EXIDX; int VERCTR = 0; std::vector<ObjInfo> OBJ;
typedef std::vector<State> States;
struct Out { State s; AbsVal v; };
static LLVMContext CTX; static std::unique_ptr<Module> MOD; static const DataLayout *DL;
static bool optHistory = false; static int optUnroll = 2, optCap = 48, optK = 3, optMaxFree = 3000; static bool optLeak = false, optPaths = false, optLoopPaths = false, optOom = false, optVerbose = false, optNoTrunc=false;
static int noRec = 0; // >0: fixpoint iteration in progress, alarms suppressed
static std::set<std::string> overrides, overridesRec;
static i64 optBudget = 0, optLimit = 0; static i64 stepCount = 0;

struct Alarm { std::string cat, func, file, msg; int line; std::string chain; };
static std::vector<Alarm> ALARMS; static std::set<std::pair<std::string, const void *>> alarmSeen;
static std::map<std::string, int> COVER; static std::vector<std::string> LOGS; static std::set<std::string> LOGSEEN;
static std::map<std::string, i64> STAT; static std::set<const Function *> FUNCS; static std::set<const Instruction *> ISEEN;
static std::set<std::string> UNMODELLED;
static std::vector<const Instruction *> callSites;

static std::string locOf(const Instruction *I) {
  if (!I) return "?"; auto &d = I->getDebugLoc(); if (!d) return I->getFunction()->getName().str();
  return (d->getFilename() + ":" + std::to_string(d.getLine())).str();
}
static void alarm(const std::string &cat, const Instruction *I, const std::string &msg) {
  if (noRec) return;
  if (!alarmSeen.insert({cat, I}).second) return;
  Alarm a; a.cat = cat; a.msg = msg; a.func = I ? I->getFunction()->getName().str() : ""; a.line = 0;
  if (I && I->getDebugLoc()) { a.file = I->getDebugLoc()->getFilename().str(); a.line = I->getDebugLoc().getLine(); }
  for (auto s : callSites) { if (!a.chain.empty()) a.chain += " > "; a.chain += locOf(s); }
  ALARMS.push_back(a);
  if (optVerbose) fprintf(stderr, "ALARM %s %s:%d (%s) %s [%s]\n", cat.c_str(), a.file.c_str(), a.line, a.func.c_str(), msg.c_str(), a.chain.c_str());
}

// ---------------------------------------------------------------- numeric helpers
static Lin norm(State &S, const Lin &l) {
  if (l.t.empty()) return l;
  bool any = false;
  for (auto &p : l.t) { Itv i = S.num.get(p.first); if (i.single()) { any = true; break; } }
  if (!any) return l;
  Lin r; r.c = l.c;
  for (auto &p : l.t) { Itv i = S.num.get(p.first); if (i.single()) r.c += p.second * i.lo; else r.t.push_back(p); }
  return r;
}
static Lin asU(State &S, const Lin &l0, int w) {
  Lin l = norm(S, l0);
  i128 m = pow2(w);
  if (l.isConst()) return Lin(modp(l.c, m));
  Itv r = S.num.range(l);
  if (r.lo >= 0 && r.hi < m) return l;
  if (r.lo > -INF && r.hi < INF) { i128 k = floordiv(r.lo, m); if (r.hi - k * m < m) return l - Lin(k * m); }
  Lin c = linMod(l, w);
  if (c.isConst()) return c;
  r = S.num.range(c); if (r.lo >= 0 && r.hi < m) return c;
  if (r.lo > -INF && r.hi < INF) { i128 k = floordiv(r.lo, m); if (r.hi - k * m < m) return c - Lin(k * m); }
  c = linFlat(c, w); if (c.isConst()) return c; if (c.isSym1() && c.c == 0) { r = S.num.range(c); if (r.lo >= 0 && r.hi < m) return c; }
  return Lin::sym(mkExpr(E_MODU, w, {c}, {}, 0, m - 1));
}
static Lin asS(State &S, const Lin &l0, int w) {
  Lin l = norm(S, l0);
  i128 m = pow2(w), h = pow2(w - 1);
  if (l.isConst()) { i128 v = modp(l.c, m); if (v >= h) v -= m; return Lin(v); }
  Itv r = S.num.range(l);
  if (r.lo >= -h && r.hi < h) return l;
  if (r.lo > -INF && r.hi < INF) { i128 k = floordiv(r.lo + h, m); if (r.hi - k * m < h) return l - Lin(k * m); }
  Lin c = linMod(l, w);
  r = S.num.range(c); if (r.lo >= -h && r.hi < h) return c;
  if (r.lo > -INF && r.hi < INF) { i128 k = floordiv(r.lo + h, m); if (r.hi - k * m < h) return c - Lin(k * m); }
  c = linFlat(c, w); if (c.isConst()) return asS(S, c, w);
  return Lin::sym(mkExpr(E_MODS, w, {c}, {}, -h, h - 1));
}
static Lin fresh(i128 lo, i128 hi, const std::string &n = "") { if (lo == hi) return Lin(lo); return Lin::sym(mkAtom(lo, hi, n)); }
static AbsVal freshInt(int w, const std::string &n = "") { return mkInt(w, fresh(0, pow2(w) - 1, n)); }
// the symbol for an expression; narrows its interval in S
static Lin exprIn(State &S, EK k, int w, std::vector<Lin> args, std::vector<i64> x, i128 lo, i128 hi, i128 dlo, i128 dhi) {
  if (lo == hi) return Lin(lo);
  Sym s = mkExpr(k, w, args, x, dlo, dhi);
  bool ch = false; S.num.setItv(s, {lo, hi}, ch);
  Itv i = S.num.get(s); if (i.single()) return Lin(i.lo);
  return Lin::sym(s);
}
static Lin condToLin(State &S, const Cond &c);
static int condDecide(State &S, const Cond &c) {
  switch (c.op) {
    case 4: return c.d.c ? 1 : 0;
    case 0: if (S.num.ub(c.d) <= 0) return 1; if (S.num.lb(c.d) > 0) return 0; return -1;
    case 1: case 2: {
      i128 l = S.num.lb(c.d), u = S.num.ub(c.d); int r = -1;
      if (l == 0 && u == 0) r = 1; else if (l > 0 || u < 0) r = 0;
      else { Num n = S.num; if (!n.assumeEQ(c.d)) r = 0; }
      if (r < 0) return -1; return c.op == 1 ? r : !r; }
    case 3: { auto it = S.num.fact.find(c.s); if (it == S.num.fact.end()) return -1; return c.neg ? !it->second : it->second; }
    default: return -1;
  }
}
static void ptrFilter(State &S, int pid, bool null) {
  auto fix = [&](AbsVal &v) { if (v.k == V_PTR && v.pid == pid) { std::vector<Tgt> n; for (auto &t : v.t) if ((t.o == 0) == null) n.push_back(t); v.t = n; if (n.size() <= 1) v.pid = 0; } };
  for (auto &f : S.stack) { bool has = false; for (auto &e : f->env) if (e.second.k == V_PTR && e.second.pid == pid) { has = true; break; }
    if (!has) continue; if (f.use_count() > 1) f = std::make_shared<Frame>(*f); for (auto &e : f->env) fix(e.second); }
  for (auto &m : S.mem) { bool has = false; for (auto &c : m.second.c->cells) if (c.second.v.k == V_PTR && c.second.v.pid == pid) has = true;
    if (!has) continue; if (m.second.c.use_count() > 1) m.second.c = std::make_shared<Content>(*m.second.c); for (auto &c : m.second.c->cells) fix(c.second.v); }
}
static bool assumeCond(State &S, const Cond &c, bool val) {
  switch (c.op) {
    case 4: return (c.d.c != 0) == val;
    case 0: return val ? S.num.assumeLE(norm(S, c.d)) : S.num.assumeLE(Lin(1) - norm(S, c.d));
    case 1: return val ? S.num.assumeEQ(norm(S, c.d)) : S.num.assumeNE(norm(S, c.d));
    case 2: return val ? S.num.assumeNE(norm(S, c.d)) : S.num.assumeEQ(norm(S, c.d));
    case 3: { bool v = c.neg ? !val : val; auto it = S.num.fact.find(c.s); if (it != S.num.fact.end()) return it->second == (int)v; S.num.fact[c.s] = v; return true; }
    case 5: ptrFilter(S, c.pid, c.neg ? !val : val); return true;
  }
  return true;
}
static AbsVal condNot(const AbsVal &v) {
  AbsVal r = v; r.c = std::make_shared<Cond>(*v.c);
  switch (v.c->op) { case 0: r.c->d = Lin(1) - v.c->d; break; case 1: r.c->op = 2; break; case 2: r.c->op = 1; break; case 4: r.c->d = Lin(v.c->d.c ? 0 : 1); break; default: r.c->neg = !r.c->neg; }
  return r;
}
static Lin condToLin(State &S, const Cond &c) {
  int d = condDecide(S, c); if (d >= 0) return Lin(d);
  if (c.op == 0) return Lin::sym(mkExpr(E_BOOL, 1, {c.d}, {0}, 0, 1));
  if (c.op == 1) return Lin::sym(mkExpr(E_BOOL, 1, {c.d}, {1}, 0, 1));
  if (c.op == 2) return Lin(1) - Lin::sym(mkExpr(E_BOOL, 1, {c.d}, {1}, 0, 1));
  return fresh(0, 1, "b");
}
static AbsVal opaqueCond(Sym s) { AbsVal v; v.k = V_COND; v.w = 1; v.c = std::make_shared<Cond>(); v.c->op = 3; v.c->s = s; return v; }
static Lin toLin(State &S, const AbsVal &v) {
  if (v.k == V_COND) return condToLin(S, *v.c);
  if (v.k == V_INT) return norm(S, v.l);
  return Lin(fresh(0, pow2(v.w ? v.w : 64) - 1, "u"));
}
static AbsVal toCond(State &S, const AbsVal &v) {
  if (v.k == V_COND) return v;
  if (v.k == V_INT) { Lin l = asU(S, v.l, v.w); return mkCond(2, l); }
  return opaqueCond(mkAtom(0, 1, "nd"));
}
// ---------------------------------------------------------------- objects
static std::map<std::pair<const Value *, std::pair<u64, int>>, ObjId> objIdx;
static std::map<const Value *, ObjId> globIdx;
static ObjId newObj(OKind k, const std::string &n) { ObjInfo o; o.k = k; o.name = n; OBJ.push_back(o); return OBJ.size() - 1; }
static std::shared_ptr<Content> newContent(SK k, int bl = 0, int bh = 255) {
  auto c = std::make_shared<Content>(); Seg s; s.lo = 0; s.hi = INT64_MAX; s.k = k; s.ver = ++VERCTR; s.bl = bl; s.bh = bh; c->segs.push_back(s); c->ver = ++VERCTR; return c;
}
static AbsVal constVal(const Constant *C);
static void putConst(Content &c, i64 off, const Constant *C);
static void segSet(Content &c, Seg n) {
  std::vector<Seg> r;
  for (auto &s : c.segs) {
    if (s.hi <= n.lo || s.lo >= n.hi) { r.push_back(s); continue; }
    if (s.lo < n.lo) { Seg a = s; a.hi = n.lo; r.push_back(a); }
    if (s.hi > n.hi) { Seg a = s; a.lo = n.hi; if (a.k == S_BYTES) a.bo += n.hi - s.lo; r.push_back(a); }
  }
  r.push_back(n);
  std::sort(r.begin(), r.end(), [](const Seg &a, const Seg &b) { return a.lo < b.lo; });
  c.segs = r;
}
// --history: does this variable of the library hold what an earlier call left there?  Buffers, tables and static locals do; a
// scalar of the file does unless only functions that set it for the user (no pointer, not called by the library) write it
static bool carriesHistory(const GlobalVariable *G) {
  if (G->isConstant() || !G->hasInitializer()) return false;
  SmallVector<DIGlobalVariableExpression *, 1> D; G->getDebugInfo(D); if (D.empty()) return false;
  auto *V = D[0]->getVariable(); if ((V->getDirectory() + "/" + V->getFilename()).str().find("/harness") != std::string::npos && !G->getName().starts_with("st_hist")) return false;
  if (!G->getInitializer()->isNullValue() && !G->getValueType()->isSingleValueType()) return false; // a table: watched instead
  std::vector<const Value *> work{G}; std::set<const Value *> seen; bool written = false, setters = true; std::set<const Function *> give, use;
  while (!work.empty()) { const Value *v = work.back(); work.pop_back(); if (!seen.insert(v).second) continue;
    for (auto *u : v->users()) {
      if (isa<ConstantExpr>(u) || isa<GetElementPtrInst>(u) || isa<BitCastInst>(u)) { work.push_back(u); continue; }
      auto *I = dyn_cast<Instruction>(u); if (!I || isa<LoadInst>(I)) continue;
      const Function *F = I->getFunction(); if (isa<ReturnInst>(I)) { give.insert(F); continue; }
      written = true; use.insert(F);
      for (auto &a : F->args()) if (a.getType()->isPointerTy()) setters = false;
      for (auto *c : F->users()) if (auto *ci = dyn_cast<CallBase>(c)) { auto *SP = ci->getFunction()->getSubprogram(); if (SP && (SP->getDirectory() + "/" + SP->getFilename()).str().find("/harness") == std::string::npos) setters = false; } } }
  if (!written) return false;
  if (!isa<DISubprogram>(V->getScope())) for (auto *F : give) if (!use.count(F)) return false; // the text of the last error: kept for a function that hands it out
  if (!isa<DISubprogram>(V->getScope()) && G->getValueType()->isSingleValueType() && setters) return false; // a setting
  STAT["history_vars"]++; return true;
}
static ObjId globalObj(const GlobalVariable *G) {
  auto it = globIdx.find(G); if (it != globIdx.end()) return it->second;
  ObjId o = newObj(G->isConstant() ? K_CONST : K_GLOBAL, G->getName().str()); globIdx[G] = o;
  OBJ[o].v = G; i64 sz = DL->getTypeAllocSize(G->getValueType()); OBJ[o].isize = Lin(sz);
  auto c = newContent(S_UNK);
  if (G->hasInitializer()) { c = newContent(S_UNK, 0, 0); putConst(*c, 0, G->getInitializer()); }
  if (optHistory && carriesHistory(G)) c = newContent(S_UNINIT);
  OBJ[o].init = c; return o;
}
static ObjId funcObj(Function *F) {
  auto it = globIdx.find(F); if (it != globIdx.end()) return it->second;
  ObjId o = newObj(K_FUNC, F->getName().str()); OBJ[o].fn = F; globIdx[F] = o; OBJ[o].isize = Lin(1); OBJ[o].init = newContent(S_UNK); return o;
}
static void putConst(Content &c, i64 off, const Constant *C) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    if (D->getElementType()->isIntegerTy(8)) { StringRef r = D->getRawDataValues(); Seg s; s.lo = off; s.hi = off + (i64)r.size(); s.k = S_BYTES; s.by = std::make_shared<std::string>(r.str()); s.bo = 0; segSet(c, s); return; }
    i64 es = DL->getTypeAllocSize(D->getElementType());
    for (unsigned i = 0; i < D->getNumElements(); i++) putConst(c, off + i * es, D->getElementAsConstant(i));
    return;
  }
  if (auto *A = dyn_cast<ConstantArray>(C)) { i64 es = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) putConst(c, off + i * es, A->getOperand(i)); return; }
  if (auto *A = dyn_cast<ConstantStruct>(C)) { auto *L = DL->getStructLayout(A->getType()); for (unsigned i = 0; i < A->getNumOperands(); i++) putConst(c, off + L->getElementOffset(i), A->getOperand(i)); return; }
  AbsVal v = constVal(C); if (v.k == V_UNDEF) return;
  c.cells[off] = Cell{(int)DL->getTypeStoreSize(T), v};
}
static Sym fconst(double d) { i64 b; memcpy(&b, &d, 8); return mkExpr(E_FCONST, 64, {}, {b}, 0, 0); }
static bool isFConst(Sym s, double &d) { if (EX[s].k != E_FCONST) return false; memcpy(&d, &EX[s].x[0], 8); return true; }
static AbsVal constVal(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) { int w = I->getBitWidth(); if (w == 1) return mkBool(I->isOne()); if (w <= 64) return mkInt(w, Lin((i128)I->getSExtValue())); return freshInt(64); }
  if (auto *F = dyn_cast<ConstantFP>(C)) { return mkFlt(F->getType()->isFloatTy() ? 32 : 64, fconst(F->getType()->isFloatTy() ? (double)F->getValueAPF().convertToFloat() : F->getType()->isDoubleTy() ? F->getValueAPF().convertToDouble() : 0.0)); }
  if (isa<ConstantPointerNull>(C)) return mkNull();
  if (auto *G = dyn_cast<GlobalVariable>(C)) return mkPtr(globalObj(G), Lin(0));
  if (auto *F = dyn_cast<Function>(C)) return mkPtr(funcObj(const_cast<Function *>(F)), Lin(0));
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    if (E->getOpcode() == Instruction::GetElementPtr) { AbsVal b = constVal(E->getOperand(0)); APInt off(64, 0); if (cast<GEPOperator>(E)->accumulateConstantOffset(*DL, off)) { for (auto &t : b.t) t.off.c += off.getSExtValue(); return b; } }
    if (E->isCast()) { AbsVal b = constVal(E->getOperand(0)); if (E->getOpcode() == Instruction::IntToPtr) { if (b.k == V_INT && b.l.isConst() && b.l.c == 0) return mkNull(); return mkTop(64); } return b; }
  }
  if (isa<UndefValue>(C)) { AbsVal v; v.w = C->getType()->isIntegerTy() ? C->getType()->getIntegerBitWidth() : 64; return v; }
  return mkTop(64);
}
static ObjSt &objRef(State &S, ObjId o) {
  auto it = S.mem.find(o); if (it != S.mem.end()) return it->second;
  ObjSt st; st.c = OBJ[o].init; st.size = OBJ[o].isize; return S.mem[o] = st;
}
static const ObjSt objGet(const State &S, ObjId o) {
  auto it = S.mem.find(o); if (it != S.mem.end()) return it->second;
  ObjSt st; st.c = OBJ[o].init; st.size = OBJ[o].isize; if (!st.c) st.st = O_FREED; return st;
}
static Content &objW(State &S, ObjId o) { ObjSt &st = objRef(S, o); if (st.c.use_count() > 1) st.c = std::make_shared<Content>(*st.c); st.c->ver = ++VERCTR; return *st.c; }

// ---------------------------------------------------------------- content access
static AbsVal contGet(State &S, ObjId o, const Content &c, i64 off, int len) {
  auto it = c.cells.find(off);
  if (it != c.cells.end() && it->second.len == len) return it->second.v;
  // overlapping cells?
  bool overlap = false; i64 co = 0; const Cell *cc = nullptr;
  { auto j = c.cells.lower_bound(off - 16); for (; j != c.cells.end() && j->first < off + len; ++j) if (j->first + j->second.len > off) { overlap = true; if (j->first <= off && off + len <= j->first + j->second.len) { cc = &j->second; co = j->first; } } }
  if (cc) {
    if (cc->v.k == V_UNDEF) { AbsVal u; u.w = len * 8; return u; }
    if (cc->v.k == V_INT || cc->v.k == V_COND) { Lin l = asU(S, toLin(S, cc->v), cc->len * 8); int sh = (off - co) * 8;
      if (l.isConst()) return mkInt(len * 8, Lin((l.c >> sh) & (pow2(len * 8) - 1)));
      if (sh == 0) return mkInt(len * 8, l);
      Itv r = S.num.range(l); i128 k = pow2(sh);
      return mkInt(len * 8, exprIn(S, E_LSHR, cc->len * 8, {l, Lin(sh)}, {}, r.lo / k, r.hi / k, 0, pow2(cc->len * 8 - sh) - 1)); }
    if (cc->v.k == V_FLT && cc->len == len) return cc->v;
    return freshInt(len * 8, "bytes");
  }
  if (!overlap) {
    for (auto &s : c.segs) if (s.lo <= off && off + len <= s.hi) {
      if (s.k == S_UNINIT) { AbsVal u; u.w = len * 8; return u; }
      if (s.k == S_BYTES) { i128 v = 0; for (int i = len - 1; i >= 0; i--) v = v * 256 + (unsigned char)(*s.by)[s.bo + off - s.lo + i]; return mkInt(len * 8, Lin(v)); }
      if (s.bl == s.bh) { i128 v = 0; for (int i = 0; i < len; i++) v = v * 256 + s.bl; return mkInt(len * 8, Lin(v)); }
      Sym y = mkExpr(E_FILL, len * 8, {}, {o, s.ver, off, len}, len == 1 ? s.bl : 0, len == 1 ? s.bh : pow2(len * 8) - 1);
      return mkInt(len * 8, norm(S, Lin::sym(y)));
    }
  }
  if (len > 8 || len == 1) { if (len == 1) { AbsVal u; u.w = 8; return u; } return mkTop(len * 8); }
  Lin r(0);
  for (int i = 0; i < len; i++) { AbsVal b = contGet(S, o, c, off + i, 1); if (b.k == V_UNDEF) { b.w = len * 8; return b; } r = r + linScale(asU(S, toLin(S, b), 8), pow2(8 * i)); }
  return mkInt(len * 8, r);
}
// byte hull of a region (for weak updates)
static void regionHull(State &S, const Content &c, i64 lo, i64 hi, int &bl, int &bh, bool &mu) {
  for (auto &s : c.segs) { i64 a = std::max(lo, s.lo), b = std::min(hi, s.hi); if (a >= b) continue;
    i64 cov = 0; for (auto j = c.cells.lower_bound(a - 16); j != c.cells.end() && j->first < b; ++j) { i64 x = std::max(a, j->first), y = std::min(b, j->first + j->second.len); if (x < y) cov += y - x; }
    if (cov >= b - a) continue; // every byte has been written since
    if (s.k == S_UNINIT) { mu = true; continue; }
    if (s.k == S_UNK) { bl = std::min(bl, s.bl); bh = std::max(bh, s.bh); mu |= s.mu; }
    else for (i64 i = a; i < b; i++) { int v = (unsigned char)(*s.by)[s.bo + i - s.lo]; bl = std::min(bl, v); bh = std::max(bh, v); } }
  for (auto j = c.cells.lower_bound(lo - 16); j != c.cells.end() && j->first < hi; ++j) if (j->first + j->second.len > lo) {
    if (j->second.len == 1 && j->second.v.k == V_INT) { Itv r = S.num.range(asU(S, j->second.v.l, 8)); bl = std::min<i128>(bl, r.lo); bh = std::max<i128>(bh, r.hi); }
    else if (j->second.v.k == V_UNDEF) mu = true;
    else { bl = 0; bh = 255; } }
}
static void cellsClobber(State &S, Content &c, i64 lo, i64 hi) { // remove cells overlapping [lo,hi); leftover bytes become unknown
  auto j = c.cells.lower_bound(lo - 16);
  std::vector<std::pair<i64, i64>> rest;
  while (j != c.cells.end() && j->first < hi) {
    if (j->first + j->second.len > lo) {
      i64 a = j->first, b = a + j->second.len;
      if (a < lo || b > hi) { // keep leftover bytes of integer constants, otherwise unknown
        Cell cl = j->second; j = c.cells.erase(j);
        for (i64 q = a; q < b; q++) if (q < lo || q >= hi) {
          if (cl.v.k == V_INT) { Content tmp; tmp.cells[a] = cl; AbsVal bv = contGet(S, -1, tmp, q, 1); c.cells[q] = Cell{1, bv}; }
          else if (cl.v.k == V_UNDEF) { AbsVal u; u.w = 8; c.cells[q] = Cell{1, u}; }
          else c.cells[q] = Cell{1, freshInt(8)}; }
        j = c.cells.lower_bound(hi); break;
      }
      j = c.cells.erase(j);
    } else ++j;
  }
}
static bool xmlSafeLit(const std::string &s) { // text without markup: no raw <, >, ", control bytes; & only as a complete entity
  for (size_t i = 0; i < s.size(); i++) { unsigned char ch = s[i];
    if (ch == '<' || ch == '>' || ch == '"' || (ch < 32 && ch != '\n' && ch != '\t') || ch == 127) return false;
    if (ch == '&') { size_t j = s.find(';', i); if (j == std::string::npos) return false; std::string e = s.substr(i, j - i + 1); if (e != "&amp;" && e != "&lt;" && e != "&gt;" && e != "&quot;" && e != "&apos;") return false; i = j; } }
  return true; }
static int preAt(State &S, const Content &c, const Lin &off) { for (size_t i = 0; i < c.pres.size(); i++) { Lin d = norm(S, c.pres[i].end - off); if ((d.isConst() && d.c == 0) || (!d.isConst() && S.num.ub(d) == 0 && S.num.lb(d) == 0)) return (int)i; } return -1; }
static void preSet(Content &c, const Pre &q) { for (size_t i = 0; i < c.pres.size(); i++) if (c.pres[i].start == q.start) { c.pres.erase(c.pres.begin() + i); break; } if (c.pres.size() >= 4) c.pres.erase(c.pres.begin()); c.pres.push_back(q); }
// string facts that may be affected by a write to [off, off+len)
static void strClobber(State &S, Content &c, const Lin &off, const Lin &len, bool zero1) {
  std::vector<StrInfo> ns; std::vector<Lin> nn;
  for (auto &n : c.nuls) { Lin p = n; if (S.num.ub(p - off) < 0 || S.num.ub(off + len - p) <= 0 || zero1) nn.push_back(n); }
  for (auto &s : c.strs) {
    Lin end = s.start + s.s.len; // NUL position
    if (S.num.ub(end - off) < 0 || S.num.ub(off + len - s.start) <= 0) { ns.push_back(s); continue; }
    if (S.num.ub(end - off) < 0 || S.num.ub(off + len - end) <= 0 || zero1) nn.push_back(end);
  }
  c.strs = ns; c.nuls = nn;
  if (!c.pres.empty()) { std::vector<Pre> np; for (auto &p : c.pres) if (S.num.ub(p.end - off) <= 0 || S.num.ub(off + len - p.start) <= 0) np.push_back(p); c.pres = np; }
}
static Lin fixOff(State &S, const Lin &o) { // an offset with a single possible value is that constant
  Lin off = norm(S, o); if (off.isConst()) return off;
  Itv r = S.num.range(off); if (r.lo > -INF && r.lo == r.hi) return Lin(r.lo);
  i128 a = S.num.lb(off); if (a > -INF && a == S.num.ub(off)) return Lin(a);
  return off; }
static void storeAt(State &S, const Tgt &t, const AbsVal &v, int len) {
  Lin off = fixOff(S, t.off);
  bool summary = OBJ[t.o].summary;
  Content &c = objW(S, t.o);
  bool z = len == 1 && v.k == V_INT && v.l.isConst() && modp(v.l.c, 256) == 0;
  int pi = len == 1 && !summary ? preAt(S, c, off) : -1; Pre pre0; if (pi >= 0) pre0 = c.pres[pi];
  strClobber(S, c, off, Lin(len), z);
  struct PreUpd { State &S; const Tgt &t; Lin off; int pi; Pre p; bool z, summary; int len; const AbsVal &v;
    ~PreUpd() { if (summary || len != 1) return; Content &c = objW(S, t.o);
      if (z) { if (pi >= 0 && !(p.start == p.end)) { if (p.start.isConst() && off.isConst() && off.c - p.start.c <= 64) { bool lit = true, cells = true; std::string tx; for (i128 j = p.start.c; j < off.c && lit; j++) { auto f = c.cells.find((i64)j); if (f == c.cells.end() || f->second.len != 1) cells = false; AbsVal b = contGet(S, t.o, c, (i64)j, 1); Lin bl = norm(S, b.l); lit = b.k == V_INT && bl.isConst(); if (lit) tx += (char)modp(bl.c, 256); } if (lit && cells) return; /* the bytes themselves tell */ if (lit && tx.find('\0') == std::string::npos) { StrInfo y; y.start = p.start; y.s.exact = true; y.s.lit = tx; y.s.len = Lin((i128)tx.size()); if (p.mkd) y.s.tag = tagLex(tx, y.s.hasMarkup); else { y.s.safe = p.safe; y.s.tag = p.fx(); } c.strs.push_back(y); return; } } StrInfo y; y.start = p.start; y.s.len = norm(S, p.end - p.start); y.s.safe = p.safe && !p.mkd; y.s.tag = p.fx(); y.s.hasMarkup = p.mkd; c.strs.push_back(y); } else if (pi < 0) { StrInfo y; y.start = off; y.s.exact = true; y.s.len = Lin(0); y.s.safe = true; y.s.tag = TagFx(); c.strs.push_back(y); } return; }
      if (v.k != V_INT) return; Lin u = asU(S, v.l, 8); Itv r = S.num.range(u); const std::set<i64> *ex = nullptr; if (u.isSym1()) { auto f = S.num.excl.find(u.t[0].first); if (f != S.num.excl.end()) ex = &f->second; }
      bool safe = true, nz = true; for (i128 x = r.lo; x <= r.hi; x++) { if (ex && u.isSym1() && u.c == 0 && u.t[0].second == 1 && ex->count((i64)x)) continue; if (x == 0) nz = false; if (!xmlSafeLit(std::string(1, (char)(int)x))) safe = false; }
      if (getenv("PREDBG")) fprintf(stderr, "pre store %s pi=%d nz=%d safe=%d r=[%s,%s] ex=%zu\n", linStr(u).c_str(), pi, nz, safe, i128s(r.lo).c_str(), i128s(r.hi).c_str(), ex ? ex->size() : 0);
      if (!nz) return; Pre q; if (pi >= 0) { q = p; q.end = norm(S, off + Lin(1)); q.safe = q.safe && safe; if (q.mkd && !safe) q.tag.ok = false; } else { q.start = off; q.end = norm(S, off + Lin(1)); q.safe = safe; }
      preSet(c, q); } } upd{S, t, off, pi, pre0, z, summary, len, v};
  if (off.isConst()) {
    i64 o = (i64)off.c;
    if (!summary) { cellsClobber(S, c, o, o + len); c.cells[o] = Cell{len, v}; }
    else {
      AbsVal old = contGet(S, t.o, c, o, len);
      if (v.k == V_PTR && old.k == V_INT && norm(S, old.l).isConst() && norm(S, old.l).c == 0) old = mkNull();
      AbsVal nv;
      if (old.k == V_UNDEF) nv = v;
      else if (old == v) nv = v;
      else if (old.k == V_INT && v.k == V_INT) { Itv a = S.num.range(asU(S, old.l, len * 8)), b = S.num.range(asU(S, v.l, len * 8)); nv = mkInt(len * 8, fresh(std::min(a.lo, b.lo), std::max(a.hi, b.hi), "sm")); }
      else if (old.k == V_PTR && v.k == V_PTR) { nv = old; for (auto &x : v.t) { bool f = false; for (auto &y : nv.t) if (y == x) f = true; if (!f) nv.t.push_back(x); } nv.pid = ++VERCTR; }
      else nv = mkTop(len * 8);
      cellsClobber(S, c, o, o + len); c.cells[o] = Cell{len, nv};
    }
    if (z && !summary) c.nuls.push_back(off);
    return;
  }
  Itv r = S.num.range(off);
  i64 lo = r.lo < 0 ? 0 : (i64)r.lo, hi = r.hi > pow2(40) ? INT64_MAX : (i64)r.hi + len;
  int bl = 255, bh = 0; bool mu = false;
  regionHull(S, c, lo, hi == INT64_MAX ? hi : hi, bl, bh, mu);
  if (v.k == V_INT && len == 1) { Itv x = S.num.range(asU(S, v.l, 8)); bl = std::min<i128>(bl, x.lo); bh = std::max<i128>(bh, x.hi); } else { bl = 0; bh = 255; }
  cellsClobber(S, c, lo, hi);
  Seg s; s.lo = lo; s.hi = hi; s.k = S_UNK; s.ver = ++VERCTR; s.bl = bl; s.bh = bh; s.mu = mu; segSet(c, s);
  if (z && !summary) c.nuls.push_back(off);
}
static AbsVal loadAt(State &S, const Tgt &t, int len, const Instruction *I) {
  Lin off = fixOff(S, t.off);
  const ObjSt st = objGet(S, t.o);
  if (getenv("LDBG") && len==1 && OBJ[t.o].k == K_HEAP) fprintf(stderr, "load %s : %s rng %s..%s at %s\n", OBJ[t.o].name.c_str(), linStr(off).c_str(), i128s(S.num.lb(off)).c_str(), i128s(S.num.ub(off)).c_str(), locOf(I).c_str());
  const Content &c = *st.c;
  if (off.isConst()) return contGet(S, t.o, c, (i64)off.c, len);
  Itv r = S.num.range(off);
  i64 step = 1; if (off.t.size() == 1) step = (i64)(off.t[0].second < 0 ? -off.t[0].second : off.t[0].second);
  if (len == 1 && step == 1) { // byte region hull
    i64 lo = r.lo < 0 ? 0 : (i64)r.lo, hi = r.hi > pow2(40) ? INT64_MAX : (i64)r.hi + 1;
    int bl = 255, bh = 0; bool mu = false; regionHull(S, c, lo, hi, bl, bh, mu);
    if (bl > bh) { AbsVal u; u.w = 8; return u; }
    return mkInt(8, exprIn(S, E_LOADSYM, 8, {off}, {t.o, c.ver, 1}, bl, bh, 0, 255));
  }
  if (r.lo > -INF && r.hi < INF && (r.hi - r.lo) / step <= 2048) {
    i128 lo = INF, hi = -INF; bool allInt = true, allPtr = true, same = true, first = true; AbsVal f; std::vector<Tgt> ts;
    for (i128 p = r.lo; p <= r.hi; p += step) {
      AbsVal v = contGet(S, t.o, c, (i64)p, len);
      if (first) { f = v; first = false; } else if (!(v == f)) same = false;
      if (v.k == V_INT) { Itv x = S.num.range(asU(S, v.l, len * 8)); lo = std::min(lo, x.lo); hi = std::max(hi, x.hi); } else allInt = false;
      if (v.k == V_PTR) { for (auto &y : v.t) { bool g = false; for (auto &q : ts) if (q == y) g = true; if (!g) ts.push_back(y); } } else if (v.k == V_INT && v.l.isConst() && v.l.c == 0) { bool g = false; for (auto &q : ts) if (!q.o) g = true; if (!g) ts.push_back({0, Lin(0)}); } else allPtr = false;
    }
    if (same) return f;
    if (allInt) return mkInt(len * 8, exprIn(S, E_LOADSYM, len * 8, {off}, {t.o, c.ver, len}, lo, hi, 0, pow2(len * 8) - 1));
    if (allPtr) { AbsVal v; v.k = V_PTR; v.w = 64; v.t = ts; v.pid = ++VERCTR; return v; }
  }
  return mkTop(len * 8);
}
#include "interp.h"
