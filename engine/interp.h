#include <sys/personality.h>
#include <unistd.h>
// interpreter proper
#include "strings.h"
#include "join.h"
static std::string ENTRY; static std::set<std::pair<const Instruction *, char>> OBLS;
static std::string constText(const Value *v) { StringRef r; return getConstantStringInfo(v, r) ? r.str() : "?"; }
static void dump(const std::string &entry, const std::string &fatal) {
  auto esc = [](const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; };
  printf("{\"entry\":\"%s\",", entry.c_str()); if (!fatal.empty()) printf("\"fatal\":\"%s\",", esc(fatal).c_str()); printf("\"alarms\":["); bool f = true;
  for (auto &a : ALARMS) { printf("%s\n {\"cat\":\"%s\",\"func\":\"%s\",\"file\":\"%s\",\"line\":%d,\"msg\":\"%s\",\"chain\":\"%s\"}", f ? "" : ",", a.cat.c_str(), esc(a.func).c_str(), esc(a.file).c_str(), a.line, esc(a.msg).c_str(), esc(a.chain).c_str()); f = false; }
  printf("],\n\"cover\":{"); f = true; for (auto &c : COVER) { printf("%s\"%s\":%d", f ? "" : ",", esc(c.first).c_str(), c.second); f = false; }
  printf("},\n\"logs\":["); f = true; for (auto &l : LOGS) { printf("%s\"%s\"", f ? "" : ",\n", esc(l).c_str()); f = false; }
  printf("],\n\"unmodelled\":["); f = true; for (auto &l : UNMODELLED) { printf("%s\"%s\"", f ? "" : ",", esc(l).c_str()); f = false; }
  printf("],\n\"funcs\":["); f = true; { std::set<std::string> ns; for (auto *x : FUNCS) { auto *SP = x->getSubprogram(); ns.insert(x->getName().str() + "@" + (SP ? SP->getFilename().str() : "")); } for (auto &n : ns) { printf("%s\"%s\"", f ? "" : ",", esc(n).c_str()); f = false; } }
  printf("],\n\"stat\":{"); f = true; for (auto &s : STAT) { printf("%s\"%s\":%lld", f ? "" : ",", s.first.c_str(), s.second); f = false; }
  printf("},\n\"sites\":["); f = true; { std::set<std::string> ns; if (MOD) if (Function *E = MOD->getFunction(entry)) { std::set<const Function *> seen; std::vector<const Function *> wl{E}; // COVER/CHECK/REACH sites of the harness reachable from the entry
    while (!wl.empty()) { auto *x = wl.back(); wl.pop_back(); if (!seen.insert(x).second) continue; for (auto &B : *x) for (auto &I : B) { if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = C->getCalledFunction()) if (G->getName() == "__ai_cover") ns.insert(constText(C->getArgOperand(0))); for (auto &O : I.operands()) if (auto *G = dyn_cast<Function>(O.get())) if (!G->isDeclaration()) wl.push_back(G); } } }
    for (auto &n : ns) { printf("%s\"%s\"", f ? "" : ",", esc(n).c_str()); f = false; } }
  printf("]}\n"); fflush(stdout);
}
static void die(const std::string &m) { fprintf(stderr, "mbai: %s\n", m.c_str()); dump(ENTRY, m); _exit(3); }

// ------------------------------------------------------------ values
static AbsVal evalV(State &S, const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return constVal(C);
  auto &f = S.ctop(); auto it = f.env.find(V);
  if (it == f.env.end()) { AbsVal u; Type *T = V->getType(); u.w = T->isIntegerTy() ? T->getIntegerBitWidth() : 64; if (T->isPointerTy()) return mkTop(64); return mkTop(u.w); }
  AbsVal v = it->second;
  if (v.k == V_INT) v.l = norm(S, v.l); else if (v.k == V_PTR) for (auto &t : v.t) t.off = norm(S, t.off);
  return v;
}
static void setV(State &S, const Value *V, const AbsVal &v) { S.top().env[V] = v; }
static AbsVal topOf(Type *T) {
  if (T->isIntegerTy(1)) return opaqueCond(mkAtom(0, 1, "nd"));
  if (T->isIntegerTy()) return freshInt(T->getIntegerBitWidth(), "u");
  if (T->isFloatingPointTy()) return mkFlt(T->isFloatTy() ? 32 : 64, mkAtom(0, 1, "f"));
  return mkTop(64);
}
static int sizeOfT(Type *T) { return (int)DL->getTypeStoreSize(T); }
// coerce a raw loaded value to the accessed type
static AbsVal coerce(State &S, AbsVal v, Type *T, const Instruction *I) {
  if (v.k == V_UNDEF) { alarm("uninit", I, "read of uninitialised memory"); return topOf(T); }
  if (T->isIntegerTy()) { int w = T->getIntegerBitWidth();
    if (v.k == V_INT || v.k == V_COND) { AbsVal r = mkInt(w, toLin(S, v)); if (w == 1) return toCond(S, r); return r; }
    if (v.k == V_FLT) { double d; if (isFConst(v.l.t[0].first, d)) { if (w == 64) { i64 b; memcpy(&b, &d, 8); return mkInt(64, Lin((i128)b)); } if (w == 32) { float f = (float)d; int b; memcpy(&b, &f, 4); return mkInt(32, Lin((i128)b)); } }
      return mkInt(w, Lin::sym(mkExpr(E_BITS, w, {v.l}, {}, 0, pow2(w) - 1))); }
    return topOf(T); }
  if (T->isPointerTy()) { if (v.k == V_PTR) return v; if (v.k == V_INT) { Lin l = norm(S, v.l); if (l.isConst() && l.c == 0) return mkNull(); } return mkTop(64); }
  if (T->isFloatingPointTy()) { int w = T->isFloatTy() ? 32 : 64; if (v.k == V_FLT) return v;
    if (v.k == V_INT) { Lin l = norm(S, v.l); if (l.isConst()) { if (w == 64) { i64 b = (i64)l.c; double d; memcpy(&d, &b, 8); return mkFlt(64, fconst(d)); } int b = (int)l.c; float f; memcpy(&f, &b, 4); return mkFlt(32, fconst(f)); }
      return mkFlt(w, mkExpr(E_FOP, w, {asU(S, l, w)}, {9001}, 0, 1)); }
    return topOf(T); }
  return topOf(T);
}
typedef std::vector<std::pair<State, Tgt>> Acc;
static void filterTo(State &S, int pid, const Tgt &t) {
  if (!pid) return;
  auto fix = [&](AbsVal &v) { if (v.k == V_PTR && v.pid == pid) { std::vector<Tgt> n; for (auto &x : v.t) if (x.o == t.o) n.push_back(x); v.t = n; if (n.size() <= 1) v.pid = 0; } };
  for (auto &f : S.stack) { bool has = false; for (auto &e : f->env) if (e.second.k == V_PTR && e.second.pid == pid) { has = true; break; } if (!has) continue; if (f.use_count() > 1) f = std::make_shared<Frame>(*f); for (auto &e : f->env) fix(e.second); }
  for (auto &m : S.mem) { if (OBJ[m.first].summary) continue; bool has = false; for (auto &c : m.second.c->cells) if (c.second.v.k == V_PTR && c.second.v.pid == pid) has = true; if (!has) continue; if (m.second.c.use_count() > 1) m.second.c = std::make_shared<Content>(*m.second.c); for (auto &c : m.second.c->cells) fix(c.second.v); }
}
struct Watch { ObjId o; i64 lo, hi; bool ro; ObjId so; i64 soff; }; static std::vector<Watch> WATCH; // data watched: read only, or valid up to a size held in another cell
static bool inHarness(const Instruction *I) { auto *SP = I->getFunction()->getSubprogram(); return !SP || SP->getDirectory().contains("/harness") || SP->getFilename().contains("/harness/"); }
static AbsVal loadAt(State &S, const Tgt &t, int len, const Instruction *I);
static void watchCheck(State &S, const Tgt &t, const Lin &len, bool write, const Instruction *I) {
  for (auto &w : WATCH) { if (w.o != t.o || w.ro != write || inHarness(I)) continue;
    if (S.num.ub(t.off + len - Lin(w.lo)) <= 0 || S.num.lb(t.off - Lin(w.hi)) >= 0) continue;
    if (w.ro && w.so) { AbsVal sz = loadAt(S, {w.so, Lin(w.soff)}, 8, I); Num n = S.num; if (!n.assumeLE(norm(S, t.off - Lin(w.lo) - asU(S, toLin(S, sz), 64)) + Lin(1))) continue; }
    if (w.ro) { alarm("ro-write", I, (OBJ[t.o].v && isa<GlobalVariable>(OBJ[t.o].v) && optHistory ? "writes to the table " : "writes to input data ") + OBJ[t.o].name); continue; }
    AbsVal sz = loadAt(S, {w.so, Lin(w.soff)}, 8, I); Lin over = norm(S, t.off + len - Lin(w.lo) - asU(S, toLin(S, sz), 64)); if (S.num.ub(over) <= 0) continue;
    Num n = S.num; if (!n.assumeLE(Lin(1) - over)) continue;
    Itv r = S.num.range(norm(S, t.off - Lin(w.lo))), z = S.num.range(asU(S, toLin(S, sz), 64)); alarm("stale", I, "reads data at offset [" + i128s(r.lo) + "," + i128s(r.hi) + "] of a buffer whose valid part has [" + i128s(z.lo) + "," + i128s(z.hi) + "] bytes"); }
}
static void derefPtr(const State &S0, const AbsVal &p, const Lin &len, bool write, const Instruction *I, Acc &out) {
  if (!inHarness(I)) OBLS.insert({I, write ? 'w' : 'r'});
  if (p.k != V_PTR || p.t.empty()) { alarm(p.k == V_UNDEF ? "uninit" : "imprecise", I, "dereference of an unknown pointer"); return; }
  for (auto &t0 : p.t) {
    if (!t0.o) { alarm("null", I, "null pointer dereference"); continue; }
    if (OBJ[t0.o].k == K_FUNC) { alarm("oob", I, "access to code"); continue; }
    State S = S0; if (p.t.size() > 1) filterTo(S, p.pid, t0);
    Tgt t = t0; t.off = norm(S, t.off);
    bool isStatic = OBJ[t.o].init != nullptr;
    if (!isStatic && !S.mem.count(t.o)) { alarm("uaf", I, "access to dead object " + OBJ[t.o].name); continue; }
    ObjSt st = objGet(S, t.o);
    if (st.st == O_FREED && !OBJ[t.o].summary) { alarm("uaf", I, "access to freed memory " + OBJ[t.o].name); continue; }
    if (st.st == O_MAYBE && !OBJ[t.o].summary) { alarm("uaf", I, "access to possibly freed memory " + OBJ[t.o].name); }
    if (write && OBJ[t.o].k == K_CONST) { alarm("oob-write", I, "write to constant " + OBJ[t.o].name); continue; }
    Lin l = asS(S, t.off, 64); t.off = l;
    Lin over = norm(S, l + len - st.size);
    if (S.num.lb(l) < 0 || S.num.ub(over) > 0) {
      Num n1 = S.num, n2 = S.num; bool f1 = S.num.lb(l) < 0 && n1.assumeLE(l + Lin(1)); bool f2 = S.num.ub(over) > 0 && n2.assumeLE(Lin(1) - over);
      if (f1 || f2) { Itv r = S.num.range(l), q = S.num.range(len), z = S.num.range(st.size);
        alarm(write ? "oob-write" : "oob-read", I, std::string(write ? "write" : "read") + " of " + OBJ[t.o].name + " at offset [" + i128s(r.lo) + "," + i128s(r.hi) + "] length [" + i128s(q.lo) + "," + i128s(q.hi) + "] size [" + i128s(z.lo) + "," + i128s(z.hi) + "]"); }
    }
    if (!S.num.assumeLE(linScale(l, -1))) continue;
    if (!S.num.assumeLE(over)) continue;
    if (t.sn > 0 && OBJ[t.o].k != K_CONST) { // inside the array member the pointer was formed from
      Lin u2 = norm(S, Lin(t.so) - l), o2 = norm(S, l + len - Lin(t.so + t.sn));
      if (S.num.ub(u2) > 0 || S.num.ub(o2) > 0) { Num n1 = S.num, n2 = S.num; bool f1 = S.num.ub(u2) > 0 && n1.assumeLE(Lin(1) - u2), f2 = S.num.ub(o2) > 0 && n2.assumeLE(Lin(1) - o2);
        if (f1 || f2) { Itv r = S.num.range(norm(S, l - Lin(t.so))), q = S.num.range(len); alarm(write ? "oob-write" : "oob-read", I, std::string(write ? "write" : "read") + " outside the array member of " + OBJ[t.o].name + " at offset [" + i128s(r.lo) + "," + i128s(r.hi) + "] length [" + i128s(q.lo) + "," + i128s(q.hi) + "] size " + std::to_string(t.sn)); }
        if (!S.num.assumeLE(u2) || !S.num.assumeLE(o2)) continue; } }
    t.off = norm(S, t.off);
    if (!WATCH.empty()) watchCheck(S, t, len, write, I);
    out.push_back({S, t});
  }
}
// a byte read at or before the terminator of a known string: non-zero means strictly before it
static void nulScan(State &S, const Tgt &t, AbsVal &v) {
  if (v.k != V_INT || !v.l.isSym1()) return;
  const ObjSt st = objGet(S, t.o); Sym y = v.l.t[0].first; Lin off = norm(S, t.off); std::vector<Lin> add;
  auto term = [&](const Lin &T0) { Lin d = norm(S, off - T0); if (d.isConst()) { if (d.c == 0) v = mkInt(8, Lin(0)); return; } if (S.num.ub(d) > 0) return; if (S.num.ub(d) < 0 && S.num.lb(d) < 0 && add.size() > 4) return; add.push_back(d + Lin(1)); };
  for (auto &s : st.c->strs) { if (S.num.lb(off - s.start) < 0) continue; term(s.start + s.s.len); }
  for (auto &n : st.c->nuls) term(n);
  if (v.l.isConst() || add.empty()) return;
  if (S.num.get(y).lo > 0) { for (auto &f : add) S.num.assumeLE(f); return; }
  auto &q = S.num.imp[y]; for (auto &f : add) { bool d = false; for (auto &g : q) if (g == f) d = true; if (!d) q.push_back(f); }
}
// ------------------------------------------------------------ heap
static void renameObjs(State &S, const std::map<ObjId, ObjId> &m) {
  auto fix = [&](AbsVal &v) { if (v.k != V_PTR) return; std::vector<Tgt> n; for (auto &t : v.t) { auto it = m.find(t.o); Tgt x = t; if (it != m.end()) x.o = it->second; bool d = false; for (auto &y : n) if (y == x) d = true; if (!d) n.push_back(x); } v.t = n; };
  for (auto &f : S.stack) { f = std::make_shared<Frame>(*f); for (auto &e : f->env) fix(e.second); for (auto &a : f->args) fix(a); }
  std::map<ObjId, ObjSt> nm;
  for (auto &o : S.mem) { auto c = std::make_shared<Content>(*o.second.c); for (auto &x : c->cells) fix(x.second.v); o.second.c = c; }
  for (auto &o : S.mem) { auto it = m.find(o.first); ObjId id = it == m.end() ? o.first : it->second;
    auto f = nm.find(id); if (f == nm.end()) nm[id] = o.second;
    else { // merge contents into a summary
      ObjSt &a = f->second; const ObjSt &b = o.second; if (a.st != b.st) a.st = O_MAYBE; if (!(a.size == b.size)) { Itv x = S.num.range(a.size), y = S.num.range(b.size); a.size = fresh(std::min(x.lo, y.lo), std::max(x.hi, y.hi)); }
      State s1 = S, s2 = S; Joiner j(s1, s2, false); j.implied = false; auto c = j.cont(id, a.c, b.c); a.c = c; for (auto &n : j.news) { auto i = j.R.num.itv.find(n.s); if (i != j.R.num.itv.end()) S.num.itv[n.s] = i->second; } } }
  S.mem = nm;
}
static void reachable(const State &S, std::set<ObjId> &R, const AbsVal *extra) {
  std::vector<ObjId> q; auto add = [&](const AbsVal &v) { if (v.k == V_PTR) for (auto &t : v.t) if (t.o && R.insert(t.o).second) q.push_back(t.o); };
  for (auto &f : S.stack) { for (auto &e : f->env) add(e.second); for (ObjId a : f->allocas) if (R.insert(a).second) q.push_back(a); }
  for (auto &m : S.mem) if (OBJ[m.first].k == K_GLOBAL || OBJ[m.first].k == K_HARN) if (R.insert(m.first).second) q.push_back(m.first);
  if (extra) add(*extra);
  while (!q.empty()) { ObjId o = q.back(); q.pop_back(); auto it = S.mem.find(o); const Content *c = it != S.mem.end() ? it->second.c.get() : OBJ[o].init.get(); if (!c) continue; if (it != S.mem.end() && it->second.st == O_FREED) continue; for (auto &x : c->cells) add(x.second.v); }
}
static void gcHeap(State &S, const AbsVal *ret, const Instruction *at) {
  bool any = false; for (auto &m : S.mem) if (OBJ[m.first].k == K_HEAP) any = true; if (!any) return;
  std::set<ObjId> R; reachable(S, R, ret);
  for (auto it = S.mem.begin(); it != S.mem.end();) {
    if (OBJ[it->first].k == K_HEAP && !R.count(it->first)) {
      if (optLeak && it->second.st == O_LIVE && !OBJ[it->first].summary) alarm("leak", OBJ[it->first].site, "memory allocated at " + locOf(OBJ[it->first].site) + " becomes unreachable without being freed, detected at " + locOf(at));
      it = S.mem.erase(it);
    } else ++it;
  }
}
static ObjId heapAlloc(State &S, const Instruction *site, const Lin &size, SK fill, int fb) {
  gcHeap(S, nullptr, site);
  u64 ctx = S.ctop().ctx; std::vector<ObjId> ids;
  for (int i = 0; i <= optK; i++) { auto key = std::make_pair((const Value *)site, std::make_pair(ctx, i)); auto it = objIdx.find(key); if (it == objIdx.end()) { ObjId o = newObj(K_HEAP, "heap@" + locOf(site) + (i == optK ? "*" : "#" + std::to_string(i))); OBJ[o].site = site; OBJ[o].inst = i; OBJ[o].summary = i == optK; objIdx[key] = o; ids.push_back(o); } else ids.push_back(it->second); }
  // recency: the newest allocation of a site is always instance 0, older ones move up
  int j = optK; for (int i = 0; i < optK; i++) if (!S.mem.count(ids[i])) { j = i; break; }
  if (j > 0) { std::map<ObjId, ObjId> m; for (int i = 0; i < j; i++) m[ids[i]] = ids[i + 1]; renameObjs(S, m); }
  ObjId o = ids[0];
  ObjSt st; st.c = newContent(fill, fb, fb); st.size = size; S.mem[o] = st; return o;
}
// ------------------------------------------------------------ function info
struct FInfo { std::unique_ptr<DominatorTree> DT; std::unique_ptr<LoopInfo> LI; std::vector<const BasicBlock *> rpo; std::map<const BasicBlock *, int> ord; std::map<const BasicBlock *, std::set<const Value *>> live; };
static std::map<const Function *, FInfo> FI;
static FInfo &finfo(Function *F) {
  auto it = FI.find(F); if (it != FI.end()) return it->second;
  FInfo &fi = FI[F]; fi.DT = std::make_unique<DominatorTree>(*F); fi.LI = std::make_unique<LoopInfo>(*fi.DT);
  ReversePostOrderTraversal<Function *> RPO(F); for (auto *B : RPO) { fi.ord[B] = fi.rpo.size(); fi.rpo.push_back(B); }
  auto isVar = [](const Value *v) { return isa<Instruction>(v) || isa<Argument>(v); };
  bool ch = true;
  while (ch) { ch = false; for (int i = (int)fi.rpo.size() - 1; i >= 0; i--) { const BasicBlock *B = fi.rpo[i]; std::set<const Value *> L;
      for (auto *Sx : successors(B)) { for (auto *v : fi.live[Sx]) { if (auto *P = dyn_cast<PHINode>(v)) if (P->getParent() == Sx) continue; L.insert(v); } for (auto &P : Sx->phis()) { auto *v = P.getIncomingValueForBlock(B); if (isVar(v)) L.insert(v); } }
      for (auto it2 = B->rbegin(); it2 != B->rend(); ++it2) { const Instruction &I = *it2; L.erase(&I); if (isa<PHINode>(I)) continue; if (I.isDebugOrPseudoInst()) continue; for (auto &O : I.operands()) if (isVar(O.get())) L.insert(O.get()); }
      for (auto &P : B->phis()) L.insert(&P);
      if (L != fi.live[B]) { fi.live[B] = L; ch = true; } } }
  return fi;
}
static void pruneEnv(State &S, FInfo &fi, const BasicBlock *B) { auto &L = fi.live[B]; auto &env = S.top().env; for (auto it = env.begin(); it != env.end();) if (!L.count(it->first)) it = env.erase(it); else ++it; }
// ------------------------------------------------------------ partitioning
static std::vector<GlobalVariable *> GHOSTS;
static std::string keyOf(State &S, const BasicBlock *B, int mode) { // mode 0: block, 1: loop head, 2: coarse, 3: ghosts only
  std::string k;
  for (auto *G : GHOSTS) { const ObjSt st = objGet(S, globalObj(G)); AbsVal v = contGet(S, globalObj(G), *st.c, 0, sizeOfT(G->getValueType())); if (v.k == V_INT) { Lin l = norm(S, v.l); k += l.isConst() ? i128s(l.c) : "?"; } else k += "?"; k += ","; }
  for (auto &g : S.ghost) k += g.first + "=" + std::to_string(g.second) + ";";
  if (mode == 3) return k;
  for (auto &m : S.mem) if (OBJ[m.first].k == K_HEAP && !OBJ[m.first].summary) k += "h" + std::to_string(m.first) + ":" + std::to_string((int)m.second.st);
  if (!B) return k;
  for (auto &e : S.ctop().env) {
    if (e.second.k == V_PTR && mode <= 1) { k += "|p"; if (e.second.t.size() <= 3) for (auto &t : e.second.t) k += std::to_string(t.o) + "/"; else k += "*"; }
    else if (mode == 0 && e.second.k == V_INT) { Lin l = norm(S, e.second.l); if (l.isConst() && e.second.w < 64 && l.c > pow2(e.second.w - 1)) l.c -= pow2(e.second.w); if (l.isConst() && l.c >= -16 && l.c <= 16) k += "|i" + i128s(l.c); else k += "|i?"; }
    else if (e.second.k == V_UNDEF && mode <= 1) k += "|u";
    else if (mode == 0 && e.second.k == V_COND && e.second.c->op == 4) k += "|c" + i128s(e.second.c->d.c);
  }
  return k;
}
static void mergeStates(States &v, const BasicBlock *B, int mode = 0) {
  if (v.size() < 2 || (optPaths && mode == 0 && (int)v.size() <= optCap)) return;
  for (int m = mode; m <= 3; m++) {
    std::map<std::string, size_t> idx; States r;
    std::vector<size_t> order;
    for (auto &s : v) { std::string k = keyOf(s, B, m == 1 && mode == 0 ? 1 : m); auto it = idx.find(k); if (it == idx.end()) { idx[k] = r.size(); r.push_back(std::move(s)); } else { STAT["joins"]++; r[it->second] = joinStates(r[it->second], s); } }
    v = std::move(r);
    if ((int)v.size() <= optCap) return;
    if (m == 3) return;
  }
}
typedef std::vector<std::pair<const BasicBlock *, State>> Edges;
static u64 UNDECIDED; // branches taken both ways so far
struct Region { Edges exits; States back; std::vector<Out> rets; bool headExit = false; };
static void execBlock(State S, const BasicBlock *B, FInfo &fi, Edges &out, std::vector<Out> &rets);
static void takeEdge(State S, const BasicBlock *from, const BasicBlock *to, FInfo &fi, Edges &out) {
  std::vector<std::pair<const Value *, AbsVal>> up;
  for (auto &P : to->phis()) { up.push_back({&P, evalV(S, P.getIncomingValueForBlock(from))}); }
  for (auto &u : up) setV(S, u.first, u.second);
  pruneEnv(S, fi, to);
  if (S.num.itv.size() > 150 || S.num.edge.size() > 60) gcNum(S);
  out.push_back({to, std::move(S)});
}
static Edges solveLoop(Loop *L, States in, FInfo &fi, std::vector<Out> &rets);
static void runRegion(Function *F, Loop *L, States heads, FInfo &fi, Region &R) {
  std::map<const BasicBlock *, States> pend; const BasicBlock *head = L ? L->getHeader() : &F->getEntryBlock();
  pend[head] = std::move(heads);
  auto route = [&](const BasicBlock *to, State &&s) {
    if (L && to == head) R.back.push_back(std::move(s));
    else if (L && !L->contains(to)) R.exits.push_back({to, std::move(s)});
    else pend[to].push_back(std::move(s)); };
  for (auto *B : fi.rpo) {
    Loop *BL = fi.LI->getLoopFor(B);
    if (BL == L) {
      auto it = pend.find(B); if (it == pend.end() || it->second.empty()) continue;
      States st = std::move(it->second); it->second.clear();
      if (B != head) mergeStates(st, B);
      for (auto &s : st) { Edges e; execBlock(std::move(s), B, fi, e, R.rets); for (auto &x : e) { if (L && B == head && !L->contains(x.first)) R.headExit = true; route(x.first, std::move(x.second)); } }
    } else if (BL && BL->getParentLoop() == L && BL->getHeader() == B) {
      auto it = pend.find(B); if (it == pend.end() || it->second.empty()) continue;
      States st = std::move(it->second); it->second.clear(); mergeStates(st, B);
      Edges e = solveLoop(BL, std::move(st), fi, R.rets); for (auto &x : e) route(x.first, std::move(x.second));
    }
  }
}
static bool isLeaf(Function &f) {
  static std::map<Function *, bool> M; auto it = M.find(&f); if (it != M.end()) return it->second;
  bool r = finfo(&f).LI->empty(); for (auto &b : f) for (auto &i : b) if (auto *ci = dyn_cast<CallBase>(&i)) { auto *cf = ci->getCalledFunction(); if (!cf || !cf->isDeclaration()) r = false; }
  return M[&f] = r; }
static Edges solveLoop(Loop *L, States in, FInfo &fi, std::vector<Out> &rets) {
  if (optLoopPaths && in.size() > 1 && (int)in.size() <= optCap && L->getSubLoops().empty()) { // inner loops: one analysis per path that leads to them
    Edges all; for (auto &s : in) { States one; one.push_back(std::move(s)); for (auto &e : solveLoop(L, std::move(one), fi, rets)) all.push_back(std::move(e)); } return all; }
  Edges exits; const BasicBlock *H = L->getHeader(); Function *F = const_cast<Function *>(H->getParent());
  States cur = std::move(in); int budget = optUnroll, freeIt = 0, counted = 0;
  bool headTest = false; // the loop's own test of a counter, as opposed to a break
  if (auto *br = dyn_cast<BranchInst>(H->getTerminator())) if (br->isConditional()) if (auto *ic = dyn_cast<ICmpInst>(br->getCondition())) if (ic->getOperand(0)->getType()->isIntegerTy() && isa<ConstantInt>(ic->getOperand(1))) for (auto *x : successors(H)) if (!L->contains(x)) headTest = true;
  bool simple = L->getSubLoops().empty(); // no loop inside, no call of a function that is analysed
  for (auto *b : L->blocks()) for (auto &i : *b) if (auto *ci = dyn_cast<CallBase>(&i)) { auto *cf = ci->getCalledFunction(); if (!cf || !cf->isDeclaration()) simple = false; }
  bool leafs = L->getSubLoops().empty(); // at most calls of functions without a loop or calls of their own
  for (auto *b : L->blocks()) for (auto &i : *b) if (auto *ci = dyn_cast<CallBase>(&i)) { auto *cf = ci->getCalledFunction(); if (!cf || (!cf->isDeclaration() && !isLeaf(*cf))) leafs = false; }
  bool scans = false; // the loop ends with a text: a byte of it is compared with NUL
  auto nulTest = [](Value *c) { auto *ic = dyn_cast<ICmpInst>(c); if (!ic || !ic->isEquality()) return false; auto *k = dyn_cast<ConstantInt>(ic->getOperand(1)); if (!k || !k->isZero()) return false;
    Value *v = ic->getOperand(0); if (auto *ca = dyn_cast<CastInst>(v)) v = ca->getOperand(0); return isa<LoadInst>(v) && v->getType()->isIntegerTy(8); };
  for (auto *b : L->blocks()) if (auto *br = dyn_cast<BranchInst>(b->getTerminator())) if (br->isConditional()) { bool ex = false; for (auto *x : successors(b)) if (!L->contains(x)) ex = true; if (!ex) continue;
    if (nulTest(br->getCondition())) scans = true;
    if (auto *ph = dyn_cast<PHINode>(br->getCondition())) for (unsigned n = 0; n < ph->getNumIncomingValues(); n++) { // one of several conditions
      if (nulTest(ph->getIncomingValue(n))) scans = true;
      if (auto *pb = dyn_cast<BranchInst>(ph->getIncomingBlock(n)->getTerminator())) if (pb->isConditional() && L->contains(pb->getParent()) && nulTest(pb->getCondition())) scans = true; } }
  while (!cur.empty()) {
    if (budget <= 0) break;
    u64 und = UNDECIDED; Region R; runRegion(F, L, cur, fi, R);
    for (auto &e : R.exits) exits.push_back(std::move(e)); for (auto &r : R.rets) rets.push_back(std::move(r));
    bool free = (R.exits.empty() && R.rets.empty()) || (leafs && scans && und == UNDECIDED); // or every state either left or went on
    cur = std::move(R.back); for (auto &s : cur) gcHeap(s, nullptr, H->getTerminator()); mergeStates(cur, H, 0);
    if (free) { if (++freeIt > optMaxFree) break; } else if (headTest && simple && optUnroll > 1 && !R.headExit && ++counted <= 40) ; /* the number of iterations is decided, only the body leaves early */ else budget--;
  }
  if (cur.empty()) return exits;
  // fixpoint
  STAT["fixpoints"]++;
  mergeStates(cur, H, 1);
  std::map<std::string, State> Hs; std::map<std::string, int> cnt; std::map<std::string, State> entry;
  for (auto &s : cur) { std::string k = keyOf(s, H, 1); if (Hs.count(k)) { Hs[k] = joinStates(Hs[k], s); } else Hs[k] = s; }
  entry = Hs;
  noRec++;
  bool savedAff = noAffine; std::map<std::string, State> Hs0 = Hs; bool again = false;
 restart:
  std::set<std::string> work; for (auto &h : Hs) work.insert(h.first);
  int rounds = 0; cnt.clear(); if (again) noAffine = true;
  while (!work.empty()) {
    if (++rounds > 400) die("fixpoint does not converge in " + F->getName().str());
    std::string k = *work.begin(); work.erase(work.begin());
    Region R; States one; one.push_back(Hs[k]); runRegion(F, L, one, fi, R);
    std::map<std::string, State> round; // what this round leads to, one state per partition
    for (auto &b : R.back) { gcHeap(b, nullptr, H->getTerminator()); std::string kb = keyOf(b, H, 1);
      if (!Hs.count(kb) && Hs.size() + round.size() > (size_t)optCap) kb = Hs.begin()->first;
      auto it = round.find(kb); if (it == round.end()) round[kb] = std::move(b); else it->second = joinStates(it->second, b); }
    for (auto &rb : round) { const std::string &kb = rb.first; State &b = rb.second; auto it = Hs.find(kb);
      if (it == Hs.end()) { Hs[kb] = b; work.insert(kb); continue; }
      if (!again && !noAffine && cnt[kb] > 30) { again = true; Hs = Hs0; goto restart; } // relations guessed from the first iterations do not last: without them
      bool w = cnt[kb] >= 3; wLevel = cnt[kb] < 14 ? 1 : cnt[kb] < 40 ? 2 : 3; State J = joinStates(it->second, b, w); EqCheck q(J, it->second);
      if (q.run()) continue;
      if (optVerbose && cnt[kb] > 250) fprintf(stderr, "widen #%d at %s key %s\n", cnt[kb], locOf(H->getFirstNonPHI()).c_str(), kb.c_str());
      if (optVerbose && cnt[kb] > 60) fprintf(stderr, "unstable %d why %d %s\n", cnt[kb], q.why, q.whyS.c_str());
      cnt[kb]++; it->second = J; work.insert(kb);
    }
  }
  noAffine = savedAff;
  for (int n = 0; n < 2; n++) { // narrowing
    std::map<std::string, State> N = entry; bool ok = true;
    for (auto &h : Hs) { Region R; States one; one.push_back(h.second); runRegion(F, L, one, fi, R);
      for (auto &b : R.back) { gcHeap(b, nullptr, H->getTerminator()); std::string kb = keyOf(b, H, 1); if (!Hs.count(kb)) { if (Hs.size() > (size_t)optCap) kb = Hs.begin()->first; else { ok = false; break; } } auto it = N.find(kb); if (it == N.end()) N[kb] = b; else it->second = joinStates(it->second, b); } if (!ok) break; }
    if (!ok) break;
    Hs = N;
  }
  noRec--;
  Region R; States fin; for (auto &h : Hs) fin.push_back(h.second); runRegion(F, L, fin, fi, R);
  for (auto &e : R.exits) exits.push_back(std::move(e)); for (auto &r : R.rets) rets.push_back(std::move(r));
  return exits;
}
static std::vector<Out> execFunc(Function *F, State S, const std::vector<AbsVal> &args, const Instruction *site) {
  FUNCS.insert(F); FInfo &fi = finfo(F);
  // recursion over the summarised tail of a structure: the inner activation stands for the outer one
  { bool sumArg = false; for (auto &a : args) if (a.k == V_PTR) for (auto &t : a.t) if (t.o && OBJ[t.o].summary) sumArg = true;
    if (sumArg) { bool on = false; for (auto &f : S.stack) if (f->F == F) on = true;
      if (on) for (unsigned i = 0; i < args.size(); i++) if (args[i].k == V_PTR && args[i].t.size() > 1) { std::vector<Out> all; for (auto &t : args[i].t) { State s = S; filterTo(s, args[i].pid, t); auto a2 = args; a2[i].t = {t}; a2[i].pid = 0; for (auto &o : execFunc(F, std::move(s), a2, site)) all.push_back(std::move(o)); } return all; } }
    if (sumArg) for (auto &f : S.stack) if (f->F == F && f->args.size() == args.size()) { bool same = true; for (size_t i = 0; i < args.size(); i++) if (!(f->args[i] == args[i])) same = false; if (same) return {}; /* least fixpoint: the other cases of the outer activation give its result */ } }
  auto fr = std::make_shared<Frame>(); fr->F = F; fr->site = site; u64 pc = S.stack.empty() ? 1469598103934665603ull : S.ctop().ctx; fr->ctx = (pc ^ (u64)(uintptr_t)site) * 1099511628211ull + 77;
  if (S.stack.size() > 60) die("call depth exceeded in " + F->getName().str());
  unsigned i = 0; for (auto &A : F->args()) { fr->env[&A] = i < args.size() ? args[i] : topOf(A.getType()); i++; } fr->args = args; for (size_t j = F->arg_size(); j < args.size(); j++) fr->env[ConstantInt::get(Type::getInt64Ty(CTX), 0x7a7a000000ull + j)] = args[j];
  S.stack.push_back(fr); callSites.push_back(site);
  Region R; States h; h.push_back(std::move(S)); runRegion(F, nullptr, std::move(h), fi, R);
  callSites.pop_back();
  std::vector<Out> outs; std::map<std::string, size_t> idx; bool sep = optPaths && (int)R.rets.size() <= optCap;
  for (auto &o : R.rets) {
    State &s = o.s; auto al = s.ctop().allocas; s.stack.pop_back(); for (ObjId a : al) s.mem.erase(a);
    gcHeap(s, &o.v, F->back().getTerminator());
    std::string k = keyOf(s, nullptr, 0); AbsVal &v = o.v; if (v.k == V_INT) { v.l = norm(s, v.l); k += v.l.isConst() ? "r" + i128s(v.l.c) : "r?"; } else if (v.k == V_PTR) { k += "p"; for (auto &t : v.t) k += std::to_string(t.o) + "/"; } else k += "o"; if (sep) k += "#" + std::to_string(outs.size());
    auto it = idx.find(k); if (it == idx.end()) { idx[k] = outs.size(); outs.push_back(std::move(o)); }
    else { Out &a = outs[it->second]; // join including the return value: keep it in a pseudo variable
      if (s.stack.empty()) { a.s = joinStates(a.s, s); continue; }
      State x = a.s, y = s; static Value *RV = nullptr; if (!RV) RV = ConstantInt::get(Type::getInt64Ty(CTX), 0x5eed5eed); x.top().env[RV] = a.v; y.top().env[RV] = v; State j = joinStates(x, y); a.v = j.ctop().env.count(RV) ? j.ctop().env.at(RV) : mkTop(64); j.top().env.erase(RV); a.s = j; }
  }
  return outs;
}
#include "builtins.h"
// ------------------------------------------------------------ instructions
// x = k * hi + lo with 0 <= lo < k, when the terms tell
static bool splitAt(State &S, const Lin &x0, i128 k, Lin &hi, Lin &lo) {
  if (k <= 1) return false; Lin x = norm(S, x0); hi = Lin(0); lo = Lin(0);
  i128 r = modp(x.c, k); hi.c = (x.c - r) / k; lo.c = r;
  for (auto &t : x.t) if (t.second % k == 0) hi.t.push_back({t.first, t.second / k}); else lo.t.push_back(t);
  if (hi.t.empty() && !lo.t.empty() && lo.t.size() == x.t.size()) { Itv q = S.num.range(x); if (q.lo <= -pow2(100) || q.hi >= pow2(100) || floordiv(q.lo, k) != floordiv(q.hi, k)) return false; hi = Lin(floordiv(q.lo, k)); lo = x - Lin(hi.c * k); return true; }
  Itv q = S.num.range(lo); if (q.lo <= -pow2(100) || q.hi >= pow2(100)) return false;
  i128 f = floordiv(q.lo, k); if (f != floordiv(q.hi, k)) return false;
  hi.c += f; lo.c -= f * k; return true;
}
static AbsVal binop(State &S, const BinaryOperator *I, AbsVal a, AbsVal b) {
  unsigned op = I->getOpcode(); Type *T = I->getType();
  if (T->isFloatingPointTy()) {
    if (a.k != V_FLT || b.k != V_FLT) return topOf(T);
    Sym x = a.l.t[0].first, y = b.l.t[0].first; double dx, dy;
    if (isFConst(x, dx) && isFConst(y, dy)) { double r = 0; bool ok = true; switch (op) { case Instruction::FAdd: r = dx + dy; break; case Instruction::FSub: r = dx - dy; break; case Instruction::FMul: r = dx * dy; break; case Instruction::FDiv: r = dx / dy; break; default: ok = false; } if (ok) { if (T->isFloatTy()) r = (float)r; return mkFlt(a.w, fconst(r)); } }
    return mkFlt(a.w, mkExpr(E_FOP, a.w, {a.l, b.l}, {(i64)op}, 0, 1));
  }
  int w = T->getIntegerBitWidth();
  if (w == 1) { // boolean logic
    AbsVal ca = toCond(S, a), cb = toCond(S, b); int da = condDecide(S, *ca.c), db = condDecide(S, *cb.c);
    if (op == Instruction::Xor) { if (db == 1) return condNot(ca); if (db == 0) return ca; if (da == 1) return condNot(cb); if (da == 0) return cb; }
    if (op == Instruction::And) { if (da == 0 || db == 0) return mkBool(false); if (da == 1) return cb; if (db == 1) return ca; }
    if (op == Instruction::Or) { if (da == 1 || db == 1) return mkBool(true); if (da == 0) return cb; if (db == 0) return ca; }
    return opaqueCond(mkAtom(0, 1, "nd"));
  }
  if (a.k == V_UNDEF || b.k == V_UNDEF) { alarm("uninit", I, "arithmetic on an uninitialised value"); return topOf(T); }
  Lin x = toLin(S, a), y = toLin(S, b);
  auto big = [&](const Lin &l) { return l.t.size() > 700; };
  switch (op) {
    case Instruction::Add: { Lin r = x + y; if (r.t.size() > 0) { bool huge = false; for (auto &p : r.t) if (p.second > pow2(80) || p.second < -pow2(80)) huge = true; if (huge || r.c > pow2(90) || r.c < -pow2(90)) r = linMod(r, w); } if (!big(r)) return mkInt(w, r.isConst() ? linMod(r, w) : r); break; }
    case Instruction::Sub: { Lin r = x - y; if (!big(r)) return mkInt(w, r.isConst() ? linMod(r, w) : r); break; }
    case Instruction::Mul: { if (x.isConst() || y.isConst()) { i128 k = x.isConst() ? x.c : y.c; const Lin &l = x.isConst() ? y : x; if (w <= 64) { if (k >= pow2(w - 1)) k -= pow2(w); Lin r = linScale(l, k); r = r.isConst() ? linMod(r, w) : r; bool huge = false; for (auto &p : r.t) if (p.second > pow2(64) || p.second < -pow2(64)) huge = true; if (huge) r = linMod(r, w); return mkInt(w, r); } }
      Lin sx = asS(S, x, w), sy = asS(S, y, w); Itv p = S.num.range(sx), q = S.num.range(sy); i128 c[4] = {satMul(p.lo, q.lo), satMul(p.lo, q.hi), satMul(p.hi, q.lo), satMul(p.hi, q.hi)}; i128 lo = *std::min_element(c, c + 4), hi = *std::max_element(c, c + 4); if (sy < sx) std::swap(sx, sy);
      if (lo >= -pow2(w - 1) && hi < pow2(w)) return mkInt(w, exprIn(S, E_MUL, w, {sx, sy}, {}, lo, hi, -INF, INF)); return mkInt(w, Lin::sym(mkExpr(E_MUL, w + 1000, {sx, sy}, {}, 0, pow2(w) - 1))); }
    case Instruction::And: { Lin ux = asU(S, x, w), uy = asU(S, y, w); if (ux.isConst()) std::swap(ux, uy); if (ux.isConst() && uy.isConst()) return mkInt(w, Lin((i128)((u64)ux.c & (u64)uy.c)));
      if (ux == uy) return mkInt(w, ux);
      Itv p = S.num.range(ux), q = S.num.range(uy);
      if (uy.isConst()) { i128 m = uy.c; if (m == 0) return mkInt(w, Lin(0)); if ((m & (m + 1)) == 0 && p.hi <= m) return mkInt(w, ux);
        if ((m & (m + 1)) == 0) { // low mask: residue
          int k = 0; while (pow2(k) <= m) k++; { Lin h, l; if (splitAt(S, ux, m + 1, h, l)) return mkInt(w, l); } Lin r = asU(S, ux, k); Itv rr = S.num.range(r); if (r.isConst() || !(r.isSym1() && EX[r.t[0].first].k == E_MODU)) return mkInt(w, r); (void)rr; return mkInt(w, r); }
        // value known to lie in one block of the mask
        i128 low = m & -m;
        if (((m / low) & (m / low + 1)) == 0) { Lin h, l; bool ok = true; if (low > 1) ok = splitAt(S, ux, low, h, l); else h = ux;
          if (ok) { Lin h2, l2; Itv hr = S.num.range(h); if (hr.lo >= 0 && hr.hi <= m / low) return mkInt(w, linScale(h, low)); if (splitAt(S, h, m / low + 1, h2, l2)) return mkInt(w, linScale(l2, low)); } } if (((m / low) & (m / low + 1)) == 0 && p.hi < low + m) { if (p.hi / low == p.lo / low) return mkInt(w, Lin(p.lo / low * low)); }
        { i128 top = 1; while (top <= ((u64)p.lo ^ (u64)p.hi)) top <<= 1; top -= 1; // bits above are the same in every value
          i128 clr = (pow2(w) - 1) & ~m; if (w < 64 && p.lo >= 0 && (clr & top) == 0) return mkInt(w, ux - Lin(p.lo & clr)); }
        i128 hi = std::min(p.hi, m); return mkInt(w, exprIn(S, E_AND, w, {ux, uy}, {}, 0, hi, 0, m)); }
      return mkInt(w, exprIn(S, E_AND, w, {ux, uy}, {}, 0, std::min(p.hi, q.hi), 0, pow2(w) - 1)); }
    case Instruction::Or: case Instruction::Xor: { Lin ux = asU(S, x, w), uy = asU(S, y, w); if (ux.isConst() && uy.isConst()) return mkInt(w, Lin((i128)(op == Instruction::Or ? ((u64)ux.c | (u64)uy.c) : ((u64)ux.c ^ (u64)uy.c))));
      Itv p = S.num.range(ux), q = S.num.range(uy);
      auto divBy = [&](const Lin &l, i128 k) { if (l.c % k) return false; for (auto &t : l.t) if (t.second % k) return false; return true; };
      auto p2 = [&](i128 v) { i128 r = 1; while (r <= v) r <<= 1; return r; };
      if (ux.isConst() && ux.c == 0) return mkInt(w, uy); if (uy.isConst() && uy.c == 0) return mkInt(w, ux);
      if (divBy(ux, p2(q.hi))) return mkInt(w, ux + uy); if (divBy(uy, p2(p.hi))) return mkInt(w, ux + uy);
      if (op == Instruction::Xor && uy.isConst() && uy.c == pow2(w) - 1) return mkInt(w, Lin(-1) - ux);
      if (op == Instruction::Xor && uy.isConst() && (uy.c & (uy.c + 1)) == 0 && p.hi <= uy.c) return mkInt(w, uy - ux);
      { Lin a = ux, k = uy; Itv ar = p; if (a.isConst()) { std::swap(a, k); ar = q; } // the bits concerned are the same in every value
        if (k.isConst() && w < 64 && ar.lo >= 0) { i128 top = 1; while (top <= ((u64)ar.lo ^ (u64)ar.hi)) top <<= 1; top -= 1;
          if ((k.c & top) == 0) return mkInt(w, op == Instruction::Or ? a + Lin(k.c & ~ar.lo) : a + Lin((k.c & ~ar.lo) - (k.c & ar.lo))); } }
      i128 hi = p2(std::max(p.hi, q.hi)) - 1; if (uy.isConst()) std::swap(ux, uy);
      return mkInt(w, exprIn(S, op == Instruction::Or ? E_OR : E_XOR, w, {ux, uy}, {}, op == Instruction::Or ? std::max(p.lo, q.lo) : 0, hi, 0, pow2(w) - 1)); }
    case Instruction::Shl: { Lin uy = asU(S, y, w); if (uy.isConst() && uy.c < w) { Lin r = linScale(x, pow2((int)uy.c)); bool huge = false; for (auto &p : r.t) if (p.second > pow2(80) || p.second < -pow2(80)) huge = true; if (huge || r.isConst()) r = linMod(r, w); return mkInt(w, r); } Lin ux = asU(S, x, w); Itv p = S.num.range(ux), q = S.num.range(uy); if (q.hi >= w) { alarm("shift", I, "shift count may exceed the width"); return topOf(T); } i128 hi = satMul(p.hi, pow2((int)q.hi)); if (hi < pow2(w)) return mkInt(w, exprIn(S, E_SHL, w, {ux, uy}, {}, p.lo << (int)q.lo, hi, 0, pow2(w) - 1)); return mkInt(w, Lin::sym(mkExpr(E_SHL, w + 1000, {ux, uy}, {}, 0, pow2(w) - 1))); }
    case Instruction::LShr: case Instruction::AShr: { bool ar = op == Instruction::AShr; Lin ux = ar ? asS(S, x, w) : asU(S, x, w), uy = asU(S, y, w); Itv p = S.num.range(ux);
      if (uy.isConst() && uy.c < w) { i128 k = pow2((int)uy.c); if (uy.c == 0) return mkInt(w, ux); if (ux.isConst()) return mkInt(w, Lin(floordiv(ux.c, k))); i128 lo = floordiv(p.lo, k), hi = floordiv(p.hi, k);
        bool div = ux.c % k == 0; for (auto &t : ux.t) if (t.second % k) div = false; if (div) { Lin r = ux; r.c /= k; for (auto &t : r.t) t.second /= k; return mkInt(w, r); }
        { Lin h, l; if (splitAt(S, ux, k, h, l)) return mkInt(w, h); }
        return mkInt(w, exprIn(S, ar && p.lo < 0 ? E_ASHR : E_LSHR, w, {ux, uy}, {}, lo, hi, -pow2(w), pow2(w))); }
      return topOf(T); }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      bool sg = op == Instruction::SDiv || op == Instruction::SRem, rem = op == Instruction::URem || op == Instruction::SRem;
      Lin ux = sg ? asS(S, x, w) : asU(S, x, w), uy = sg ? asS(S, y, w) : asU(S, y, w); Itv p = S.num.range(ux), q = S.num.range(uy);
      if (q.lo <= 0 && q.hi >= 0) alarm("div0", I, "division by zero possible");
      if (ux.isConst() && uy.isConst() && uy.c) return mkInt(w, Lin(rem ? ux.c % uy.c : ux.c / uy.c));
      if (uy.isConst() && uy.c > 0 && p.lo >= 0) { i128 k = uy.c; if (k == 1) return mkInt(w, rem ? Lin(0) : ux); { Lin h, l; if (splitAt(S, ux, k, h, l)) return mkInt(w, rem ? l : h); } if (!rem) return mkInt(w, exprIn(S, E_UDIV, w, {ux, uy}, {}, p.lo / k, p.hi / k, 0, pow2(w) - 1)); if (p.hi < k) return mkInt(w, ux); i128 lo = 0, hi = k - 1; if (p.lo / k == p.hi / k) { lo = p.lo % k; hi = p.hi % k; } return mkInt(w, exprIn(S, E_UREM, w, {ux, uy}, {}, lo, hi, 0, k - 1)); }
      if (uy.isConst() && uy.c > 0) { i128 k = uy.c; if (!rem) return mkInt(w, exprIn(S, E_SDIV, w, {ux, uy}, {}, p.lo / k, p.hi / k, -pow2(w), pow2(w))); return mkInt(w, exprIn(S, E_SREM, w, {ux, uy}, {}, p.lo < 0 ? -(k - 1) : 0, p.hi > 0 ? k - 1 : 0, -k, k)); }
      return topOf(T); }
  }
  return topOf(T);
}
static AbsVal icmp(State &S, CmpInst::Predicate P, const AbsVal &a, const AbsVal &b, Type *T, const Instruction *I) {
  if (T->isPointerTy()) {
    if (a.k == V_PTR && b.k == V_PTR && !a.t.empty() && !b.t.empty()) {
      bool eq = P == CmpInst::ICMP_EQ, ne = P == CmpInst::ICMP_NE;
      if (a.t.size() == 1 && b.t.size() == 1) {
        if (a.t[0].o == b.t[0].o) { Lin d = norm(S, a.t[0].off - b.t[0].off); if (eq) return mkCond(1, d); if (ne) return mkCond(2, d);
          switch (P) { case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return mkCond(0, d + Lin(1)); case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return mkCond(0, d); case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return mkCond(0, Lin(1) - d); case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return mkCond(0, linScale(d, -1)); default: break; } }
        else if (eq || ne) return mkBool(ne);
      } else if (eq || ne) {
        const AbsVal &m = a.t.size() > 1 ? a : b, &o = a.t.size() > 1 ? b : a;
        if (o.t.size() == 1 && o.t[0].o == 0) { bool hasNull = false; for (auto &t : m.t) if (!t.o) hasNull = true; if (!hasNull) return mkBool(ne); if (m.pid) { AbsVal v; v.k = V_COND; v.w = 1; v.c = std::make_shared<Cond>(); v.c->op = 5; v.c->pid = m.pid; v.c->neg = ne; return v; } }
        bool common = false; for (auto &x : a.t) for (auto &y : b.t) if (x.o == y.o) common = true; if (!common) return mkBool(ne);
      }
    }
    if (a.k == V_UNDEF || b.k == V_UNDEF) alarm("uninit", I, "comparison of an uninitialised pointer");
    return opaqueCond(mkAtom(0, 1, "nd"));
  }
  if (a.k == V_UNDEF || b.k == V_UNDEF) { alarm("uninit", I, "branch on an uninitialised value"); return opaqueCond(mkAtom(0, 1, "nd")); }
  int w = T->getIntegerBitWidth();
  if (w == 1) { AbsVal ca = toCond(S, a), cb = toCond(S, b); int db = condDecide(S, *cb.c); if (db >= 0 && (P == CmpInst::ICMP_EQ || P == CmpInst::ICMP_NE)) { bool same = (P == CmpInst::ICMP_EQ) == (db == 1); return same ? ca : condNot(ca); } }
  Lin x, y; Lin la = toLin(S, a), lb = toLin(S, b);
  if (P == CmpInst::ICMP_EQ || P == CmpInst::ICMP_NE) {
    Lin ux = asU(S, la, w), uy = asU(S, lb, w);
    auto isMod = [](const Lin &l) { return l.isSym1() && (EX[l.t[0].first].k == E_MODU || EX[l.t[0].first].k == E_MODS); };
    if (isMod(ux) || isMod(uy)) { Lin sx = asS(S, la, w), sy = asS(S, lb, w); if (!isMod(sx) && !isMod(sy)) { ux = sx; uy = sy; }
      else if (!isMod(ux) || !isMod(uy)) { // one side wraps: compare residues of the difference when the other side is a constant
      } }
    Lin d = norm(S, ux - uy);
    if (d.isConst()) return mkBool((d.c == 0) == (P == CmpInst::ICMP_EQ));
    return mkCond(P == CmpInst::ICMP_EQ ? 1 : 2, d);
  }
  bool sg = CmpInst::isSigned(P); x = sg ? asS(S, la, w) : asU(S, la, w); y = sg ? asS(S, lb, w) : asU(S, lb, w);
  switch (P) { case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: return mkCond(0, norm(S, x - y + Lin(1))); case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: return mkCond(0, norm(S, x - y)); case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: return mkCond(0, norm(S, y - x + Lin(1))); default: return mkCond(0, norm(S, y - x)); }
}
static void execInst(State S, const Instruction *I, States &out) {
  if (++stepCount > optBudget && optBudget) die("step budget exhausted");
  if ((stepCount & 255) == 0) { static time_t t0 = time(nullptr); if (optLimit && time(nullptr) - t0 > optLimit) die("time limit of " + std::to_string(optLimit) + " s");
    if ((stepCount & 16383) == 0) { FILE *f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } if (b > 3500L * 256) die("memory limit"); } }
  ISEEN.insert(I);
  if (auto *A = dyn_cast<AllocaInst>(I)) {
    auto key = std::make_pair((const Value *)I, std::make_pair(S.ctop().ctx, 0)); auto it = objIdx.find(key); ObjId o;
    if (it == objIdx.end()) { o = newObj(K_STACK, A->hasName() ? A->getName().str() : "local"); OBJ[o].v = A; objIdx[key] = o; } else o = it->second;
    ObjSt st; st.c = newContent(S_UNINIT); AbsVal n = evalV(S, A->getArraySize()); st.size = linScale(asU(S, toLin(S, n), n.w ? n.w : 64), DL->getTypeAllocSize(A->getAllocatedType())); st.size = norm(S, st.size);
    S.mem[o] = st; S.top().allocas.push_back(o); setV(S, I, mkPtr(o, Lin(0))); out.push_back(std::move(S)); return; }
  if (auto *L = dyn_cast<LoadInst>(I)) {
    int len = sizeOfT(L->getType()); Acc acc; derefPtr(S, evalV(S, L->getPointerOperand()), Lin(len), false, I, acc);
    for (auto &x : acc) { State &s = x.first; AbsVal v = loadAt(s, x.second, len, I); if (len == 1) nulScan(s, x.second, v); v = coerce(s, v, L->getType(), I); if (v.k == V_PTR && v.t.size() > 1 && (!v.pid || OBJ[x.second.o].summary)) v.pid = ++VERCTR; setV(s, I, v); out.push_back(std::move(s)); } return; }
  if (auto *T = dyn_cast<StoreInst>(I)) {
    int len = sizeOfT(T->getValueOperand()->getType()); AbsVal v = evalV(S, T->getValueOperand()); if (v.k == V_COND) v = mkInt(8, toLin(S, v)); Acc acc; derefPtr(S, evalV(S, T->getPointerOperand()), Lin(len), true, I, acc);
    if (v.k == V_INT) v.l = norm(S, v.l);
    for (auto &x : acc) { storeAt(x.first, x.second, v, len); out.push_back(std::move(x.first)); } return; }
  if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
    AbsVal b = evalV(S, G->getPointerOperand()); if (b.k != V_PTR) { setV(S, I, b.k == V_UNDEF ? b : mkTop(64)); out.push_back(std::move(S)); return; }
    Lin off(0); i64 so = -1, sn = 0; bool reset = false; Type *curT = G->getSourceElementType();
    for (unsigned k = 1; k < G->getNumOperands(); k++) {
      StructType *ST = k > 1 ? dyn_cast<StructType>(curT) : nullptr; ArrayType *AT = k > 1 ? dyn_cast<ArrayType>(curT) : nullptr;
      if (ST) { unsigned fi = cast<ConstantInt>(G->getOperand(k))->getZExtValue(); off.c += DL->getStructLayout(ST)->getElementOffset(fi); so = -1; sn = 0; reset = true; curT = ST->getElementType(fi); continue; }
      if (AT) curT = AT->getElementType();
      AbsVal ix = evalV(S, G->getOperand(k)); if (ix.k == V_UNDEF) alarm("uninit", I, "uninitialised index");
      i64 es = DL->getTypeAllocSize(curT); off = norm(S, off);
      if (AT && off.isConst()) { so = (i64)off.c; sn = es * (i64)AT->getNumElements(); reset = true; }
      off = off + linScale(asS(S, toLin(S, ix), ix.w ? ix.w : 64), es); }
    for (auto &t : b.t) { Lin base = norm(S, t.off); if (reset) { if (sn > 0 && base.isConst()) { t.so = (i64)base.c + so; t.sn = sn; } else { t.so = -1; t.sn = 0; } } t.off = norm(S, t.off + off); }
    bool nullArith = false; for (auto &t : b.t) if (!t.o && !(off.isConst() && off.c == 0)) nullArith = true;
    if (nullArith) { std::vector<Tgt> n; for (auto &t : b.t) if (t.o) n.push_back(t); else { Tgt z; z.o = 0; n.push_back(z); } b.t = n; }
    if (b.pid) { /* same identity up to a shift: keep */ }
    setV(S, I, b); out.push_back(std::move(S)); return; }
  if (auto *B = dyn_cast<BinaryOperator>(I)) { AbsVal r = binop(S, B, evalV(S, B->getOperand(0)), evalV(S, B->getOperand(1))); setV(S, I, r); out.push_back(std::move(S)); return; }
  if (auto *U = dyn_cast<UnaryOperator>(I)) { AbsVal a = evalV(S, U->getOperand(0)); double d; if (a.k == V_FLT && isFConst(a.l.t[0].first, d)) a = mkFlt(a.w, fconst(-d)); else if (a.k == V_FLT) a = mkFlt(a.w, mkExpr(E_FOP, a.w, {a.l}, {(i64)U->getOpcode()}, 0, 1)); setV(S, I, a); out.push_back(std::move(S)); return; }
  if (auto *C = dyn_cast<ICmpInst>(I)) { AbsVal r = icmp(S, C->getPredicate(), evalV(S, C->getOperand(0)), evalV(S, C->getOperand(1)), C->getOperand(0)->getType(), I); setV(S, I, r); out.push_back(std::move(S)); return; }
  if (auto *C = dyn_cast<FCmpInst>(I)) { AbsVal a = evalV(S, C->getOperand(0)), b = evalV(S, C->getOperand(1)); AbsVal r;
    double x, y; if (a.k == V_FLT && b.k == V_FLT && isFConst(a.l.t[0].first, x) && isFConst(b.l.t[0].first, y)) { bool v = false; switch (C->getPredicate()) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: v = x == y; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: v = x != y; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: v = x < y; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: v = x <= y; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: v = x > y; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: v = x >= y; break; default: break; } r = mkBool(v); }
    else if (a.k == V_FLT && b.k == V_FLT) r = opaqueCond(mkExpr(E_OPQ, 1, {a.l, b.l}, {(i64)C->getPredicate()}, 0, 1)); else r = opaqueCond(mkAtom(0, 1, "nd"));
    setV(S, I, r); out.push_back(std::move(S)); return; }
  if (auto *C = dyn_cast<CastInst>(I)) {
    AbsVal a = evalV(S, C->getOperand(0)), r; Type *T = C->getType(), *ST = C->getSrcTy();
    if (a.k == V_UNDEF) { r = a; r.w = T->isIntegerTy() ? T->getIntegerBitWidth() : 64; setV(S, I, r); out.push_back(std::move(S)); return; }
    switch (C->getOpcode()) {
      case Instruction::Trunc: r = mkInt(T->getIntegerBitWidth(), toLin(S, a)); if (r.w == 1) { Lin l = asU(S, r.l, 1); r = l.isConst() ? mkBool(l.c != 0) : mkCond(2, l); } else if (r.l.isConst()) r.l = linMod(r.l, r.w); break;
      case Instruction::ZExt: r = mkInt(T->getIntegerBitWidth(), a.k == V_COND ? toLin(S, a) : asU(S, toLin(S, a), ST->getIntegerBitWidth())); break;
      case Instruction::SExt: r = mkInt(T->getIntegerBitWidth(), a.k == V_COND ? linScale(toLin(S, a), -1) : asS(S, toLin(S, a), ST->getIntegerBitWidth())); break;
      case Instruction::SIToFP: case Instruction::UIToFP: { bool sg = C->getOpcode() == Instruction::SIToFP; int sw = ST->getIntegerBitWidth(); Lin l = sw == 1 ? toLin(S, a) : sg ? asS(S, toLin(S, a), sw) : asU(S, toLin(S, a), sw); if (l.isConst()) r = mkFlt(T->isFloatTy() ? 32 : 64, fconst((double)l.c)); else r = mkFlt(T->isFloatTy() ? 32 : 64, mkExpr(E_FOP, T->isFloatTy() ? 32 : 64, {l}, {9002}, 0, 1)); break; }
      case Instruction::FPToSI: case Instruction::FPToUI: { double d; int w = T->getIntegerBitWidth(); if (a.k == V_FLT && isFConst(a.l.t[0].first, d)) r = mkInt(w, Lin((i128)d)); else if (a.k == V_FLT) r = mkInt(w, Lin::sym(mkExpr(E_BITS, w + 2000, {a.l}, {}, 0, pow2(w) - 1))); else r = topOf(T); break; }
      case Instruction::FPExt: r = a; r.w = 64; if (a.k != V_FLT) r = topOf(T); break;
      case Instruction::FPTrunc: { double d; if (a.k == V_FLT && isFConst(a.l.t[0].first, d)) r = mkFlt(32, fconst((float)d)); else if (a.k == V_FLT) r = mkFlt(32, mkExpr(E_FOP, 32, {a.l}, {9003}, 0, 1)); else r = topOf(T); break; }
      case Instruction::PtrToInt: if (a.k == V_PTR && a.t.size() == 1) { if (!a.t[0].o) r = mkInt(64, Lin(0)); else r = mkInt(64, a.t[0].off + Lin::sym(mkExpr(E_OPQ, 64, {}, {777, a.t[0].o}, 4096, pow2(47)))); } else r = topOf(T); break;
      case Instruction::IntToPtr: { Lin l = toLin(S, a); if (l.isConst() && l.c == 0) r = mkNull(); else r = mkTop(64); break; }
      case Instruction::BitCast: r = coerce(S, a, T, I); break;
      default: r = topOf(T);
    }
    setV(S, I, r); out.push_back(std::move(S)); return; }
  if (auto *Q = dyn_cast<SelectInst>(I)) {
    AbsVal c = toCond(S, evalV(S, Q->getCondition())); int d = condDecide(S, *c.c);
    for (int b = 1; b >= 0; b--) { if (d >= 0 && d != b) continue; State s = S; if (d < 0 && !assumeCond(s, *c.c, b)) continue; setV(s, I, evalV(s, b ? Q->getTrueValue() : Q->getFalseValue())); out.push_back(std::move(s)); } return; }
  if (auto *F = dyn_cast<FreezeInst>(I)) { setV(S, I, evalV(S, F->getOperand(0))); out.push_back(std::move(S)); return; }
  if (auto *CB = dyn_cast<CallBase>(I)) { std::vector<std::pair<State, AbsVal>> r; handleCall(std::move(S), CB, r); for (auto &x : r) { if (!I->getType()->isVoidTy()) setV(x.first, I, x.second); out.push_back(std::move(x.first)); } return; }
  if (!I->getType()->isVoidTy()) setV(S, I, topOf(I->getType()));
  out.push_back(std::move(S));
}
static void execBlock(State S, const BasicBlock *B, FInfo &fi, Edges &out, std::vector<Out> &rets) {
  States cur; cur.push_back(std::move(S));
  for (auto &I : *B) {
    if (isa<PHINode>(I) || I.isDebugOrPseudoInst()) continue;
    if (I.isTerminator()) {
      for (auto &s : cur) {
        STAT["edges"]++;
        if (auto *R = dyn_cast<ReturnInst>(&I)) { Out o; if (R->getReturnValue()) { o.v = evalV(s, R->getReturnValue()); if (o.v.k == V_UNDEF) { alarm("uninit", &I, "uninitialised value returned"); o.v = topOf(R->getReturnValue()->getType()); } } o.s = std::move(s); rets.push_back(std::move(o)); }
        else if (auto *Br = dyn_cast<BranchInst>(&I)) {
          if (Br->isUnconditional()) { takeEdge(std::move(s), B, Br->getSuccessor(0), fi, out); continue; }
          AbsVal cv = evalV(s, Br->getCondition()); if (cv.k == V_UNDEF) alarm("uninit", &I, "branch on an uninitialised value"); AbsVal c = toCond(s, cv); int d = condDecide(s, *c.c); if (d < 0) UNDECIDED++;
          for (int b = 1; b >= 0; b--) { if (d >= 0 && d != b) continue; State x = s; if (!assumeCond(x, *c.c, b)) continue; takeEdge(std::move(x), B, Br->getSuccessor(b ? 0 : 1), fi, out); } }
        else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
          AbsVal v = evalV(s, Sw->getCondition()); if (v.k == V_UNDEF) alarm("uninit", &I, "switch on an uninitialised value"); int w = Sw->getCondition()->getType()->getIntegerBitWidth(); Lin u = asU(s, toLin(s, v), w); Itv r = s.num.range(u); State def = s; bool dok = true; int ways = 0;
          Lin sgn = asS(s, toLin(s, v), w); bool useS = u.isSym1() && EX[u.t[0].first].k == E_MODU;
          for (auto &c : Sw->cases()) { i128 cval = useS ? (i128)c.getCaseValue()->getSExtValue() : (i128)c.getCaseValue()->getZExtValue(); const Lin &q = useS ? sgn : u; if (!useS && (cval < r.lo || cval > r.hi)) continue; State x = s; if (x.num.assumeEQ(norm(x, q - Lin(cval)))) { ways++; takeEdge(std::move(x), B, c.getCaseSuccessor(), fi, out); } if (dok) dok = def.num.assumeNE(norm(def, q - Lin(cval))); }
          if (ways + dok > 1) UNDECIDED++;
          if (dok) takeEdge(std::move(def), B, Sw->getDefaultDest(), fi, out); }
        else if (isa<UnreachableInst>(&I)) {}
        else die("unsupported terminator");
      }
      return;
    }
    States nx; for (auto &s : cur) execInst(std::move(s), &I, nx); cur = std::move(nx);
    if (cur.empty()) return;
    if ((int)cur.size() > 2 * optCap) { mergeStates(cur, B, 0); if ((int)cur.size() > 2 * optCap) mergeStates(cur, B, 2); }
  }
}
int main(int argc, char **argv) {
  { int pr = personality(0xffffffff); if (pr >= 0 && !(pr & ADDR_NO_RANDOMIZE)) { personality(pr | ADDR_NO_RANDOMIZE); if (personality(0xffffffff) & ADDR_NO_RANDOMIZE) execv("/proc/self/exe", argv); } } // same address layout on every run: same iteration orders
  std::string file, entry; 
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto val = [&](const char *p) { return a.substr(strlen(p)); };
    if (a.rfind("--entry=", 0) == 0) ENTRY = entry = val("--entry="); else if (a.rfind("--unroll=", 0) == 0) optUnroll = atoi(val("--unroll=").c_str()); else if (a.rfind("--cap=", 0) == 0) optCap = atoi(val("--cap=").c_str()); else if (a.rfind("--k=", 0) == 0) optK = atoi(val("--k=").c_str()); else if (a == "--paths") optPaths = true; else if (a == "--loop-paths") optPaths = optLoopPaths = true; else if (a == "--leak") optLeak = true; else if (a == "--oom") optOom = true; else if (a == "--history") optHistory = true; else if (a == "-v") optVerbose = true; else if (a.rfind("--limit=", 0) == 0) optLimit = atoi(val("--limit=").c_str()); else if (a.rfind("--budget=", 0) == 0) optBudget = atoll(val("--budget=").c_str()); else if (a.rfind("--override=", 0) == 0) overrides.insert(val("--override=")); else if (a.rfind("--override-rec=", 0) == 0) overridesRec.insert(val("--override-rec=")); else if (a.rfind("--maxfree=", 0) == 0) optMaxFree = atoi(val("--maxfree=").c_str()); else if (a[0] == '-') die("bad option " + a); else file = a; }
  SMDiagnostic err; MOD = parseIRFile(file, err, CTX); if (!MOD) { err.print("mbai", errs()); return 3; }
  DL = &MOD->getDataLayout(); OBJ.push_back(ObjInfo{K_NULL, "null"}); OBJ[0].isize = Lin(0);
  for (auto &G : MOD->globals()) if (G.getName().starts_with("g_")) GHOSTS.push_back(&G);
  std::set<i128> th = {0, -1, 1, pow2(31) - 1, -pow2(31), pow2(32) - 1, pow2(63) - 1, -pow2(63), pow2(64) - 1, 255, 256, 65535};
  th.insert(pow2(46)); THR2.assign(th.begin(), th.end());
  for (int i = 0; i < 40; i += 4) { th.insert(pow2(i)); th.insert(-pow2(i)); }
  for (auto &F : *MOD) for (auto &B : F) for (auto &I : B) { if (isa<ICmpInst>(I)) for (auto &O : I.operands()) if (auto *C = dyn_cast<ConstantInt>(O.get())) if (C->getBitWidth() <= 64) { i128 v = C->getSExtValue(); if (v > 2 && v < 100000) { th.insert(v); th.insert(v - 1); } }
    if (auto *A = dyn_cast<AllocaInst>(&I)) if (auto *AT = dyn_cast<ArrayType>(A->getAllocatedType())) { th.insert((i128)AT->getNumElements()); th.insert((i128)AT->getNumElements() - 1); } }
  THR1.assign(th.begin(), th.end());
  if (optHistory) for (auto &G : MOD->globals()) if (!G.isConstant() && G.hasInitializer() && !G.getInitializer()->isNullValue() && !G.getValueType()->isSingleValueType()) { // tables: nothing may write them
    SmallVector<DIGlobalVariableExpression *, 1> D; G.getDebugInfo(D); if (D.empty() || (D[0]->getVariable()->getDirectory() + "/" + D[0]->getVariable()->getFilename()).str().find("/harness") != std::string::npos) continue;
    ObjId o = globalObj(&G); WATCH.push_back({o, 0, (i64)DL->getTypeAllocSize(G.getValueType()), true, 0, 0}); STAT["history_tables"]++; }
  Function *F = MOD->getFunction(entry); if (!F || F->isDeclaration()) die("no entry " + entry);
  State S; auto outs = execFunc(F, S, {}, nullptr);
  STAT["end_states"] = outs.size(); STAT["steps"] = stepCount; STAT["functions"] = FUNCS.size(); STAT["instructions"] = ISEEN.size(); STAT["symbols"] = EX.size();
  STAT["obligations"] = OBLS.size(); dump(entry, "");
  fflush(stdout); _exit(0);
}
