// mbai - abstract interpreter for libmbus: symbolic linear forms + numeric domain
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <memory>
#include <algorithm>
#include <functional>
#include <cassert>
typedef __int128 i128;
typedef long long i64;
typedef unsigned long long u64;
static const i128 INF = ((i128)1) << 110;
static inline i128 clampInf(i128 v){ return v > INF ? INF : (v < -INF ? -INF : v); }
static inline i128 satAdd(i128 a, i128 b){
  if (a >= INF || b >= INF) { return (a <= -INF || b <= -INF) ? INF : INF; }
  if (a <= -INF || b <= -INF) return -INF;
  return clampInf(a + b);
}
static inline i128 satMul(i128 a, i128 b){
  if (a == 0 || b == 0) return 0;
  i128 r;
  if (__builtin_mul_overflow(a, b, &r)) return ((a < 0) == (b < 0)) ? INF : -INF;
  return clampInf(r);
}
static inline i128 floordiv(i128 a, i128 b){ i128 q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) --q; return q; }
static inline i128 ceildiv(i128 a, i128 b){ return -floordiv(-a, b); }
static inline i128 pow2(int w){ return ((i128)1) << w; }
static inline i128 modp(i128 a, i128 m){ i128 r = a % m; if (r < 0) r += m; return r; }
static std::string i128s(i128 v){
  if (v >= INF) return "+inf"; if (v <= -INF) return "-inf";
  bool n = v < 0; if (n) v = -v; if (v == 0) return "0";
  std::string s; while (v > 0) { s += char('0' + (int)(v % 10)); v /= 10; }
  if (n) s += '-'; std::reverse(s.begin(), s.end()); return s;
}
struct Itv { i128 lo, hi; bool single() const { return lo == hi; } bool empty() const { return lo > hi; } };

typedef int Sym;
struct Lin {
  i128 c = 0;
  std::vector<std::pair<Sym, i128>> t; // sorted by sym, coef != 0
  Lin() {}
  Lin(i128 k) : c(k) {}
  static Lin sym(Sym s) { Lin l; l.t.push_back({s, 1}); return l; }
  bool isConst() const { return t.empty(); }
  bool isSym1() const { return t.size() == 1 && t[0].second == 1; }
  bool operator==(const Lin &o) const { return c == o.c && t == o.t; }
  bool operator!=(const Lin &o) const { return !(*this == o); }
  bool operator<(const Lin &o) const { if (t != o.t) return t < o.t; return c < o.c; }
};
static Lin linAdd(const Lin &a, const Lin &b, i128 kb = 1) {
  Lin r; r.c = a.c + kb * b.c;
  r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
    else if (i >= a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({b.t[j].first, b.t[j].second * kb}); j++; }
    else { i128 k = a.t[i].second + kb * b.t[j].second; if (k) r.t.push_back({a.t[i].first, k}); i++; j++; }
  }
  return r;
}
static Lin linSub(const Lin &a, const Lin &b) { return linAdd(a, b, -1); }
static Lin linScale(const Lin &a, i128 k) { if (k == 0) return Lin(0); Lin r = a; r.c *= k; for (auto &p : r.t) p.second *= k; return r; }
static Lin operator+(const Lin &a, const Lin &b) { return linAdd(a, b); }
static Lin operator-(const Lin &a, const Lin &b) { return linSub(a, b); }

// canonical residue of a form mod 2^w; coefficients in (-2^(w-1), 2^(w-1)]
static Lin linMod(const Lin &a, int w) {
  if (w >= 100) return a;
  i128 m = pow2(w), h = pow2(w - 1);
  Lin r; r.c = modp(a.c, m);
  for (auto &p : a.t) { i128 k = modp(p.second, m); if (k > h) k -= m; if (k) r.t.push_back({p.first, k}); }
  return r;
}

enum EK : uint8_t { E_ATOM, E_MODU, E_MODS, E_AND, E_OR, E_XOR, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR,
  E_FILL, E_LOADSYM, E_BOOL, E_OPQ, E_FCONST, E_FOP, E_BITS, E_STRFN };
static const char *ekName[] = {"atom","modu","mods","and","or","xor","mul","udiv","sdiv","urem","srem","shl","lshr","ashr",
  "fill","load","bool","opq","fconst","fop","bits","strfn"};
struct Expr { EK k; int w; std::vector<Lin> args; std::vector<i64> x; Itv def; std::string name; };
struct ExprKey { EK k; int w; std::vector<Lin> args; std::vector<i64> x;
  bool operator<(const ExprKey &o) const { if (k != o.k) return k < o.k; if (w != o.w) return w < o.w; if (x != o.x) return x < o.x; return args < o.args; } };
extern std::vector<Expr> EX;
extern std::map<ExprKey, Sym> EXIDX;
static Sym mkAtom(i128 lo, i128 hi, const std::string &name = "") {
  Expr e; e.k = E_ATOM; e.w = 0; e.def = {lo, hi}; e.name = name; EX.push_back(e); return (Sym)EX.size() - 1;
}
static Sym mkExpr(EK k, int w, const std::vector<Lin> &args, const std::vector<i64> &x, i128 lo, i128 hi) {
  ExprKey key{k, w, args, x};
  auto it = EXIDX.find(key);
  if (it != EXIDX.end()) { return it->second; }
  Expr e; e.k = k; e.w = w; e.args = args; e.x = x; e.def = {lo, hi};
  EX.push_back(e); Sym s = (Sym)EX.size() - 1; EXIDX[key] = s; return s;
}
static std::string linStr(const Lin &l, int depth = 0);
static std::string symStr(Sym s, int depth = 0) {
  const Expr &e = EX[s];
  if (e.k == E_ATOM) return (e.name.empty() ? "v" : e.name) + "#" + std::to_string(s);
  if (e.k == E_FCONST) { double d; memcpy(&d, &e.x[0], 8); char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
  std::string r = ekName[e.k]; r += "(";
  if (depth > 2) return r + "..)";
  for (auto &a : e.args) r += linStr(a, depth + 1) + ",";
  for (auto v : e.x) r += std::to_string(v) + ",";
  if (r.back() == ',') r.pop_back();
  return r + ")";
}
static std::string linStr(const Lin &l, int depth) {
  std::string r; int n = 0;
  for (auto &p : l.t) { if (n++ > 6) { r += "+..."; break; } if (!r.empty() || p.second < 0) r += p.second < 0 ? "-" : "+"; i128 k = p.second < 0 ? -p.second : p.second; if (k != 1) r += i128s(k) + "*"; r += symStr(p.first, depth); }
  if (l.c || r.empty()) { if (!r.empty() && l.c >= 0) r += "+"; r += i128s(l.c); }
  return r;
}

// replace wrapped sub-terms whose wrapping is invisible modulo 2^w
static Lin linFlat(const Lin &a, int w) {
  Lin r = a; bool ch = true; int it = 0;
  while (ch && it++ < 8) { ch = false; Lin n; n.c = r.c;
    for (auto &p : r.t) { const Expr &e = EX[p.first];
      if ((e.k == E_MODU || e.k == E_MODS) && e.w < 100 && modp(satMul(p.second, pow2(e.w)), pow2(w)) == 0) { Lin x = linScale(e.args[0], p.second); n = linAdd(n, x); ch = true; }
      else { Lin x; x.t.push_back(p); n = linAdd(n, x); } }
    r = n; }
  return linMod(r, w);
}

// difference bounds with memoised shortest paths
struct EdgeMap {
  typedef std::map<std::pair<Sym, Sym>, i128> M; typedef M::const_iterator const_iterator; typedef M::const_iterator iterator;
  M m; mutable std::unordered_map<Sym, std::unordered_map<Sym, i128>> sp;
  EdgeMap() {} EdgeMap(const EdgeMap &o) : m(o.m) {} EdgeMap(EdgeMap &&o) : m(std::move(o.m)), sp(std::move(o.sp)) {}
  EdgeMap &operator=(const EdgeMap &o) { m = o.m; sp.clear(); return *this; } EdgeMap &operator=(EdgeMap &&o) { m = std::move(o.m); sp = std::move(o.sp); return *this; }
  const_iterator begin() const { return m.begin(); } const_iterator end() const { return m.end(); } bool empty() const { return m.empty(); } size_t size() const { return m.size(); }
  const_iterator find(const std::pair<Sym, Sym> &k) const { return m.find(k); } const_iterator lower_bound(const std::pair<Sym, Sym> &k) const { return m.lower_bound(k); }
  const_iterator erase(const_iterator i) { sp.clear(); return m.erase(i); }
  void put(Sym a, Sym b, i128 c) { sp.clear(); m[{a, b}] = c; }
  const std::unordered_map<Sym, i128> &from(Sym x) const {
    auto f = sp.find(x); if (f != sp.end()) return f->second;
    auto &d = sp[x]; auto it0 = m.lower_bound({x, -1}); if (it0 == m.end() || it0->first.first != x) return d;
    d[x] = 0; std::vector<Sym> q{x}; size_t qi = 0; int steps = 0;
    while (qi < q.size() && steps++ < 400) { Sym a = q[qi++]; i128 da = d[a];
      for (auto it = m.lower_bound({a, -1}); it != m.end() && it->first.first == a; ++it) { i128 nd = satAdd(da, it->second); auto f = d.find(it->first.second); if (f == d.end() || nd < f->second) { d[it->first.second] = nd; q.push_back(it->first.second); } } }
    return d;
  }
};
// numeric abstract state: intervals, difference bounds x - y <= c, exclusions, boolean facts
struct Num {
  std::map<Sym, Itv> itv;
  EdgeMap edge; // x - y <= c
  std::map<Sym, std::set<i64>> excl;
  std::map<Sym, std::vector<Lin>> imp; // byte symbol != 0 implies form <= 0 (position before the terminator)
  std::vector<Lin> le; // forms other than differences known to be <= 0
  std::map<Sym, int> fact; // opaque boolean expression -> 0/1
  std::map<std::vector<std::pair<Sym,i128>>, std::set<i128>> ne; // multi-term form + c != 0 (stores c)
  Itv get(Sym s) const { auto it = itv.find(s); if (it != itv.end()) return it->second; return EX[s].def; }
  bool hasEdge(Sym s) const { for (auto &e : edge) if (e.first.first == s || e.first.second == s) return true; return false; }
  i128 diffub(Sym x, Sym y) const {
    Itv ix = get(x), iy = get(y);
    i128 best = satAdd(ix.hi, -iy.lo);
    if (edge.empty()) return best;
    auto &d = edge.from(x);
    auto f = d.find(y); if (f != d.end()) best = std::min(best, f->second);
    return best;
  }
  i128 ubRec(const std::vector<std::pair<Sym, i128>> &t, int depth) const {
    i128 s = 0;
    for (auto &p : t) { Itv i = get(p.first); s = satAdd(s, p.second > 0 ? satMul(p.second, i.hi) : satMul(p.second, i.lo)); }
    if (t.size() < 2 || t.size() > 6 || depth > 3) return s;
    if (edge.empty()) return s;
    for (size_t i = 0; i < t.size(); i++) if (t[i].second > 0)
      for (size_t j = 0; j < t.size(); j++) if (t[j].second < 0) {
        i128 m = std::min(t[i].second, -t[j].second);
        i128 d = diffub(t[i].first, t[j].first);
        if (d >= INF) continue;
        std::vector<std::pair<Sym, i128>> r;
        for (size_t k = 0; k < t.size(); k++) { i128 cf = t[k].second; if (k == i) cf -= m; if (k == j) cf += m; if (cf) r.push_back({t[k].first, cf}); }
        i128 v = satAdd(satMul(m, d), ubRec(r, depth + 1));
        if (v < s) s = v;
      }
    return s;
  }
  // results of canon() kept while the state does not change (freeze/thaw); never copied along
  struct Frozen { bool on = false; std::vector<Lin> le; std::unordered_map<Sym, std::pair<Sym, i128>> rep; Frozen() {} Frozen(const Frozen &) {} Frozen &operator=(const Frozen &) { on = false; le.clear(); rep.clear(); return *this; } };
  mutable Frozen fz;
  void freeze() const { fz = Frozen(); if (edge.empty()) return; std::vector<Lin> v; for (auto &g : le) v.push_back(canon(g)); fz.le = v; fz.on = true; }
  void thaw() const { fz = Frozen(); }
  // replace symbols equal to another one (plus a constant) by the smallest of them
  Lin canon(const Lin &f) const {
    Lin r(f.c);
    for (auto &p : f.t) {
      Itv v = get(p.first); if (v.single()) { r.c += p.second * v.lo; continue; }
      Sym best = p.first; i128 bc = 0;
      if (fz.on) { auto k = fz.rep.find(p.first); if (k != fz.rep.end()) { Lin t(k->second.second); t.t.push_back({k->second.first, 1}); r = linAdd(r, t, p.second); continue; } }
      auto &d = edge.from(p.first);
      for (auto &q : d) if (q.first < best) { auto &e = edge.from(q.first); auto f2 = e.find(p.first); if (f2 != e.end() && f2->second == -q.second) { best = q.first; bc = q.second; } }
      if (fz.on) fz.rep[p.first] = {best, bc};
      Lin t(bc); t.t.push_back({best, 1}); r = linAdd(r, t, p.second);
    }
    return r;
  }
  i128 ub(const Lin &f0, int depth = 0) const {
    i128 s = satAdd(f0.c, ubRec(f0.t, 0));
    if (le.empty() || f0.t.empty() || depth >= 2) return s;
    const bool cn = depth == 0 && !edge.empty();
    Lin f = cn ? canon(f0) : f0;
    for (size_t gi = 0; gi < le.size(); gi++) { const Lin g1 = edge.empty() || fz.on ? Lin() : canon(le[gi]); const Lin &g = edge.empty() ? le[gi] : fz.on ? fz.le[gi] : g1;
      int hit = 0; for (auto &p : f.t) for (auto &q : g.t) if (p.first == q.first && (p.second > 0) == (q.second > 0)) hit++;
      if (hit < 1 + depth) continue;
      Lin h = f - g; if (h.t.size() > 10) continue; i128 v = ub(h, depth + 1); if (v < s) s = v; }
    return s; }
  i128 lb(const Lin &f) const { Lin g = linScale(f, -1); i128 u = ub(g); return u >= INF ? -INF : (u <= -INF ? INF : -u); }
  Itv range(const Lin &f) const { return {lb(f), ub(f)}; }
  bool setItv(Sym s, Itv n, bool &changed) {
    Itv o = get(s); Itv r{std::max(o.lo, n.lo), std::min(o.hi, n.hi)};
    auto ex = excl.find(s);
    if (ex != excl.end()) { bool ch = true; while (ch && r.lo <= r.hi) { ch = false;
      if (r.lo > -pow2(62) && r.lo < pow2(62) && ex->second.count((i64)r.lo)) { r.lo++; ch = true; }
      else if (r.hi > -pow2(62) && r.hi < pow2(62) && ex->second.count((i64)r.hi)) { r.hi--; ch = true; } } }
    if (r.empty()) return false;
    if (r.lo != o.lo || r.hi != o.hi) { itv[s] = r; changed = true; if (!imp.empty() && (r.lo > 0 || r.hi < 0)) { auto im = imp.find(s); if (im != imp.end()) { auto v = im->second; imp.erase(im); for (auto &f : v) if (!assumeLE(f)) return false; } } return back(s); }
    return true;
  }
  // refine the arguments of a derived symbol
  bool back(Sym s) {
    const Expr e = EX[s]; Itv v = get(s);
    switch (e.k) {
      case E_BOOL: // x[0]: 0 = LE0, 1 = EQ0
        if (v.single()) { if (e.x[0] == 0) return v.lo ? assumeLE(e.args[0]) : assumeLE(linAdd(Lin(1), e.args[0], -1));
          return v.lo ? assumeEQ(e.args[0]) : assumeNE(e.args[0]); }
        return true;
      case E_AND:
        if (e.args[1].isConst() && v.single()) {
          i128 m = e.args[1].c; Itv a = range(e.args[0]);
          if (a.lo >= 0 && m > 0) {
            if ((m & (m - 1)) == 0 && a.hi < 2 * m) { if (v.lo == 0) return assumeLE(e.args[0] - Lin(m - 1)); else return assumeLE(Lin(m) - e.args[0]); }
            // contiguous high mask
            if (v.lo == 0) { i128 low = m & -m; if (((m / low) & (m / low + 1)) == 0 && a.hi < low + m) return assumeLE(e.args[0] - Lin(low - 1)); }
            if (m <= a.hi && (v.lo == m)) return assumeLE(Lin(m) - e.args[0]);
            { i128 low = m & -m; if (((m / low) & (m / low + 1)) == 0 && a.hi < low + m) return assumeLE(e.args[0] - Lin(v.lo + low - 1)) && assumeLE(Lin(v.lo) - e.args[0]); }
          }
        }
        return true;
      case E_LSHR:
        if (e.args[1].isConst()) { i128 k = pow2((int)e.args[1].c); return assumeLE(e.args[0] - Lin(v.hi * k + k - 1)) && assumeLE(Lin(v.lo * k) - e.args[0]); }
        return true;
      case E_UDIV:
        if (e.args[1].isConst() && e.args[1].c > 0) { i128 k = e.args[1].c; return assumeLE(e.args[0] - Lin(v.hi * k + k - 1)) && assumeLE(Lin(v.lo * k) - e.args[0]); }
        return true;
      default: return true;
    }
  }
  bool propagate() {
    for (int r = 0; r < 6; r++) {
      bool ch = false;
      for (auto &e : edge) {
        Itv x = get(e.first.first), y = get(e.first.second);
        i128 nx = satAdd(y.hi, e.second), ny = satAdd(x.lo, -e.second);
        if (nx < x.hi) { if (!setItv(e.first.first, {-INF, nx}, ch)) return false; }
        if (ny > y.lo) { if (!setItv(e.first.second, {ny, INF}, ch)) return false; }
      }
      if (!ch) break;
    }
    return true;
  }
  bool assumeLE(const Lin &f0) { // f <= 0
    Lin f = f0;
    if (f.isConst()) return f.c <= 0;
    i128 L = lb(f);
    if (L > 0) return false;
    if (ub(f) <= 0) return true;
    bool ch = false;
    if (f.t.size() > 12) return true;
    if ((f.t.size() >= 3 || (f.t.size() == 2 && f.t[0].second != -f.t[1].second)) && f.t.size() <= 9) { bool sm = true, dup = false; for (auto &p : f.t) if (p.second > 64 || p.second < -64) sm = false; for (auto &g : le) if (g == f) dup = true; if (sm && !dup) { if (le.size() >= 16) le.erase(le.begin()); le.push_back(f); } }
    for (size_t i = 0; i < f.t.size(); i++) {
      Lin rest = f; i128 a = f.t[i].second; rest.t.erase(rest.t.begin() + i);
      i128 rl = lb(rest); if (rl <= -INF) continue;
      // a*x <= -rl
      Sym s = f.t[i].first;
      if (a > 0) { if (!setItv(s, {-INF, floordiv(-rl, a)}, ch)) return false; }
      else { if (!setItv(s, {ceildiv(-rl, a), INF}, ch)) return false; }
    }
    if (f.t.size() >= 2)
      for (size_t i = 0; i < f.t.size(); i++) if (f.t[i].second > 0)
        for (size_t j = 0; j < f.t.size(); j++) if (f.t[j].second < 0 && f.t[i].second == -f.t[j].second) {
          Lin rest; rest.c = f.c;
          for (size_t k = 0; k < f.t.size(); k++) if (k != i && k != j) rest.t.push_back(f.t[k]);
          i128 rl = lb(rest); if (rl <= -INF) continue;
          i128 bnd = floordiv(-rl, f.t[i].second);
          if (diffub(f.t[i].first, f.t[j].first) > bnd) { edge.put(f.t[i].first, f.t[j].first, bnd); ch = true; }
        }
    if (ch) return propagate();
    return true;
  }
  bool assumeEQ(const Lin &f) {
    if (f.isConst()) return f.c == 0;
    if (f.t.size() == 1) { i128 a = f.t[0].second; if (f.c % a != 0) return false; i128 v = -f.c / a;
      auto ex = excl.find(f.t[0].first); if (ex != excl.end() && v > -pow2(62) && v < pow2(62) && ex->second.count((i64)v)) return false; }
    auto itn = ne.find(f.t); if (itn != ne.end() && itn->second.count(f.c)) return false;
    { Lin g = linScale(f, -1); auto itm = ne.find(g.t); if (itm != ne.end() && itm->second.count(g.c)) return false; }
    return assumeLE(f) && assumeLE(linScale(f, -1));
  }
  bool assumeNE(const Lin &f) {
    if (f.isConst()) return f.c != 0;
    i128 l = lb(f), u = ub(f);
    if (l > 0 || u < 0) return true;
    if (l == 0 && u == 0) return false;
    if (l == 0) return assumeLE(Lin(1) - f);
    if (u == 0) return assumeLE(f + Lin(1));
    if (f.t.size() == 1) { i128 a = f.t[0].second; if (f.c % a == 0) { i128 v = -f.c / a; if (v > -pow2(62) && v < pow2(62)) { excl[f.t[0].first].insert((i64)v); bool ch = false; return setItv(f.t[0].first, {-INF, INF}, ch); } } }
    else if (f.t.size() <= 4) ne[f.t].insert(f.c);
    return true;
  }
};
