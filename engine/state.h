// mbai - abstract values, memory objects, states
#pragma once
#include "core.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/PostOrderIterator.h"
using namespace llvm;

typedef int ObjId; // 0 = null
enum VK : uint8_t { V_UNDEF, V_INT, V_PTR, V_FLT, V_COND, V_TOP };
struct Tgt { ObjId o; Lin off; i64 so = -1, sn = 0; /* enclosing array member */ bool operator==(const Tgt &b) const { return o == b.o && off == b.off; } };
struct Cond { int op = 0; Lin d; Sym s = -1; bool neg = false; int pid = 0; };
// op: 0 LE0(d), 1 EQ0(d), 2 NE0(d), 3 opaque symbol s (neg), 4 const (d.c), 5 pointer-null pid (neg: nonnull)
struct AbsVal {
  VK k = V_UNDEF; int w = 0;
  Lin l;                 // INT form (mod 2^w), FLT: symbol
  std::vector<Tgt> t;    // PTR targets (o==0: null)
  int pid = 0;           // pointer identity when ambiguous
  std::shared_ptr<Cond> c;
  bool operator==(const AbsVal &b) const {
    if (k != b.k || w != b.w) return false;
    switch (k) { case V_INT: case V_FLT: return l == b.l; case V_PTR: return t == b.t; case V_COND:
      return c->op == b.c->op && c->d == b.c->d && c->s == b.c->s && c->neg == b.c->neg && c->pid == b.c->pid; default: return true; }
  }
};
static AbsVal mkInt(int w, const Lin &l) { AbsVal v; v.k = V_INT; v.w = w; v.l = l; return v; }
static AbsVal mkFlt(int w, Sym s) { AbsVal v; v.k = V_FLT; v.w = w; v.l = Lin::sym(s); return v; }
static AbsVal mkPtr(ObjId o, const Lin &off) { AbsVal v; v.k = V_PTR; v.w = 64; v.t.push_back({o, off}); return v; }
static AbsVal mkNull() { return mkPtr(0, Lin(0)); }
static AbsVal mkCond(int op, const Lin &d) { AbsVal v; v.k = V_COND; v.w = 1; v.c = std::make_shared<Cond>(); v.c->op = op; v.c->d = d; return v; }
static AbsVal mkBool(bool b) { return mkCond(4, Lin(b ? 1 : 0)); }
static AbsVal mkTop(int w) { AbsVal v; v.k = V_TOP; v.w = w; return v; }

// tag effect of a text: sequence of unmatched closes then unmatched opens; a text may also begin inside a tag (head, up to
// its '>') or end inside one (tail, complete attributes left out); raw: a text without tags, when it holds quotes
struct TagFx { bool ok = true, mk = false; std::vector<std::string> closes, opens; std::string head, tail, raw;
  bool operator==(const TagFx &b) const { return ok == b.ok && mk == b.mk && closes == b.closes && opens == b.opens && head == b.head && tail == b.tail && raw == b.raw; }
  bool balanced() const { return ok && closes.empty() && opens.empty() && head.empty() && tail.empty(); } };
static TagFx tagLex(const std::string &s, bool &hasMarkup);
static std::string tailCanon(const std::string &s) {
  auto nm = [](char c) { return isalnum((unsigned char)c) || c == '_' || c == ':' || c == '-'; };
  size_t j = 1; if (j < s.size() && s[j] == '/') j++; while (j < s.size() && nm(s[j])) j++;
  if (j >= s.size()) return s;
  std::string r = s.substr(0, j) + " ";
  while (true) { while (j < s.size() && (s[j] == ' ' || s[j] == '\n')) j++;
    size_t k = j; while (k < s.size() && nm(s[k])) k++;
    if (k == j || k + 1 >= s.size() || s[k] != '=' || s[k + 1] != '"') return r + s.substr(j);
    k += 2; while (k < s.size() && s[k] != '"') k++; if (k >= s.size()) return r + s.substr(j, s.find('"', j) + 1 - j) + "\1";
    j = k + 1; } }
static TagFx tagCat(const TagFx &a, const TagFx &b) {
  TagFx r; if (!a.ok || !b.ok) { r.ok = false; return r; }
  auto rw = [](const TagFx &x) { return x.raw.empty() ? std::string("\1") : x.raw; };
  if (!b.mk) { r = a; if (a.tail.empty()) { if (!a.mk && !(a.raw.empty() && b.raw.empty())) { r.raw = rw(a) + rw(b); if (r.raw.size() > 200 || a.raw == "?" || b.raw == "?") r.raw = "?"; } return r; }
    if (b.raw == "?") { r.ok = false; return r; } bool m; TagFx x = tagLex(a.tail + rw(b), m); if (!x.ok || x.tail.empty()) { r = TagFx(); r.ok = false; return r; } r.tail = x.tail; return r; }
  if (!b.head.empty()) { TagFx c = b; c.head.clear();
    if (!a.tail.empty()) { bool m; TagFx x = tagLex(a.tail + b.head, m), y = a; y.tail.clear(); return tagCat(tagCat(y, x), c); }
    if (a.mk || a.raw == "?") { r.ok = false; return r; }
    r = b; r.head = rw(a) + b.head; return r; }
  if (!a.tail.empty()) { r.ok = false; return r; }
  r = a; r.mk = true; r.raw.clear(); r.tail = b.tail;
  for (auto &c : b.closes) { if (r.opens.empty()) r.closes.push_back(c); else if (r.opens.back() == c) r.opens.pop_back(); else { r.ok = false; return r; } }
  for (auto &o : b.opens) r.opens.push_back(o);
  return r;
}
static TagFx tagJoin(const TagFx &a, const TagFx &b) {
  TagFx r = a; if (!a.ok || !b.ok || a.closes != b.closes || a.opens != b.opens || a.head != b.head || a.tail != b.tail) { r = TagFx(); r.ok = false; return r; }
  r.mk = a.mk || b.mk; if (a.raw != b.raw) r.raw = "?"; return r; }
struct AbsStr { bool exact = false; std::string lit; Lin len; bool safe = false; bool hasMarkup = false; TagFx tag; bool sym = false; std::string tpl; std::vector<Lin> vals; };
// sym: the text is tpl with each hole (\1 conversion \2) replaced by the rendering of the value in vals
// safe: no raw '<','>','&','"' and no control bytes outside what the library itself wrote; hasMarkup: contains tags (tag effect meaningful)
struct StrInfo { Lin start; AbsStr s; };
struct Pre { Lin start, end; bool safe = false; bool mkd = false; TagFx tag; // bytes [start,end) are non-zero text written so far; mkd: with tags, their effect is tag
  TagFx fx() const { if (mkd) return tag; TagFx r; r.ok = safe; return r; } };

enum SK : uint8_t { S_UNINIT, S_UNK, S_BYTES };
struct Seg { i64 lo, hi; SK k; int ver = 0; int bl = 0, bh = 255; bool mu = false; std::shared_ptr<std::string> by; i64 bo = 0; };
struct Cell { int len; AbsVal v; };
extern int VERCTR;
struct Content {
  std::map<i64, Cell> cells;
  std::vector<Seg> segs;
  std::vector<StrInfo> strs;
  std::vector<Lin> nuls;
  std::vector<Pre> pres;
  int ver = 0;
};
enum OS : uint8_t { O_LIVE, O_FREED, O_MAYBE };
struct ObjSt { std::shared_ptr<Content> c; Lin size; OS st = O_LIVE; };
enum OKind : uint8_t { K_NULL, K_GLOBAL, K_CONST, K_STACK, K_HEAP, K_FUNC, K_HARN };
struct ObjInfo { OKind k; std::string name; const Value *v = nullptr; Function *fn = nullptr; int inst = 0; bool summary = false; std::shared_ptr<Content> init; Lin isize; const Instruction *site = nullptr; };
extern std::vector<ObjInfo> OBJ;

struct Frame { Function *F = nullptr; u64 ctx = 0; std::map<const Value *, AbsVal> env; std::vector<AbsVal> args; std::vector<ObjId> allocas; const Instruction *site = nullptr; };
struct State {
  std::vector<std::shared_ptr<Frame>> stack;
  std::map<ObjId, ObjSt> mem;
  Num num;
  std::map<std::string, i64> ghost; // partition keys set by __ai_key
  Frame &top() { auto &p = stack.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }
  const Frame &ctop() const { return *stack.back(); }
};
