// abstract strings and the printf family
// markup effect of a text that starts and ends outside of a tag. Holes in text are passed as \1 (plain) .
static TagFx tagLex(const std::string &s, bool &hasMarkup) {
  TagFx r; size_t i = 0; hasMarkup = false;
  auto bad = [&]() { r.ok = false; };
  auto open = [&]() { r.tail = tailCanon(s.substr(i)); r.mk = true; }; // ends inside a tag
  while (i < s.size()) {
    char ch = s[i];
    if (ch == '&') { size_t j = s.find(';', i); static const std::set<std::string> ent = {"&amp;", "&lt;", "&gt;", "&quot;", "&apos;"};
      if (j == std::string::npos || !ent.count(s.substr(i, j - i + 1))) { bad(); return r; } i = j + 1; continue; }
    if (ch == '>') { if (r.mk || i > 200) { bad(); return r; } r.head = s.substr(0, i + 1); r.mk = hasMarkup = true; i++; continue; }
    if (ch != '<') { i++; continue; }
    hasMarkup = r.mk = true;
    if (s.compare(i, 2, "<?") == 0) { size_t j = s.find("?>", i); if (j == std::string::npos) { bad(); return r; } i = j + 2; continue; }
    size_t j = i + 1; bool close = false; if (j < s.size() && s[j] == '/') { close = true; j++; }
    std::string name; while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '_' || s[j] == ':' || s[j] == '-')) name += s[j++];
    if (name.empty()) { if (j >= s.size()) open(); else bad(); return r; }
    // attributes
    bool self = false;
    while (true) {
      while (j < s.size() && (s[j] == ' ' || s[j] == '\n')) j++;
      if (j >= s.size()) { open(); return r; }
      if (s[j] == '>') { j++; break; }
      if (s[j] == '/' && j + 1 >= s.size()) { open(); return r; }
      if (s[j] == '/' && s[j + 1] == '>') { self = true; j += 2; break; }
      if (close) { bad(); return r; }
      size_t k = j; while (k < s.size() && (isalnum((unsigned char)s[k]) || s[k] == '_' || s[k] == ':' || s[k] == '-')) k++;
      if (k == j) { bad(); return r; }
      if (k >= s.size() || (s[k] == '=' && k + 1 >= s.size())) { open(); return r; }
      if (s[k] != '=' || s[k + 1] != '"') { bad(); return r; }
      k += 2; while (k < s.size() && s[k] != '"' && s[k] != '<' && s[k] != '>') k++;
      if (k >= s.size()) { open(); return r; }
      if (s[k] != '"') { bad(); return r; }
      j = k + 1;
    }
    i = j;
    if (self) continue;
    TagFx o; o.mk = true; if (close) o.closes.push_back(name); else o.opens.push_back(name);
    r = tagCat(r, o); if (!r.ok) return r;
  }
  if (!r.mk && s.find('"') != std::string::npos) r.raw = s.size() > 200 ? "?" : s;
  return r;
}
static AbsStr litStr(const std::string &s) { AbsStr a; a.exact = true; a.lit = s; a.len = Lin((i128)s.size()); a.safe = xmlSafeLit(s); a.tag = tagLex(s, a.hasMarkup); return a; }
static bool symOf(const AbsStr &s, std::string &t, std::vector<Lin> &v) {
  if (s.sym) { t += s.tpl; v.insert(v.end(), s.vals.begin(), s.vals.end()); return true; }
  if (s.exact) { if (s.lit.find_first_of("\1\2") != std::string::npos) return false; t += s.lit; return true; }
  return false;
}
static void symJoin(AbsStr &r, const AbsStr &a, const AbsStr &b) { r.sym = false; r.tpl.clear(); r.vals.clear(); if (a.exact && b.exact) return; r.sym = symOf(a, r.tpl, r.vals) && symOf(b, r.tpl, r.vals) && r.tpl.size() < 8192; if (!r.sym) { r.tpl.clear(); r.vals.clear(); } }
static std::string hostFmt(const char *f, ...);
// canonical form of a text in the given state
static bool symCanon(State &S, const AbsStr &s, std::string &o, std::vector<Lin> &v) {
  std::string t; std::vector<Lin> w; if (!symOf(s, t, w)) return false; size_t k = 0;
  for (size_t i = 0; i < t.size(); i++) { if (t[i] != '\1') { o += t[i]; continue; }
    size_t j = t.find('\2', i); std::string sp = t.substr(i + 1, j - i - 1); Lin l = w[k++]; char cv = sp.back();
    if (cv == 's') { o += t.substr(i, j - i + 1); v.push_back(l); }
    else if (strchr("fFgGeEaA", cv)) { double d; if (isFConst(l.t[0].first, d)) o += hostFmt(("%" + sp).c_str(), d); else { o += t.substr(i, j - i + 1); v.push_back(l); } }
    else { l = norm(S, l); Itv r = S.num.range(l); if (r.single()) l = Lin(r.lo);
      if (l.isConst() && cv == 'c' && sp == "c") o += (char)(int)l.c;
      else if (l.isConst()) { sp.insert(sp.size() - 1, "ll"); o += hostFmt(("%" + sp).c_str(), (long long)l.c); }
      else { o += t.substr(i, j - i + 1); v.push_back(l); } }
    i = j; }
  return true;
}
static bool symSame(State &S, const AbsStr &a, const AbsStr &b) {
  std::string x, y; std::vector<Lin> v, w; if (!symCanon(S, a, x, v) || !symCanon(S, b, y, w)) return false;
  if (x != y || v.size() != w.size()) return false;
  for (size_t i = 0; i < v.size(); i++) { if (v[i] == w[i]) continue; Lin d = v[i] - w[i]; if (S.num.ub(d) != 0 || S.num.lb(d) != 0) return false; }
  return true;
}
// describe a text by its bytes
static void symBytes(State &S, ObjId o, const Content &c, i64 off, i64 k, AbsStr &u) {
  if (k > 256 || u.exact || u.sym) return; std::string t; std::vector<Lin> v;
  for (i64 q = 0; q < k; q++) { AbsVal b = contGet(S, o, c, off + q, 1); if (b.k != V_INT) return; Lin l = norm(S, asU(S, b.l, 8)); if (S.num.lb(l) <= 0) return; t += "\1c\2"; v.push_back(l); }
  u.sym = true; u.tpl = t; u.vals = v;
}
// the string starting at (o,off)
static AbsStr getStr(State &S, const Tgt &t, const Instruction *I, bool *known = nullptr) {
  if (known) *known = true;
  AbsStr u; u.safe = false; u.tag.ok = false;
  Lin off = norm(S, t.off);
  const ObjSt st = objGet(S, t.o); const Content &c = *st.c;
  for (auto &s : c.strs) { Lin d = norm(S, s.start - off); if (d.isConst() && d.c == 0) { AbsStr r = s.s; r.len = norm(S, r.len); if (off.isConst() && r.len.isConst()) symBytes(S, t.o, c, (i64)off.c, (i64)r.len.c, r); return r; } }
  // inside a known string
  for (auto &s : c.strs) { Lin d = norm(S, off - s.start); if (d.isConst() && d.c > 0 && S.num.ub(d - s.s.len) <= 0) {
    if (s.s.exact) return litStr(s.s.lit.substr((size_t)d.c)); AbsStr r; r.len = norm(S, s.s.len) - d; r.safe = s.s.safe; r.tag.ok = r.safe && !s.s.hasMarkup; return r; } }
  if (off.isConst()) { // scan constant bytes
    std::string lit; i64 p = (i64)off.c; bool ok = false; i64 lim = st.size.isConst() ? (i64)st.size.c : INT64_MAX;
    for (int n = 0; n < 20000 && p < lim; n++, p++) { AbsVal v = contGet(S, t.o, c, p, 1); if (v.k != V_INT) break; Lin l = norm(S, v.l); if (!l.isConst()) break; int ch = (int)modp(l.c, 256); if (!ch) { ok = true; break; } lit += (char)ch; }
    if (ok) return litStr(lit);
  }
  Lin best; i128 bub = INF; bool found = false;
  for (auto &n : c.nuls) { if (S.num.lb(n - off) < 0) continue; i128 b = S.num.ub(n - off); if (!found || b < bub) { best = norm(S, n - off); bub = b; found = true; } }
  for (auto &s : c.strs) { Lin n = s.start + s.s.len; if (S.num.lb(n - off) < 0) continue; i128 b = S.num.ub(n - off); if (!found || b < bub) { best = norm(S, n - off); bub = b; found = true; } }
  if (off.isConst()) for (auto &cl : c.cells) if (cl.first >= (i64)off.c && cl.second.len == 1 && cl.second.v.k == V_INT) { Lin l = norm(S, cl.second.v.l); if (l.isConst() && modp(l.c, 256) == 0) { i128 b = cl.first - off.c; if (!found || b < bub) { best = Lin(b); bub = b; found = true; } break; } }
  // zero-filled tail (static buffer never overwritten there)
  if (off.isConst()) for (auto &s : c.segs) if (s.k == S_UNK && s.bl == 0 && s.bh == 0) { i64 q = std::max(s.lo, (i64)off.c); if (q < s.hi && c.cells.find(q) == c.cells.end()) { i128 b = q - off.c; if (!found || b < bub) { best = Lin(b); bub = b; found = true; } break; } }
  // bytes up to the terminator
  if (!found && known) { *known = false; return u; }
  if (!found) {
    alarm("unterminated", I, "string argument not provably NUL-terminated: " + OBJ[t.o].name + "+" + linStr(off));
    i128 m = S.num.ub(st.size - off) - 1; if (m < 0) m = 0; if (m > pow2(20)) m = pow2(20);
    u.len = fresh(0, m, "strlen"); return u;
  }
  int bl = 255, bh = 0; bool mu = false;
  // memoised length symbol: same object, same version, same offset
  Lin L = exprIn(S, E_STRFN, 64, {off}, {t.o, c.ver}, 0, bub, 0, pow2(62)); Lin L0 = L;
  // first NUL may come earlier
  if (!L.isConst()) { S.num.assumeLE(L - best); 
    // leading bytes known to be non-zero belong to the text
    if (off.isConst()) { i64 k = 0; while (k < 4096 && k < (i64)bub) { AbsVal b0 = contGet(S, t.o, c, (i64)off.c + k, 1); if (b0.k != V_INT || S.num.lb(asU(S, b0.l, 8)) <= 0) break; k++; } if (k) S.num.assumeLE(Lin(k) - L); L = norm(S, L);
      if (L.isConst()) symBytes(S, t.o, c, (i64)off.c, (i64)L.c, u); } }
  if (!u.sym && !L0.isConst()) { u.sym = true; u.tpl = "\1s\2"; u.vals.push_back(L0); }
  u.len = L;
  if (off.isConst() && bub < 5000) { regionHull(S, c, (i64)off.c, (i64)off.c + (i64)bub, bl, bh, mu);
    // digits / upper-case letters only
    if (bl <= bh && bl >= 48 && bh <= 57) { u.safe = true; u.tag = TagFx(); }
    else { // look cell by cell for safe sets
      bool safe = true; for (i64 q = (i64)off.c; q < (i64)off.c + (i64)bub && safe; q++) { int l1 = 255, h1 = 0; bool m1 = false; regionHull(S, c, q, q + 1, l1, h1, m1); if (m1 || l1 > h1) { safe = false; break; }
        for (int x = l1; x <= h1; x++) if (x && !xmlSafeLit(std::string(1, (char)x))) { safe = false; break; } }
      if (safe) { u.safe = true; u.tag = TagFx(); } } }
  return u;
}
// write string s at t; size = limit of bytes (incl NUL) already checked
static void putStr(State &S, const Tgt &t, const AbsStr &s, bool append = false) {
  Lin off = norm(S, t.off);
  Content &c = objW(S, t.o);
  // append to an existing string?
  AbsStr whole = s; Lin start = off; bool app = false;
  for (auto &x : c.strs) { Lin d = norm(S, x.start + x.s.len - off);
    bool eq = (d.isConst() && d.c == 0) || (S.num.ub(d) == 0 && S.num.lb(d) == 0);
    if (eq && !(norm(S, x.s.len).isConst() && norm(S, x.s.len).c == 0 && false)) {
      if (norm(S, x.start - off).isConst() && norm(S, x.start - off).c == 0) break; // empty string at same place
      AbsStr a = x.s; whole = AbsStr();
      whole.len = norm(S, a.len + s.len); whole.safe = a.safe && s.safe; whole.hasMarkup = a.hasMarkup || s.hasMarkup; whole.tag = a.exact && a.lit.empty() ? s.tag : s.exact && s.lit.empty() ? a.tag : tagCat(a.tag, s.tag);
      whole.exact = a.exact && s.exact; if (whole.exact) whole.lit = a.lit + s.lit; symJoin(whole, a, s);
      if (whole.exact && !whole.tag.ok) whole.tag = tagLex(whole.lit, whole.hasMarkup);
      start = x.start; app = true; break; } }
  Lin wlen = s.len + Lin(1);
  int pi = preAt(S, c, off); Pre pre0; if (pi >= 0) pre0 = c.pres[pi];
  strClobber(S, c, off, wlen, false);
  Itv ro = S.num.range(off); i128 ul = S.num.ub(wlen);
  if (off.isConst() && s.exact && !OBJ[t.o].summary) {
    cellsClobber(S, c, (i64)off.c, (i64)off.c + s.lit.size() + 1);
    Seg g; g.lo = (i64)off.c; g.hi = g.lo + s.lit.size() + 1; g.k = S_BYTES; g.by = std::make_shared<std::string>(s.lit); g.by->push_back('\0'); segSet(c, g);
  } else {
    i64 lo = ro.lo < 0 ? 0 : (i64)ro.lo; i64 hi = satAdd(ro.hi, ul) > pow2(40) ? INT64_MAX : (i64)(ro.hi + ul);
    int bl = 255, bh = 0; bool mu = false; regionHull(S, c, lo, hi, bl, bh, mu);
    bl = 0; bh = 255; cellsClobber(S, c, lo, hi);
    Seg g; g.lo = lo; g.hi = hi; g.k = S_UNK; g.ver = ++VERCTR; g.bl = bl; g.bh = bh; g.mu = mu && !off.isConst(); segSet(c, g);
  }
  if (OBJ[t.o].summary) return;
  StrInfo si; si.start = start; si.s = whole; c.strs.push_back(si);
  if (pi >= 0) { Pre q = pre0; q.end = norm(S, off + s.len); q.safe = q.safe && s.safe; if (q.mkd) q.tag = tagCat(q.tag, s.tag); preSet(c, q); if (q.mkd && !app) { StrInfo y; y.start = q.start; y.s.len = norm(S, q.end - q.start); y.s.hasMarkup = true; y.s.tag = q.tag; c.strs.push_back(y); } else if (q.safe && !app) { /* text appended to safe text */ StrInfo y; y.start = q.start; y.s.len = norm(S, q.end - q.start); y.s.safe = true; y.s.tag = TagFx(); c.strs.push_back(y); } }
  else if (s.safe && !s.hasMarkup) { Pre q; q.start = off; q.end = norm(S, off + s.len); q.safe = true; preSet(c, q); }
  (void)app;
}
static std::string hostFmt(const char *f, ...) { va_list ap; va_start(ap, f); char b[4096]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
struct FmtRes { AbsStr s; };
static int digits10(i128 v) { if (v < 0) v = -v; int n = 1; while (v >= 10) { v /= 10; n++; } return n; }
static int digitsB(i128 v, int b) { int n = 1; while (v >= b) { v /= b; n++; } return n; }
// single target of a pointer value for string use; may split
static bool oneTgt(State &S, const AbsVal &v, Tgt &t, const Instruction *I, const char *what) {
  if (v.k != V_PTR || v.t.empty()) { alarm("imprecise", I, std::string("unknown pointer passed to ") + what); return false; }
  std::vector<Tgt> nn; for (auto &x : v.t) if (x.o) nn.push_back(x); else alarm("null", I, std::string("null pointer passed to ") + what);
  if (nn.empty()) return false;
  if (OBJ[nn[0].o].k != K_FUNC && objGet(S, nn[0].o).st == O_FREED) alarm("uaf", I, std::string("freed memory passed to ") + what);
  t = nn[0]; return nn.size() == 1;
}
static AbsStr strOfPtr(State &S, const AbsVal &v, const Instruction *I, const char *what) {
  AbsStr bad; bad.safe = false; bad.tag.ok = false; bad.len = fresh(0, 4096, "s");
  if (v.k != V_PTR || v.t.empty()) { alarm("imprecise", I, std::string("unknown string passed to ") + what); return bad; }
  bool first = true; AbsStr r;
  for (auto &t : v.t) {
    if (!t.o) { alarm("null", I, std::string("null string passed to ") + what); continue; }
    if (objGet(S, t.o).st == O_FREED) alarm("uaf", I, std::string("freed string passed to ") + what);
    AbsStr s = getStr(S, t, I);
    if (first) { r = s; first = false; continue; }
    if (r.exact && s.exact && r.lit == s.lit) continue;
    Itv a = S.num.range(r.len), b = S.num.range(s.len);
    r.sym = false; r.exact = false; r.lit.clear(); r.len = fresh(std::min(a.lo, b.lo), std::max(a.hi, b.hi), "len"); r.safe &= s.safe; r.hasMarkup |= s.hasMarkup; r.tag = tagJoin(r.tag, s.tag);
  }
  if (first) return bad;
  return r;
}
static AbsStr fmtEval(State &S, const std::string &f, const std::vector<AbsVal> &args, const Instruction *I) {
  std::string text; // format with holes (\1 = plain text, \2 = arbitrary raw text)
  AbsStr r; r.exact = true; Lin len(0); bool holesSafe = true; bool broken = false;
  TagFx fx; bool mk = false; std::string pend; // literal run not lexed yet
  bool safeAll = true; TagFx total; bool totalMarkup = false; std::string run; // run across holes
  bool symOk = true, any = false; std::string tpl; std::vector<Lin> vals;
  size_t ai = 0;
  auto addTag = [&](const TagFx &t) { total = any ? tagCat(total, t) : t; any = true; };
  auto flushRun = [&]() { if (run.empty()) return; bool m = false; TagFx t = tagLex(run, m); addTag(t); totalMarkup |= m; run.clear(); };
  auto nextArg = [&](AbsVal &v) -> bool { if (ai >= args.size()) { alarm("format", I, "format string consumes more arguments than passed: \"" + f + "\""); return false; } v = args[ai++]; return true; };
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { tpl += f[i]; if (f[i] == 1 || f[i] == 2) symOk = false; r.lit += f[i]; run += f[i]; len.c += 1; continue; }
    size_t st = i; i++;
    if (i < f.size() && f[i] == '%') { tpl += '%'; r.lit += '%'; run += '%'; len.c += 1; continue; }
    std::string flags; while (i < f.size() && strchr("-+ #0", f[i])) flags += f[i++];
    int width = 0, prec = -1; bool wstar = false, pstar = false; AbsVal wv, pv;
    if (i < f.size() && f[i] == '*') { wstar = true; i++; nextArg(wv); } else while (i < f.size() && isdigit((unsigned char)f[i])) width = width * 10 + (f[i++] - '0');
    i128 precHi = -1;
    if (i < f.size() && f[i] == '.') { i++; prec = 0; if (i < f.size() && f[i] == '*') { pstar = true; i++; nextArg(pv); if (pv.k == V_INT) { Itv pr = S.num.range(asS(S, pv.l, pv.w)); precHi = pr.hi; prec = pr.single() ? (int)pr.lo : -2; } else { precHi = INF; prec = -2; } } else { while (i < f.size() && isdigit((unsigned char)f[i])) prec = prec * 10 + (f[i++] - '0'); } }
    if (precHi < 0 && prec >= 0) precHi = prec;
    std::string lm; while (i < f.size() && strchr("hlLqjzt", f[i])) lm += f[i++];
    char cv = i < f.size() ? f[i] : 0; AbsVal v;
    std::string spec = f.substr(st, i - st + 1);
    if (!nextArg(v)) { broken = true; break; }
    if (wstar || pstar) symOk = false;
    const std::string csp = flags + (width ? std::to_string(width) : "") + (prec >= 0 ? "." + std::to_string(prec) : "");
    if (strchr("diuxXoc", cv)) {
      if (v.k == V_PTR || v.k == V_FLT) { alarm("format", I, "argument of \"" + spec + "\" is not an integer"); r.exact = false; len = len + fresh(0, 24); holesSafe = false; continue; }
      int want = (lm == "l" || lm == "ll" || lm == "z" || lm == "j" || lm == "t" || lm == "q") ? 64 : 32;
      if (v.w != want && v.k == V_INT) alarm("format", I, "argument of \"" + spec + "\" has " + std::to_string(v.w) + " bits, format expects " + std::to_string(want));
      int ew = lm == "hh" ? 8 : lm == "h" ? 16 : want;
      Lin l = (cv == 'd' || cv == 'i') ? asS(S, toLin(S, v), ew) : asU(S, toLin(S, v), ew);
      { char k = cv == 'i' ? 'd' : cv; if (k == 'u' && S.num.ub(l) < pow2(63)) k = 'd'; tpl += "\1" + csp + k + "\2"; vals.push_back(cv == 'c' ? asU(S, l, 8) : l); }
      if (cv == 'c') { Lin u = vals.back(); len.c += std::max(1, width); if (u.isConst()) { r.lit += (char)(int)u.c; if (u.c == 0) r.exact = false; run += (char)(int)u.c; } else { r.exact = false; bool sf = true; Itv q = S.num.range(u); for (i128 x = q.lo; x <= q.hi; x++) if (x == 0 || !xmlSafeLit(std::string(1, (char)(int)x))) sf = false; if (!sf) { holesSafe = false; } run += '\1'; } continue; }
      if (l.isConst() && !wstar && !pstar) {
        std::string fs = "%" + flags + (width ? std::to_string(width) : "") + (prec >= 0 ? "." + std::to_string(prec) : "") + "ll" + cv;
        std::string o = hostFmt(fs.c_str(), (long long)l.c); r.lit += o; run += o; len.c += o.size();
      } else {
        r.exact = false; Itv q = S.num.range(l); if (q.lo < -pow2(63)) q.lo = -pow2(63); if (q.hi > pow2(64)) q.hi = pow2(64);
        int lo, hi;
        if (cv == 'd' || cv == 'i') { hi = std::max(digits10(q.lo) + (q.lo < 0), digits10(q.hi)); lo = (q.lo <= 0 && q.hi >= 0) ? 1 : (q.lo > 0 ? digits10(q.lo) : digits10(q.hi) + 1); if (flags.find('+') != std::string::npos || flags.find(' ') != std::string::npos) { hi++; } }
        else { int b = cv == 'u' ? 10 : cv == 'o' ? 8 : 16; hi = digitsB(q.hi, b); lo = digitsB(std::max<i128>(q.lo, 0), b); if (flags.find('#') != std::string::npos) hi += 2; }
        if (precHi > hi) hi = (int)std::min<i128>(precHi + 1, 4096); if (prec > lo) lo = prec;
        if (wstar) hi = std::max(hi, 4096); if (width > lo) lo = width; if (width > hi) hi = width;
        if (lo == hi) len.c += lo; else len = len + fresh(lo, hi, "fmt"); run += '\1';
      }
    } else if (cv == 's') {
      if (v.k != V_PTR) { if (v.k == V_TOP) alarm("imprecise", I, "unknown pointer for %s"); else alarm("format", I, "argument of \"" + spec + "\" is not a pointer"); r.exact = false; len = len + fresh(0, 4096); holesSafe = false; continue; }
      AbsStr s = strOfPtr(S, v, I, "%s");
      if (!width && prec == -1) { if (!symOf(s, tpl, vals)) symOk = false; } else if (s.exact && prec == -1) { std::string o = s.lit; while ((int)o.size() < width) o = flags.find('-') != std::string::npos ? o + " " : " " + o; tpl += o; } else symOk = false;
      if (s.exact && prec == -1) { std::string o = s.lit; while ((int)o.size() < width) o = flags.find('-') != std::string::npos ? o + " " : " " + o; r.lit += o; len.c += o.size();
        if (s.hasMarkup || !s.safe) { bool inTag = false; (void)inTag; if (s.tag.ok) { flushRun(); addTag(s.tag); totalMarkup = true; } else holesSafe = false; } else run += o; }
      else { r.exact = false;
        if (prec != -1) { i128 h = S.num.ub(s.len); if (precHi >= 0 && precHi < h) h = precHi; i128 lo = 0; len = len + fresh(lo, std::max<i128>(h, width), "fs"); if (!s.safe) holesSafe = false; run += '\1'; }
        else { if (width) { i128 h = S.num.ub(s.len), l = S.num.lb(s.len); len = len + fresh(std::max<i128>(l, width), std::max<i128>(h, width), "fs"); } else len = len + s.len;
          if (s.safe) run += '\1';
          else if (s.tag.ok && s.hasMarkup) { flushRun(); addTag(s.tag); totalMarkup = true; }
          else { holesSafe = false; } } }
    } else if (strchr("fFgGeEaA", cv)) {
      if (v.k != V_FLT) { if (v.k != V_TOP) alarm("format", I, "argument of \"" + spec + "\" is not a floating value"); }
      if (v.k == V_FLT) { tpl += "\1" + csp + cv + "\2"; vals.push_back(v.l); } else symOk = false;
      double d; if (v.k == V_FLT && isFConst(v.l.t[0].first, d) && !wstar && !pstar) { std::string fs = "%" + flags + (width ? std::to_string(width) : "") + (prec >= 0 ? "." + std::to_string(prec) : "") + cv; std::string o = hostFmt(fs.c_str(), d); r.lit += o; run += o; len.c += o.size(); }
      else { r.exact = false; i128 p = precHi < 0 ? (prec == -2 ? 64 : 6) : precHi; if (p > 400) p = 400; i128 hi = (cv == 'f' || cv == 'F') ? 1 + 309 + 1 + p : p + 10; len = len + fresh(1, std::max<i128>(hi, width), "ff"); run += '\1'; }
    } else if (cv == 'p') { symOk = false; r.exact = false; len = len + fresh(1, 20); run += '\1'; }
    else { alarm("format", I, "unsupported conversion \"" + spec + "\""); broken = true; r.exact = false; }
  }
  if (!broken && ai < args.size() && ai > 0) { /* surplus args are harmless */ }
  flushRun();
  r.len = norm(S, len);
  if (!r.exact) { r.lit.clear(); if (symOk && !broken && tpl.size() < 8192) { r.sym = true; r.tpl = tpl; r.vals = vals; } }
  r.hasMarkup = totalMarkup;
  if (r.exact) { AbsStr e = litStr(r.lit); r.safe = e.safe; r.tag = holesSafe ? total : e.tag; if (!r.tag.ok && e.tag.ok) r.tag = e.tag; r.hasMarkup = e.hasMarkup; return r; }
  r.tag = total; if (!holesSafe) r.tag.ok = false;
  // safe = no markup at all in the literal part and safe holes
  { std::string lits; for (size_t i = 0; i < f.size(); i++) { if (f[i] == '%') { i++; while (i < f.size() && !isalpha((unsigned char)f[i]) && f[i] != '%') i++; while (i < f.size() && strchr("hlLqjzt", f[i])) i++; continue; } lits += f[i]; } r.safe = xmlSafeLit(lits) && holesSafe && !totalMarkup; }
  return r;
}
