/* Examples the engine must report (BAD, with the expected category) or accept (GOOD); checked on every run. */
#include "mbai.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
struct n { struct n *next; int v; };
static int sum(const unsigned char *p, int n) { int s = 0; for (int i = 0; i < n; i++) s += p[i]; return s; }
/* GOOD */ void st_sum(void) { unsigned char b[256]; __ai_havoc(b, sizeof b); int n = __ai_range(0, 256); sum(b, n); }
/* BAD(oob-read) */ void st_sum_oob(void) { unsigned char b[256]; __ai_havoc(b, sizeof b); int n = __ai_range(0, 257); sum(b, n); }
/* GOOD */ void st_sum_heap(void) { long n = __ai_range(1, 300); unsigned char *p = malloc(n); if (!p) return; __ai_havoc(p, n); unsigned char *q = p; while (q != p + n) q++; sum(p, n); free(p); }
/* BAD(oob-read) */ void st_sum_heap_oob(void) { long n = __ai_range(1, 300); unsigned char *p = malloc(n); if (!p) return; __ai_havoc(p, n); for (long i = 0; i <= n; i++) if (p[i] == 7) break; free(p); }
/* GOOD */ void st_str(void) { char *p = malloc(10); if (!p) return; strcpy(p, "hello"); CHECK(strlen(p) == 5, "len"); free(p); }
/* BAD(oob-write) */ void st_strcpy(void) { char *p = malloc(5); if (!p) return; strcpy(p, "hello"); free(p); }
/* BAD(leak) */ void st_leak(void) { char *p = malloc(10); if (!p) return; if (__ai_any()) return; free(p); }
/* BAD(double-free) */ void st_df(void) { char *p = malloc(10); free(p); if (__ai_any()) free(p); }
/* BAD(uaf) */ void st_uaf(void) { char *p = malloc(10); p[0] = 1; free(p); p[0] = 2; }
/* BAD(bad-free) */ void st_badfree(void) { char b[4]; char *p = b; free(p); }
/* BAD(null) */ void st_oom(void) { char *p = malloc(10); p[0] = 1; free(p); }
/* GOOD */ void st_oom_ok(void) { char *p = malloc(10); if (p) p[0] = 1; free(p); }
/* GOOD */ void st_list(void) { struct n *h = 0; int k = __ai_range(0, 1000); for (int i = 0; i < k; i++) { struct n *x = malloc(sizeof *x); if (!x) break; x->next = h; x->v = i; h = x; } while (h) { struct n *t = h->next; free(h); h = t; } }
/* BAD(uaf) */ void st_list_uaf(void) { struct n *h = 0; int k = __ai_range(0, 1000); for (int i = 0; i < k; i++) { struct n *x = malloc(sizeof *x); if (!x) break; x->next = h; x->v = i; h = x; } while (h) { struct n *t = h->next; free(h); h = h->next; (void)t; } }
/* BAD(leak) */ void st_list_leak(void) { struct n *h = 0; int k = __ai_range(0, 1000); for (int i = 0; i < k; i++) { struct n *x = malloc(sizeof *x); if (!x) break; x->next = h; x->v = i; h = x; } if (h) { struct n *t = h->next; free(h); h = t; } }
/* GOOD */ void st_snprintf(void) { char b[20]; int v = __ai_range(0, 99999); size_t len = 0; for (int i = 0; i < 3; i++) len += snprintf(b + len, sizeof(b) - len, "%d ", v); CHECK(len <= 18, "len"); }
/* BAD(oob-write,trunc) */ void st_snprintf_oob(void) { char b[10]; int v = __ai_range(0, 99999); size_t len = 0; for (int i = 0; i < 3; i++) len += snprintf(b + len, sizeof(b) - len, "%d ", v); }
/* BAD(uninit) */ void st_uninit(void) { int x[2]; if (__ai_any()) x[1] = 1; if (x[1]) __ai_cover("x"); }
/* GOOD */ void st_grow(void) { size_t sz = 64, len = 0; char *b = malloc(sz); if (!b) return; b[0] = 0; int n = __ai_range(0, 100000); for (int i = 0; i < n; i++) { if (sz - len < 32) { sz *= 2; char *nb = realloc(b, sz); if (!nb) { free(b); return; } b = nb; } len += snprintf(b + len, sz - len, "<a>%d</a>", i); } CHECK(__ai_balanced(b), "bal"); free(b); }
/* BAD(oob-write,trunc) */ void st_grow_bad(void) { size_t sz = 64, len = 0; char *b = malloc(sz); if (!b) return; b[0] = 0; int n = __ai_range(0, 100000); for (int i = 0; i < n; i++) { if (sz - len < 8) { sz *= 2; char *nb = realloc(b, sz); if (!nb) { free(b); return; } b = nb; } len += snprintf(b + len, sz - len, "<a>%d</a>", i); } free(b); }
/* BAD(fail:bal) */ void st_tags(void) { char b[64]; snprintf(b, sizeof b, "<a>%s</b>", "x"); CHECK(__ai_balanced(b), "bal"); }
/* BAD(fail:safe) */ void st_markup(void) { char s[8], b[64]; __ai_str(s, 0, 7, 0); snprintf(b, sizeof b, "%s", s); CHECK(__ai_xmlsafe(b), "safe"); }
/* BAD(stdout) */ void st_out(void) { printf("x %d\n", 3); }
/* GOOD */ void st_err(void) { fprintf(stderr, "x %d\n", 3); }
/* GOOD */ void st_ck(void) { unsigned char b[10]; __ai_havoc(b, 10); unsigned char c = 0; for (int i = 0; i < 10; i++) c += b[i]; unsigned char d = 0; for (int i = 9; i >= 0; i--) d += b[i]; CHECK(c == d, "ck"); }
/* BAD(fail:ck) */ void st_ck_bad(void) { unsigned char b[10]; __ai_havoc(b, 10); unsigned char c = 0; for (int i = 0; i < 10; i++) c += b[i]; unsigned char d = 0; for (int i = 9; i > 0; i--) d += b[i]; CHECK(c == d, "ck"); }
/* BAD(shift) */ void st_shift(void) { int k = __ai_range(0, 40); int r = 1 << k; if (r == 7) __ai_cover("x"); }
/* BAD(div0) */ void st_div(void) { int k = __ai_range(0, 40); int r = 100 / k; if (r == 7) __ai_cover("x"); }
/* BAD(exit) */ void st_exit(void) { if (__ai_any()) exit(1); }
/* BAD(abort) */ void st_abort(void) { if (__ai_any()) abort(); }
/* BAD(format) */ void st_format(void) { char s[8], b[64]; __ai_str(s, 0, 7, 0); snprintf(b, sizeof b, s); }

/* GOOD */ void st_copytext(void) { static unsigned char s[60], b[400]; __ai_str(s, 0, 50, 0); unsigned n = 0; for (unsigned char *p = s; *p && n < 390; p++) { const char *e = *p == '<' ? "&lt;" : *p == '>' ? "&gt;" : *p == '&' ? "&amp;" : *p == '"' ? "&quot;" : 0; if (e) { memcpy(b + n, e, strlen(e)); n += strlen(e); } else b[n++] = *p < 32 || *p == 127 ? ' ' : *p; } b[n] = 0; CHECK(__ai_xmlsafe(b), "safe"); }
/* BAD(fail:safe) */ void st_copytext_raw(void) { static unsigned char s[60], b[400]; __ai_str(s, 0, 50, 0); unsigned n = 0; for (unsigned char *p = s; *p && n < 390; p++) { const char *e = *p == '<' ? "&lt;" : *p == '>' ? "&gt;" : *p == '&' ? "&" : *p == '"' ? "&quot;" : 0; if (e) { memcpy(b + n, e, strlen(e)); n += strlen(e); } else b[n++] = *p < 32 || *p == 127 ? ' ' : *p; } b[n] = 0; CHECK(__ai_xmlsafe(b), "safe"); }
/* BAD(fail:safe) */ void st_copytext_cut(void) { static unsigned char s[60], b[400]; __ai_str(s, 0, 50, 0); unsigned n = 0; for (unsigned char *p = s; *p && n < 390; p++) { const char *e = *p == '<' ? "&lt;" : *p == '>' ? "&gt;" : *p == '&' ? "&amp;" : *p == '"' ? "&quot;" : 0; if (e) { memcpy(b + n, e, 3); n += 3; } else b[n++] = *p < 32 || *p == 127 ? ' ' : *p; } b[n] = 0; CHECK(__ai_xmlsafe(b), "safe"); }
/* BAD(fail:not) */ void st_excl(void) { int a = __ai_range(0, 100), b = __ai_range(0, 100), r; if (__ai_any()) { if (a == 60) return; r = a; } else r = b; CHECK(r != 60, "not"); }
/* GOOD */ void st_excl_both(void) { int a = __ai_range(0, 100), b = __ai_range(0, 59), r; if (__ai_any()) { if (a == 60) return; r = a; } else r = b; CHECK(r != 60, "not"); }
/* BAD(oob-write) */ void st_append_oob(void) { char b[16]; int n = __ai_range(0, 12); memset(b, 'a', n); memcpy(b + n, "bcde", 5); }
/* GOOD */ void st_append(void) { char b[17]; int n = __ai_range(0, 12); memset(b, 'a', n); memcpy(b + n, "bcde", 5); }
/* BAD(fail:eq) */ void st_prefix(void) { int v = __ai_range(0x40, 0x4f); CHECK((v | 0x21) == v + 0x20, "eq"); }
/* GOOD */ void st_prefix_ok(void) { int v = __ai_range(0x40, 0x4f); CHECK((v | 0x20) == v + 0x20, "eq"); }
/* helpers with variable arguments, and the rest of the text functions */
int vsnprintf(char *, size_t, const char *, __builtin_va_list);
static size_t putf(char *b, size_t cap, size_t len, const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); int n = vsnprintf(b + len, cap - len, f, ap); __builtin_va_end(ap); return len + n; }
/* GOOD */ void st_va(void) { char b[64]; size_t n = 0; int v = __ai_range(0, 99); n = putf(b, sizeof b, n, "<a>%d", v); n = putf(b, sizeof b, n, "%s</a>", "x"); if (!__ai_balanced(b)) __ai_fail("bal"); char c[64]; snprintf(c, sizeof c, "<a>%dx</a>", v); if (!__ai_sametext(b, c)) __ai_fail("same"); }
/* BAD(trunc) */ void st_va_cut(void) { char b[8]; size_t n = putf(b, sizeof b, 0, "%s%d", "abcde", (int)__ai_range(0, 999)); (void)n; }
/* BAD(format) */ void st_va_few(void) { char b[64]; putf(b, sizeof b, 0, "%d %d", 1); }
/* GOOD */ void st_spn(void) { if (strspn("0012ab", "0123456789") != 4) __ai_fail("spn"); if (strcspn("ab;c", ";") != 2) __ai_fail("cspn"); if (memchr("abc", 'b', 3) == 0) __ai_fail("chr"); }
/* BAD(oob-read) */ void st_memchr(void) { char b[4]; memset(b, 'a', 4); if (memchr(b, 'b', 5)) return; }
/* tags written in several pieces */
/* GOOD */ void st_pieces(void) { char b[200]; size_t n = 0; int k = __ai_range(0, 99); n += snprintf(b + n, sizeof b - n, "<a><r id=\"%d\"", k); if (__ai_any()) n += snprintf(b + n, sizeof b - n, " frame=\"%d\"", k); n += snprintf(b + n, sizeof b - n, ">\n"); n += snprintf(b + n, sizeof b - n, "</r></a>"); if (!__ai_balanced(b)) __ai_fail("bal"); }
/* BAD(fail:bal) */ void st_pieces_open(void) { char b[200]; size_t n = 0; int k = __ai_range(0, 99); n += snprintf(b + n, sizeof b - n, "<a><r id=\"%d\"", k); if (__ai_any()) n += snprintf(b + n, sizeof b - n, " frame=\"%d\">\n", k); n += snprintf(b + n, sizeof b - n, "</r></a>"); if (!__ai_balanced(b)) __ai_fail("bal"); }
/* BAD(fail:bal) */ void st_pieces_attr(void) { char b[200]; size_t n = 0; int k = __ai_range(0, 99); n += snprintf(b + n, sizeof b - n, "<r id=\"%d", k); n += snprintf(b + n, sizeof b - n, "></r>"); if (!__ai_balanced(b)) __ai_fail("bal"); }
/* BAD(fail:bal) */ void st_stray(void) { char b[200]; int k = __ai_range(0, 99); size_t n = snprintf(b, sizeof b, "%d>", k); snprintf(b + n, sizeof b - n, "<a>x</a>"); if (!__ai_balanced(b)) __ai_fail("bal"); }
/* statics as an earlier call left them */
/* BAD(uninit) */ void st_hist_skip(void) { static char b[8]; if (__ai_any()) b[0] = 0; if (b[0] == 'x') __ai_log("x", 0); }
/* GOOD */ void st_hist_set(void) { static char b[8]; b[0] = __ai_any() ? 0 : 'x'; if (b[0] == 'x') __ai_log("x", 0); }
/* BAD(uninit) */ void st_hist_count(void) { static int n; if (n > 3) __ai_log("x", 0); n++; }
/* BAD(fail:same) */ void st_hist_text(void) { static char b[8]; b[7] = 0; if (__ai_any()) strcpy(b, "a"); CHECK(strlen(b) < 3, "same"); }
/* GOOD */ void st_hist_text_ok(void) { static char b[8]; memset(b, 0, sizeof b); if (__ai_any()) strcpy(b, "a"); CHECK(strlen(b) < 3, "same"); }
