/* intrinsics of the abstract interpreter (/verif/engine) */
#ifndef MBAI_H
#define MBAI_H
long __ai_range(long lo, long hi);
double __ai_double(void);
int __ai_any(void);
void __ai_havoc(void *p, unsigned long n);
void __ai_uninit(void *p, unsigned long n);
void __ai_str(void *p, unsigned long lo, unsigned long hi, int flags); /* 1 xml-safe text, 2 balanced markup */
long __ai_split(long x);
void __ai_assume(int c);
void __ai_fail(const char *msg);
void __ai_failc(const char *msg, ...);
void __ai_cover(const char *msg);
void __ai_log(const char *tag, ...);
int __ai_live(const void *p);
int __ai_freed(const void *p);
int __ai_balanced(const char *s);
int __ai_xmlsafe(const char *s);
int __ai_sametext(const char *a, const char *b); /* provably the same characters */
int __ai_exact(const char *s);
int __ai_same(long a, long b);
int __ai_fsame(double a, double b);
int __ai_fnear(double a, double b);
int __ai_fconst(double a);
void __ai_key(const char *k, long v);
void __ai_unkey(const char *k);
unsigned long __ai_objsize(const void *p);
void __ai_stop(void);
void __ai_readonly(const void *p, unsigned long n);              /* writes outside the harness alarm */
void __ai_frozen(const void *p, unsigned long n, const unsigned long *valid); /* writes below *valid outside the harness alarm */
void __ai_stale(const void *p, unsigned long n, const unsigned long *valid); /* reads at or beyond *valid alarm */
void __ai_unwatch(const void *p);
void __ai_summary(void *p);                                     /* the object stands for any number of like objects */
/* CHECK: must hold on every path that gets here.  REACH: some input must get here (reported when
   even the over-approximation cannot).  COVER: counted only. */
#define CHECK(c, msg) do { __ai_cover("C:" msg); if (!(c)) __ai_fail(msg); } while (0)
#define REACH(msg) __ai_cover("R:" msg)
#define COVER(msg) __ai_cover("V:" msg)
#endif
