/* streams: distinct objects so that the interpreter can tell them apart */
char stderr_stream[8], stdout_stream[8], stdin_stream[8];
void *stderr = stderr_stream, *stdout = stdout_stream, *stdin = stdin_stream;

/* library functions given by what the C standard says of them */
typedef unsigned long size_t;
struct tm; typedef long time_t;
struct tm *gmtime(const time_t *), *localtime(const time_t *); void *memcpy(void *, const void *, size_t);
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
static int among(char c, const char *set) { for (; *set; set++) if (*set == c) return 1; return 0; }
size_t strspn(const char *s, const char *set) { size_t i = 0; while (s[i] && among(s[i], set)) i++; return i; }
size_t strcspn(const char *s, const char *set) { size_t i = 0; while (s[i] && !among(s[i], set)) i++; return i; }
char *strpbrk(const char *s, const char *set) { while (*s && !among(*s, set)) s++; return *s ? (char *)s : 0; }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; size_t i; for (i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i); return 0; }
char *strncat(char *d, const char *s, size_t n) { size_t k = 0, i = 0; while (d[k]) k++; while (i < n && s[i]) d[k++] = s[i++]; d[k] = 0; return d; }
struct tm *gmtime_r(const time_t *t, struct tm *r) { struct tm *x = gmtime(t); if (!x) return 0; return memcpy(r, x, 56); }
struct tm *localtime_r(const time_t *t, struct tm *r) { struct tm *x = localtime(t); if (!x) return 0; return memcpy(r, x, 56); }
void *mempcpy(void *d, const void *s, size_t n) { return (char *)memcpy(d, s, n) + n; }
void bzero(void *p, size_t n) { unsigned char *s = p; size_t i; for (i = 0; i < n; i++) s[i] = 0; }
