/* P21: hexadecimal text becomes the bytes it stands for */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <string.h>
#include <stdlib.h>
static int hex(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static int g_any;
unsigned long model_strtoul(const char *s, char **end, int base)
{
    if (g_any) { if (end) *end = (char *) s + __ai_range(1, 2); return __ai_range(0, 255); }
    unsigned long v = 0;
    if (base != 16) __ai_fail("read as numbers of another base");
    if (hex(s[0]) < 0) __ai_fail("not a digit");
    while (hex(*s) >= 0) v = 16 * v + hex(*s++);
    if (end) *end = (char *) s;
    return v;
}
/* any text: what is written stays within the destination, what is read within the source */
void drv_any(void)
{
    unsigned long n = __ai_range(0, 1 << 20), room = __ai_range(0, 1 << 20);
    unsigned char *src = malloc(n), *dst = malloc(room);
    if (!src || !dst) return;
    __ai_havoc(src, n);
    g_any = 1;
    __ai_readonly(src, 1 << 20);
    unsigned long got = mbus_hex2bin(dst, room, src, n);
    CHECK(got <= room, "more bytes than there is room for");
    __ai_unwatch(src);
    free(src); free(dst);
}
static int digit(void)
{
    int k = __ai_split(__ai_range(0, 2));
    return k == 0 ? '0' + __ai_range(0, 9) : k == 1 ? 'A' + __ai_range(0, 5) : 'a' + __ai_range(0, 5);
}
static unsigned char src[16], dst[8], want[8];
static int n;
static void blank(void) { int k = __ai_split(__ai_range(0, 2)); if (k == 0) src[n++] = ' '; if (k == 1) src[n++] = __ai_range(9, 13); }
static void pair(int i) { int a = digit(), b = digit(); src[n++] = a; src[n++] = b; want[i] = 16 * hex(a) + hex(b); }
static void compare(int got, int count)
{
    CHECK(got == count, "number of bytes is not that of the pairs of digits");
    for (int i = 0; i < count; i++) CHECK(dst[i] == want[i], "a byte differs from its digits");
    for (int i = count; i < 8; i++) CHECK(dst[i] == 0, "unused room not cleared");
}
void drv_pairs(void)
{
    int count = __ai_split(__ai_range(0, 2)), i;
    __ai_havoc(dst, sizeof dst);
    blank();
    for (i = 0; i < count; i++) { pair(i); if (i == 0) blank(); }
    if (__ai_split(__ai_range(0, 1))) src[n++] = digit(); /* half a pair is no byte */
    compare(mbus_hex2bin(dst, sizeof dst, src, n), count);
    REACH("converted");
}
void drv_room(void)
{
    int i, room = __ai_split(__ai_range(0, 2));
    __ai_havoc(dst, room);
    for (i = 0; i < 3; i++) pair(i);
    compare(mbus_hex2bin(dst, room, src, n), room);
}
void drv_stop(void)
{
    /* every character that is neither a digit nor blank: ranges, each within 32 codes */
    static const unsigned char lo[] = { 0, 14, 33, 58, 64, 71, 96, 103, 128, 160, 192, 224 }, hi[] = { 8, 31, 47, 63, 64, 95, 96, 127, 159, 191, 223, 255 };
    int where = __ai_split(__ai_range(0, 1)), k = __ai_split(__ai_range(0, 11)), c = __ai_range(lo[k], hi[k]);
    pair(0);
    if (where) src[n++] = digit();
    src[n++] = c;
    int s = n;
    pair(1); pair(2);
    compare(mbus_hex2bin(dst, sizeof dst, src, n), 1);
    REACH("stopped");
}
void drv_none(void)
{
    CHECK(mbus_hex2bin(0, 8, src, 8) == 0 && mbus_hex2bin(dst, 8, 0, 8) == 0, "nothing converted");
    CHECK(mbus_hex2bin(dst, 8, src, 0) == 0, "nothing converted");
}
