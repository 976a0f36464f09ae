/* P11: the search by secondary address tries every address mask it has to, each once */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <string.h>
#include <stdlib.h>
static mbus_handle h;
static char mask[17], orig[17];
static int g_pos;      /* position searched */
static int g_wild;     /* a wildcard there */
static int g_next;     /* digit to be probed next */
static int g_deeper;   /* the search has to go one position further */
static int g_over;     /* the search has to stop */
static int g_shown;    /* masks shown to the caller */
static int g_err;
static int g_digit;
static int g_small;    /* the wildcard is a small letter */
static void same(const char *m, const char *digit)
{
    int i;
    for (i = 0; i < 16; i++)
        if (i == g_pos && digit) CHECK(m[i] == *digit, "another digit than the next one was tried");
        else CHECK(__ai_same(m[i], orig[i]), "the search left the mask it was given");
    CHECK(m[16] == 0, "mask of another length");
}
static void shown(mbus_handle *x, const char *m)
{
    char d = '0' + g_next;
    CHECK(x == &h, "another connection used");
    CHECK(!g_over && !g_deeper, "search went on at the wrong place");
    same(m, g_wild ? &d : 0);
    g_shown++;
}
int model_mbus_probe_secondary_address(mbus_handle *x, const char *m, char *match)
{
    char d = '0' + g_next;
    CHECK(x == &h && match != 0, "another connection used");
    CHECK(!g_over, "search went on after it was over");
    CHECK(!g_deeper, "a group of devices was not searched");
    CHECK(g_wild ? g_next <= 9 : g_next == 0, "more masks tried than there are");
    CHECK(g_wild || g_pos == 15, "a mask was tried that is decided further on");
    same(m, g_wild ? &d : 0);
    CHECK(__ai_objsize(match) >= 17, "no room for the address found");
    g_digit = g_next++;
    int r = __ai_split(__ai_range(-1, 2));
    if (r == MBUS_PROBE_SINGLE) strcpy(match, "1234567824400107");
    if (r == MBUS_PROBE_ERROR) g_over = g_err = 1;
    if (r == MBUS_PROBE_COLLISION) g_deeper = 1;
    return r;
}
int model_mbus_scan_2nd_address_range(mbus_handle *x, int pos, char *m)
{
    char d = '0' + g_digit;
    CHECK(x == &h, "another connection used");
    CHECK(!g_over && g_deeper, "search went deeper without need");
    CHECK(pos == g_pos + 1, "search skipped a position");
    same(m, g_wild ? &d : 0);
    g_deeper = 0;
    if (__ai_split(__ai_range(0, 1))) { g_over = g_err = 1; return -1; }
    return 0;
}
static void nothing(mbus_handle *x, mbus_frame *f) { }
static int g_silent;
static void scan(int lo, int hi, int oom)
{
    int i, r;
    memset(&h, 0, sizeof h);
    g_pos = __ai_split(__ai_range(lo, hi));
    for (i = 0; i < 16; i++) {
        /* any other digit or wildcard; the characters are not looked at */
        mask[i] = 48 + __ai_range(0, 54);
    }
    mask[16] = 0;
    g_wild = __ai_split(__ai_range(0, 1));
    g_small = __ai_split(__ai_range(0, 1));
    if (g_wild) mask[g_pos] = 'F' + 32 * g_small;
    else { mask[g_pos] = 48 + __ai_range(0, 21); g_deeper = g_pos < 15; }
    memcpy(orig, mask, 17);
    if (g_silent || __ai_split(__ai_range(0, 1))) h.found_event = nothing;
    int show = __ai_split(__ai_range(0, 1));
    if (show) h.scan_progress = shown;
    r = mbus_scan_2nd_address_range(&h, g_pos, mask);
    for (i = 0; i < 17; i++) CHECK(__ai_same(mask[i], orig[i]), "the caller's mask was changed");
    CHECK(r == (g_err ? -1 : 0) || (oom && r == -1), "outcome of the search misreported");
    CHECK(r != 0 || !g_deeper, "a group of devices was not searched");
    CHECK(r != 0 || (g_wild ? g_next == 10 : g_pos == 15 ? g_next == 1 : g_next == 0), "not every mask was tried");
    CHECK(!show || g_shown == g_next, "not every mask tried was shown");
}
void drv_scan0(void) { scan(0, 7, 0); }
void drv_scan1(void) { scan(8, 14, 0); }
void drv_scan_last(void) { scan(15, 15, 0); }
/* P15: found devices are handed to the callback, not printed */
void drv_scan_silent(void) { g_silent = 1; scan(14, 15, 1); }
void drv_scan_memory(void) { scan(14, 15, 1); }
void drv_scan_refused(void)
{
    static const char *bad[4] = { "", "12345678FFFFFFF", "12345678FFFFFFFFF", "1" };
    g_over = 1;
    strcpy(mask, "FFFFFFFFFFFFFFFF");
    CHECK(mbus_scan_2nd_address_range(0, 0, mask) == -1, "search without connection accepted");
    CHECK(mbus_scan_2nd_address_range(&h, 0, 0) == -1, "search without mask accepted");
    CHECK(mbus_scan_2nd_address_range(&h, 0, (char *)bad[__ai_split(__ai_range(0, 3))]) == -1, "mask of a wrong length accepted");
    CHECK(mbus_scan_2nd_address_range(&h, __ai_range(16, 2147483647), mask) == 0, "search behind the last position");
    CHECK(mbus_scan_2nd_address_range(&h, __ai_range(-2147483647, -1), mask) == 0, "search before the first position");
}
