/* P20: every request function sends exactly the telegram of the standard, or refuses and sends nothing */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <string.h>
#include <stdlib.h>
static mbus_handle h;
static int g_sent, g_fail, g_listened;
static long addr, size;            /* what has to be sent */
static unsigned char want[264];    /* from the control byte on */
static int len;
static void eq(int a, int b, const char *what) { CHECK(__ai_same(a, b), "the telegram differs from that of the standard"); }
static int snd(mbus_handle *x, mbus_frame *f)
{
    unsigned char w[300], sum = 0;
    int n, i;
    CHECK(x == &h && f != 0, "another connection used");
    CHECK(len > 0, "something was sent although the request is refused");
    CHECK(g_sent == 0, "sent more than once");
    n = mbus_frame_pack(f, w, sizeof w);
    for (i = 0; i < len; i++) sum += want[i];
    if (len == 2) {
        CHECK(n == 5 && w[0] == 0x10 && w[4] == 0x16, "not the short frame of the standard");
        for (i = 0; i < 2; i++) eq(w[1 + i], want[i], "");
        eq(w[3], sum, "");
    } else {
        CHECK(n == len + 6 && w[0] == 0x68 && w[1] == len && w[2] == len && w[3] == 0x68 && w[n - 1] == 0x16, "not the long frame of the standard");
        for (i = 0; i < len; i++) eq(w[4 + i], want[i], "");
        eq(w[n - 2], sum, "");
    }
    g_sent = 1;
    if (__ai_split(__ai_range(0, 1))) { g_fail = 1; return -1; }
    return 0;
}
/* emptying the bus, decided by drv_purge */
int model_mbus_purge_frames(mbus_handle *x)
{
    CHECK(x == &h && g_sent && !g_fail, "listening although nothing was sent");
    g_listened = 1;
    return __ai_range(0, 1);
}
static int rcv(mbus_handle *x, mbus_frame *f) { __ai_fail("listening while sending"); return -1; }
static void setup(int control, int more)
{
    h.send = snd; h.recv = rcv; h.fd = 3;
    addr = __ai_range(0, 255);
    want[0] = control; want[1] = addr; len = 2 + more;
}
static void done(int r)
{
    CHECK(g_sent, "nothing was sent");
    CHECK((r == 0) == !g_fail, "failure to send misreported");
    CHECK(r == 0 || r == -1, "failure to send not reported as -1, which is what callers wait for");
}
static long bad(void) { return __ai_split(__ai_range(0, 1)) ? __ai_range(-2147483647 - 1, -1) : __ai_range(256, 2147483647); }
static void refused(int r) { CHECK(r != 0, "a request that cannot be sent was reported as sent"); CHECK(!g_sent, "something was sent although the request is refused"); }

void drv_request(void) { setup(0x5B, 0); done(mbus_send_request_frame(&h, addr)); }
void drv_request_bad(void) { h.send = snd; refused(mbus_send_request_frame(&h, bad())); refused(mbus_send_request_frame(0, 1)); }
void drv_ping(void)
{
    int p = __ai_split(__ai_range(0, 1));
    setup(0x40, 0);
    done(mbus_send_ping_frame(&h, addr, p));
    CHECK(g_listened == (p && !g_fail), "answers to the ping were kept or awaited wrongly");
}
void drv_ping_bad(void) { h.send = snd; refused(mbus_send_ping_frame(&h, bad(), 0)); refused(mbus_send_ping_frame(0, 1, 0)); }
static const long rates[8] = { 300, 600, 1200, 2400, 4800, 9600, 19200, 38400 };
void drv_baudrate(void)
{
    int i = __ai_split(__ai_range(0, 7));
    setup(0x53, 1);
    want[2] = 0xB8 + i;
    done(mbus_send_switch_baudrate_frame(&h, addr, rates[i]));
}
void drv_baudrate_bad(void)
{
    long r = __ai_range(-9223372036854775807L, 9223372036854775807L);
    int i;
    h.send = snd;
    refused(mbus_send_switch_baudrate_frame(&h, bad(), 300));
    refused(mbus_send_switch_baudrate_frame(0, 1, 300));
    for (i = 0; i < 8; i++) __ai_assume(r != rates[i]);
    refused(mbus_send_switch_baudrate_frame(&h, __ai_range(0, 255), r));
}
void drv_reset(void)
{
    int sub = __ai_split(__ai_range(0, 1));
    setup(0x53, 1 + sub);
    want[2] = 0x50;
    if (sub) { long s = __ai_range(0, 255); want[3] = s; done(mbus_send_application_reset_frame(&h, addr, s)); }
    else done(mbus_send_application_reset_frame(&h, addr, __ai_range(-2147483647 - 1, -1)));
}
void drv_reset_bad(void)
{
    h.send = snd;
    refused(mbus_send_application_reset_frame(&h, bad(), 1));
    refused(mbus_send_application_reset_frame(0, 1, 1));
    refused(mbus_send_application_reset_frame(&h, 1, __ai_range(256, 2147483647)));
}
static void user_data(int lo, int hi)
{
    int n = __ai_split(__ai_range(lo, hi)), i;
    unsigned char *d = malloc(n);
    if (!d) __ai_stop();
    setup(0x53, 1 + n);
    want[2] = 0x51;
    for (i = 0; i < n; i++) want[3 + i] = d[i] = __ai_range(0, 255);
    __ai_readonly(d, n);
    done(mbus_send_user_data_frame(&h, addr, d, n));
    __ai_unwatch(d);
    free(d);
}
void drv_user_data0(void) { user_data(1, 120); }
void drv_user_data1(void) { user_data(121, 190); }
void drv_user_data2(void) { user_data(191, 252); }
void drv_user_data_bad(void)
{
    unsigned char d[300];
    __ai_havoc(d, 300);
    h.send = snd;
    refused(mbus_send_user_data_frame(&h, bad(), d, 3));
    refused(mbus_send_user_data_frame(0, 1, d, 3));
    refused(mbus_send_user_data_frame(&h, 1, 0, 3));
    refused(mbus_send_user_data_frame(&h, 1, d, 0));
    refused(mbus_send_user_data_frame(&h, 1, d, __ai_range(253, 9223372036854775807L)));
}
void drv_set_address(void)
{
    int n = __ai_split(__ai_range(0, 255));
    if (n >= 253) __ai_stop();
    setup(0x53, 4);
    want[2] = 0x51; want[3] = 0x01; want[4] = 0x7A; want[5] = n;
    done(mbus_set_primary_address(&h, addr, n));
}
void drv_set_address_bad(void)
{
    h.send = snd;
    refused(mbus_set_primary_address(&h, bad(), 1));
    refused(mbus_set_primary_address(0, 1, 1));
    refused(mbus_set_primary_address(&h, 1, bad()));
    refused(mbus_set_primary_address(&h, 1, __ai_range(253, 255)));
}
/* selection by secondary address: identification least significant byte first, then manufacturer, version and medium */
int model_strtol(const char *s, char **e, int base)
{
    int v = 0, i;
    if (base != 16) __ai_fail("an address is not hexadecimal");
    for (i = 0; s[i]; i++) v = 16 * v + (s[i] <= '9' ? s[i] - '0' : s[i] <= 'F' ? s[i] - 'A' + 10 : s[i] - 'a' + 10);
    return v;
}
unsigned long model_strtoul(const char *s, char **e, int base) { return model_strtol(s, e, base); }
static void choose(const char *kinds)
{
    char a[17];
    int v[16], i;
    static const int at[16] = { 3, 3, 2, 2, 1, 1, 0, 0, 4, 4, 5, 5, 6, 6, 7, 7 };
    setup(0x73, 9);
    addr = want[1] = 0xFD; want[2] = 0x52;
    for (i = 0; i < 8; i++) want[3 + i] = 0;
    for (i = 0; i < 16; i++) {
        if (kinds[i] == '0') { v[i] = __ai_range(0, 9); a[i] = '0' + v[i]; }
        else if (kinds[i] == 'A') { v[i] = __ai_range(10, 14); a[i] = 'A' - 10 + v[i]; }
        else if (kinds[i] == 'a') { v[i] = __ai_range(10, 14); a[i] = 'a' - 10 + v[i]; }
        else { v[i] = 15; a[i] = kinds[i]; }
        want[3 + at[i]] = i % 2 ? want[3 + at[i]] + v[i] : 16 * v[i];
    }
    a[16] = 0;
    __ai_readonly(a, 17);
    int r = mbus_send_select_frame(&h, a);
    __ai_unwatch(a);
    done(r);
}
void drv_select_digits(void)
{
    static const char *k[8] = { "0000000000000000", "00000000AAAAaaAA", "FFFFFFFFFFFFFFFF", "ffffffffffffffff", "0F0F0F0FFFFFFFFF", "F00fFFF0AaAa0aF0", "AAAAAAAAaaaa0000", "aaaaaaaaAAAAAAAA" };
    choose(k[__ai_split(__ai_range(0, 7))]);
}
/* one position of any kind among others */
void drv_select_each(void)
{
    static const char kind[5] = { '0', 'A', 'a', 'F', 'f' };
    char k[17] = "0000000000000000";
    k[__ai_split(__ai_range(0, 15))] = kind[__ai_split(__ai_range(0, 4))];
    choose(k);
}
void drv_select_bad(void)
{
    static const char *badm[7] = { "", "1", "123456789012345", "12345678901234567", "1234567G12345678", "123456781234 678", "0x34567812345678" };
    h.send = snd;
    refused(mbus_send_select_frame(&h, badm[__ai_split(__ai_range(0, 6))]));
    refused(mbus_send_select_frame(&h, 0));
    refused(mbus_send_select_frame(0, "1234567812345678"));
}
/* memory may run out at any point */
void drv_memory(void)
{
    int k = __ai_split(__ai_range(0, 6)), r;
    unsigned char d[2] = { 1, 2 };
    static const unsigned char t[7][6] = { { 0x5B }, { 0x40 }, { 0x53, 0, 0xBD }, { 0x53, 0, 0x50, 7 }, { 0x53, 0, 0x51, 1, 2 }, { 0x53, 0, 0x51, 1, 0x7A, 9 }, { 0x53, 0, 0x50 } };
    static const int n[7] = { 2, 2, 3, 4, 5, 6, 3 };
    setup(0, 0);
    memcpy(want, t[k], 6); want[1] = addr; len = n[k];
    if (k == 0) r = mbus_send_request_frame(&h, addr);
    else if (k == 1) r = mbus_send_ping_frame(&h, addr, 0);
    else if (k == 2) r = mbus_send_switch_baudrate_frame(&h, addr, 9600);
    else if (k == 3) r = mbus_send_application_reset_frame(&h, addr, 7);
    else if (k == 4) r = mbus_send_user_data_frame(&h, addr, d, 2);
    else if (k == 5) r = mbus_set_primary_address(&h, addr, 9);
    else r = mbus_send_application_reset_frame(&h, addr, -1);
    CHECK(r != 0 || g_sent, "nothing was sent although success was reported");
    CHECK(r == 0 || g_fail || !g_sent, "failure reported although the request was sent");
    CHECK(r == 0 || r == -1, "failure to send not reported as -1, which is what callers wait for");
}
void drv_memory_select(void)
{
    static const unsigned char t[11] = { 0x73, 0xFD, 0x52, 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7 };
    h.send = snd; h.recv = rcv; h.fd = 3;
    memcpy(want, t, 11); len = 11;
    int r = mbus_send_select_frame(&h, "1234567824400107");
    CHECK(r != 0 || g_sent, "nothing was sent although success was reported");
    CHECK(r == 0 || g_fail || !g_sent, "failure reported although the request was sent");
    CHECK(r == 0 || r == -1, "failure to send not reported as -1, which is what callers wait for");
}
