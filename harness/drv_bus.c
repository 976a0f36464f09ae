/* P10: selecting and probing devices by secondary address; P28: echoes and leftovers on the bus */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <string.h>
#include <stdlib.h>
static mbus_handle h;
static const char *mask = "12345678FFABFF07";
static int g_step;    /* 0 nothing asked, 1 selection sent, 2 selected, 3 data requested, 4 data received */
static int g_want;    /* what has to be reported */
static int g_over;    /* nothing more may be sent */
static int g_noise;   /* bytes may still be on the bus */
static int g_tries;   /* selections sent */
static int g_retry;   /* configured number of repeats */
static int g_found;   /* calls of the event handler */
static int g_read;    /* only reading: no second drain */
static int g_kind;    /* the frame received last */
static int g_to = 0xFD;
/* frames a device may answer with */
enum { ACK, GOOD, FIXED, ERRMSG, SHORTHEAD, CONTROL, SHORT, KINDS };
static void answer(mbus_frame *f, int kind)
{
    static const unsigned char head[12] = { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0x55, 0, 0, 0 };
    memset(f, 0, sizeof *f);
    g_kind = kind;
    if (kind == ACK) { f->start1 = 0xE5; f->type = MBUS_FRAME_TYPE_ACK; return; }
    f->start1 = f->start2 = 0x68; f->stop = 0x16; f->type = MBUS_FRAME_TYPE_LONG; f->control = 0x08;
    memcpy(f->data, head, 12);
    switch (kind) {
        case GOOD: f->control_information = 0x72; f->data_size = 12; break;
        case FIXED: f->control_information = 0x73; f->data_size = 16; break;
        case ERRMSG: f->control_information = 0x70; f->data_size = 1; break;
        case SHORTHEAD: f->control_information = 0x72; f->data_size = 5; break;
        case CONTROL: f->type = MBUS_FRAME_TYPE_CONTROL; break;
        case SHORT: f->type = MBUS_FRAME_TYPE_SHORT; f->start1 = 0x10; f->start2 = 0; break;
    }
}
static int finish(int want) { g_want = want; g_over = 1; return 0; }
static int rcv(mbus_handle *x, mbus_frame *f)
{
    CHECK(x == &h, "another connection used");
    int r = __ai_split(__ai_range(-4, KINDS - 1));
    if (r >= 0) answer(f, r);
    else if (r == MBUS_RECV_RESULT_INVALID) { int p; memset(f, 0, sizeof *f); p = __ai_split(__ai_range(0, 1)); f->control = p ? 0x48 : 0; f->type = MBUS_FRAME_TYPE_LONG; } /* remains of what could not be parsed */
    g_noise = r >= 0 || r == MBUS_RECV_RESULT_INVALID;
    if (g_step == 1) {
        g_step = 0;
        if (r == ACK) g_step = 2;
        else if (r == MBUS_RECV_RESULT_INVALID) finish(MBUS_PROBE_COLLISION);
        else if (r == MBUS_RECV_RESULT_TIMEOUT || r > 0) { g_want = MBUS_PROBE_NOTHING; if (r > 0) g_noise = 0; if (g_tries > g_retry) g_over = 1; }
        else finish(MBUS_PROBE_ERROR);
    } else if (g_step == 3) {
        g_step = 4;
        if (r == MBUS_RECV_RESULT_INVALID) finish(g_read ? MBUS_PROBE_ERROR : MBUS_PROBE_COLLISION);
        else if (r == MBUS_RECV_RESULT_TIMEOUT) finish(g_read ? MBUS_PROBE_ERROR : MBUS_PROBE_NOTHING);
        else if (r < 0) finish(MBUS_PROBE_ERROR);
        else finish(r == GOOD || g_read ? MBUS_PROBE_SINGLE : MBUS_PROBE_NOTHING);
        if (g_read) g_noise = 0;
    } else __ai_fail("listening although nothing was asked");
    return r > 0 ? 0 : r;
}
/* emptying the bus, decided by drv_purge */
int model_mbus_purge_frames(mbus_handle *x)
{
    int more = __ai_split(__ai_range(0, 1));
    CHECK(x == &h, "another connection used");
    if (!g_noise) return 0;
    g_noise = 0;
    if (g_want == MBUS_PROBE_COLLISION) return more;
    if (g_step == 2) {
        if (more) finish(MBUS_PROBE_COLLISION);
        else g_want = MBUS_PROBE_SINGLE;
    } else if (g_step == 4 && more) finish(MBUS_PROBE_COLLISION);
    return more;
}
static int snd(mbus_handle *x, mbus_frame *f)
{
    unsigned char w[20];
    static const unsigned char select[17] = { 0x68, 11, 11, 0x68, 0x73, 0xFD, 0x52, 0x78, 0x56, 0x34, 0x12, 0xFF, 0xAB, 0xFF, 0x07, 0, 0x16 };
    int n = mbus_frame_pack(f, w, sizeof w), i;
    CHECK(x == &h, "another connection used");
    CHECK(!g_over, "asked again although the result was known");
    CHECK(!g_noise, "asked while bytes may still be on the bus");
    if (g_step == 2) {
        CHECK(n == 5 && w[0] == 0x10 && w[4] == 0x16, "data request is no short frame");
        CHECK(w[1] == 0x5B && w[2] == g_to, "a selected device has to be asked at the network layer address");
        g_step = 3;
    } else {
        CHECK(g_step == 0, "asked again before the answer came");
        CHECK(n == 17, "selection has a wrong length");
        for (i = 0; i < 17; i++) CHECK(i == 15 || w[i] == select[i], "selection does not carry the mask");
        g_tries++;
        CHECK(g_tries <= g_retry + 1, "selected more often than configured");
        g_step = 1;
    }
    if (__ai_split(__ai_range(0, 1))) { finish(MBUS_PROBE_ERROR); return -1; }
    return 0;
}
static void found(mbus_handle *x, mbus_frame *f)
{
    CHECK(x == &h && f != 0, "event handler called for nothing");
    CHECK(g_step == 4 && g_want == MBUS_PROBE_SINGLE, "event handler called although no single device was found");
    CHECK(!g_noise, "event handler called before the bus was checked for more");
    CHECK(g_kind == GOOD && f->data_size == 12 && f->data[0] == 0x78, "event handler called with another frame");
    g_found++;
}
static void setup(int retry)
{
    memset(&h, 0, sizeof h);
    h.fd = 3; h.purge_first_frame = MBUS_FRAME_PURGE_M2S;
    h.send = snd; h.recv = rcv;
    h.max_data_retry = __ai_range(0, 9);
    h.max_search_retry = g_retry = retry;
}
void drv_select(void)
{
    setup(0);
    int r = mbus_select_secondary_address(&h, mask);
    CHECK(r == g_want, "outcome of the selection misreported");
    CHECK(g_tries == 1, "nothing was selected");
    CHECK(!g_noise || r == MBUS_PROBE_ERROR, "bytes may still be on the bus");
}
static void probe(int lo, int hi)
{
    char addr[17] = "????????????????";
    setup(__ai_split(__ai_range(lo, hi)));
    int ev = __ai_split(__ai_range(0, 1));
    if (ev) h.found_event = found;
    int r = mbus_probe_secondary_address(&h, mask, addr);
    CHECK(r == g_want, "outcome of probing misreported");
    CHECK(g_over || r == MBUS_PROBE_NOTHING, "probing ended early");
    CHECK(r != MBUS_PROBE_NOTHING || g_step == 4 || g_tries == g_retry + 1, "fewer attempts than configured");
    CHECK(!g_noise || r == MBUS_PROBE_ERROR, "bytes may still be on the bus");
    CHECK(g_found == (ev && r == MBUS_PROBE_SINGLE), "a found device was not reported exactly once");
    if (r == MBUS_PROBE_SINGLE) CHECK(memcmp(addr, "1234567824400107", 17) == 0, "address of the found device is wrong");
    else CHECK(addr[0] == '?', "an address was given although no single device was found");
}
void drv_probe0(void) { probe(0, 2); }
void drv_probe1(void) { probe(3, 6); }
void drv_probe2(void) { probe(7, 9); }
void drv_bad_mask(void)
{
    static const char *bad[8] = { 0, "", "12345678FFFFFFF", "12345678FFFFFFFFF", "1234567GFFFFFFFF", "12345678FFFFFFF ", "12345678FFFF0xFF", "12 45678FFFFFFFF" };
    char addr[17];
    const char *m = bad[__ai_split(__ai_range(0, 7))];
    setup(3);
    g_over = 1;
    CHECK(mbus_select_secondary_address(&h, m) == MBUS_PROBE_ERROR, "something that is no address was selected");
    CHECK(mbus_probe_secondary_address(&h, m, addr) == MBUS_PROBE_ERROR, "something that is no address was probed");
    CHECK(mbus_probe_secondary_address(&h, mask, 0) == MBUS_PROBE_ERROR, "probing without room for the address accepted");
}
void drv_read_secondary(void)
{
    mbus_address a;
    mbus_frame reply;
    setup(0); g_read = 1;
    a.is_primary = 0; a.secondary = (char *)mask;
    memset(&reply, 0, sizeof reply);
    int r = mbus_read_slave(&h, &a, &reply);
    CHECK((r == 0) == (g_step == 4 && g_want == MBUS_PROBE_SINGLE), "outcome of reading a device misreported");
    CHECK(r == 0 || r == -1, "undocumented result of reading");
}
void drv_read_primary(void)
{
    mbus_address a;
    mbus_frame reply;
    setup(0); g_read = 1; g_step = 2; g_want = MBUS_PROBE_SINGLE;
    g_to = __ai_split(__ai_range(0, 255));
    a.is_primary = 1; a.primary = g_to;
    memset(&reply, 0, sizeof reply);
    int r = mbus_read_slave(&h, &a, &reply);
    CHECK((r == 0) == (g_step == 4 && g_want == MBUS_PROBE_SINGLE), "outcome of reading a device misreported");
    if (r == 0) CHECK((g_kind == ACK ? reply.type == MBUS_FRAME_TYPE_ACK : reply.start1 == (g_kind == SHORT ? 0x10 : 0x68)), "the reply is not the one received");
}
void drv_read_refused(void)
{
    mbus_address a;
    mbus_frame reply;
    setup(0); g_over = 1;
    memset(&reply, 0, sizeof reply);
    CHECK(mbus_read_slave(0, &a, &reply) == -1, "reading without connection accepted");
    CHECK(mbus_read_slave(&h, 0, &reply) == -1, "reading without address accepted");
    a.is_primary = 0; a.secondary = 0;
    CHECK(mbus_read_slave(&h, &a, &reply) == -1, "reading without secondary address accepted");
    a.is_primary = 1; a.primary = __ai_range(256, 100000);
    CHECK(mbus_read_slave(&h, &a, &reply) == -1, "primary address out of range accepted");
}
