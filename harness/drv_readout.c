/* P09: a readout asks for every telegram once, and again only when the answer did not come through */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <string.h>
#include <stdlib.h>
static mbus_handle h;
static mbus_frame reply;
static int max_frames, address;
/* what the bus saw so far; the interpreter keeps these apart */
static int g_sends;    /* requests since the last accepted telegram */
static int g_frames;   /* accepted telegrams, up to 4 */
static int g_fcb = 1;  /* frame count bit the next request has to carry */
static int g_wait;     /* a request is unanswered */
static int g_noise;    /* bytes may still be on the bus */
static int g_done;     /* nothing more may be asked */
static int g_fail;     /* the readout failed */
static int g_kind;     /* the telegram being looked at */
static int g_ret;      /* what the last look at the bus found */
static int g_limit;    /* 0 none, 1..3, 4 = 5 or more */
static int g_retry;    /* configured number of repeats */

/* one answer of the meter: as the frame parser would store it */
static void answer(mbus_frame *f, int kind)
{
    static const unsigned char head[12] = { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0x55, 0, 0, 0 };
    static const unsigned char more[3] = { 0x01, 0x13, 0x42 };
    memset(f, 0, sizeof *f);
    f->start1 = f->start2 = 0x68; f->stop = 0x16; f->type = MBUS_FRAME_TYPE_LONG;
    f->control = 0x08; f->address = g_frames;
    if (kind == 6) { memset(f, 0, sizeof *f); f->start1 = 0xE5; f->type = MBUS_FRAME_TYPE_ACK; return; }
    if (kind == 5) { f->control_information = 0x70; f->data[0] = 3; f->data_size = 1; return; }
    if (kind == 4) { f->control_information = 0x73; f->data_size = 16; memcpy(f->data, head, 4); return; }
    f->control_information = 0x72;
    memcpy(f->data, head, 12);
    memcpy(f->data + 12, more, 3);
    f->data_size = 15;
    switch (kind) {
        case 0: f->data[15] = 0x1F; f->data_size = 16; break;                       /* more follows */
        case 1: break;                                                              /* the last one */
        case 2: f->data[15] = 0x0F; f->data[16] = 0x1F; f->data_size = 17; break;   /* the last one, ends in manufacturer data */
        case 3: f->data[15] = 0x04; f->data[16] = 0x13; f->data_size = 17; break;   /* the second record is cut off */
    }
}
static int rcv(mbus_handle *x, mbus_frame *f)
{
    CHECK(x == &h, "another connection used");
    if (!g_wait) { /* listening for what else is on the bus */
        int r = __ai_split(__ai_range(-4, 0));
        if (r == 0) answer(f, 1);
        g_ret = r;
        g_noise = r == 0 || r == MBUS_RECV_RESULT_INVALID;
        return r;
    }
    g_wait = g_ret = 0;
    int kind = __ai_split(__ai_range(-4, 6));
    if (kind < 0) {
        g_ret = kind;
        g_noise = kind == MBUS_RECV_RESULT_INVALID;
        if (kind == MBUS_RECV_RESULT_ERROR || kind == MBUS_RECV_RESULT_RESET || g_sends > g_retry) g_done = g_fail = 1;
        return kind;
    }
    g_noise = 1;
    g_sends = 0;
    g_kind = kind;
    if (g_frames < 4) {
        if (g_frames > 0) CHECK(f != &reply, "a telegram replaced one received before");
        else CHECK(f == &reply, "the first telegram was not stored where asked");
        answer(f, kind);
        g_frames++;
    } else answer(f, kind);
    g_fail = kind == 3 || kind == 6;
    g_done = kind != 0 || (g_limit && g_frames >= g_limit && g_limit < 4);
    if (!g_done) g_fcb ^= 1;
    return MBUS_RECV_RESULT_OK;
}
/* emptying the bus, decided by drv_purge */
int model_mbus_purge_frames(mbus_handle *x)
{
    CHECK(x == &h, "another connection used");
    g_noise = g_ret = 0;
    return __ai_range(0, 1);
}
static int snd(mbus_handle *x, mbus_frame *f)
{
    unsigned char w[8];
    int n = mbus_frame_pack(f, w, sizeof w);
    CHECK(x == &h, "another connection used");
    CHECK(!g_done, "asked again although the readout was over");
    CHECK(!g_noise, "asked while bytes may still be on the bus");
    CHECK(!g_wait, "asked twice without listening");
    CHECK(g_sends <= g_retry, "repeated more often than configured");
    CHECK(n == 5 && w[0] == 0x10 && w[4] == 0x16, "request is no short frame");
    CHECK(__ai_same(w[2], (unsigned char)address), "another address asked");
    CHECK(w[1] == 0x5B + 0x20 * g_fcb, "request without the right frame count bit");
    g_sends++;
    g_kind = g_ret = 0;
    if (__ai_split(__ai_range(0, 1))) { g_done = g_fail = 1; return -1; }
    g_wait = 1;
    return 0;
}
static int readout(void)
{
    memset(&h, 0, sizeof h);
    h.fd = 3; h.purge_first_frame = MBUS_FRAME_PURGE_M2S;
    h.send = snd; h.recv = rcv;
    h.max_data_retry = g_retry;
    h.max_search_retry = __ai_range(0, 9);
    address = __ai_range(0, 255);
    memset(&reply, 0, sizeof reply);
    return mbus_sendrecv_request(&h, address, &reply, max_frames);
}
static void release(void)
{
    if (reply.next) mbus_frame_free(reply.next);
}
static void check(void)
{
    int r = readout();
    CHECK(g_frames > 0 || r != 0, "success reported without a telegram");
    CHECK((r == 0) == !g_fail, "result of the readout misreported");
    CHECK(g_done || (g_limit == 4 && g_frames == 4), "readout ended although the meter announced more");
    CHECK(r != 0 || !g_noise, "bytes may still be on the bus");
    if (r == 0 && g_frames < 4) {
        mbus_frame *f = &reply;
        int i;
        for (i = 0; i < g_frames; i++, f = f->next) {
            CHECK(f != 0, "a received telegram is missing in the result");
            CHECK(f->address == i && f->type == MBUS_FRAME_TYPE_LONG && f->data_size >= 1, "telegrams are not in the order received");
        }
        CHECK(f == 0, "more telegrams in the result than received");
    }
    release();
}
static void limited(int retry)
{
    g_retry = retry;
    g_limit = __ai_split(__ai_range(0, 4));
    max_frames = g_limit < 4 ? g_limit : __ai_range(5, 2147483647);
    check();
}
void drv_retry0(void) { limited(0); }
void drv_retry1(void) { limited(1); }
void drv_retry2(void) { limited(2); }
void drv_retry3(void) { limited(3); }
void drv_retry4(void) { limited(4); }
void drv_retry5(void) { limited(5); }
void drv_retry6(void) { limited(6); }
void drv_retry7(void) { limited(7); }
void drv_retry8(void) { limited(8); }
void drv_retry9(void) { limited(9); }
/* bad arguments: refused before anything is sent */
void drv_refused(void)
{
    mbus_frame f;
    memset(&f, 0, sizeof f);
    g_done = 1;
    h.send = snd; h.recv = rcv;
    CHECK(mbus_sendrecv_request(0, __ai_range(-2147483647, 2147483647), &f, 1) != 0, "readout without connection accepted");
    CHECK(mbus_sendrecv_request(&h, __ai_range(-2147483647, -1), &f, 1) != 0, "negative address accepted");
    CHECK(mbus_sendrecv_request(&h, __ai_range(256, 2147483647), &f, 1) != 0, "address above 255 accepted");
}
/* memory may run out at any point: nothing is lost and no success is reported for an incomplete readout */
void drv_memory(void)
{
    g_retry = 1; g_limit = 2; max_frames = 2;
    int r = readout();
    CHECK(r != 0 || (g_done && !g_fail), "incomplete readout reported as complete");
    release();
}
