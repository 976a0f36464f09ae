/* P28: an echo of the own request is skipped, once, and nothing else is; the bus is emptied completely */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <string.h>
static mbus_handle h;
static int g_n, g_ret, g_dir, g_first, g_any, g_over;
static mbus_frame *at;
static int rcv(mbus_handle *x, mbus_frame *f)
{
    CHECK(x == &h && f == at, "another connection or frame used");
    CHECK(g_n < 2, "received more often than once after an echo");
    CHECK(g_n == 0 || (g_ret == 0 && g_dir == g_first), "a reply was thrown away");
    g_n++;
    g_ret = __ai_split(__ai_range(-4, 0));
    int t = __ai_split(__ai_range(0, 2));
    if (g_ret == 0 || g_ret == MBUS_RECV_RESULT_INVALID) {
        f->type = t == 0 ? MBUS_FRAME_TYPE_ACK : t == 1 ? MBUS_FRAME_TYPE_SHORT : MBUS_FRAME_TYPE_LONG;
        int m2s = __ai_split(__ai_range(0, 1));
        f->control = 0x40 * m2s + __ai_range(0, 63) + 128 * __ai_range(0, 1);
        g_dir = t == 0 || !m2s ? MBUS_FRAME_PURGE_S2M : MBUS_FRAME_PURGE_M2S;
    }
    return g_ret;
}
void drv_echo(void)
{
    mbus_frame f;
    __ai_havoc(&f, sizeof f); /* whatever the frame held before */
    at = &f;
    h.recv = rcv;
    g_first = h.purge_first_frame = __ai_split(__ai_range(0, 2));
    int r = mbus_recv_frame(&h, &f);
    CHECK(g_n >= 1, "nothing was received");
    CHECK(r == g_ret, "result of receiving is not that of the frame");
    CHECK(g_n == 2 || g_ret != 0 || g_dir != g_first, "an echo was taken for the reply");
}
void drv_none(void)
{
    mbus_frame f;
    h.recv = rcv; g_n = 2;
    CHECK(mbus_recv_frame(0, &f) == MBUS_RECV_RESULT_ERROR, "receiving without connection accepted");
    CHECK(mbus_recv_frame(&h, 0) == MBUS_RECV_RESULT_ERROR, "receiving into nothing accepted");
}
/* emptying the bus goes on until nothing comes any more */
static int leftover(mbus_handle *x, mbus_frame *f)
{
    CHECK(x == &h, "another connection used");
    CHECK(!g_over, "listening went on after the bus was silent");
    g_ret = __ai_split(__ai_range(-4, 0));
    if (g_ret == 0 || g_ret == MBUS_RECV_RESULT_INVALID) {
        memset(f, 0, sizeof *f);
        int t = __ai_split(__ai_range(0, 2));
        f->type = t == 0 ? MBUS_FRAME_TYPE_ACK : t == 1 ? MBUS_FRAME_TYPE_SHORT : MBUS_FRAME_TYPE_LONG;
        f->control = 8;
        g_any = 1;
    } else g_over = 1;
    return g_ret;
}
void drv_purge(void)
{
    h.recv = leftover;
    h.purge_first_frame = __ai_split(__ai_range(0, 1));
    int r = mbus_purge_frames(&h);
    CHECK(g_over, "bytes may still be on the bus");
    CHECK((r != 0) == g_any, "leftovers on the bus misreported");
}
