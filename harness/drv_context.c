/* P19: handles, their defaults and options */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <mbus/mbus-serial.h>
#include <mbus/mbus-tcp.h>
#include <string.h>
#include <stdlib.h>
static void defaults(mbus_handle *h)
{
    CHECK(h->fd == -1, "a new handle holds a descriptor");
    CHECK(h->max_data_retry == 3, "a new handle does not repeat requests three times");
    CHECK(h->max_search_retry == 1, "a new handle does not repeat searching once");
    CHECK(h->purge_first_frame == MBUS_FRAME_PURGE_M2S, "a new handle does not skip echoes");
    CHECK(!h->send_event && !h->recv_event && !h->scan_progress && !h->found_event, "a new handle has callbacks");
}
void drv_serial(void)
{
    char dev[40];
    __ai_str(dev, 0, sizeof dev - 1, 0);
    mbus_handle *h = mbus_context_serial(dev);
    if (!h) { REACH("no memory"); return; }
    REACH("made");
    defaults(h);
    CHECK(h->is_serial, "a serial handle is not taken for one");
    CHECK(h->open == mbus_serial_connect && h->close == mbus_serial_disconnect && h->send == mbus_serial_send_frame &&
          h->recv == mbus_serial_recv_frame && h->free_auxdata == mbus_serial_data_free, "a serial handle uses another transport");
    mbus_serial_data *s = h->auxdata;
    CHECK(s->device != dev && __ai_sametext(s->device, dev), "the device name is not kept");
    mbus_context_free(h);
}
void drv_tcp(void)
{
    char host[40];
    __ai_str(host, 0, sizeof host - 1, 0);
    long port = __ai_range(0, 65535);
    mbus_handle *h = mbus_context_tcp(host, port);
    if (!h) { REACH("no memory"); return; }
    REACH("made");
    defaults(h);
    CHECK(!h->is_serial, "a TCP handle is taken for a serial one");
    CHECK(h->open == mbus_tcp_connect && h->close == mbus_tcp_disconnect && h->send == mbus_tcp_send_frame &&
          h->recv == mbus_tcp_recv_frame && h->free_auxdata == mbus_tcp_data_free, "a TCP handle uses another transport");
    mbus_tcp_data *s = h->auxdata;
    CHECK(s->host != host && __ai_sametext(s->host, host), "the host name is not kept");
    CHECK(s->port == port, "the port is not kept");
    mbus_context_free(h);
}
void drv_free_none(void)
{
    mbus_context_free(0);
    mbus_serial_data_free(0);
    mbus_tcp_data_free(0);
    mbus_handle *h = mbus_context_serial("x");
    if (!h) return;
    mbus_serial_data_free(h);
    CHECK(h->auxdata == 0, "freed data still held");
    mbus_serial_data_free(h);
    mbus_context_free(h);
    h = mbus_context_tcp("x", 1);
    if (!h) return;
    mbus_tcp_data_free(h);
    CHECK(h->auxdata == 0, "freed data still held");
    mbus_context_free(h);
    REACH("freed");
}
/* options: either accepted and in force, or refused with nothing changed */
static mbus_handle h, before;
static int other(int except)
{
    if (except != 0 && h.max_data_retry != before.max_data_retry) return 0;
    if (except != 1 && h.max_search_retry != before.max_search_retry) return 0;
    if (except != 2 && h.purge_first_frame != before.purge_first_frame) return 0;
    return h.fd == before.fd && h.is_serial == before.is_serial && h.open == before.open && h.close == before.close && h.send == before.send &&
        h.recv == before.recv && h.free_auxdata == before.free_auxdata && h.recv_event == before.recv_event && h.send_event == before.send_event &&
        h.scan_progress == before.scan_progress && h.found_event == before.found_event && h.auxdata == before.auxdata;
}
static int opt(int which, long v) { return mbus_context_set_option(&h, which == 0 ? MBUS_OPTION_MAX_DATA_RETRY : which == 1 ? MBUS_OPTION_MAX_SEARCH_RETRY : MBUS_OPTION_PURGE_FIRST_FRAME, v); }
static void fresh(void)
{
    h.fd = 5; h.is_serial = __ai_range(0, 1);
    h.max_data_retry = __ai_range(0, 9); h.max_search_retry = __ai_range(0, 9); h.purge_first_frame = __ai_range(0, 2);
    before = h;
}
void drv_option(void)
{
    fresh();
    int which = __ai_split(__ai_range(0, 2));
    long v = __ai_split(__ai_range(0, 9));
    if (which == 2) __ai_assume(v == MBUS_FRAME_PURGE_NONE || v == MBUS_FRAME_PURGE_M2S || v == MBUS_FRAME_PURGE_S2M);
    CHECK(opt(which, v) == 0, "a valid setting was refused");
    CHECK((which == 0 ? h.max_data_retry : which == 1 ? h.max_search_retry : h.purge_first_frame) == v, "a setting was not put in force");
    CHECK(other(which), "another setting was changed");
    REACH("set");
}
void drv_option_bad(void)
{
    fresh();
    int which = __ai_split(__ai_range(0, 2)), low = __ai_split(__ai_range(0, 1));
    long top = which == 2 ? 2 : 9;
    long v = low ? __ai_range(-(1L << 62), -1) : __ai_range(top + 1, 1L << 62);
    CHECK(opt(which, v) == -1, "an invalid setting was accepted");
    CHECK(other(-1), "a refused setting changed something");
    CHECK(mbus_context_set_option(&h, __ai_range(3, 1000), __ai_range(0, 9)) == -1, "an unknown setting was accepted");
    CHECK(mbus_context_set_option(&h, __ai_range(-1000, -1), __ai_range(0, 9)) == -1, "an unknown setting was accepted");
    CHECK(mbus_context_set_option(0, which, __ai_range(0, 2)) == -1, "no handle accepted");
    CHECK(other(-1), "a refused setting changed something");
}
/* every call goes to the transport of the handle */
static int g_opened, g_shut, g_sent, answer;
static int o(mbus_handle *x) { CHECK(x == &h, "another handle used"); g_opened++; return answer; }
static int c(mbus_handle *x) { CHECK(x == &h, "another handle used"); g_shut++; return answer; }
static mbus_frame f;
static int s(mbus_handle *x, mbus_frame *y) { CHECK(x == &h && y == &f, "another handle or frame used"); g_sent++; return answer; }
void drv_dispatch(void)
{
    h.open = o; h.close = c; h.send = s;
    answer = __ai_range(-1, 0);
    CHECK(mbus_connect(&h) == answer && g_opened == 1 && !g_shut && !g_sent, "connecting is not passed on");
    CHECK(mbus_send_frame(&h, &f) == answer && g_opened == 1 && !g_shut && g_sent == 1, "sending is not passed on");
    CHECK(mbus_disconnect(&h) == answer && g_opened == 1 && g_shut == 1 && g_sent == 1, "disconnecting is not passed on");
    CHECK(mbus_connect(0) == -1 && mbus_disconnect(0) == -1 && mbus_send_frame(0, &f) == -1, "no handle accepted");
}
/* callbacks registered are those in the handle */
static void ev1(u_char t, const char *b, size_t n) { }
static void ev2(u_char t, const char *b, size_t n) { }
static void ev3(mbus_handle *x, const char *m) { }
static void ev4(mbus_handle *x, mbus_frame *y) { }
void drv_events(void)
{
    fresh();
    mbus_register_send_event(&h, ev1);
    CHECK(h.send_event == ev1, "callback not registered"); h.send_event = 0; CHECK(other(-1), "another setting was changed");
    mbus_register_recv_event(&h, ev2);
    CHECK(h.recv_event == ev2, "callback not registered"); h.recv_event = 0; CHECK(other(-1), "another setting was changed");
    mbus_register_scan_progress(&h, ev3);
    CHECK(h.scan_progress == ev3, "callback not registered"); h.scan_progress = 0; CHECK(other(-1), "another setting was changed");
    mbus_register_found_event(&h, ev4);
    CHECK(h.found_event == ev4, "callback not registered"); h.found_event = 0; CHECK(other(-1), "another setting was changed");
}
/* the last error text is the one set */
void drv_error(void)
{
    char m[200];
    __ai_str(m, 0, 120, 0);
    mbus_error_str_set(m);
    CHECK(__ai_sametext(mbus_error_str(), m), "the error text is not the one set");
    mbus_error_str_set(0);
    CHECK(__ai_sametext(mbus_error_str(), m), "no error text replaced the last one");
    __ai_str(m, 0, 199, 0);
    mbus_error_str_set(m);
    CHECK(strlen(mbus_error_str()) <= 199, "the error text is not a text");
    mbus_error_reset();
    CHECK(strcmp(mbus_error_str(), "no errors") == 0, "the error text was not reset");
}
/* the register of slave states: one entry for each primary address */
void drv_slaves(void)
{
    unsigned long i = __ai_range(0, MBUS_MAX_PRIMARY_SLAVES - 1);
    mbus_slave_data *first = mbus_slave_data_get(0), *p = mbus_slave_data_get(i);
    CHECK(first && p, "no entry for an address");
    CHECK(p == first + i, "entries of two addresses overlap");
    memset(p, 0, sizeof *p);
    CHECK(mbus_slave_data_get(__ai_range(MBUS_MAX_PRIMARY_SLAVES, 1L << 62)) == 0, "an entry for what is no address");
    CHECK(mbus_slave_data_get(-1UL) == 0, "an entry for what is no address");
}
