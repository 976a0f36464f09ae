/* P24: the command line tools, each linked with this driver and called as tool_main() */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
int tool_main(int argc, char **argv);
#define SEC "12345678244001F7"
/* what the command line asked for */
static struct { int serial, refused, debug; const char *where; long port, baud; const char *addr; int secondary, primary, frames, retries, subcode, fresh, moves; long target; } E;
static char *av[12]; static int ac;
static mbus_handle hnd;
static int g_ctx, g_conn, g_baud, g_failed, g_sel, g_selsent, g_req, g_pending, g_parsed, g_shown, g_closed, g_verify, g_verified, g_done, g_acked, g_unknown, g_init, g_stale;
static mbus_frame *g_frame;
static char *g_xml;
static char g_line[400]; static int g_n;
static void arg(const char *s) { av[ac++] = (char *)s; av[ac] = 0; }
static void contact(mbus_handle *h)
{
    CHECK(h == &hnd, "another connection used");
    CHECK(!g_stale, "answers to an earlier ping left on the bus");
    CHECK(!E.refused, "bus contacted although the command line cannot be served");
    CHECK(!g_failed, "went on after a step had failed");
    CHECK(g_ctx && g_conn, "bus used before it was connected");
    CHECK(!E.serial || g_baud, "bus used before the line speed was set");
    CHECK(!g_closed, "bus used after it was closed");
    CHECK(h->send_event == (E.debug ? mbus_dump_send_event : 0), "traffic sent dumped without -d, or not dumped with it");
    CHECK(h->recv_event == (E.debug ? mbus_dump_recv_event : 0), "traffic received dumped without -d, or not dumped with it");
}
static int fails(void) { if (__ai_split(__ai_range(0, 1))) { g_failed = 1; return 1; } return 0; }
mbus_handle *model_mbus_context_serial(const char *device)
{
    CHECK(E.serial && !E.refused, "connection made although the command line cannot be served");
    CHECK(!g_ctx, "second connection made");
    CHECK(strcmp(device, E.where) == 0, "another device than the one given");
    if (fails()) return 0;
    g_ctx = 1; hnd.is_serial = 1;
    return &hnd;
}
mbus_handle *model_mbus_context_tcp(const char *host, uint16_t port)
{
    CHECK(!E.serial && !E.refused, "connection made although the command line cannot be served");
    CHECK(!g_ctx, "second connection made");
    CHECK(strcmp(host, E.where) == 0, "another host than the one given");
    CHECK(port == E.port, "another port than the one given");
    if (fails()) return 0;
    g_ctx = 1; hnd.is_serial = 0;
    return &hnd;
}
int model_mbus_connect(mbus_handle *h)
{
    CHECK(h == &hnd && g_ctx && !g_conn && !g_failed, "connected at the wrong time");
    if (fails()) return -1;
    g_conn = 1;
    return 0;
}
int model_mbus_serial_set_baudrate(mbus_handle *h, long b)
{
    CHECK(h == &hnd && E.serial && g_conn && !g_failed, "line speed set at the wrong time");
    CHECK(b == E.baud, "another line speed than the one given");
    if (fails()) return -1;
    g_baud = 1;
    return 0;
}
int model_mbus_disconnect(mbus_handle *h)
{
    CHECK(h == &hnd && g_conn && !g_closed, "closed what was not open");
    g_closed = 1;
    return 0;
}
int model_mbus_context_free(mbus_handle *h)
{
    CHECK(h == &hnd && g_ctx, "released what was not held");
    CHECK(!g_conn || g_closed, "released an open connection");
    g_ctx = 0;
    return 0;
}
/* a scan of primary addresses */
enum { NOTHING, FOUND, COLLISION };
static int s_few, s_scan, s_addr, s_tries, s_over, s_wait, s_expect, s_purge, s_ack;
static char s_text[64];
static void expect(int what)
{
    s_expect = what;
    if (what != NOTHING) sprintf(s_text, what == FOUND ? "Found a M-Bus device at address %d\n" : "Collision at address %d\n", s_addr);
}
static void scan_settled(void)
{
    CHECK(!s_purge, "bus not emptied after an answer");
    CHECK(s_expect == NOTHING, "a device or collision was not reported");
}
static int scan_ping(int a)
{
    CHECK(!s_wait, "next ping sent before an answer was awaited");
    if (E.debug) g_n = 0;
    if (s_over) {
        scan_settled();
        __ai_unkey("answer"); __ai_unkey("ack"); __ai_unkey("more");
        CHECK(a == s_addr + 1, "another address than the next one was tried");
        s_addr++; s_tries = 0; s_over = 0;
    } else
        CHECK(a == s_addr, "another address than the next one was tried");
    if (s_few && s_addr == s_few) __ai_stop();
    CHECK(s_addr <= 250, "an address beyond the last one was tried");
    CHECK(s_tries <= E.retries, "more tries than asked for");
    s_tries++;
    if (__ai_split(__ai_range(0, 1))) { s_over = 1; return -1; }
    s_wait = 1;
    return 0;
}
int model_mbus_send_ping_frame(mbus_handle *h, int a, char purge)
{
    if (!s_scan && (a == 253 || a == 255) && g_init) g_stale = 0; /* another ping of all */
    contact(h);
    if (s_scan) {
        CHECK(!purge, "the answer to be waited for was thrown away");
        return scan_ping(a);
    }
    if (a == 253 || a == 255) { g_init++; g_stale = !purge; return fails() ? -1 : 0; }
    CHECK(E.moves && a == E.fresh && !g_verify, "pinged what was not to be pinged");
    CHECK(!purge, "the answer of the new address was thrown away");
    g_verify = 1;
    if (fails()) return -1;
    g_pending = 1;
    return 0;
}
int model_mbus_purge_frames(mbus_handle *h)
{
    g_stale = 0;
    contact(h);
    int r = __ai_split(__ai_range(0, 1));
    if (s_scan) {
        CHECK(s_over && s_purge, "bus emptied at the wrong time");
        s_purge = 0;
        __ai_key("more", r);
        if (s_ack) expect(r ? COLLISION : FOUND);
        s_ack = 0;
    }
    return r;
}
int model_mbus_select_secondary_address(mbus_handle *h, const char *mask)
{
    contact(h);
    CHECK(E.secondary && strcmp(mask, E.addr) == 0, "another device selected than the one given");
    CHECK(!E.moves || g_verified, "went on before the new address was known to be free");
    int r = __ai_split(__ai_range(-1, 2));
    if (r == MBUS_PROBE_SINGLE) g_sel = 1; else g_failed = 1;
    return r;
}
int model_mbus_send_select_frame(mbus_handle *h, const char *mask)
{
    contact(h);
    CHECK(E.secondary && strcmp(mask, E.addr) == 0, "another device selected than the one given");
    if (fails()) return -1;
    g_selsent = g_pending = 1;
    return 0;
}
static void addressed(mbus_handle *h, int a)
{
    contact(h);
    CHECK(!E.secondary || (g_sel && a == 253), "spoke to another device than the selected one");
    CHECK(E.secondary || a == E.primary, "spoke to another address than the one given");
    CHECK(!E.moves || g_verified, "went on before the new address was known to be free");
    CHECK(!g_req, "asked twice");
    g_req = 1;
}
static int sent(void) { if (fails()) return -1; g_pending = 1; return 0; }
int model_mbus_send_request_frame(mbus_handle *h, int a)
{
    CHECK(!E.target && E.subcode == -2 && !E.moves && E.frames == -1, "another command sent");
    addressed(h, a);
    return sent();
}
int model_mbus_send_switch_baudrate_frame(mbus_handle *h, int a, long b)
{
    CHECK(E.target && b == E.target, "another line speed than the one given");
    addressed(h, a);
    return sent();
}
int model_mbus_send_application_reset_frame(mbus_handle *h, int a, int s)
{
    CHECK(E.subcode != -2 && s == E.subcode, "another subcode than the one given");
    addressed(h, a);
    return sent();
}
int model_mbus_set_primary_address(mbus_handle *h, int o, int n)
{
    CHECK(E.moves && n == E.fresh, "another new address than the one given");
    addressed(h, o);
    return sent();
}
static mbus_frame *g_toparse; static int g_rawok;
int model_mbus_send_frame(mbus_handle *h, mbus_frame *f)
{
    contact(h);
    CHECK(g_toparse && f == g_toparse && g_rawok, "something else than the frame given was sent");
    CHECK(!E.secondary || g_sel, "sent although no device was selected");
    CHECK(!g_req, "sent twice");
    g_req = 1;
    return sent();
}
static void fill(mbus_frame *f, int ack)
{
    memset(f, 0, sizeof *f);
    if (ack) { f->type = MBUS_FRAME_TYPE_ACK; f->start1 = MBUS_FRAME_ACK_START; return; }
    f->type = MBUS_FRAME_TYPE_LONG;
    f->start1 = f->start2 = MBUS_FRAME_LONG_START; f->length1 = f->length2 = 0x40; f->stop = MBUS_FRAME_STOP;
    f->control = 0x08; f->control_information = 0x72; f->data_size = 0x3d;
}
static int result(void)
{
    static const int rs[5] = { MBUS_RECV_RESULT_OK, MBUS_RECV_RESULT_ERROR, MBUS_RECV_RESULT_INVALID, MBUS_RECV_RESULT_TIMEOUT, MBUS_RECV_RESULT_RESET };
    return rs[__ai_split(__ai_range(0, 4))];
}
int model_mbus_recv_frame(mbus_handle *h, mbus_frame *f)
{
    contact(h);
    int r = result();
    if (s_scan) {
        CHECK(s_wait, "waited for an answer to nothing");
        s_wait = 0;
        __ai_key("answer", r);
        if (r == MBUS_RECV_RESULT_TIMEOUT) { if (s_tries > E.retries) s_over = 1; return r; }
        s_over = 1;
        if (r == MBUS_RECV_RESULT_INVALID) { s_purge = 1; expect(COLLISION); }
        if (r == MBUS_RECV_RESULT_OK) {
            s_ack = __ai_split(__ai_range(0, 1));
            __ai_key("ack", s_ack);
            fill(f, s_ack);
            s_purge = s_ack;
        }
        return r;
    }
    CHECK(g_pending, "waited for an answer to nothing");
    g_pending = 0;
    if (g_verify && !g_verified) {
        if (r == MBUS_RECV_RESULT_TIMEOUT) g_verified = 1; else g_failed = 1;
        if (r == MBUS_RECV_RESULT_OK) fill(f, 1);
        return r;
    }
    if (r != MBUS_RECV_RESULT_OK) { g_failed = 1; return r; }
    int ack = __ai_split(__ai_range(0, 1));
    fill(f, ack);
    if (g_selsent && !g_sel) { if (ack) g_sel = 1; else g_unknown = 1; return r; }
    g_frame = f; g_acked = ack; g_done = 1;
    return r;
}
int model_mbus_sendrecv_request(mbus_handle *h, int a, mbus_frame *reply, int max_frames)
{
    CHECK(max_frames == E.frames, "another limit of frames than the one given");
    addressed(h, a);
    CHECK(reply->next == 0, "reply not empty");
    g_done = 1;
    if (__ai_split(__ai_range(0, 1))) fill(reply, 0);
    if (fails()) return 1;
    g_frame = reply;
    return 0;
}
int model_mbus_scan_2nd_address_range(mbus_handle *h, int pos, char *mask)
{
    contact(h);
    CHECK(pos == 0 && strcmp(mask, E.addr) == 0, "another range searched than the one given");
    CHECK(!g_done, "searched twice");
    CHECK(g_init, "searched without starting the devices anew");
    g_done = 1;
    return __ai_split(__ai_range(-1, 0));
}
int model_mbus_frame_data_parse(mbus_frame *f, mbus_frame_data *d)
{
    CHECK(g_frame && f == g_frame && !g_failed, "something else than the reply was read");
    if (fails()) return -1;
    d->type = MBUS_DATA_TYPE_VARIABLE;
    g_parsed = 1;
    return 0;
}
static char *xml(void)
{
    if (fails()) return 0;
    g_xml = strdup("<MBusData>all of it</MBusData>");
    return g_xml;
}
char *model_mbus_frame_data_xml(mbus_frame_data *d) { CHECK(g_parsed, "something else than the reply was shown"); return xml(); }
char *model_mbus_frame_xml(mbus_frame *f) { CHECK(g_frame && f == g_frame, "something else than the reply was shown"); return xml(); }
#define FOUNDSEC "8765432144200107"
char *model_mbus_frame_get_secondary_address(mbus_frame *f) { CHECK(g_frame && f == g_frame, "something else than the reply was shown"); return FOUNDSEC; }
int model_mbus_frame_print(mbus_frame *f) { return 0; }
/* standard output */
static void out(const char *s)
{
    unsigned long n = strlen(s);
    CHECK(g_n + n < sizeof g_line, "line too long");
    memcpy(g_line + g_n, s, n + 1);
    g_n += n;
    if (s_scan) {
        if (g_line[g_n - 1] != '\n') return;
        if (E.debug) { /* other output goes before it */
            unsigned long k = s_expect == NOTHING ? 0 : strlen(s_text);
            if (k && g_n >= k && strcmp(g_line + g_n - k, s_text) == 0) s_expect = NOTHING;
            g_n = 0;
            return;
        }
        CHECK(s_expect != NOTHING && !s_purge, "reported what is not there");
        CHECK(strcmp(g_line, s_text) == 0, "another device or collision reported");
        s_expect = NOTHING;
        g_n = 0;
    }
}
int model_printf(const char *fmt, ...)
{
    char t[400]; va_list ap; int n;
    va_start(ap, fmt);
    n = vsnprintf(t, sizeof t, fmt, ap);
    va_end(ap);
    out(t);
    return n;
}
int model_fprintf(FILE *f, const char *fmt, ...)
{
    char t[400]; va_list ap; int n;
    va_start(ap, fmt);
    n = vsnprintf(t, sizeof t, fmt, ap);
    va_end(ap);
    if (f != stderr) out(t);
    return n;
}
int model_fputs(const char *s, FILE *f) { if (f != stderr) out(s); return 1; }
int model_putchar(int c) { char t[2]; t[0] = c; t[1] = 0; out(t); return c; }
unsigned long model_fwrite(const void *p, unsigned long s, unsigned long n, FILE *f)
{
    char t[400];
    CHECK(s * n < sizeof t, "line too long");
    if (f == stderr) return n;
    memcpy(t, p, s * n);
    t[s * n] = 0;
    out(t);
    return n;
}
int model_puts(const char *s) { out(s); out("\n"); return 1; }
static int tool(void)
{
    return tool_main(ac, av);
}
static void finish(int r)
{
    if (E.refused) { CHECK(!g_ctx && !g_conn, "connected although the command line cannot be served"); return; }
    if (g_failed) { CHECK(r != 0, "success reported although a step failed"); return; }
    CHECK(r == 0, "failure reported although all steps succeeded");
    if (s_scan) { scan_settled(); CHECK(s_over && s_addr == 250, "not all addresses were tried"); return; }
    CHECK(g_done || g_unknown, "not everything was done that was asked for");
}
void model_on_exit(int r) { finish(r); }
static void start(int serial)
{
    memset(&E, 0, sizeof E);
    E.serial = serial; E.baud = 9600; E.subcode = -2; E.frames = -1;
    ac = 0; arg("tool");
}
static void go(void) { finish(tool()); }
static int pick(const char *key, int n) { int k = __ai_split(__ai_range(0, n)); __ai_key(key, k); return k; }
#define STR2(x) #x
#define STR(x) STR2(x)
#define flag() pick("flag" STR(__LINE__), 1)
/* one of several numbers */
static const char *some(const char *key, const char *const *t, int n, long *v)
{
    int i, k = pick(key, n - 1), neg;
    const char *c = t[k];
    *v = 0;
    for (i = neg = c[0] == '-'; c[i]; i++) *v = *v * 10 + (c[i] - '0');
    if (neg) *v = -*v;
    return c;
}
#define SOME(v, ...) do { static const char *const t_[] = { __VA_ARGS__ }; long v_; arg(some("some" STR(__LINE__), t_, sizeof t_ / sizeof *t_, &v_)); v = v_; } while (0)
static void where(void)
{
    if (E.serial) { E.where = "/dev/ttyS1"; arg(E.where); return; }
    E.where = "gateway"; arg(E.where);
    switch (pick("port", 4)) {
    case 0: arg("10001"); E.port = 10001; break;
    case 1: arg("65535"); E.port = 65535; break;
    case 2: arg("0"); E.port = 0; break;
    case 3: arg("65536"); E.refused = 1; break;
    case 4: arg("-1"); E.refused = 1; break;
    }
}
static void device_address(void)
{
    E.secondary = flag();
    E.addr = SEC;
    if (E.secondary) { arg(SEC); return; }
    SOME(E.primary, "17", "0", "250", "254", "1");
}
/* the address has to be a secondary one */
static void secondary(void)
{
    static const char *bad[] = { "17", "123456782440010", "12345678244001F7A", "12345678244001G7" };
    int k = pick("secondary", 4);
    E.secondary = 1;
    E.addr = k < 4 ? bad[k] : SEC;
    if (k < 4) E.refused = 1;
    arg(E.addr);
}

static void debugging(void) { if (flag()) { arg("-d"); E.debug = 1; } }
static void speed(void) { if (flag()) { arg("-b"); SOME(E.baud, "2400", "300", "38400", "12345"); } }
static void xml_shown(void)
{
    int r = tool();
    finish(r);
    if (!E.refused && !g_failed && !E.debug) CHECK(strcmp(g_line, "<MBusData>all of it</MBusData>") == 0, "the reply was not shown");
    if (g_failed) CHECK(g_n == 0 || E.debug, "something was shown although a step failed");
}
static void request(int serial)
{
    start(serial);
    debugging();
    if (serial) speed();
    where(); device_address();
    xml_shown();
}
void drv_request_serial(void) { request(1); }
void drv_request_tcp(void) { request(0); }
static void multi(int serial)
{
    int order = pick("order", 1);
    start(serial);
    E.frames = 16;
    if (order) debugging();
    if (flag()) { arg("-f"); SOME(E.frames, "3", "40", "1", "1000", "16"); }
    if (serial) speed();
    if (!order) debugging();
    where(); device_address();
    xml_shown();
}
void drv_multi_serial(void) { multi(1); }
void drv_multi_tcp(void) { multi(0); }
static void select_one(int serial)
{
    start(serial);
    if (serial) speed();
    where(); secondary();
    int r = tool();
    finish(r);
    if (!E.refused && !g_failed && g_done && !g_acked) {
        int i, n = 0, m = 0;
        for (i = 0; i + 16 <= g_n; i++) {
            n += memcmp(g_line + i, E.addr, 16) == 0;
            m += memcmp(g_line + i, FOUNDSEC, 16) == 0;
        }
        CHECK(n == 1 && m == 1, "the address searched for and the one found were not shown");
    } else CHECK(g_n == 0, "something was shown although nothing was found");
}
void drv_select_serial(void) { select_one(1); }
void drv_select_tcp(void) { select_one(0); }
static void search(int serial)
{
    start(serial);
    if (serial) { debugging(); speed(); }
    where();
    if (flag()) secondary(); else E.addr = "FFFFFFFFFFFFFFFF";
    go();
}
void drv_search_serial(void) { search(1); }
void drv_search_tcp(void) { search(0); }
void drv_set_address(void)
{
    static const char *bad[] = { "251000", "-1", "253", "254", "255", "256" };
    start(1);
    debugging(); speed();
    where(); device_address();
    int k = pick("new", 6);
    if (k < 6) { E.refused = 1; arg(bad[k]); } else { E.moves = 1; SOME(E.fresh, "42", "0", "1", "250"); }
    go();
}
void drv_switch(void)
{
    start(1);
    speed();
    where();
    SOME(E.primary, "17", "0", "250", "254");
    SOME(E.target, "4800", "300", "38400");
    go();
}
void drv_reset(void)
{
    start(0);
    debugging();
    where(); device_address();
    E.subcode = -1;
    if (flag()) SOME(E.subcode, "16", "0", "240", "255");
    go();
}
/* every form of the command line, for the first addresses; all addresses for the plain form */
static void scan_few(int serial)
{
    start(serial);
    s_scan = 1; s_addr = -1; s_over = 1; s_few = 2;
    debugging();
    if (serial) speed();
    if (flag()) { arg("-r"); SOME(E.retries, "2", "0", "1"); }
    where();
    go();
}
void drv_scan_forms_serial(void) { scan_few(1); }
void drv_scan_forms_tcp(void) { scan_few(0); }
static void scan_all(int serial, int retries)
{
    start(serial);
    s_scan = 1; s_addr = -1; s_over = 1;
    if (retries) { arg("-r"); arg("1"); E.retries = 1; }
    if (serial) { E.where = "/dev/ttyS1"; arg(E.where); } else { E.where = "gateway"; arg(E.where); E.port = 10001; arg("10001"); }
    go();
}
void drv_scan_serial(void) { scan_all(1, 0); }
void drv_scan_serial_retries(void) { scan_all(1, 1); }
void drv_scan_tcp(void) { scan_all(0, 0); }
void drv_scan_tcp_retries(void) { scan_all(0, 1); }
/* too few or far too many arguments */
static void count(int need)
{
    int i, n = pick("count", need);
    start(0);
    E.refused = 1;
    if (n == need) n = 10;
    for (i = 0; i < n; i++) arg("x");
    go();
}
void drv_count1(void) { count(1); }
void drv_count2(void) { count(2); }
void drv_count3(void) { count(3); }
/* a frame given as text in a file or on standard input */
unsigned long model_fread(void *p, unsigned long s, unsigned long n, FILE *f)
{
    CHECK(s == 1 && __ai_objsize(p) >= n, "no room for the input");
    unsigned long k = __ai_range(0, n);
    __ai_havoc(p, k);
    return k;
}
static unsigned char *g_bin; static size_t g_len;
int model_mbus_parse(mbus_frame *f, unsigned char *d, size_t n)
{
    CHECK(g_bin && d == g_bin && n == g_len, "something else than the text given was taken for a frame");
    int r = __ai_split(__ai_range(-3, 1));
    if (r == 0) { g_toparse = f; g_rawok = 1; } else g_failed = 1;
    if (r == 1) return 1 + __ai_range(0, 300);
    return r;
}
size_t model_mbus_hex2bin(unsigned char *dst, size_t n, const unsigned char *src, size_t m)
{
    CHECK(__ai_objsize(dst) >= n && __ai_objsize(src) >= m, "input or room larger than it is");
    unsigned long k = __ai_range(0, n);
    g_bin = dst; g_len = k;
    __ai_havoc(dst, k);
    return k;
}
static char g_file;
FILE *model_fopen(const char *p, const char *m)
{
    CHECK(E.frames == 99 && strcmp(p, "frame.hex") == 0 && m[0] == 'r', "another file read than the one given");
    if (fails()) return 0;
    return (FILE *)&g_file;
}
int model_fclose(FILE *f) { CHECK(f == (FILE *)&g_file, "another file closed"); return 0; }
void drv_raw(void)
{
    start(0);
    debugging();
    where(); device_address();
    if (flag()) { arg("frame.hex"); E.frames = 99; }
    go();
}
