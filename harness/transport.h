/* sending and receiving, common to the drivers of both transports.
   The includer defines h, frame, g_open, g_fd, g_tty, setup() and SERIAL (1) or TCP (0). */
static unsigned char *base;          /* the buffer in use */
static unsigned long g_kept;         /* bytes of it that must not change any more */
static int g_packed, g_len, g_wrote, g_event, g_drain, g_asked;
static long total, missing = 1;      /* bytes received so far, bytes the frame is known to lack */
static int g_read, g_parsed, g_idle, g_some, g_end;
static void on_send(u_char type, const char *buf, size_t n)
{
    CHECK(g_wrote == 1, "sending announced although it failed");
    CHECK(!g_event, "sending announced twice");
    CHECK(type == (SERIAL ? MBUS_HANDLE_TYPE_SERIAL : MBUS_HANDLE_TYPE_TCP), "announced for another kind of connection");
    CHECK((unsigned char *) buf == base && n == g_len, "announced bytes are not those sent");
    g_event = 1;
}
/* contract of packing, decided by P06 */
int model_mbus_frame_pack(mbus_frame *f, unsigned char *data, size_t size)
{
    CHECK(f == &frame, "another frame packed");
    CHECK(size >= LONGEST, "buffer too small for the longest frame");
    CHECK(!g_packed, "packed twice");
    g_packed = 1;
    if (__ai_split(__ai_range(0, 1))) { g_packed = 2; return __ai_range(-4, -1); }
    g_len = __ai_range(1, LONGEST);
    __ai_havoc(data, g_len);
    base = data;
    g_kept = g_len;
    __ai_frozen(data, LONGEST, &g_kept);
    return g_len;
}
ssize_t write(int fd, const void *p, size_t n)
{
    CHECK(fd == g_fd && g_open, "written to another descriptor");
    CHECK(g_packed == 1, "written without a packed frame");
    CHECK(!g_wrote, "written twice");
    CHECK((unsigned char *) p == base && n == g_len, "bytes written are not those of the frame");
    int k = __ai_split(__ai_range(0, 2));
    g_wrote = k == 0 ? 1 : 2;
    if (k == 1) { errno = __ai_range(1, 133); return -1; }
    if (k == 2) { long m = __ai_range(0, LONGEST - 1); __ai_assume(m < n); return m; }
    return n;
}
ssize_t send(int fd, const void *p, size_t n, int flags) { return write(fd, p, n); }
int tcdrain(int fd) { CHECK(fd == g_fd && g_wrote == 1, "waited for nothing"); g_drain = 1; return 0; }
static void online(void) { setup(); g_open = 1; h.fd = g_fd = __ai_range(0, 1000); }
void drv_write(void)
{
    online();
    int ev = __ai_split(__ai_range(0, 1));
    h.send_event = ev ? (void *) on_send : 0;
    if (SERIAL) g_tty = __ai_split(__ai_range(0, 1));
    __ai_havoc(&frame, sizeof frame);
    int r = mbus_send_frame(&h, &frame);
    if (!g_tty) { CHECK(r == -1 && !g_wrote, "sent although the connection is gone"); return; }
    CHECK(g_packed, "nothing was packed");
    CHECK(g_packed != 2 || (r == -1 && !g_wrote), "a frame that cannot be packed counts as sent");
    CHECK(g_packed != 1 || g_wrote, "nothing was written");
    CHECK((r == 0) == (g_wrote == 1), "result of sending is wrong");
    CHECK(r == 0 || r == -1, "failure is not -1");
    CHECK(g_event == (g_wrote == 1 && ev), "a frame sent was not announced");
    if (SERIAL) CHECK(r != 0 || g_drain, "did not wait until the frame was on the line");
    CHECK(g_open && h.fd == g_fd, "sending changed the connection");
    if (r == 0) REACH("sent");
}
void drv_write_refused(void)
{
    online();
    CHECK(mbus_send_frame(0, &frame) == -1, "no handle accepted");
    CHECK(mbus_send_frame(&h, 0) == -1, "no frame accepted");
    CHECK(h.send(0, &frame) == -1, "no handle accepted");
    CHECK(!g_wrote, "something was written");
}
/* ---- receiving */
static void on_recv(u_char type, const char *buf, size_t n)
{
    CHECK(type == (SERIAL ? MBUS_HANDLE_TYPE_SERIAL : MBUS_HANDLE_TYPE_TCP), "announced for another kind of connection");
    CHECK(!g_event, "reception announced twice");
    CHECK(total > 0 && (unsigned char *) buf == base && n == total, "announced bytes are not those received");
    g_event = 1;
}
/* contract of parsing, decided by P05 and P07 */
int model_mbus_parse(mbus_frame *f, unsigned char *data, size_t n)
{
    CHECK(f == &frame, "parsed into another frame");
    CHECK(data == base && n == total, "bytes parsed are not all those received");
    if (n == 0) return -1;
    g_parsed = __ai_split(__ai_range(1, 3));
    if (g_parsed == 2) return __ai_range(-3, -1);
    if (g_parsed == 1) return 0;
    missing = __ai_range(1, LONGEST - 1);
    __ai_assume(missing + total <= LONGEST);
    return missing;
}
ssize_t read(int fd, void *p, size_t n)
{
    CHECK(fd == g_fd && g_open, "read from another descriptor");
    CHECK(g_parsed == 0 || g_parsed == 3, "reading went on after the frame was complete or invalid");
    CHECK(g_end == 0, "reading went on after the connection failed");
    CHECK(n >= 1 && n <= missing, "asked for more bytes than the frame lacks");
    CHECK(n == missing, "asked for fewer bytes than the frame lacks");
    if (!base) base = p;
    CHECK((unsigned char *) p == base + total, "bytes received do not follow each other");
    int k = __ai_split(__ai_range(0, SERIAL ? 2 : 4));
    if (k == 0) {
        long m = __ai_range(1, LONGEST);
        __ai_assume(m <= n);
        __ai_havoc(p, m);
        total += m;
        g_kept = total;
        __ai_frozen(base, LONGEST, &g_kept);
        g_parsed = 4; g_some = 1;
        return m;
    }
    if (k == 1) { g_end = 1; errno = __ai_range(1, 133); if (!SERIAL) __ai_assume(errno != EINTR && errno != EAGAIN); return -1; }
    if (k == 3) { g_end = 3; errno = EAGAIN; return -1; }
    if (k == 4) { errno = EINTR; return -1; }
    if (SERIAL) { g_idle++; CHECK(g_idle <= 3, "waits for ever on a silent line"); } else g_end = 2;
    return 0;
}
ssize_t recv(int fd, void *p, size_t n, int flags) { return read(fd, p, n); }
void drv_read(void)
{
    online();
    int ev = __ai_split(__ai_range(0, 1));
    h.recv_event = ev ? (void *) on_recv : 0;
    if (SERIAL) g_tty = __ai_split(__ai_range(0, 1));
    __ai_havoc(&frame, sizeof frame);
    int r = h.recv(&h, &frame);
    if (!g_tty) { CHECK(r == MBUS_RECV_RESULT_ERROR && !g_some, "received although the connection is gone"); return; }
    if (g_end == 1) CHECK(r == MBUS_RECV_RESULT_ERROR, "a failed read is not reported as error");
    else if (g_end == 2) CHECK(r == MBUS_RECV_RESULT_RESET, "a closed connection is not reported");
    else if (g_end == 3) CHECK(r == MBUS_RECV_RESULT_TIMEOUT, "a timeout is not reported");
    else if (!g_some) CHECK(r == MBUS_RECV_RESULT_TIMEOUT, "silence is not reported as timeout");
    else if (g_parsed == 1) CHECK(r == MBUS_RECV_RESULT_OK, "a complete frame is not reported");
    else CHECK(r == MBUS_RECV_RESULT_INVALID, "a damaged or incomplete frame is not reported as such");
    CHECK(r != MBUS_RECV_RESULT_OK || g_parsed == 1, "success without a complete frame");
    if (r == MBUS_RECV_RESULT_OK || r == MBUS_RECV_RESULT_INVALID) CHECK(g_event == ev, "bytes received were not announced");
    CHECK(g_open && h.fd == g_fd, "receiving changed the connection");
    if (r == 0) REACH("received");
    if (r == MBUS_RECV_RESULT_INVALID) REACH("invalid");
    if (r == MBUS_RECV_RESULT_TIMEOUT) REACH("timeout");
}
void drv_read_refused(void)
{
    online();
    CHECK(h.recv(0, &frame) == MBUS_RECV_RESULT_ERROR, "no handle accepted");
    CHECK(h.recv(&h, 0) == MBUS_RECV_RESULT_ERROR, "no frame accepted");
    CHECK(!g_some, "something was received");
}
