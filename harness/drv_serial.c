/* P16-P19: the serial transport against a model of the operating system's calls */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <mbus/mbus-serial.h>
#include <string.h>
#include <errno.h>
#include <termios.h>
#include <stdarg.h>
#define LONGEST 261
static mbus_handle h;
static mbus_serial_data aux;
static mbus_frame frame;
static char name[] = "/dev/ttyS7";
static int g_open, g_fd = -1, g_opens, g_closes;     /* descriptors */
static int g_set;                                    /* line settings applied: 1 done, 2 failed */
static int g_speed = B2400, g_wait = 3, g_in, g_out;
static int g_tty = 1;
int open(const char *path, int flags, ...)
{
    CHECK(__ai_sametext(path, name), "another device opened");
    CHECK((flags & 3) == 2, "device not opened for reading and writing");
    CHECK(flags & 0400, "device may become the controlling terminal");
    CHECK(!g_open, "device opened twice");
    if (__ai_split(__ai_range(0, 1))) { errno = __ai_range(1, 133); return -1; }
    g_open = 1; g_opens++; g_set = 0;
    return g_fd = __ai_range(0, 1000);
}
int close(int fd)
{
    CHECK(g_open, "closing what is not open");
    CHECK(fd == g_fd, "another descriptor closed");
    g_open = 0; g_closes++;
    return __ai_split(__ai_range(-1, 0));
}
int cfsetispeed(struct termios *t, speed_t s) { if (__ai_split(__ai_range(0, 1))) { g_set = 2; return -1; } t->c_ispeed = s; g_in = s; return 0; }
int cfsetospeed(struct termios *t, speed_t s) { if (__ai_split(__ai_range(0, 1))) { g_set = 2; return -1; } t->c_ospeed = s; g_out = s; return 0; }
int cfsetspeed(struct termios *t, speed_t s) { if (cfsetispeed(t, s)) return -1; return cfsetospeed(t, s); }
static int g_setup; /* whether the whole line setting is being made, not only the speed */
int tcsetattr(int fd, int when, const struct termios *t)
{
    CHECK(g_open && fd == g_fd, "settings of another descriptor changed");
    CHECK(when == TCSANOW || when == TCSADRAIN || when == TCSAFLUSH, "no way of changing settings");
    if (g_set != 2) CHECK(t->c_ispeed == g_speed && t->c_ospeed == g_speed, "line speed is not the one asked for");
    CHECK(t->c_cc[VTIME] == g_wait, "waiting time does not suit the line speed");
    if (g_setup) {
        CHECK((t->c_cflag & (CSIZE | PARENB | PARODD | CSTOPB)) == (CS8 | PARENB), "line is not set to 8 bits, even parity, one stop bit");
        CHECK((t->c_cflag & (CREAD | CLOCAL)) == (CREAD | CLOCAL), "receiver is not enabled");
        CHECK(t->c_cc[VMIN] == 0, "waits for ever for the first byte");
        CHECK(t->c_lflag == 0 && t->c_iflag == 0 && t->c_oflag == 0, "line is not set to raw bytes");
    }
    if (__ai_split(__ai_range(0, 1))) { g_set = 2; return -1; }
    if (g_set != 2) g_set = 1;
    return 0;
}
int isatty(int fd) { CHECK(fd == h.fd, "another descriptor used"); return g_tty; }
/* ---- P16 */
static void setup(void)
{
    aux.device = name;
    h.fd = -1; h.is_serial = 1; h.auxdata = &aux;
    h.open = mbus_serial_connect; h.close = mbus_serial_disconnect;
    h.send = mbus_serial_send_frame; h.recv = mbus_serial_recv_frame;
    h.free_auxdata = mbus_serial_data_free;
    g_setup = 1;
}
static void closed(int asked)
{
    int was = g_open;
    int r = mbus_disconnect(&h);
    CHECK(r == (was ? 0 : -1), "result of disconnecting is wrong");
    CHECK(!g_open, "descriptor left open");
    CHECK(h.fd == -1, "handle still holds a closed descriptor");
}
void drv_lifecycle(void)
{
    setup();
    int stop = 0;
    while (!stop) {
        int r = mbus_connect(&h);
        if (r == 0) { CHECK(g_open && h.fd == g_fd, "connected without a descriptor"); CHECK(g_set == 1 || g_set == 2, "line settings never made"); }
        else { CHECK(r == -1, "failure is not -1"); CHECK(!g_open, "a failed connection left its descriptor open"); CHECK(h.fd == -1, "a failed connection left a descriptor in the handle"); }
        REACH("tried to connect");
        if (r == 0) { REACH("connected"); } else { REACH("failed to connect"); }
        if (r == 0 || __ai_split(__ai_range(0, 1))) closed(0);
        if (__ai_split(__ai_range(0, 1))) closed(0);
        g_opens = g_closes = 0;
        stop = __ai_split(__ai_range(0, 1));
    }
}
void drv_connect_refused(void)
{
    setup(); g_setup = 0;
    CHECK(mbus_connect(0) == -1, "no handle accepted");
    CHECK(mbus_disconnect(0) == -1, "no handle accepted");
    CHECK(mbus_serial_connect(0) == -1, "no handle accepted");
    CHECK(mbus_serial_disconnect(0) == -1, "no handle accepted");
    aux.device = 0;
    CHECK(mbus_connect(&h) == -1, "no device name accepted");
    h.auxdata = 0;
    CHECK(mbus_connect(&h) == -1, "no device accepted");
    CHECK(!g_open && !g_opens, "something was opened");
    CHECK(h.fd == -1, "a failed connection left a descriptor in the handle");
}
/* ---- P19: line speed */
static const struct { long rate; int speed, wait; } rates[] = {
    {300, B300, 13}, {600, B600, 8}, {1200, B1200, 5}, {2400, B2400, 3}, {4800, B4800, 3}, {9600, B9600, 2}, {19200, B19200, 2}, {38400, B38400, 2} };
void drv_baudrate(void)
{
    setup(); g_setup = 0;
    g_open = 1; h.fd = g_fd = __ai_range(0, 1000);
    __ai_havoc(&aux.t, sizeof aux.t);
    int i = __ai_split(__ai_range(0, 7));
    g_speed = rates[i].speed; g_wait = rates[i].wait;
    int r = mbus_serial_set_baudrate(&h, rates[i].rate);
    CHECK((r == 0) == (g_set == 1), "result of changing the speed is wrong");
    CHECK(r == 0 || r == -1, "failure is not -1");
    CHECK(g_set == 2 || (g_set == 1 && g_in == g_speed && g_out == g_speed), "the speed was not changed");
    CHECK(g_open && h.fd == g_fd, "changing the speed changed the connection");
    if (r == 0) REACH("speed changed");
}
void drv_baudrate_bad(void)
{
    setup(); g_setup = 0;
    g_open = 1; h.fd = g_fd = __ai_range(0, 1000);
    g_set = 2; g_speed = -1;
    long b = __ai_range(-(1L << 62), 1L << 62);
    for (int i = 0; i < 8; i++) __ai_assume(b != rates[i].rate);
    CHECK(mbus_serial_set_baudrate(&h, b) == -1, "unknown speed accepted");
    CHECK(mbus_serial_set_baudrate(0, 2400) == -1, "no handle accepted");
    h.auxdata = 0;
    CHECK(mbus_serial_set_baudrate(&h, 2400) == -1, "no device accepted");
    CHECK(g_in == 0 && g_out == 0, "the speed was changed");
}
#define SERIAL 1
#include "transport.h"

