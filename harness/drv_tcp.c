/* P16-P19: the TCP transport against a model of the operating system's calls */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <mbus/mbus-tcp.h>
#include <string.h>
#include <errno.h>
#include <stdlib.h>
#include <stdio.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <unistd.h>
static mbus_handle h;
static mbus_tcp_data aux;
static mbus_frame frame;
static char name[] = "meter.example";
static int g_open, g_fd = -1, g_up, g_tried, g_list, g_sndto, g_rcvto, g_tty = 1;
#define LONGEST 261
static long g_sec = 4, g_usec = 0, g_slack; /* timeout in force */
static long g_port;
#define ADDRS 3
static int g_k, g_n;            /* address to be tried next, how many there are */
static struct sockaddr dest[ADDRS];
static struct addrinfo node[ADDRS];
int getaddrinfo(const char *host, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
    CHECK(__ai_sametext(host, name), "another host looked up");
    { char want[8]; snprintf(want, sizeof want, "%d", (int) g_port); CHECK(__ai_sametext(service, want), "another port looked up"); }
    CHECK(hints && hints->ai_socktype == SOCK_STREAM, "not a stream connection");
    CHECK(hints->ai_family == AF_UNSPEC && hints->ai_flags == 0 && hints->ai_protocol == 0, "addresses of one family only");
    CHECK(!g_list, "addresses looked up twice");
    g_k = g_n = 0;
    if (__ai_split(__ai_range(0, 1))) return __ai_range(-12, -1);
    g_list = 1; g_tried = 0;
    g_n = __ai_split(__ai_range(1, ADDRS)); g_k = 0;
    for (int i = 0; i < g_n; i++) {
        node[i].ai_family = __ai_range(0, 40); node[i].ai_socktype = SOCK_STREAM; node[i].ai_protocol = __ai_range(0, 255);
        node[i].ai_addr = &dest[i]; node[i].ai_addrlen = __ai_range(16, 28);
        node[i].ai_next = i + 1 < g_n ? &node[i + 1] : 0;
    }
    *res = node;
    return 0;
}
void freeaddrinfo(struct addrinfo *a)
{
    CHECK(g_list == 1 && a == node, "address list freed twice or never made");
    g_list = 0;
}
const char *gai_strerror(int e) { static char txt[200]; __ai_str(txt, 0, sizeof txt - 1, 0); return txt; }
int socket(int family, int type, int protocol)
{
    CHECK(g_list == 1, "socket for a freed address");
    CHECK(!g_open, "a second socket opened while one is open");
    CHECK(g_k < g_n, "more sockets than addresses");
    CHECK(__ai_same(family, node[g_k].ai_family) && type == SOCK_STREAM && __ai_same(protocol, node[g_k].ai_protocol), "socket is not of the address's kind");
    if (__ai_split(__ai_range(0, 1))) { g_k++; errno = __ai_range(1, 133); return -1; }
    g_open = 1; g_sndto = g_rcvto = 0;
    return g_fd = __ai_range(0, 1000);
}
int connect(int fd, const struct sockaddr *a, socklen_t n)
{
    CHECK(g_open && fd == g_fd, "another socket connected");
    CHECK(g_list == 1, "connected to a freed address");
    CHECK(a == &dest[g_k] && __ai_same(n, node[g_k].ai_addrlen), "connected to another address");
    CHECK(!g_tried, "connected twice");
    if (__ai_split(__ai_range(0, 1))) { errno = __ai_range(1, 133); g_tried = 1; return -1; }
    g_up = 1;
    return 0;
}
int close(int fd)
{
    CHECK(g_open, "closing what is not open");
    CHECK(fd == g_fd, "another descriptor closed");
    if (g_tried) g_k++;
    g_open = 0; g_up = 0; g_tried = 0;
    return __ai_split(__ai_range(-1, 0));
}
int setsockopt(int fd, int level, int opt, const void *v, socklen_t n)
{
    CHECK(g_open && fd == g_fd, "option of another socket set");
    if (level != SOL_SOCKET || (opt != SO_SNDTIMEO && opt != SO_RCVTIMEO)) return 0;
    const struct timeval *t = v;
    CHECK(n == sizeof *t, "timeout of the wrong size");
    CHECK(t->tv_sec == g_sec, "another timeout set");
    CHECK(t->tv_usec >= 0 && t->tv_usec <= 999999, "invalid microseconds");
    CHECK(t->tv_usec >= g_usec - g_slack && t->tv_usec <= g_usec, "another timeout set");
    if (opt == SO_SNDTIMEO) g_sndto = 1; else g_rcvto = 1;
    return __ai_split(__ai_range(-1, 0));
}
static void setup(void)
{
    aux.host = name; g_port = aux.port = __ai_range(0, 65535);
    h.fd = -1; h.auxdata = &aux;
    h.open = mbus_tcp_connect; h.close = mbus_tcp_disconnect;
    h.send = mbus_tcp_send_frame; h.recv = mbus_tcp_recv_frame;
    h.free_auxdata = mbus_tcp_data_free;
}
static void closed(void)
{
    int was = g_open;
    int r = mbus_disconnect(&h);
    CHECK(r == (was ? 0 : -1), "result of disconnecting is wrong");
    CHECK(!g_open, "socket left open");
    CHECK(h.fd == -1, "handle still holds a closed socket");
}
static void try(void)
{
    int r = mbus_connect(&h);
    CHECK(!g_list, "address list never freed");
    if (r == 0) { CHECK(g_open && g_up && h.fd == g_fd, "connected without a connection"); CHECK(g_sndto && g_rcvto, "no timeout set"); REACH("connected"); }
    else { CHECK(r == -1, "failure is not -1"); CHECK(!g_open, "a failed connection left its socket open"); CHECK(h.fd == -1, "a failed connection left a socket in the handle"); CHECK(g_k == g_n, "an address was never tried"); REACH("failed to connect"); }
}
void drv_lifecycle(void)
{
    setup();
    int stop = 0;
    while (!stop) {
        try();
        if (g_open || __ai_split(__ai_range(0, 1))) closed();
        if (__ai_split(__ai_range(0, 1))) closed();
        stop = __ai_split(__ai_range(0, 1));
    }
}
void drv_connect_refused(void)
{
    setup();
    CHECK(mbus_connect(0) == -1, "no handle accepted");
    CHECK(mbus_disconnect(0) == -1, "no handle accepted");
    CHECK(mbus_tcp_connect(0) == -1, "no handle accepted");
    CHECK(mbus_tcp_disconnect(0) == -1, "no handle accepted");
    aux.host = 0;
    CHECK(mbus_connect(&h) == -1, "no host name accepted");
    h.auxdata = 0;
    CHECK(mbus_connect(&h) == -1, "no host accepted");
    CHECK(!g_open, "something was opened");
    CHECK(h.fd == -1, "a failed connection left a socket in the handle");
}
/* ---- P19: timeout */
void drv_timeout(void)
{
    static const struct { double t; long s, us; } cases[] = {
        {0, 0, 0}, {0.5, 0, 500000}, {1, 1, 0}, {2.25, 2, 250000}, {4, 4, 0}, {30.125, 30, 125000}, {86400, 86400, 0}, {0.000001, 0, 1}, {0.1, 0, 100000}, {59.999999, 59, 999999}, {2147483647.0, 2147483647, 0} };
    int i = __ai_split(__ai_range(0, sizeof cases / sizeof *cases - 1));
    setup();
    CHECK(mbus_tcp_set_timeout_set(cases[i].t) == 0, "timeout refused");
    g_sec = cases[i].s; g_usec = cases[i].us; g_slack = 1;
    try();
}
void drv_timeout_bad(void)
{
    setup();
    static const double bad[] = {-1, -0.000001, -4, -86400, -1e300};
    double d = bad[__ai_split(__ai_range(0, 4))];
    CHECK(mbus_tcp_set_timeout_set(2.5) == 0, "timeout refused");
    CHECK(mbus_tcp_set_timeout_set(d) == -1, "negative timeout accepted");
    g_sec = 2; g_usec = 500000;
    try();
}
#define SERIAL 0
#include "transport.h"
