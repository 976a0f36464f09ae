/* P01, P05, P07: the frame parser on every byte string */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <string.h>
#include <stdlib.h>
static mbus_frame f;
static unsigned char *input(long n)
{
    unsigned char *b = malloc(n); /* exactly n bytes: reading beyond data_size is reported */
    if (!b) __ai_stop();
    __ai_havoc(b, n);
    return b;
}
static int short_control(int c) { return c == 0x40 || c == 0x5A || c == 0x7A || c == 0x5B || c == 0x7B; }
static int long_control(int c) { return c == 0x53 || c == 0x73 || c == 0x08 || c == 0x18 || c == 0x28 || c == 0x38; }

/* any byte string of any length, whatever the frame held before */
void drv_parse(void)
{
    long n = __ai_range(1, 100000);
    unsigned char *b = input(n);
    __ai_readonly(b, n);
    __ai_havoc(&f, sizeof f);
    int r = mbus_parse(&f, b, n);
    CHECK(r == 0 || (r >= -4 && r <= -2) || r > 0, "mbus_parse returned an undocumented value");
    if (r > 0)
    {
        /* more bytes are asked for: never more than the telegram can be short of */
        if (b[0] == 0x10)
            CHECK(n + r <= 5, "asked for more bytes than a short frame holds");
        else
        {
            CHECK(b[0] == 0x68, "asked for more bytes of something that is no frame");
            if (n < 3)
                CHECK(n + r <= 9, "asked for more bytes than the smallest long frame holds");
            else
            {
                CHECK(b[1] == b[2] && b[1] >= 3, "asked for more bytes of a frame with an invalid length");
                CHECK(n + r <= b[1] + 6, "asked for more bytes than the frame's length field announces");
            }
        }
    }
    if (r == 0)
    {
        if (b[0] == 0xE5) CHECK(f.type == MBUS_FRAME_TYPE_ACK && f.start1 == 0xE5, "acknowledge not reported as such");
        else if (b[0] == 0x10)
        {
            CHECK(f.type == MBUS_FRAME_TYPE_SHORT && f.start1 == 0x10, "short frame not reported as such");
            CHECK(n == 5, "short frame of another length than 5 accepted");
            CHECK(short_control(b[1]), "short frame with an unknown control code accepted");
            CHECK(b[4] == 0x16, "short frame without stop byte accepted");
            CHECK(f.control == b[1] && f.address == b[2] && f.checksum == b[3] && f.stop == b[4], "fields of a short frame differ from the input");
        }
        else
        {
            CHECK(b[0] == 0x68, "frame with an unknown start byte accepted");
            CHECK(n >= 9 && n == b[1] + 6 && b[1] == b[2], "long frame accepted although its length is wrong");
            CHECK(b[3] == 0x68, "long frame without second start byte accepted");
            CHECK(long_control(b[4]), "long frame with an unknown control code accepted");
            CHECK(f.start1 == b[0] && f.length1 == b[1] && f.length2 == b[2] && f.start2 == b[3], "header of a long frame differs from the input");
            CHECK(f.control == b[4] && f.address == b[5] && f.control_information == b[6], "fields of a long frame differ from the input");
            CHECK(f.data_size == n - 9, "data size of a long frame is wrong");
            CHECK(f.type == (n == 9 ? MBUS_FRAME_TYPE_CONTROL : MBUS_FRAME_TYPE_LONG), "long or control frame not reported as such");
        }
        CHECK(f.next == 0, "parsed frame already has a successor");
    }
    __ai_unwatch(b);
    free(b);
}

void drv_parse_null(void)
{
    unsigned char b[1];
    CHECK(mbus_parse(0, b, 1) == -1, "no frame accepted");
    CHECK(mbus_parse(&f, 0, 1) == -1, "no data accepted");
    CHECK(mbus_parse(&f, b, 0) == -1, "empty data accepted");
    CHECK(mbus_frame_verify(0) == -1, "no frame verified");
}

/* short frames: accepted exactly when well formed */
void drv_short(void)
{
    unsigned char *b = input(5);
    b[0] = 0x10;
    if (mbus_parse(&f, b, 5) == 0)
        CHECK(b[3] == (unsigned char)(b[1] + b[2]), "short frame with a wrong checksum accepted");
    free(b);
}
static void short_valid(int c)
{
    unsigned char *b = input(5);
    b[0] = 0x10; b[1] = c; b[3] = (unsigned char)(b[1] + b[2]); b[4] = 0x16;
    CHECK(mbus_parse(&f, b, 5) == 0, "valid short frame rejected");
    free(b);
}
void drv_short_valid(void)
{
    short_valid(0x40); short_valid(0x5A); short_valid(0x7A); short_valid(0x5B); short_valid(0x7B);
}
void drv_ack(void)
{
    unsigned char *b = input(1);
    b[0] = 0xE5;
    CHECK(mbus_parse(&f, b, 1) == 0, "acknowledge rejected");
    free(b);
}

/* long frames of every length: an accepted one has the right checksum, a valid one is accepted */
static void accepted(long lo, long hi)
{
    long n = __ai_split(__ai_range(lo, hi)) + 9, i;
    unsigned char *b = input(n), c = 0;
    b[0] = 0x68;
    if (mbus_parse(&f, b, n) == 0)
    {
        for (i = 4; i < n - 2; i++) c += b[i];
        CHECK(b[n - 2] == c, "long frame with a wrong checksum accepted");
        CHECK(b[n - 1] == 0x16, "long frame without stop byte accepted");
        CHECK(f.checksum == b[n - 2] && f.stop == b[n - 1], "trailer of a long frame differs from the input");
        __ai_stop();
    }
}
static void data(long lo, long hi)
{
    long n = __ai_split(__ai_range(lo, hi)) + 9, i;
    unsigned char *b = input(n);
    b[0] = 0x68; b[4] = 0x08;
    if (mbus_parse(&f, b, n) == 0)
    {
        for (i = 0; i < n - 9; i++)
            CHECK(f.data[i] == b[7 + i], "user data of a long frame differ from the input");
        __ai_stop();
    }
}
static void valid(long lo, long hi, int control)
{
    long n = __ai_split(__ai_range(lo, hi)) + 9, i;
    unsigned char *b = input(n), c = 0;
    b[0] = b[3] = 0x68; b[1] = b[2] = n - 6; b[4] = control; b[n - 1] = 0x16;
    for (i = 4; i < n - 2; i++) c += b[i];
    b[n - 2] = c;
    CHECK(mbus_parse(&f, b, n) == 0, "valid long frame rejected");
    free(b);
}
void drv_accepted0(void) { accepted(0, 100); }
void drv_accepted1(void) { accepted(101, 190); }
void drv_accepted2(void) { accepted(191, 252); }
void drv_data0(void) { data(0, 150); }
void drv_data1(void) { data(151, 252); }
void drv_valid0(void) { valid(0, 252, 0x08); }
void drv_valid1(void) { valid(0, 252, 0x18); }
void drv_valid2(void) { valid(0, 252, 0x28); }
void drv_valid3(void) { valid(0, 252, 0x38); }
void drv_valid4(void) { valid(0, 252, 0x53); }
void drv_valid5(void) { valid(0, 252, 0x73); }
