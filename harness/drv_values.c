/* P13: numbers, dates and texts decode to what was transmitted */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
static mbus_data_record r;
static unsigned char *raw = r.data;
static unsigned char m1[256], m2[256];
/* n bytes of a two's complement number, least significant first */
static long long integer(int n)
{
    long long v = 0; int i, neg = __ai_any(), low = (int)__ai_range(0, 127);
    for (i = 0; i < n - 1; i++) { int b = (int)__ai_range(0, 255); raw[i] = b; v += (long long)b << 8 * i; }
    raw[n - 1] = low + 128 * neg;
    return v + (long long)(low - 128 * neg) * (1LL << 8 * (n - 1));
}
/* n bytes of BCD digits, least significant first; the leading digit may be the minus sign */
static long long bcd(int n, int neg)
{
    long long v = 0, p = 1; int i;
    for (i = 0; i < n; i++, p *= 100) {
        int l = (int)__ai_range(0, 9), h = i == n - 1 && neg ? 0 : (int)__ai_range(0, 9);
        raw[i] = l + 16 * (i == n - 1 && neg ? 15 : h);
        v += p * l + 10 * p * h;
    }
    return neg ? -v : v;
}
static void any_vib(int time)
{
    __ai_havoc(&r, sizeof r);
    r.drh.dib.dif = 0;
    if (time == 1) { r.drh.vib.vif = 0x6D + 128 * __ai_range(0, 1); }
    else if (time == 2) { r.drh.vib.vif = 0xFD; r.drh.vib.vife[0] = (__ai_any() ? 0x30 : 0x70) + 128 * __ai_range(0, 1); }
    else if (time == 3) { r.drh.vib.vif = 0x6C + 128 * __ai_range(0, 1); }
    else { __ai_assume(r.drh.vib.vif != 0xFD); __ai_assume((r.drh.vib.vif & 0x7F) != 0x6D); __ai_assume((r.drh.vib.vif & 0x7F) != 0x6C); }
}
void drv_int(void)
{
    int n = __ai_split(__ai_range(1, 4)), v; long long e = integer(n);
    CHECK(mbus_data_int_decode(raw, n, &v) == 0 && __ai_same(v, e), "integer decodes to another value");
}
void drv_long(void)
{
    int n = __ai_split(__ai_range(1, 8)); long v; long long w, e = integer(n);
    CHECK(mbus_data_long_decode(raw, n, &v) == 0 && __ai_same(v, e), "integer decodes to another value");
    CHECK(mbus_data_long_long_decode(raw, n, &w) == 0 && __ai_same(w, e), "integer decodes to another value");
}
void drv_nothing(void)
{
    int v; long w; long long x;
    CHECK(mbus_data_int_decode(0, 4, &v) < 0 && mbus_data_long_decode(0, 4, &w) < 0 && mbus_data_long_long_decode(0, 8, &x) < 0, "no bytes decoded");
    CHECK(mbus_data_int_decode(raw, 0, &v) < 0 && mbus_data_long_decode(raw, 0, &w) < 0 && mbus_data_long_long_decode(raw, 0, &x) < 0, "no bytes decoded");
    CHECK(mbus_data_bcd_decode(0, 4) == -1 && mbus_data_bcd_decode(raw, 0) == -1 && mbus_data_bcd_decode_hex(0, 4) == -1, "no bytes decoded");
    CHECK(mbus_data_bcd_encode(0, 4, 1) < 0 && mbus_data_bcd_encode(raw, 0, 1) < 0 && mbus_data_int_encode(0, 4, 1) < 0, "encoded into no bytes");
}
void drv_bcd(void)
{
    int n = __ai_split(__ai_range(1, 6)), neg = __ai_any(); long long e = bcd(n, neg);
    CHECK(__ai_same(mbus_data_bcd_decode(raw, n), e), "BCD digits decode to another value");
}
void drv_bcd_hex(void)
{
    int n = __ai_split(__ai_range(1, 6)), i; long long e = 0;
    for (i = 0; i < n; i++) { int b = (int)__ai_range(0, 255); raw[i] = b; e += (long long)b << 8 * i; }
    CHECK(__ai_same(mbus_data_bcd_decode_hex(raw, n), e), "hexadecimal digits decode to another value");
}
void drv_int_encode(void)
{
    int n = __ai_split(__ai_range(1, 4)), i; long long e = integer(n); unsigned char b[5];
    b[n] = 0xA5;
    CHECK(mbus_data_int_encode(b, n, (int)e) == 0, "integer not encoded");
    for (i = 0; i < n; i++) CHECK(b[i] == raw[i], "integer encoded as another value");
    CHECK(b[n] == 0xA5, "integer encoded past its bytes");
}
void drv_bcd_encode(void)
{
    int n = __ai_split(__ai_range(1, 4)), i; unsigned char b[5]; long long e = 0, p = 1;
    int v = 0;
    for (i = 0; i < 2 * n; i++, p *= 10) v += (int)p * (int)__ai_range(0, 9);
    p = 1;
    b[n] = 0xA5;
    CHECK(mbus_data_bcd_encode(b, n, v) == 0 && b[n] == 0xA5, "number not encoded");
    /* most significant byte first */
    for (i = n - 1; i >= 0; i--, p *= 100) { CHECK((b[i] & 15) <= 9 && (b[i] >> 4) <= 9, "encoded digits are not decimal"); e += p * (b[i] & 15) + 10 * p * (b[i] >> 4); }
    CHECK(__ai_same(e, v), "number encoded as another value");
}
void drv_float(void)
{
    float a, b;
    __ai_havoc(raw, 4);
    memcpy(&a, raw, 4); b = mbus_data_float_decode(raw);
    CHECK(__ai_fsame(a, b), "floating point data decode to another value");
}
/* dates and times */
static int sec, min, hour, day, mon, year, dst, inv;
static void date_g(void)
{
    day = (int)__ai_range(0, 31); mon = (int)__ai_range(0, 15); int yl = (int)__ai_range(0, 7), yh = (int)__ai_range(0, 15);
    raw[0] = day + 32 * yl; raw[1] = mon + 16 * yh; year = 2000 + yl + 8 * yh;
    sec = min = hour = dst = 0;
}
static void date_f(int cent, int yl, int yh)
{
    min = (int)__ai_range(0, 63); hour = (int)__ai_range(0, 31); day = (int)__ai_range(0, 31); mon = (int)__ai_range(0, 15); dst = (int)__ai_range(0, 1);
    raw[0] = min + 64 * __ai_range(0, 1) + 128 * inv; raw[1] = hour + 32 * cent + 128 * dst;
    raw[2] = day + 32 * yl; raw[3] = mon + 16 * yh; sec = 0;
    year = yl + 8 * yh; year = 1900 + (cent == 0 && year <= 80 ? 100 : 100 * cent) + year;
}
static void date_i(void)
{
    int yl = (int)__ai_range(0, 7), yh = (int)__ai_range(0, 15);
    sec = (int)__ai_range(0, 63); min = (int)__ai_range(0, 63); hour = (int)__ai_range(0, 31); day = (int)__ai_range(0, 31); mon = (int)__ai_range(0, 15); dst = (int)__ai_range(0, 1);
    raw[0] = sec + 64 * dst + 128 * __ai_range(0, 1); raw[1] = min + 64 * __ai_range(0, 1) + 128 * inv; raw[2] = hour + 32 * __ai_range(0, 7);
    raw[3] = day + 32 * yl; raw[4] = mon + 16 * yh; __ai_havoc(raw + 5, 1); year = 2000 + yl + 8 * yh;
}
static void date_of(int n)
{
    inv = __ai_any();
    if (n == 2) { inv = 0; date_g(); }
    else if (n == 4) { if (__ai_any()) { int y = __ai_split(__ai_range(0, 127)); date_f(0, y & 7, y >> 3); } else { int c = __ai_split(__ai_range(1, 3)); date_f(c, (int)__ai_range(0, 7), (int)__ai_range(0, 15)); } }
    else date_i();
}
static void tm_check(int n)
{
    struct tm t;
    __ai_havoc(&t, sizeof t);
    date_of(n);
    mbus_data_tm_decode(&t, raw, n);
    if (inv) CHECK(t.tm_sec == 0 && t.tm_min == 0 && t.tm_hour == 0 && t.tm_mday == 0 && t.tm_mon == 0 && t.tm_year == 0 && t.tm_isdst == 0, "invalid time decodes to a time");
    else {
        CHECK(__ai_same(t.tm_year, year - 1900) && __ai_same(t.tm_mon, mon - 1) && __ai_same(t.tm_mday, day), "date decodes to another date");
        CHECK(__ai_same(t.tm_hour, hour) && __ai_same(t.tm_min, min) && __ai_same(t.tm_sec, sec), "time decodes to another time");
        CHECK(t.tm_isdst ? dst == 1 : dst == 0, "summer time is lost");
    }
}
void drv_tm2(void) { tm_check(2); }
void drv_tm4(void) { tm_check(4); }
void drv_tm6(void) { tm_check(6); }
/* texts are transmitted last character first */
void drv_text(void)
{
    unsigned char d[242]; int n = __ai_split(__ai_range(0, 240)), i;
    __ai_havoc(m1, sizeof m1); d[n + 1] = 0xA5;
    mbus_data_str_decode(d, m1, n);
    for (i = 0; i < n; i++) CHECK(d[i] == m1[n - 1 - i], "text decodes to another text");
    CHECK(d[n] == 0 && d[n + 1] == 0xA5, "text does not end where it should");
}
void drv_manufacturer(void)
{
    unsigned char b[2], c[3]; int l0 = (int)__ai_range(1, 26), l1 = (int)__ai_range(0, 7) + 8 * (int)__ai_range(0, 3), l2 = (int)__ai_range(1, 26); const char *s;
    __ai_assume(l1 >= 1 && l1 <= 26);
    c[0] = 64 + l0; c[1] = 64 + l1; c[2] = 64 + l2;
    CHECK(mbus_data_manufacturer_encode(b, c) == 0, "manufacturer not encoded");
    CHECK(__ai_same(b[0] + 256 * b[1], 1024 * l0 + 32 * l1 + l2), "manufacturer encoded as another one");
    s = mbus_decode_manufacturer(b[0], b[1]);
    CHECK(s[0] == c[0] && s[1] == c[1] && s[2] == c[2] && s[3] == 0, "manufacturer decodes to another one");
    CHECK(mbus_data_manufacturer_encode(0, c) < 0 && mbus_data_manufacturer_encode(b, 0) < 0, "no manufacturer encoded");
}
/* values of records, as text and as number */
static const int ilen[8] = { 0, 1, 2, 3, 4, 4, 6, 8 };
static void number(long long e)
{
    char b[32]; double v; char *s; int n;
    snprintf(b, sizeof b, "%lld", e);
    CHECK(__ai_sametext(mbus_data_record_value(&r), b), "value text differs from the value transmitted");
    CHECK(mbus_variable_value_decode(&r, &v, &s, &n) == 0 && s == 0 && __ai_fsame(v, (double)e), "value differs from the value transmitted");
}
void drv_number(void)
{
    int c = __ai_split(__ai_range(1, 7));
    __ai_assume(c != 5);
    any_vib(0);
    r.drh.dib.dif = c + 16 * __ai_range(0, 15);
    r.data_len = ilen[c];
    number(integer(ilen[c]));
}
void drv_number_bcd(void)
{
    static const int code[6] = { 0x09, 0x0A, 0x0B, 0x0C, 0x0E, 0x0E }, len[6] = { 1, 2, 3, 4, 6, 6 };
    int k = __ai_split(__ai_range(0, 4)), neg = __ai_any();
    any_vib(0);
    r.drh.dib.dif = code[k] + 16 * __ai_split(__ai_range(0, 2)) + 64 * __ai_range(0, 3);
    r.data_len = len[k];
    number(bcd(len[k], neg));
}
/* digits reported in an error state are shown as they are */
void drv_number_hex(void)
{
    static const int code[6] = { 0x09, 0x0A, 0x0B, 0x0C, 0x0E, 0x0E }, len[6] = { 1, 2, 3, 4, 6, 6 };
    int k = __ai_split(__ai_range(0, 4)), i; unsigned long long e = 0; char b[32];
    any_vib(0);
    r.drh.dib.dif = code[k] + 0x30 + 64 * __ai_range(0, 3);
    r.data_len = len[k];
    for (i = 0; i < len[k]; i++) { int x = (int)__ai_range(0, 255); raw[i] = x; e += (unsigned long long)x << 8 * i; }
    snprintf(b, sizeof b, "%llX", e);
    CHECK(__ai_sametext(mbus_data_record_value(&r), b), "digits of an erroneous value are not shown as transmitted");
}
void drv_number_float(void)
{
    float a; char b[400], *s; double v; int n;
    any_vib(__ai_split(__ai_range(0, 3)));
    r.drh.dib.dif = 5 + 16 * __ai_range(0, 15); r.data_len = 4;
    memcpy(&a, raw, 4);
    snprintf(b, sizeof b, "%f", a);
    CHECK(__ai_sametext(mbus_data_record_value(&r), b), "value text differs from the value transmitted");
    CHECK(mbus_variable_value_decode(&r, &v, &s, &n) == 0 && s == 0 && __ai_fsame(v, (double)a), "value differs from the value transmitted");
}
static void date_text(int c, int n)
{
    char b[64], e[64], *s = 0; double v; int k;
    r.drh.dib.dif = c + 16 * __ai_range(0, 15); r.data_len = n;
    date_of(n);
    if (inv) { year = 1900; mon = 1; day = hour = min = sec = 0; }
    if (n == 2) snprintf(b, sizeof b, "%04d-%02d-%02d", year, mon, day);
    else snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d", year, mon, day, hour, min, sec);
    CHECK(__ai_sametext(mbus_data_record_value(&r), b), "date text differs from the date transmitted");
    snprintf(e, sizeof e, n == 2 ? "%s" : "%sZ", b);
    if (mbus_variable_value_decode(&r, &v, &s, &k) != 0) __ai_stop();
    CHECK(__ai_sametext(s, e), "date text differs from the date transmitted");
    free(s);
}
void drv_date2(void) { any_vib(3); date_text(2, 2); }
void drv_date4(void) { any_vib(1); date_text(4, 4); }
void drv_date4x(void) { any_vib(2); date_text(4, 4); }
void drv_date6(void) { any_vib(1); date_text(6, 6); }
void drv_date6x(void) { any_vib(2); date_text(6, 6); }
static void value_text(int n)
{
    int i, k; const char *t; char *s = 0; double v;
    any_vib(0);
    r.drh.dib.dif = 13 + 16 * __ai_range(0, 15); r.data_len = n + 1; raw[0] = n;
    for (i = 1; i <= n; i++) raw[i] = __ai_range(1, 255);
    t = mbus_data_record_value(&r);
    for (i = 0; i < n; i++) m1[i] = raw[n - i];
    m1[n] = 0;
    CHECK(__ai_sametext(t, (char *)m1), "text differs from the text transmitted");
    if (mbus_variable_value_decode(&r, &v, &s, &k) != 0) __ai_stop();
    for (i = 0; i < n; i++) CHECK((unsigned char)s[i] == raw[n - i], "text differs from the text transmitted");
    CHECK(s[n] == 0 && k == n, "text differs from the text transmitted");
    free(s);
}
void drv_value_text0(void) { value_text(__ai_split(__ai_range(0, 100))); }
void drv_value_text1(void) { value_text(__ai_split(__ai_range(101, 150))); }
void drv_value_text2(void) { value_text(__ai_split(__ai_range(151, 191))); }
void drv_value_none(void)
{
    char *s = 0; double v; int k;
    any_vib(__ai_split(__ai_range(0, 3)));
    r.drh.dib.dif = 16 * __ai_range(0, 15);
    CHECK(mbus_data_record_value(&r)[0] == 0, "value where there is none");
    if (mbus_variable_value_decode(&r, &v, &s, &k) != 0) __ai_stop();
    CHECK(s[0] == 0 && k == 0, "value where there is none");
    free(s);
    CHECK(mbus_data_record_value(0) == 0 && mbus_variable_value_decode(0, &v, &s, &k) < 0, "value without a record");
}
