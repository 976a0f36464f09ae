/* P03, P25: layout of one data record: length and bytes, for every DIF/VIF shape */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <string.h>
#include <stdlib.h>
static mbus_frame f;
static mbus_data_variable v;
/* bytes of data announced by the lower half of the DIF */
static const int dif_len[16] = { 0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, -1, 6, 0 };
/* bytes of data announced by the length byte of variable length data, -1: not specified here */
static int lvar_len(int c)
{
    if (c <= 0xBF) return c;
    if (c >= 0xE0 && c <= 0xEF) return c - 0xE0;
    if (c >= 0xF0 && c <= 0xF4) return (c - 0xEC) * 4;
    if (c == 0xF5) return 48;
    if (c == 0xF6) return 64;
    return -1;
}
static void frame_of(int nd, int nv, int custom, int code)
{
    int i = 12, j;
    memset(&f, 0, sizeof f);
    __ai_havoc(f.data, sizeof f.data);
    f.data[i++] = code + 16 * __ai_range(0, 7) + (nd ? 128 : 0);
    for (j = 1; j <= nd; j++, i++) f.data[i] = __ai_range(0, 127) + (j < nd ? 128 : 0);
    f.data[i] = nv ? 0x93 : 0x13;
    if (custom >= 0) { f.data[i++] = nv ? 0xFC : 0x7C; f.data[i] = custom; i += 1 + custom; }
    else i++;
    for (j = 1; j <= nv; j++, i++) f.data[i] = __ai_range(0, 127) + (j < nv ? 128 : 0);
    f.data_size = i; /* position of the data: the caller adds their length */
    f.type = MBUS_FRAME_TYPE_LONG;
}
static void check(int nd, int nv, int custom, int code, int at, int len)
{
    long i;
    f.data_size = at + len;
    /* bytes that cannot be read as further records: every one announces an extension */
    for (i = 0; i < len; i++) if (code != 13 || i) f.data[at + i] = __ai_range(128, 255);
    CHECK(mbus_data_variable_parse(&f, &v) == 0, "valid record rejected");
    CHECK(v.nrecords == 1 && v.record && !v.record->next, "one record not reported as one");
    mbus_data_record *r = v.record;
    CHECK(r->drh.dib.dif == f.data[12], "DIF differs from the telegram");
    CHECK(r->drh.dib.ndife == nd, "number of DIFE is wrong");
    for (i = 0; i < nd; i++) CHECK(r->drh.dib.dife[i] == f.data[13 + i], "DIFE differs from the telegram");
    CHECK(r->drh.vib.vif == f.data[13 + nd], "VIF differs from the telegram");
    CHECK(r->drh.vib.nvife == nv, "number of VIFE is wrong");
    for (i = 0; i < nv; i++) CHECK(r->drh.vib.vife[i] == f.data[at - nv + i], "VIFE differs from the telegram");
    if (custom >= 0)
        for (i = 0; i < custom; i++) CHECK(r->drh.vib.custom_vif[i] == f.data[14 + nd + custom - i], "custom VIF differs from the telegram");
    CHECK(r->data_len == len, "record has another length than its DIF announces");
    for (i = 0; i < len; i++) CHECK(r->data[i] == f.data[at + i], "data of a record differ from the telegram");
}
void drv_codes(void)
{
    int code = __ai_split(__ai_range(0, 14));
    if (code == 13) __ai_stop();
    int nd = __ai_split(__ai_range(0, 1)), nv = __ai_split(__ai_range(0, 1));
    frame_of(nd, nv, -1, code);
    check(nd, nv, -1, code, f.data_size, dif_len[code]);
}
/* codes ending in F that are neither manufacturer data nor filling are reserved, and taken for eight bytes of data */
void drv_special(void)
{
    int nd = __ai_split(__ai_range(0, 2)), nv = __ai_split(__ai_range(0, 1));
    frame_of(nd, nv, -1, 15);
    if (!nd) f.data[12] = 15 + 16 * __ai_range(3, 7);
    check(nd, nv, -1, 15, f.data_size, 8);
}
/* records follow each other, with filling before, between and after them */
void drv_chain(void)
{
    static const int code[5] = { 0, 1, 4, 0x0B, 7 };
    int n[3], c[2], at[2], i = 12, j, k;
    memset(&f, 0, sizeof f);
    f.type = MBUS_FRAME_TYPE_LONG;
    for (k = 0; k < 3; k++) n[k] = __ai_split(__ai_range(0, 2));
    for (k = 0; k < 2; k++) {
        c[k] = code[__ai_split(__ai_range(0, 4))];
        for (j = 0; j < n[k]; j++) f.data[i++] = 0x2F;
        at[k] = i;
        f.data[i++] = c[k] + 16 * __ai_range(0, 7) + 128; f.data[i++] = __ai_range(0, 127);
        f.data[i++] = __ai_range(0, 123); /* no plain text unit */
        for (j = 0; j < dif_len[c[k]]; j++) f.data[i++] = __ai_range(0, 255);
    }
    for (j = 0; j < n[2]; j++) f.data[i++] = 0x2F;
    f.data_size = i;
    CHECK(mbus_data_variable_parse(&f, &v) == 0, "valid records rejected");
    CHECK(v.nrecords == 2 && v.record && v.record->next && !((mbus_data_record *)v.record->next)->next, "two records not reported as two");
    mbus_data_record *r = v.record;
    for (k = 0; k < 2; k++, r = r->next) {
        CHECK(r->drh.dib.dif == f.data[at[k]] && r->drh.dib.ndife == 1 && r->drh.dib.dife[0] == f.data[at[k] + 1] && r->drh.vib.vif == f.data[at[k] + 2], "a record of several differs from the telegram");
        CHECK(r->data_len == dif_len[c[k]], "a record of several has another length than its DIF announces");
        for (j = 0; j < dif_len[c[k]]; j++) CHECK(r->data[j] == f.data[at[k] + 3 + j], "data of a record of several differ from the telegram");
    }
}
void drv_shapes(void)
{
    int nd = __ai_split(__ai_range(0, 10)), nv = __ai_split(__ai_range(0, 10));
    frame_of(nd, nv, -1, 4);
    check(nd, nv, -1, 4, f.data_size, 4);
}
void drv_custom(void)
{
    int nd = __ai_split(__ai_range(0, 1)), nv = __ai_split(__ai_range(0, 1)), c = __ai_split(__ai_range(0, 127));
    frame_of(nd, nv, c, 4);
    check(nd, nv, c, 4, f.data_size, 4);
}
void drv_lvar(void)
{
    int c = __ai_split(__ai_range(0, 255)), n = lvar_len(c), nd = __ai_split(__ai_range(0, 1)), nv = __ai_split(__ai_range(0, 1));
    if (n < 0) __ai_stop();
    frame_of(nd, nv, -1, 13);
    f.data[f.data_size] = c;
    check(nd, nv, -1, 13, f.data_size, n + 1);
}
/* C0..C9, D0..D9: the standard counts 2 BCD digits, the library so far 2 bytes; either, but the same for all */
void drv_lvar_bcd(void)
{
    int twice = __ai_split(__ai_range(0, 1)), n = __ai_split(__ai_range(0, 9)), neg = __ai_split(__ai_range(0, 1));
    int len = twice ? 2 * n : n;
    frame_of(0, 0, -1, 13);
    f.data[f.data_size] = (neg ? 0xD0 : 0xC0) + n;
    int at = f.data_size, i;
    memset(f.data + at + 1, 0x2F, 20);
    f.data_size = at + 1 + len;
    if (mbus_data_variable_parse(&f, &v) != 0) { CHECK(!twice, "valid record of BCD digits rejected"); return; }
    i = v.record->data_len - 1;
    CHECK(v.nrecords == 1 && (i == n || i == 2 * n), "record of BCD digits has another length than announced");
    CHECK(v.record->data[0] == f.data[at], "length byte differs from the telegram");
}
/* decoding and rendering rely on the length byte being kept with the data, whatever it says */
void drv_lvar_kept(void)
{
    int c = __ai_split(__ai_range(0, 255)), nd = __ai_split(__ai_range(0, 1)), nv = __ai_split(__ai_range(0, 1));
    frame_of(nd, nv, -1, 13);
    f.data[f.data_size] = c;
    memset(f.data + f.data_size + 1, 0x2F, sizeof f.data - f.data_size - 1);
    f.data_size = sizeof f.data;
    if (mbus_data_variable_parse(&f, &v) == 0 && v.record)
        CHECK(v.record->data_len >= 1 && v.record->data_len <= sizeof v.record->data && v.record->data[0] == c, "record of variable length without its length byte");
}
