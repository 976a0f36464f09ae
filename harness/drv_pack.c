/* P06: packing frames and frame data; P26: the kinds of user data */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <string.h>
#include <stdlib.h>
static mbus_frame f, g;
static mbus_frame_data d, e;
static unsigned char *any_frame(int type, long ds, long room)
{
    __ai_havoc(&f, sizeof f);
    f.type = type; f.data_size = ds; f.next = 0;
    unsigned char *b = malloc(room);
    if (!b) __ai_stop();
    return b;
}
static void refused(int type, long ds, long need)
{
    long room = __ai_range(0, need - 1);
    unsigned char *b = any_frame(type, ds, room);
    CHECK(mbus_frame_pack(&f, b, room) < 0, "frame packed into too small a buffer");
    free(b);
}
void drv_refused(void)
{
    int t = __ai_split(__ai_range(0, 3));
    if (t == 0) refused(MBUS_FRAME_TYPE_ACK, 0, 1);
    else if (t == 1) refused(MBUS_FRAME_TYPE_SHORT, 0, 5);
    else if (t == 2) refused(MBUS_FRAME_TYPE_CONTROL, 0, 9);
    else { long ds = __ai_split(__ai_range(0, sizeof f.data)); refused(MBUS_FRAME_TYPE_LONG, ds, ds + 9); }
}
void drv_other(void)
{
    unsigned char b[300]; int t = (int)__ai_range(-100000, 100000);
    __ai_assume(t != MBUS_FRAME_TYPE_ACK); __ai_assume(t != MBUS_FRAME_TYPE_SHORT);
    __ai_assume(t != MBUS_FRAME_TYPE_CONTROL); __ai_assume(t != MBUS_FRAME_TYPE_LONG);
    __ai_havoc(&f, sizeof f); f.type = t; f.data_size = __ai_range(0, sizeof f.data);
    CHECK(mbus_frame_pack(&f, b, sizeof b) < 0, "frame of no known type packed");
    CHECK(mbus_frame_pack(0, b, sizeof b) < 0 && mbus_frame_pack(&f, 0, 0) < 0, "no frame packed");
}
void drv_ack(void)
{
    long room = __ai_range(1, 4096);
    unsigned char *b = any_frame(MBUS_FRAME_TYPE_ACK, 0, room);
    f.start1 = MBUS_FRAME_ACK_START;
    CHECK(mbus_frame_pack(&f, b, room) == 1, "packed acknowledge is not one byte");
    CHECK(b[0] == 0xE5, "packed acknowledge is another byte");
    free(b);
}
void drv_short(void)
{
    long room = __ai_range(5, 4096);
    unsigned char *b = any_frame(MBUS_FRAME_TYPE_SHORT, 0, room);
    f.start1 = MBUS_FRAME_SHORT_START; f.stop = MBUS_FRAME_STOP;
    CHECK(mbus_frame_pack(&f, b, room) == 5, "packed short frame is not five bytes");
    CHECK(b[0] == 0x10 && b[4] == 0x16, "start or stop of a packed short frame is wrong");
    CHECK(b[1] == f.control && b[2] == f.address, "fields of a packed short frame differ from the frame");
    CHECK(b[3] == (unsigned char)(f.control + f.address), "checksum of a packed short frame is wrong");
    free(b);
}
static void packed(int type, long ds)
{
    long room = __ai_any() ? ds + 9 : __ai_range(ds + 9, 4096), i;
    unsigned char *b = any_frame(type, ds, room), c;
    f.start1 = f.start2 = MBUS_FRAME_LONG_START; f.stop = MBUS_FRAME_STOP;
    CHECK(mbus_frame_pack(&f, b, room) == ds + 9, "length of a packed long frame is wrong");
    CHECK(b[0] == 0x68 && b[3] == 0x68 && b[ds + 8] == 0x16, "start or stop of a packed long frame is wrong");
    CHECK(b[1] == ds + 3 && b[2] == ds + 3, "length bytes of a packed long frame are wrong");
    CHECK(b[4] == f.control && b[5] == f.address && b[6] == f.control_information, "fields of a packed long frame differ from the frame");
    for (i = 0; i < ds; i++) CHECK(b[7 + i] == f.data[i], "user data of a packed long frame differ from the frame");
    c = f.control + f.address + f.control_information;
    for (i = 0; i < ds; i++) c += f.data[i];
    CHECK(b[ds + 7] == c, "checksum of a packed long frame is wrong");
    free(b);
}
void drv_control(void) { packed(MBUS_FRAME_TYPE_CONTROL, 0); }
void drv_long0(void) { packed(MBUS_FRAME_TYPE_LONG, __ai_split(__ai_range(0, 120))); }
void drv_long1(void) { packed(MBUS_FRAME_TYPE_LONG, __ai_split(__ai_range(121, 200))); }
void drv_long2(void) { packed(MBUS_FRAME_TYPE_LONG, __ai_split(__ai_range(201, sizeof f.data))); }

/* what has been packed parses back, from a frame as mbus_frame_new makes it */
static void back(int control, long ds)
{
    unsigned char b[sizeof f.data + 9];
    mbus_frame *n = mbus_frame_new(ds ? MBUS_FRAME_TYPE_LONG : MBUS_FRAME_TYPE_CONTROL);
    long i; int r;
    if (!n) __ai_stop();
    n->control = control; n->address = __ai_range(0, 255); n->control_information = __ai_range(0, 255);
    n->data_size = ds; __ai_havoc(n->data, sizeof n->data);
    r = mbus_frame_pack(n, b, sizeof b);
    CHECK(mbus_frame_verify(n) == 0, "frame just packed is not valid");
    CHECK(mbus_parse(&g, b, r) == 0, "packed frame does not parse");
    CHECK(g.type == n->type && g.control == n->control && g.address == n->address && g.control_information == n->control_information && g.data_size == n->data_size, "packed frame parses as another frame");
    for (i = 0; i < ds; i++) CHECK(g.data[i] == n->data[i], "packed frame parses as another frame");
    mbus_frame_free(n);
}
void drv_back0(void) { back(MBUS_CONTROL_MASK_RSP_UD, __ai_split(__ai_range(0, 252))); }
void drv_back1(void) { back(MBUS_CONTROL_MASK_SND_UD | MBUS_CONTROL_MASK_FCB, __ai_split(__ai_range(0, 252))); }
void drv_back_short(void)
{
    unsigned char b[5]; static const unsigned char cs[5] = { 0x40, 0x5A, 0x7A, 0x5B, 0x7B };
    mbus_frame *n = mbus_frame_new(MBUS_FRAME_TYPE_SHORT);
    if (!n) __ai_stop();
    n->control = cs[__ai_split(__ai_range(0, 4))]; n->address = __ai_range(0, 255);
    CHECK(mbus_frame_pack(n, b, 5) == 5 && mbus_parse(&g, b, 5) == 0, "packed frame does not parse");
    CHECK(g.type == n->type && g.control == n->control && g.address == n->address, "packed frame parses as another frame");
    mbus_frame_free(n);
}

/* any record, alone or after one of manufacturer data of every length: never outside the frame */
static mbus_data_record r1, r2;
int g_custom, g_vib;
static void any_record(long nd, long nv)
{
    __ai_havoc(&r2, sizeof r2);
    r2.drh.dib.dif = __ai_range(0, 14) + 16 * __ai_range(0, 15);
    r2.data_len = __ai_range(0, sizeof r2.data);
    r2.drh.dib.ndife = nd; r2.drh.vib.nvife = nv;
    __ai_str(r2.drh.vib.custom_vif, 0, sizeof r2.drh.vib.custom_vif - 1, 0);
    g_custom = __ai_any(); g_vib = __ai_any();
    r2.drh.vib.vif = g_custom ? 0x7C + 128 * __ai_range(0, 1) : __ai_range(0, 123) + 128 * __ai_range(0, 1);
    if (!g_vib) r2.drh.dib.dif = 0x0F + 16 * __ai_range(0, 1);
    r2.next = 0;
    d.type = MBUS_DATA_TYPE_VARIABLE;
}
static void pack_any(void)
{
    if (mbus_frame_internal_pack(&f, &d) == 0) CHECK(f.data_size >= 12 && f.data_size <= sizeof f.data, "packed data larger than a frame");
}
void drv_pack_any(void)
{
    __ai_havoc(&f, sizeof f); __ai_havoc(&d, sizeof d);
    any_record(__ai_range(0, MBUS_DATA_INFO_BLOCK_DIFE_SIZE), __ai_range(0, MBUS_VALUE_INFO_BLOCK_VIFE_SIZE));
    d.data_var.record = __ai_any() ? &r2 : 0;
    pack_any();
}
void drv_pack_after(void)
{
    long n = __ai_range(0, sizeof r1.data);
    __ai_havoc(&f, sizeof f); __ai_havoc(&d, sizeof d); __ai_havoc(&r1, sizeof r1);
    any_record(__ai_range(0, MBUS_DATA_INFO_BLOCK_DIFE_SIZE), __ai_range(0, MBUS_VALUE_INFO_BLOCK_VIFE_SIZE));
    r1.drh.dib.dif = 0x0F + 16 * __ai_range(0, 1); r1.data_len = n;
    r1.next = &r2; d.data_var.record = &r1;
    pack_any();
}
void drv_pack_none(void)
{
    __ai_havoc(&d, sizeof d);
    d.type = (int)__ai_range(-100000, 100000);
    __ai_assume(d.type != MBUS_DATA_TYPE_ERROR); __ai_assume(d.type != MBUS_DATA_TYPE_FIXED); __ai_assume(d.type != MBUS_DATA_TYPE_VARIABLE);
    CHECK(mbus_frame_internal_pack(&f, &d) < 0, "data of no known type packed");
    CHECK(mbus_frame_internal_pack(0, &d) < 0 && mbus_frame_internal_pack(&f, 0) < 0, "no data packed");
}
/* data parsed from a frame are packed into the same bytes */
static void respond(int ci, long ds)
{
    memset(&f, 0, sizeof f); memset(&g, 0, sizeof g);
    __ai_havoc(f.data, sizeof f.data);
    f.type = g.type = MBUS_FRAME_TYPE_LONG; f.control = MBUS_CONTROL_MASK_RSP_UD | 0x10 * __ai_range(0, 3);
    f.control_information = ci; f.data_size = ds;
}
static void same(void)
{
    unsigned long i;
    CHECK(mbus_frame_internal_pack(&g, &d) == 0, "parsed data are not packed");
    CHECK(g.data_size == f.data_size, "parsed data are packed to another length");
    for (i = 0; i < f.data_size; i++) CHECK(g.data[i] == f.data[i], "parsed data are packed into other bytes");
}
void drv_round_error(void) { respond(MBUS_CONTROL_INFO_ERROR_GENERAL, 1); CHECK(mbus_frame_data_parse(&f, &d) == 0, "data rejected"); same(); }
void drv_round_fixed(void) { respond(MBUS_CONTROL_INFO_RESP_FIXED, 16); CHECK(mbus_frame_data_parse(&f, &d) == 0, "data rejected"); same(); }
static int info(int at, int nd, int nv, int custom, int code)
{
    int i = at, j;
    f.data[i++] = code + 16 * __ai_range(0, 7) + (nd ? 128 : 0);
    for (j = 1; j <= nd; j++, i++) f.data[i] = __ai_range(0, 127) + (j < nd ? 128 : 0);
    if (custom >= 0) { f.data[i++] = nv ? 0xFC : 0x7C; f.data[i++] = custom; for (j = 0; j < custom; j++) f.data[i++] = __ai_range(1, 255); }
    else f.data[i++] = nv ? 0x93 : 0x13;
    for (j = 1; j <= nv; j++, i++) f.data[i] = __ai_range(0, 127) + (j < nv ? 128 : 0);
    return i;
}
static void round_trip(void) { CHECK(mbus_frame_data_parse(&f, &d) == 0, "data rejected"); same(); mbus_data_record_free(d.data_var.record); }
void drv_round_plain(void)
{
    int nd = __ai_split(__ai_range(0, 10)), nv = __ai_split(__ai_range(0, 10));
    respond(MBUS_CONTROL_INFO_RESP_VARIABLE, 0);
    f.data_size = info(12, nd, nv, -1, 4) + 4; f.data_size = info(f.data_size, 0, 0, -1, 2) + 2;
    round_trip();
}
void drv_round_custom(void)
{
    int nd = __ai_split(__ai_range(0, 1)), nv = __ai_split(__ai_range(0, 1)), c = __ai_split(__ai_range(0, 127));
    respond(MBUS_CONTROL_INFO_RESP_VARIABLE, 0);
    f.data_size = info(12, nd, nv, c, 4) + 4;
    round_trip();
}
void drv_round_lvar(void)
{
    int c = __ai_split(__ai_range(0, 191)), i;
    respond(MBUS_CONTROL_INFO_RESP_VARIABLE, 0);
    i = info(12, 0, 0, -1, 13); f.data[i++] = c;
    f.data_size = i + c;
    round_trip();
}
void drv_round_manufacturer(void)
{
    int n = __ai_split(__ai_range(0, 239)), m = __ai_split(__ai_range(0, 1));
    respond(MBUS_CONTROL_INFO_RESP_VARIABLE, 13 + n);
    f.data[12] = m ? 0x1F : 0x0F;
    round_trip();
    CHECK(d.data_var.more_records_follow == m, "announcement of more records is wrong");
}

/* kinds of user data */
void drv_kind(void)
{
    int ci = (int)__ai_range(0, 255);
    __ai_assume(ci != MBUS_CONTROL_INFO_ERROR_GENERAL); __ai_assume(ci != MBUS_CONTROL_INFO_RESP_FIXED); __ai_assume(ci != MBUS_CONTROL_INFO_RESP_VARIABLE);
    respond(ci, __ai_range(0, 252));
    CHECK(mbus_frame_data_parse(&f, &d) < 0, "user data of no known kind accepted");
    CHECK(mbus_frame_data_parse(0, &d) < 0 && mbus_frame_data_parse(&f, 0) < 0, "no user data accepted");
}
void drv_direction(void)
{
    respond(__ai_range(0, 255), __ai_range(0, 252));
    f.control = 0x40 + __ai_range(0, 63);
    CHECK(mbus_frame_data_parse(&f, &d) < 0, "user data to a slave accepted");
}
void drv_error(void)
{
    respond(MBUS_CONTROL_INFO_ERROR_GENERAL, __ai_range(0, 252));
    CHECK(mbus_frame_data_parse(&f, &d) == 0 && d.type == MBUS_DATA_TYPE_ERROR, "error report rejected");
    CHECK(d.error == (f.data_size ? f.data[0] : 0), "error code differs from the telegram");
}
void drv_fixed(void)
{
    long n = __ai_range(0, 252);
    __ai_assume(n != 16);
    respond(MBUS_CONTROL_INFO_RESP_FIXED, n);
    CHECK(mbus_frame_data_parse(&f, &d) < 0, "fixed data of a wrong length accepted");
    f.data_size = 16;
    CHECK(mbus_frame_data_parse(&f, &d) == 0 && d.type == MBUS_DATA_TYPE_FIXED, "fixed data rejected");
    mbus_data_fixed *x = &d.data_fix; unsigned char *p = f.data;
    CHECK(x->id_bcd[0] == p[0] && x->id_bcd[1] == p[1] && x->id_bcd[2] == p[2] && x->id_bcd[3] == p[3] && x->tx_cnt == p[4] && x->status == p[5] && x->cnt1_type == p[6] && x->cnt2_type == p[7], "fixed data differ from the telegram");
    for (n = 0; n < 4; n++) CHECK(x->cnt1_val[n] == p[8 + n] && x->cnt2_val[n] == p[12 + n], "counters of fixed data differ from the telegram");
}
void drv_header(void)
{
    long n = __ai_range(0, 11);
    respond(MBUS_CONTROL_INFO_RESP_VARIABLE, n);
    CHECK(mbus_frame_data_parse(&f, &d) < 0, "variable data without a whole header accepted");
    f.data_size = 12;
    CHECK(mbus_frame_data_parse(&f, &d) == 0 && d.type == MBUS_DATA_TYPE_VARIABLE, "variable data without records rejected");
    CHECK(d.data_var.nrecords == 0 && d.data_var.record == 0 && d.data_var.more_records_follow == 0, "records where the telegram has none");
    mbus_data_variable_header *h = &d.data_var.header; unsigned char *p = f.data;
    for (n = 0; n < 4; n++) CHECK(h->id_bcd[n] == p[n], "header differs from the telegram");
    CHECK(h->manufacturer[0] == p[4] && h->manufacturer[1] == p[5] && h->version == p[6] && h->medium == p[7] && h->access_no == p[8] && h->status == p[9] && h->signature[0] == p[10] && h->signature[1] == p[11], "header differs from the telegram");
    n = __ai_split(__ai_range(1, 240));
    memset(f.data + 12, 0x2F, n); f.data_size = 12 + n;
    CHECK(mbus_frame_data_parse(&f, &d) == 0 && d.data_var.nrecords == 0 && d.data_var.record == 0, "fill bytes taken for records");
}
/* whatever is not filling is a record */
void drv_not_fill(void)
{
    int c = __ai_split(__ai_range(0, 255)), i;
    if (c == 0x2F) __ai_stop();
    respond(MBUS_CONTROL_INFO_RESP_VARIABLE, 12);
    f.data[12] = c; f.data[13] = 0x13;
    for (i = 14; i < 100; i++) f.data[i] = i == 14 ? 0x13 : 0x2F;
    f.data_size = 100;
    CHECK(mbus_frame_data_parse(&f, &d) == 0 && d.data_var.record, "a record is not reported");
    CHECK(d.data_var.record->drh.dib.dif == c, "a record is taken for filling");
}
