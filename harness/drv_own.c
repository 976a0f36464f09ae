/* P08: whatever is allocated is owned by exactly one, and given back exactly once */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <string.h>
#include <stdlib.h>
char *mbus_data_variable_record_xml(mbus_data_record *record, int record_cnt, int frame_cnt, mbus_data_variable_header *header);

/* --- a chain of telegrams rendered together, in place of their interpretation any list of records
       (drv_data decides that interpretation makes such lists) --- */
#define RECORD_MAX 3900
#define HEADER_MAX 2500
static char record_text[RECORD_MAX + 1], header_text[HEADER_MAX + 1];
static mbus_frame f[3];
static int parsed, made, shown, g_fail, g_kind;
int model_mbus_frame_data_parse(mbus_frame *frame, mbus_frame_data *data)
{
    CHECK(frame == &f[parsed], "the telegrams are not read in order");
    parsed++;
    int how = __ai_split(__ai_range(0, 2));
    if (how == 0) { g_fail = 1; return -1; } /* too short, list untouched */
    data->data_var.record = 0;
    data->type = parsed == 1 ? g_kind : MBUS_DATA_TYPE_VARIABLE;
    __ai_havoc(&data->data_var.header, sizeof data->data_var.header);
    if (data->type != MBUS_DATA_TYPE_VARIABLE) return 0;
    for (int n = __ai_split(__ai_range(0, 2)); n > 0; n--) {
        mbus_data_record *r = mbus_data_record_new();
        if (!r) { g_fail = 1; return -1; }
        made++;
        mbus_data_record_append(&data->data_var, r);
    }
    if (how == 1) { g_fail = 1; return -1; }
    return 0;
}
char *model_mbus_data_variable_record_xml(mbus_data_record *record, int record_cnt, int frame_cnt, mbus_data_variable_header *header)
{
    CHECK(record && header, "nothing to render");
    CHECK(record_cnt == shown, "the records are not numbered through all telegrams");
    CHECK(frame_cnt == (f[0].next ? parsed - 1 : -1), "the telegrams are not numbered");
    shown++;
    if (record->data_len) __ai_fail("another record was rendered");
    __ai_str(record_text, 0, RECORD_MAX, 2);
    return record_text;
}
char *model_mbus_data_variable_header_xml(mbus_data_variable_header *header)
{
    CHECK(header && parsed == 1, "header of another telegram rendered");
    __ai_str(header_text, 0, HEADER_MAX, 2);
    return header_text;
}
static void frame_xml(int n)
{
    for (int i = 0; i < n; i++) { __ai_havoc(&f[i], sizeof f[i]); f[i].next = i + 1 < n ? &f[i + 1] : 0; }
    g_kind = MBUS_DATA_TYPE_VARIABLE;
    char *x = mbus_frame_xml(&f[0]);
    if (x) {
        CHECK(!g_fail && parsed == n, "telegrams that could not be read were rendered");
        CHECK(shown == made, "a record is missing or shown twice");
        CHECK(__ai_balanced(x), "XML is not well-formed");
        free(x);
        REACH("rendered");
    }
}
void drv_frame_xml1(void) { frame_xml(1); }
void drv_frame_xml2(void) { frame_xml(2); }
void drv_frame_xml3(void) { frame_xml(3); }
void drv_frame_xml_other(void)
{
    __ai_havoc(&f[0], sizeof f[0]);
    f[0].next = 0;
    g_kind = __ai_split(__ai_range(0, 1)) ? MBUS_DATA_TYPE_ERROR : MBUS_DATA_TYPE_FIXED;
    char *x = mbus_frame_xml(&f[0]);
    if (x) { CHECK(!g_fail, "a telegram that could not be read was rendered"); CHECK(__ai_balanced(x), "XML is not well-formed"); free(x); }
    CHECK(mbus_frame_xml(0) == 0, "no telegram rendered");
}
/* --- frames --- */
void drv_frame_free(void)
{
    mbus_frame *a = 0, *c[3] = {0, 0, 0};
    int n = __ai_split(__ai_range(0, 3));
    for (int i = 0; i < n; i++) {
        mbus_frame *b = mbus_frame_new(__ai_range(-2147483648L, 2147483647));
        if (!b) break;
        b->next = a; a = b; c[i] = b;
    }
    int r = mbus_frame_free(a);
    CHECK(r == (a ? 0 : -1), "freeing frames reports wrongly");
    for (int i = 0; i < 3; i++) if (c[i]) CHECK(__ai_freed(c[i]), "a frame of the chain is left over");
}
void drv_frame_new(void)
{
    int k = __ai_split(__ai_range(0, 4));
    static const int type[] = {MBUS_FRAME_TYPE_ACK, MBUS_FRAME_TYPE_SHORT, MBUS_FRAME_TYPE_CONTROL, MBUS_FRAME_TYPE_LONG, MBUS_FRAME_TYPE_ANY};
    static const int start1[] = {0xE5, 0x10, 0x68, 0x68, 0}, start2[] = {0, 0, 0x68, 0x68, 0}, length[] = {0, 0, 3, 0, 0}, stop[] = {0, 0x16, 0x16, 0x16, 0};
    mbus_frame *a = mbus_frame_new(type[k]);
    if (!a) return;
    CHECK(a->type == type[k] && a->next == 0 && a->data_size == 0, "a new frame is not empty");
    CHECK(a->start1 == start1[k] && a->start2 == start2[k] && a->stop == stop[k], "a new frame has other marks than its kind");
    CHECK(a->length1 == length[k] && a->length2 == length[k], "a new frame has another length than its kind");
    CHECK(a->control == 0 && a->address == 0 && a->control_information == 0 && a->checksum == 0, "a new frame is not empty");
    for (int i = 0; i < (int) sizeof a->data; i++) CHECK(a->data[i] == 0, "a new frame is not empty");
    mbus_frame_free(a);
    CHECK(__ai_freed(a), "a frame is left over");
}
/* --- lists of records, data --- */
static mbus_data_variable v;
void drv_records(void)
{
    mbus_data_record *c[4], *i;
    int n = __ai_split(__ai_range(0, 4)), k = 0;
    for (; k < n; k++) {
        c[k] = mbus_data_record_new();
        if (!c[k]) break;
        CHECK(c[k]->next == 0 && c[k]->data_len == 0 && c[k]->drh.dib.ndife == 0 && c[k]->drh.vib.nvife == 0, "a new record is not empty");
        mbus_data_record_append(&v, c[k]);
    }
    mbus_data_record_append(&v, 0); mbus_data_record_append(0, v.record);
    i = v.record;
    for (int j = 0; j < k; j++, i = i->next) CHECK(i == c[j], "the records are not in the order appended");
    CHECK(i == 0, "there are more records than appended");
    mbus_data_record_free(v.record);
    for (int j = 0; j < k; j++) CHECK(__ai_freed(c[j]), "a record of the list is left over");
    mbus_data_record_free(0);
}
void drv_data(void)
{
    mbus_frame_data *d = mbus_frame_data_new();
    mbus_data_record *c[2] = {0, 0};
    if (!d) return;
    CHECK(d->data_var.record == 0 && d->data_var.nrecords == 0 && d->data_var.data == 0, "new data are not empty");
    for (int n = __ai_split(__ai_range(0, 2)); n > 0; n--) { c[n - 1] = mbus_data_record_new(); mbus_data_record_append(&d->data_var, c[n - 1]); }
    mbus_frame_data_free(d);
    CHECK(__ai_freed(d), "data are left over");
    for (int n = 0; n < 2; n++) if (c[n]) CHECK(__ai_freed(c[n]), "a record of the data is left over");
    mbus_frame_data_free(0);
}
/* --- normalized records --- */
static char *text(void) { return __ai_split(__ai_range(0, 1)) ? strdup("text") : 0; }
void drv_record_free(void)
{
    mbus_record *r = mbus_record_new();
    if (!r) return;
    CHECK(r->is_numeric && !r->unit && !r->quantity && !r->function_medium, "a new record has texts");
    CHECK(r->device == -1 && r->tariff == -1 && r->storage_number == 0, "a new record has numbers");
    r->unit = text(); r->quantity = text(); r->function_medium = text();
    if (__ai_split(__ai_range(0, 1))) { r->is_numeric = 0; r->value.str_val.value = text(); r->value.str_val.size = 4; }
    mbus_record_free(r);
    CHECK(__ai_freed(r), "a record is left over");
    mbus_record_free(0);
}
void drv_fixed_record(void)
{
    unsigned char c[4];
    __ai_havoc(c, 4);
    mbus_record *r = mbus_parse_fixed_record(__ai_range(-128, 127), __ai_range(-128, 127), c);
    if (!r) return;
    CHECK(r->is_numeric && r->function_medium, "a fixed record lacks its function");
    mbus_record_free(r);
    CHECK(__ai_freed(r), "a record is left over");
}
