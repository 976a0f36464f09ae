/* P03, P04: rendering of any decoded data as XML */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <string.h>
#include <stdlib.h>
char *mbus_data_variable_record_xml(mbus_data_record *record, int record_cnt, int frame_cnt, mbus_data_variable_header *header);
static mbus_data_record rec, reco, recv;
static mbus_frame_data d;

/* a record as parsing leaves it (drv_data and drv_lvar_kept decide that it does):
   of variable length with the length byte, or not of variable length */
static void any_record(mbus_data_record *r, int lvar)
{
    __ai_havoc(r, sizeof *r);
    r->data_len = __ai_range(lvar == 1, sizeof r->data);
    r->drh.dib.dif = (lvar == 1 ? 0x0D : lvar ? __ai_range(14, 15) : __ai_range(0, 12)) + 16 * __ai_range(0, 15);
    r->drh.dib.ndife = __ai_range(0, MBUS_DATA_INFO_BLOCK_DIFE_SIZE);
    r->drh.vib.nvife = __ai_range(0, MBUS_VALUE_INFO_BLOCK_VIFE_SIZE);
    __ai_str(r->drh.vib.custom_vif, 0, sizeof r->drh.vib.custom_vif - 1, 0);
    r->next = 0;
}
/* what rendering one record and one header may return: decided by drv_record* and drv_header,
   used in place of the two functions where whole lists are rendered */
#define RECORD_MAX 3900
#define HEADER_MAX 2500
static char record_text[RECORD_MAX + 1], header_text[HEADER_MAX + 1];
char *model_mbus_data_variable_record_xml(mbus_data_record *record, int record_cnt, int frame_cnt, mbus_data_variable_header *header)
{
    if (!record) return "";
    __ai_str(record_text, 0, RECORD_MAX, 2);
    return record_text;
}
char *model_mbus_data_variable_header_xml(mbus_data_variable_header *header)
{
    if (!header) return "";
    __ai_str(header_text, 0, HEADER_MAX, 2);
    return header_text;
}
/* one record's values: the texts shared and never freed (drv_norm_record* decide that a record's
   texts are its own and are freed with it), the record itself on the heap */
static char text[769];
static char *any_text(void) { return __ai_any() ? text : 0; }
void model_mbus_record_free(mbus_record *r) { free(r); }
mbus_record *model_mbus_parse_variable_record(mbus_data_record *data)
{
    mbus_record *r = malloc(sizeof *r);
    if (!r) return 0;
    __ai_str(text, 0, 768, 0);
    r->is_numeric = __ai_any();
    r->unit = any_text(); r->function_medium = any_text(); r->quantity = any_text();
    r->tariff = (long)__ai_range(-1, 1 << 20); r->device = (int)__ai_range(-1, 65536); r->storage_number = (long)__ai_range(-1, 1L << 41);
    r->value.str_val.value = any_text(); /* read as a number: any number */
    return r;
}
static void *one_of(void)
{
    void *p = 0;
    if (__ai_any()) p = &rec;
    else if (__ai_any()) p = &reco;
    else if (__ai_any()) p = &recv;
    return p;
}
/* a list of any number of any records: three objects, each standing for many */
static void *any_list(void)
{
    any_record(&rec, 0); any_record(&recv, 1); any_record(&reco, 2);
    rec.next = one_of(); reco.next = one_of(); recv.next = one_of();
    __ai_summary(&rec); __ai_summary(&reco); __ai_summary(&recv);
    __ai_readonly(&rec, sizeof rec); __ai_readonly(&reco, sizeof rec); __ai_readonly(&recv, sizeof rec);
    return one_of();
}
static void check(char *x)
{
    if (!x) return;
    CHECK(__ai_balanced(x), "XML is not well-formed");
    free(x);
}
static void record(int lvar)
{
    any_record(&rec, lvar); __ai_havoc(&d, sizeof d);
    __ai_readonly(&rec, sizeof rec); __ai_readonly(&d, sizeof d);
    char *x = mbus_data_variable_record_xml(&rec, (int)__ai_range(0, 100000), (int)__ai_range(-1, 100000), &d.data_var.header);
    CHECK(__ai_balanced(x), "XML of a record is not well-formed");
    CHECK(strlen(x) <= RECORD_MAX, "XML of a record longer than its share of the buffer");
}
void drv_record0(void) { record(0); }
void drv_record1(void) { record(1); }
void drv_record2(void) { record(2); }
void drv_header(void)
{
    __ai_havoc(&d, sizeof d);
    __ai_readonly(&d, sizeof d);
    char *x = mbus_data_variable_header_xml(&d.data_var.header);
    CHECK(__ai_balanced(x), "XML of a header is not well-formed");
    CHECK(strlen(x) <= HEADER_MAX, "XML of a header longer than its share of the buffer");
}
static void any_data(int type)
{
    __ai_havoc(&d, sizeof d);
    d.type = type; d.data_var.record = 0;
    if (type == MBUS_DATA_TYPE_VARIABLE) d.data_var.record = any_list();
    __ai_readonly(&d, sizeof d);
}
void drv_variable(void) { any_data(MBUS_DATA_TYPE_VARIABLE); check(mbus_frame_data_xml(&d)); }
void drv_fixed(void) { any_data(MBUS_DATA_TYPE_FIXED); check(mbus_frame_data_xml(&d)); }
void drv_error(void) { any_data(MBUS_DATA_TYPE_ERROR); check(mbus_frame_data_xml(&d)); }
void drv_other(void) { any_data(0); CHECK(mbus_frame_data_xml(&d) == 0 && mbus_frame_data_xml(0) == 0, "XML of data of no known type"); }
void drv_norm_variable(void) { any_data(MBUS_DATA_TYPE_VARIABLE); check(mbus_frame_data_xml_normalized(&d)); }
void drv_norm_fixed(void) { any_data(MBUS_DATA_TYPE_FIXED); check(mbus_frame_data_xml_normalized(&d)); }
void drv_norm_other(void) { any_data(MBUS_DATA_TYPE_ERROR); check(mbus_frame_data_xml_normalized(&d)); CHECK(mbus_frame_data_xml_normalized(0) == 0, "normalized XML of no data"); }
void drv_encode(void)
{
    static unsigned char src[3000], dst[4096];
    long max = __ai_split(__ai_range(7, 40));
    __ai_str(src, 0, sizeof src - 1, 0);
    CHECK(mbus_str_xml_encode(dst, src, max) == 0, "text not encoded");
    CHECK(strlen((char *)dst) < max, "encoded text longer than asked for");
    CHECK(__ai_xmlsafe((char *)dst), "encoded text contains markup");
    max = __ai_range(7, sizeof dst);
    CHECK(mbus_str_xml_encode(dst, src, max) == 0, "text not encoded");
    CHECK(__ai_xmlsafe((char *)dst), "encoded text contains markup");
    CHECK(mbus_str_xml_encode(dst, 0, max) == -2 && dst[0] == 0, "no text is not encoded as empty text");
    CHECK(mbus_str_xml_encode(0, src, max) == -1, "no destination not noticed");
}
/* the values of one record as normalizing leaves them: what the model above stands for */
static void norm_record(int lvar)
{
    any_record(&rec, lvar);
    __ai_readonly(&rec, sizeof rec);
    mbus_record *r = mbus_parse_variable_record(&rec);
    if (!r) return;
    CHECK(!r->unit || strlen(r->unit) <= 768, "unit longer than a record allows");
    CHECK(!r->quantity || strlen(r->quantity) <= 768, "quantity longer than a record allows");
    CHECK(!r->function_medium || strlen(r->function_medium) <= 768, "function longer than a record allows");
    CHECK(r->is_numeric || !r->value.str_val.value || strlen(r->value.str_val.value) <= 768, "value longer than a record allows");
    mbus_record_free(r);
}
void drv_norm_record0(void) { norm_record(0); }
void drv_norm_record1(void) { norm_record(1); }
void drv_norm_record2(void) { norm_record(2); }
/* telegrams rendered together, any number of them with any records each */
static mbus_frame fr, frn;
int model_mbus_frame_data_parse(mbus_frame *frame, mbus_frame_data *data)
{
    data->type = frame == &fr ? MBUS_DATA_TYPE_VARIABLE : __ai_range(0, 3);
    __ai_havoc(&data->data_var.header, sizeof data->data_var.header);
    data->data_var.record = __ai_any() ? one_of() : 0;
    return __ai_any() ? 0 : -1;
}
void model_mbus_data_record_free(mbus_data_record *r) { }
void drv_frames(void)
{
    any_list();
    __ai_havoc(&fr, sizeof fr); __ai_havoc(&frn, sizeof frn);
    fr.next = __ai_any() ? &frn : 0;
    frn.next = __ai_any() ? &frn : 0;
    __ai_summary(&frn);
    __ai_readonly(&fr, sizeof fr); __ai_readonly(&frn, sizeof frn);
    check(mbus_frame_xml(&fr));
}
