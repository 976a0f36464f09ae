/* P27: the XML texts show what was decoded */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <time.h>
char *mbus_data_variable_record_xml(mbus_data_record *record, int record_cnt, int frame_cnt, mbus_data_variable_header *header);
static mbus_data_record rec, list[3];
static mbus_frame_data d;
static char want[4000];
static int n;
#define ADD(...) do { n += snprintf(want + n, sizeof want - n, __VA_ARGS__); } while (0)

/* the texts shown, decided by P12, P13 and P22, stood for by fixed ones; the encoding of a text
   (decided by P04) by a pair of braces */
static long storage, tariff;
static int device, g_named;
const char *model_mbus_data_record_function(mbus_data_record *r) { CHECK(r == &rec, "another record is described"); return "function"; }
const char *model_mbus_data_record_unit(mbus_data_record *r) { CHECK(r == &rec, "another record is described"); return "unit"; }
const char *model_mbus_data_record_value(mbus_data_record *r) { CHECK(r == &rec, "another record is described"); return "value"; }
long model_mbus_data_record_storage_number(mbus_data_record *r) { CHECK(r == &rec, "another record is described"); return storage; }
long model_mbus_data_record_tariff(mbus_data_record *r) { CHECK(r == &rec, "another record is described"); return tariff; }
int model_mbus_data_record_device(mbus_data_record *r) { CHECK(r == &rec, "another record is described"); return device; }
int model_mbus_str_xml_encode(unsigned char *dst, const unsigned char *src, size_t max)
{
    if (!src) { dst[0] = 0; return -2; }
    static const char *const shown_texts[] = {"function", "unit", "value", "product", "medium", "quantity", "unit one", "unit two", "error"};
    for (int i = 0; i < 9; i++) if (strcmp((const char *) src, shown_texts[i]) == 0) { snprintf((char *) dst, max, "{%s}", (const char *) src); return 0; }
    snprintf((char *) dst, max, "%s", (const char *) src); /* a text of the library's own, without markup */
    return 0;
}
static struct tm when;
struct tm *model_gmtime(const time_t *t) { CHECK(__ai_same(*t, rec.timestamp), "another time is shown"); return &when; }
size_t model_strftime(char *s, size_t max, const char *format, const struct tm *tm)
{
    CHECK(tm == &when && strcmp(format, "%Y-%m-%dT%H:%M:%SZ") == 0 && max >= 21, "the time is shown in another form");
    strcpy(s, "2001-02-03T04:05:06Z");
    return 20;
}
static void record(int kind)
{
    int count = __ai_range(0, 2147483647), frame = __ai_split(__ai_range(0, 1)) ? -1 : __ai_range(0, 2147483647), timed = __ai_split(__ai_range(0, 1)), divided = __ai_split(__ai_range(0, 1));
    __ai_havoc(&rec, sizeof rec);
    rec.drh.dib.dif = kind == 0 ? 0x0F : kind == 1 ? 0x1F : kind == 2 ? __ai_range(0, 0x0E) : kind == 3 ? __ai_range(0x10, 0x1E) : __ai_range(0x20, 0xFF);
    rec.timestamp = timed ? __ai_range(1, 1L << 40) : 0;
    storage = __ai_range(0, 1L << 41); tariff = divided ? __ai_range(0, 1 << 20) : -1; device = divided ? __ai_range(0, 1023) : -1;
    char *x = mbus_data_variable_record_xml(&rec, count, frame, &d.data_var.header);
    if (frame == -1) ADD("    <DataRecord id=\"%d\">\n", count); else ADD("    <DataRecord id=\"%d\" frame=\"%d\">\n", count, frame);
    if (kind == 0) ADD("        <Function>Manufacturer specific</Function>\n");
    else if (kind == 1) ADD("        <Function>More records follow</Function>\n");
    else {
        ADD("        <Function>{function}</Function>\n        <StorageNumber>%ld</StorageNumber>\n", storage);
        if (divided) ADD("        <Tariff>%ld</Tariff>\n        <Device>%d</Device>\n", tariff, device);
        ADD("        <Unit>{unit}</Unit>\n");
    }
    ADD("        <Value>{value}</Value>\n");
    if (timed) ADD("        <Timestamp>2001-02-03T04:05:06Z</Timestamp>\n");
    ADD("    </DataRecord>\n\n");
    CHECK(__ai_sametext(x, want), "XML of a record shows something else");
}
void drv_record(void) { record(__ai_split(__ai_range(0, 4))); }
void drv_record_none(void) { CHECK(strcmp(mbus_data_variable_record_xml(0, 0, 0, &d.data_var.header), "") == 0 && strcmp(mbus_data_variable_header_xml(0), "") == 0, "nothing is shown as something"); }

/* --- the device --- */
const char *model_mbus_decode_manufacturer(unsigned char a, unsigned char b)
{
    CHECK(__ai_same(a, d.data_var.header.manufacturer[0]) && __ai_same(b, d.data_var.header.manufacturer[1]), "another manufacturer is shown");
    return "ABC";
}
const char *model_mbus_data_product_name(mbus_data_variable_header *h) { CHECK(h == &d.data_var.header, "another product is shown"); return "product"; }
const char *model_mbus_data_variable_medium_lookup(unsigned char m) { CHECK(__ai_same(m, d.data_var.header.medium), "another medium is shown"); return "medium"; }
static long long number(unsigned char *b) { return b[0] + 256LL * b[1] + 65536LL * b[2] + 16777216LL * b[3]; }
static void add_header(void)
{
    mbus_data_variable_header *h = &d.data_var.header;
    ADD("    <SlaveInformation>\n        <Id>%llX</Id>\n        <Manufacturer>ABC</Manufacturer>\n        <Version>%d</Version>\n", number(h->id_bcd), h->version);
    ADD("        <ProductName>{product}</ProductName>\n        <Medium>{medium}</Medium>\n        <AccessNumber>%d</AccessNumber>\n", h->access_no);
    ADD("        <Status>%.2X</Status>\n        <Signature>%.2X%.2X</Signature>\n    </SlaveInformation>\n\n", h->status, h->signature[1], h->signature[0]);
}
void drv_header(void)
{
    __ai_havoc(&d, sizeof d);
    char *x = mbus_data_variable_header_xml(&d.data_var.header);
    add_header();
    CHECK(__ai_sametext(x, want), "XML of a device shows something else");
}

/* --- lists of records --- */
static int shown, g_chain;
char *model_mbus_data_variable_header_xml(mbus_data_variable_header *h) { CHECK(h == &d.data_var.header && shown == 0, "another device is shown"); return "[header]"; }
static char text[40];
char *model_mbus_data_variable_record_xml(mbus_data_record *r, int count, int frame, mbus_data_variable_header *h)
{
    CHECK(r == &list[shown] && count == shown && frame == -1 && h == &d.data_var.header, "another record is shown");
    shown++;
    snprintf(text, sizeof text, "[record %d]", count);
    return text;
}
static void any_list(int k)
{
    __ai_havoc(&d, sizeof d);
    for (int i = 0; i < k; i++) { __ai_havoc(&list[i], sizeof list[i]); list[i].next = i + 1 < k ? &list[i + 1] : 0; }
    d.type = MBUS_DATA_TYPE_VARIABLE;
    d.data_var.record = k ? &list[0] : 0;
    ADD("<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>\n<MBusData>\n\n");
}
void drv_list(void)
{
    int k = __ai_split(__ai_range(0, 3));
    any_list(k);
    char *x = mbus_frame_data_xml(&d);
    if (!x) return;
    ADD("[header]");
    for (int i = 0; i < k; i++) ADD("[record %d]", i);
    ADD("</MBusData>\n");
    CHECK(__ai_sametext(x, want), "XML of a telegram shows something else");
    REACH("list");
}

/* --- normalized records --- */
static int seen;
static mbus_record any[3];
static int known[3], numeric[3];
mbus_record *model_mbus_parse_variable_record(mbus_data_record *r)
{
    CHECK(r == &list[seen], "another record is normalized");
    mbus_record *m = &any[seen];
    if (!known[seen++]) return 0;
    return m;
}
void model_mbus_record_free(mbus_record *r) { CHECK(!r || r == &any[seen - 1], "another record is freed"); }
void drv_normalized(void)
{
    int k = __ai_split(__ai_range(0, 2));
    any_list(k);
    for (int i = 0; i < k; i++) {
        mbus_record *m = &any[i];
        known[i] = __ai_split(__ai_range(0, 1)); numeric[i] = __ai_split(__ai_range(0, 1));
        int divided = __ai_split(__ai_range(0, 1));
        m->function_medium = "function"; m->unit = "unit"; m->quantity = "quantity";
        m->storage_number = __ai_range(0, 1L << 41); m->tariff = divided ? __ai_range(0, 1 << 20) : -1; m->device = divided ? __ai_range(0, 1023) : -1;
        m->is_numeric = numeric[i];
        if (numeric[i]) m->value.real_val = __ai_double(); else { m->value.str_val.value = "value"; m->value.str_val.size = 5; }
    }
    char *x = mbus_frame_data_xml_normalized(&d);
    if (!x) return;
    ADD("[header]");
    for (int i = 0; i < k; i++) {
        mbus_record *m = &any[i];
        ADD("    <DataRecord id=\"%d\">\n", i);
        if (known[i]) {
            ADD("        <Function>{function}</Function>\n        <StorageNumber>%ld</StorageNumber>\n", m->storage_number);
            if (m->tariff >= 0) ADD("        <Tariff>%ld</Tariff>\n        <Device>%d</Device>\n", m->tariff, m->device);
            ADD("        <Unit>{unit}</Unit>\n        <Quantity>{quantity}</Quantity>\n");
            if (numeric[i]) ADD("        <Value>%f</Value>\n", m->value.real_val); else ADD("        <Value>{value}</Value>\n");
        }
        ADD("    </DataRecord>\n\n");
    }
    ADD("</MBusData>\n");
    CHECK(__ai_sametext(x, want), "normalized XML shows something else");
    REACH("list");
}

/* --- fixed data and errors --- */
const char *model_mbus_data_fixed_medium(mbus_data_fixed *f) { CHECK(f == &d.data_fix, "another medium is shown"); return "medium"; }
const char *model_mbus_data_fixed_function(int status) { CHECK(__ai_same((unsigned char) status, d.data_fix.status), "another status is shown"); return "function"; }
const char *model_mbus_data_fixed_unit(int unit)
{
    CHECK(__ai_same((unsigned char) unit, g_named ? d.data_fix.cnt2_type : d.data_fix.cnt1_type), "another unit is shown");
    return g_named++ ? "unit two" : "unit one";
}
void drv_fixed(void)
{
    mbus_data_fixed *f = &d.data_fix;
    __ai_havoc(&d, sizeof d);
    int binary = __ai_split(__ai_range(0, 1)), stored = __ai_range(0, 127);
    int high = __ai_split(__ai_range(0, 3));
    f->status = 128 * binary + stored;
    f->cnt1_val[3] = 128 * (high & 1) + __ai_range(0, 127);
    f->cnt2_val[3] = 128 * (high >> 1) + __ai_range(0, 127);
    d.type = MBUS_DATA_TYPE_FIXED;
    char *x = __ai_split(__ai_range(0, 1)) ? mbus_frame_data_xml(&d) : mbus_frame_data_xml_normalized(&d);
    if (!x) return;
    ADD("<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>\n<MBusData>\n\n    <SlaveInformation>\n        <Id>%llX</Id>\n        <Medium>{medium}</Medium>\n", number(f->id_bcd));
    ADD("        <AccessNumber>%d</AccessNumber>\n        <Status>%.2X</Status>\n    </SlaveInformation>\n\n", f->tx_cnt, f->status);
    ADD("    <DataRecord id=\"0\">\n        <Function>{function}</Function>\n        <Unit>{unit one}</Unit>\n");
    if (binary) ADD("        <Value>%d</Value>\n", (int) (number(f->cnt1_val) - (high & 1 ? 4294967296LL : 0))); else ADD("        <Value>%llX</Value>\n", number(f->cnt1_val));
    ADD("    </DataRecord>\n\n    <DataRecord id=\"1\">\n        <Function>{function}</Function>\n        <Unit>{unit two}</Unit>\n");
    if (binary) ADD("        <Value>%d</Value>\n", (int) (number(f->cnt2_val) - (high >> 1 ? 4294967296LL : 0))); else ADD("        <Value>%llX</Value>\n", number(f->cnt2_val));
    ADD("    </DataRecord>\n\n</MBusData>\n");
    CHECK(__ai_sametext(x, want), "XML of fixed data shows something else");
    REACH("fixed");
}
const char *model_mbus_data_error_lookup(int e) { CHECK(__ai_same(e, d.error), "another error is shown"); return "error"; }
void drv_error(void)
{
    __ai_havoc(&d, sizeof d);
    d.type = MBUS_DATA_TYPE_ERROR;
    char *x = mbus_frame_data_xml(&d);
    if (!x) return;
    CHECK(__ai_sametext(x, "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>\n<MBusData>\n\n    <SlaveInformation>\n        <Error>{error}</Error>\n    </SlaveInformation>\n\n</MBusData>\n"), "XML of an error shows something else");
    REACH("error");
}

/* --- normalized records, put together --- */
static double real_in, real_out;
static int how, unit_known, value_known;
static char *value_text, *unit_text, *quantity_text;
int model_mbus_variable_value_decode(mbus_data_record *r, double *real, char **str, int *size)
{
    CHECK(r == &rec, "another record is decoded");
    if (!value_known) return -1;
    if (how) { value_text = strdup("value"); if (!value_text) return -1; *str = value_text; *size = 5; }
    else *real = real_in;
    return 0;
}
int model_mbus_vib_unit_normalize(mbus_value_information_block *vib, double value, char **unit, double *out, char **quantity)
{
    CHECK(vib == &rec.drh.vib, "unit of another record");
    CHECK(how || __ai_fsame(value, real_in), "another value is scaled");
    if (!unit_known) return -1;
    unit_text = strdup("unit"); quantity_text = strdup("quantity");
    *unit = unit_text; *quantity = quantity_text; *out = real_out;
    return 0;
}
void drv_join(void)
{
    int kind = __ai_split(__ai_range(0, 4));
    __ai_havoc(&rec, sizeof rec);
    rec.drh.dib.dif = kind == 0 ? 0x0F : kind == 1 ? 0x1F : kind == 2 ? __ai_range(0, 0x0E) : kind == 3 ? __ai_range(0x10, 0x1E) : __ai_range(0x20, 0xFF);
    how = __ai_split(__ai_range(0, 1)); unit_known = __ai_split(__ai_range(0, 1)); value_known = __ai_split(__ai_range(0, 1));
    real_in = __ai_double(); real_out = __ai_double();
    storage = __ai_range(0, 1L << 41); tariff = __ai_range(-1, 1 << 20); device = __ai_range(-1, 1023);
    mbus_record *r = mbus_parse_variable_record(&rec);
    if (!r) { CHECK(!value_known || (kind > 1 && !unit_known), "a record that can be read is dropped"); return; }
    CHECK(value_known && (kind < 2 || unit_known), "a record that cannot be read is kept");
    CHECK(__ai_same(r->storage_number, storage) && __ai_same(r->tariff, tariff) && __ai_same(r->device, device), "storage, tariff or device of a record differ");
    CHECK(strcmp(r->function_medium, kind == 0 ? "Manufacturer specific" : kind == 1 ? "More records follow" : "function") == 0, "function of a record differs");
    if (how) CHECK(!r->is_numeric && strcmp(r->value.str_val.value, "value") == 0 && r->value.str_val.size == 5, "text value of a record differs");
    else if (kind > 1) CHECK(r->is_numeric && __ai_fsame(r->value.real_val, real_out), "value of a record differs");
    if (kind > 1) CHECK(strcmp(r->unit, "unit") == 0 && strcmp(r->quantity, "quantity") == 0, "unit of a record differs");
    REACH("joined");
}
static long counter;
static int code;
int model_mbus_fixed_normalize(int unit, long value, char **unit_out, double *value_out, char **quantity_out)
{
    CHECK(__ai_same(unit & 63, code), "another unit is looked up");
    CHECK(__ai_same(value, counter), "another value is scaled");
    if (!unit_known) return -1;
    *unit_out = strdup("unit"); *quantity_out = strdup("quantity"); *value_out = real_out;
    return 0;
}
void drv_join_fixed(void)
{
    unsigned char c[4];
    int binary = __ai_split(__ai_range(0, 1)), stored = __ai_split(__ai_range(0, 1)), negative = __ai_split(__ai_range(0, 1)), mine = __ai_split(__ai_range(-2, 1));
    if (binary) {
        for (int i = 0; i < 3; i++) c[i] = __ai_range(0, 255);
        c[3] = 128 * negative + __ai_range(0, 127);
        counter = number(c) - (negative ? 4294967296LL : 0);
    } else {
        static const long ten[] = {1, 100, 10000, 1000000};
        for (int i = 0; i < 4; i++) { int h = __ai_range(0, 9), l = __ai_range(0, 9); c[i] = 16 * h + l; counter += ten[i] * (10 * h + l); }
    }
    code = __ai_range(0, 63); unit_known = __ai_split(__ai_range(0, 1)); real_out = __ai_double();
    mbus_record *r = mbus_parse_fixed_record((char) ((binary ? -128 : 0) + 64 * stored + __ai_range(0, 63)), (char) (64 * mine + code), c);
    if (!r) { CHECK(!unit_known, "a counter that can be read is dropped"); return; }
    CHECK(unit_known, "a counter that cannot be read is kept");
    CHECK(strcmp(r->function_medium, stored ? "Stored value" : "Actual value") == 0, "stored and actual counters are confused");
    CHECK(r->is_numeric && __ai_fsame(r->value.real_val, real_out) && strcmp(r->unit, "unit") == 0 && strcmp(r->quantity, "quantity") == 0, "value or unit of a counter differs");
    REACH("joined");
}
