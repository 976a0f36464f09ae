/* P22: what a record and a device are said to be: storage number, tariff, device unit, function, medium, error */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <string.h>
#include <stdio.h>
static mbus_data_record r;
static long storage, tariff, device;
static int fn;
/* a record header with n data information extensions, from the fields they are made of */
static void header(int n)
{
    __ai_havoc(&r, sizeof r);
    fn = __ai_split(__ai_range(0, 3));
    int s = __ai_range(0, 1);
    r.drh.dib.dif = 128 * (n > 0) + 64 * s + 16 * fn + __ai_range(0, 15);
    storage = s; tariff = device = 0;
    for (int i = 0; i < n; i++) {
        int si = __ai_range(0, 15), t = __ai_range(0, 3), u = __ai_range(0, 1);
        r.drh.dib.dife[i] = 128 * (i + 1 < n) + 64 * u + 16 * t + si;
        storage += (long) si << (1 + 4 * i); tariff += (long) t << (2 * i); device += (long) u << i;
    }
    r.drh.dib.ndife = n;
}
void drv_numbers(void)
{
    int n = __ai_split(__ai_range(0, 10));
    header(n);
    CHECK(__ai_same(mbus_data_record_storage_number(&r), storage), "storage number is not the one sent");
    if (n == 0) { CHECK(mbus_data_record_tariff(&r) == -1 && mbus_data_record_device(&r) == -1, "a tariff or device is given though none was sent"); return; }
    CHECK(__ai_same(mbus_data_record_tariff(&r), tariff), "tariff is not the one sent");
    CHECK(__ai_same(mbus_data_record_device(&r), device), "device unit is not the one sent");
    REACH("numbers compared");
}
void drv_function(void)
{
    static const char *const what[] = {"Instantaneous value", "Maximum value", "Minimum value", "Value during error state"};
    int n = __ai_split(__ai_range(0, 10));
    header(n);
    CHECK(strcmp(mbus_data_record_function(&r), what[fn]) == 0, "function of a record is misnamed");
}
void drv_fixed(void)
{
    static const char *const media[] = {"Other", "Oil", "Electricity", "Gas", "Heat", "Steam", "Hot Water", "Water", "H.C.A.", "Reserved",
        "Gas Mode 2", "Heat Mode 2", "Hot Water Mode 2", "Water Mode 2", "H.C.A. Mode 2", "Reserved"};
    int m = __ai_split(__ai_range(0, 15)), stored = __ai_split(__ai_range(0, 1));
    mbus_data_fixed d;
    __ai_havoc(&d, sizeof d);
    d.cnt1_type = 64 * (m & 3) + __ai_range(0, 63);
    d.cnt2_type = 64 * (m >> 2) + __ai_range(0, 63);
    CHECK(strcmp(mbus_data_fixed_medium(&d), media[m]) == 0, "medium of fixed data is misnamed");
    int status = 128 * __ai_range(0, 1) + 64 * stored + __ai_range(0, 63);
    CHECK(strcmp(mbus_data_fixed_function(status), stored ? "Stored value" : "Actual value") == 0, "stored and actual values are confused");
}
/* EN 13757-3, device types, by name */
static const struct { int code; const char *name; } types[] = {
    {0x00, "Other"}, {0x01, "Oil"}, {0x02, "Electricity"}, {0x03, "Gas"}, {0x04, "Heat: Outlet"}, {0x05, "Steam"},
    {0x06, "Warm water (30-90\xc2\xb0""C)"}, {0x07, "Water"}, {0x08, "Heat Cost Allocator"}, {0x09, "Compressed Air"},
    {0x0A, "Cooling load meter: Outlet"}, {0x0B, "Cooling load meter: Inlet"}, {0x0C, "Heat: Inlet"}, {0x0D, "Heat / Cooling load meter"},
    {0x0E, "Bus/System"}, {0x0F, "Unknown Medium"}, {0x10, "Irrigation Water"}, {0x11, "Water Logger"}, {0x12, "Gas Logger"},
    {0x13, "Gas Converter"}, {0x14, "Calorific value"}, {0x15, "Hot water (>90\xc2\xb0""C)"}, {0x16, "Cold water"}, {0x17, "Dual water"},
    {0x18, "Pressure"}, {0x19, "A/D Converter"}, {0x1A, "Smoke Detector"}, {0x1B, "Ambient Sensor"}, {0x1C, "Gas Detector"},
    {0x20, "Breaker: Electricity"}, {0x21, "Valve: Gas or Water"}, {0x25, "Customer Unit: Display Device"}, {0x28, "Waste Water"},
    {0x29, "Garbage"}, {0x30, "Service Unit"}, {0x36, "Radio Converter: System"}, {0x37, "Radio Converter: Meter"} };
void drv_medium(void)
{
    int m = __ai_split(__ai_range(0, 255));
    const char *t = mbus_data_variable_medium_lookup(m);
    for (int i = 0; i < (int) (sizeof types / sizeof *types); i++)
        if (types[i].code == m) { CHECK(strcmp(t, types[i].name) == 0, "device type is misnamed"); return; }
    if (m >= 0x22 && m <= 0x3F && strcmp(t, "Reserved") == 0) return;
    char want[40];
    snprintf(want, sizeof want, "Unknown medium (0x%.2x)", m);
    CHECK(strcmp(t, want) == 0, "an unknown device type has a name");
}
void drv_error(void)
{
    static const char *const what[] = {"Unspecified error", "Unimplemented CI-Field", "Buffer too long, truncated", "Too many records", "Premature end of record",
        "More than 10 DIFE\xc2\xb4s", "More than 10 VIFE\xc2\xb4s", "Reserved", "Application busy", "Too many readouts"};
    int e = __ai_split(__ai_range(0, 255));
    const char *t = mbus_data_error_lookup(e);
    if (e < 10) { CHECK(strcmp(t, what[e]) == 0, "an application error is misnamed"); return; }
    char want[40];
    snprintf(want, sizeof want, "Unknown error (0x%.2X)", e);
    CHECK(strcmp(t, want) == 0, "an unknown application error has a name");
}
/* manufacturer codes are three letters of five bits each */
void drv_manufacturer(void)
{
    char name[4];
    name[0] = 'A' + __ai_range(0, 25);
    name[1] = 'A' + __ai_range(0, 25);
    name[2] = 'A' + __ai_range(0, 25);
    name[3] = 0;
    int low = __ai_split(__ai_range(0, 7));
    for (int i = 0; i < 3; i++) if (low >> i & 1) name[i] += 32;
    long want = 0;
    for (int i = 0; i < 3; i++) want = 32 * want + name[i] - (low >> i & 1 ? 96 : 64);
    CHECK(__ai_same(mbus_manufacturer_id(name), want), "manufacturer code is not the one of its letters");
}
void drv_manufacturer_bad(void)
{
    CHECK(mbus_manufacturer_id(0) == 0 && mbus_manufacturer_id("") == 0 && mbus_manufacturer_id("AB") == 0, "a code too short accepted");
    char name[4] = "ABC";
    int i = __ai_split(__ai_range(0, 2)), c = __ai_split(__ai_range(-128, 127));
    __ai_assume(c != 0);
    __ai_assume(!((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')));
    name[i] = c;
    CHECK(mbus_manufacturer_id(name) == 0, "a code that is not of letters accepted");
    unsigned char raw[2];
    CHECK(mbus_data_manufacturer_encode(0, (unsigned char *) "ABC") < 0 && mbus_data_manufacturer_encode(raw, 0) < 0, "nothing encoded");
}
void drv_none(void)
{
    CHECK(mbus_data_record_storage_number(0) == -1 && mbus_data_record_tariff(0) == -1 && mbus_data_record_device(0) == -1, "no record described");
    CHECK(mbus_data_record_function(0) == 0 && mbus_data_fixed_medium(0) == 0, "no record described");
}

/* product names: a known text for each device of the list, none for any other */
void drv_product(void)
{
    static mbus_data_variable_header h;
    const char *name;
    __ai_havoc(&h, sizeof h);
    name = mbus_data_product_name(&h);
    CHECK(strlen(name) < 100, "product name of a device is not a text of the list");
    REACH("a device has a product name");
    memset(&h, 0, sizeof h);
    CHECK(mbus_data_product_name(&h)[0] == 0, "product name shown for a device without one");
    CHECK(mbus_data_product_name(0)[0] == 0, "product name shown without a device");
}
