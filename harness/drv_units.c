/* P12: units and powers of ten follow the code tables of the M-Bus standard (EN 13757-3; MBDOC48 8.4.3, 8.4.4, 8.4.5, 6.5) */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
static const double p10[24] = { 1e-12, 1e-11, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11 };
/* codes first..last step through powers of ten from 10^e, or through the units of time s, min, h, d (e = 100) or h, d, month, year (e = 101) from the first on */
struct range { int first, last, e; const char *unit, *quantity, *head, *tail; }; /* head, tail: text around the power of ten in the plain unit text */
int mbus_fixed_normalize(int medium_unit, long medium_value, char **unit_out, double *value_out, char **quantity_out);
static const struct range primary[] = {
    { 0x00, 0x07, -3, "Wh", "Energy", "Energy (", "Wh)" }, { 0x08, 0x0F, 0, "J", "Energy", "Energy (", "J)" },
    { 0x10, 0x17, -6, "m^3", "Volume", "Volume (", " m^3)" }, { 0x18, 0x1F, -3, "kg", "Mass", "Mass (", "kg)" },
    { 0x20, 0x23, 100, "s", "On time", "On time (", ")" }, { 0x24, 0x27, 100, "s", "Operating time", "Operating time (", ")" },
    { 0x28, 0x2F, -3, "W", "Power", "Power (", "W)" }, { 0x30, 0x37, 0, "J/h", "Power", "Power (", "J/h)" },
    { 0x38, 0x3F, -6, "m^3/h", "Volume flow", "Volume flow (", " m^3/h)" }, { 0x40, 0x47, -7, "m^3/min", "Volume flow", "Volume flow (", " m^3/min)" },
    { 0x48, 0x4F, -9, "m^3/s", "Volume flow", "Volume flow (", " m^3/s)" }, { 0x50, 0x57, -3, "kg/h", "Mass flow", "Mass flow (", " kg/h)" },
    { 0x58, 0x5B, -3, "°C", "Flow temperature", "Flow temperature (", "deg C)" }, { 0x5C, 0x5F, -3, "°C", "Return temperature", "Return temperature (", "deg C)" },
    { 0x60, 0x63, -3, "K", "Temperature difference", "Temperature Difference (", " deg C)" }, { 0x64, 0x67, -3, "°C", "External temperature", "External temperature (", " deg C)" },
    { 0x68, 0x6B, -3, "bar", "Pressure", "Pressure (", " bar)" },
    { 0x70, 0x73, 100, "s", "Averaging Duration", "Averaging Duration (", ")" }, { 0x74, 0x77, 100, "s", "Actuality Duration", "Actuality Duration (", ")" },
    { 0x6E, 0x6E, 0, 0, 0, "Units for H.C.A.", 0 }, { 0x78, 0x78, 0, 0, 0, "Fabrication number", 0 }, { 0x7A, 0x7A, 0, 0, 0, "Bus Address", 0 }, { 0x7F, 0x7F, 0, 0, 0, "Manufacturer specific", 0 },
    { 0x6C, 0x6C, 0, 0, 0, "Time Point (date)", 0 }, { 0x6D, 0x6D, 0, 0, 0, "Time Point (time & date)", 0 } };
static const struct range fd[] = {
    { 0x00, 0x03, -3, "Currency units", "Credit", "Credit of ", " of the nominal local legal currency units" }, { 0x04, 0x07, -3, "Currency units", "Debit", "Debit of ", " of the nominal local legal currency units" },
    { 0x24, 0x27, 100, "s", "Storage interval", "Storage interval ", "" }, { 0x28, 0x29, 103, "s", "Storage interval", 0, 0 },
    { 0x2C, 0x2F, 100, "s", "Duration since last readout", "Duration since last readout ", "" },
    { 0x31, 0x33, 102, "s", "Duration of tariff", 0, 0 }, { 0x34, 0x37, 100, "s", "Period of tariff", "Period of tariff ", "" }, { 0x38, 0x39, 103, "s", "Period of tariff", 0, 0 },
    { 0x40, 0x4F, -9, "V", "Voltage", "", " V" }, { 0x50, 0x5F, -12, "A", "Current", "", " A" },
    { 0x68, 0x6B, 101, "s", "Duration since last cumulation", "Duration since last cumulation ", "" }, { 0x6C, 0x6F, 101, "s", "Operating time battery", "Operating time battery ", "" } };
static const struct range fb[] = {
    { 0x00, 0x01, 5, "Wh", "Energy", 0, 0 }, { 0x08, 0x09, 8, "J", "Energy", 0, 0 }, { 0x10, 0x11, 2, "m^3", "Volume", "Volume (", "m3)" }, { 0x18, 0x19, 5, "kg", "Mass", 0, 0 },
    { 0x21, 0x21, -1, "feet^3", "Volume", 0, 0 }, { 0x22, 0x23, -1, "American gallon", "Volume", 0, 0 }, { 0x24, 0x24, -3, "American gallon/min", "Volume flow", 0, 0 },
    { 0x25, 0x25, 0, "American gallon/min", "Volume flow", 0, 0 }, { 0x26, 0x26, 0, "American gallon/h", "Volume flow", 0, 0 },
    { 0x28, 0x29, 5, "W", "Power", 0, 0 }, { 0x30, 0x31, 8, "J/h", "Power", 0, 0 },
    { 0x58, 0x5B, -3, "°F", "Flow temperature", "Flow Temperature (", " degree F)" }, { 0x5C, 0x5F, -3, "°F", "Return temperature", "Return Temperature (", " degree F)" },
    { 0x60, 0x63, -3, "°F", "Temperature difference", "Temperature Difference (", " degree F)" }, { 0x64, 0x67, -3, "°F", "External temperature", "External Temperature (", " degree F)" },
    { 0x70, 0x73, -3, "°F", "Cold / Warm Temperature Limit", "Cold / Warm Temperature Limit (", " degree F)" }, { 0x74, 0x77, -3, "°C", "Cold / Warm Temperature Limit", "Cold / Warm Temperature Limit (", " degree C)" },
    { 0x78, 0x7F, -3, "W", "Cumul count max power", "cumul. count max power (", " W)" } };
/* plain unit texts of the second table (0xFB) that do not follow the rule head, power of ten, tail */
static const struct { int code; const char *text; } fbtext[] = {
    { 0x00, "Energy (0.1 MWh)" }, { 0x01, "Energy (MWh)" }, { 0x08, "Energy (0.1 GJ)" }, { 0x09, "Energy (GJ)" }, { 0x18, "Mass (100 t)" }, { 0x19, "Mass (kt)" },
    { 0x21, "Volume (0.1 feet^3)" }, { 0x22, "Volume (0.1 american gallon)" }, { 0x23, "Volume (american gallon)" }, { 0x24, "Volume flow (0.001 american gallon/min)" },
    { 0x25, "Volume flow (american gallon/min)" }, { 0x26, "Volume flow (american gallon/h)" }, { 0x28, "Power (0.1 MW)" }, { 0x29, "Power (MW)" }, { 0x30, "Power (0.1 GJ/h)" }, { 0x31, "Power (GJ/h)" } };
static const struct { int code; const char *text; } fdtext[] = {
    { 0x08, "Access Number (transmission count)" }, { 0x09, "Medium (as in fixed header)" }, { 0x0A, "Manufacturer (as in fixed header)" }, { 0x0B, "Parameter set identification" },
    { 0x0C, "Model / Version" }, { 0x0D, "Hardware version" }, { 0x0E, "Firmware version" }, { 0x0F, "Software version" }, { 0x10, "Customer location" }, { 0x11, "Customer" },
    { 0x12, "Access Code User" }, { 0x13, "Access Code Operator" }, { 0x14, "Access Code System Operator" }, { 0x15, "Access Code Developer" }, { 0x16, "Password" }, { 0x17, "Error flags" }, { 0x18, "Error mask" },
    { 0x1A, "Digital output (binary)" }, { 0x1B, "Digital input (binary)" }, { 0x1C, "Baudrate" }, { 0x1D, "response delay time" }, { 0x1E, "Retry" },
    { 0x20, "First storage # for cyclic storage" }, { 0x21, "Last storage # for cyclic storage" }, { 0x22, "Size of storage block" }, { 0x28, "Storage interval month(s)" }, { 0x29, "Storage interval year(s)" },
    { 0x30, "Start (date/time) of tariff" }, { 0x31, "Duration of tariff minute(s)" }, { 0x32, "Duration of tariff hour(s)" }, { 0x33, "Duration of tariff day(s)" }, { 0x38, "Period of tariff months(s)" }, { 0x39, "Period of tariff year(s)" },
    { 0x3A, "dimensionless / no VIF" }, { 0x60, "Reset counter" }, { 0x61, "Cumulation counter" }, { 0x62, "Control signal" }, { 0x63, "Day of week" }, { 0x64, "Week number" },
    { 0x65, "Time point of day change" }, { 0x66, "State of parameter activation" }, { 0x67, "Special supplier information" }, { 0x70, "Date and time of battery change" } };
static const struct range fixed[] = {
    { 0x02, 0x0A, 0, "Wh", "Energy", "", "" }, { 0x0B, 0x13, 3, "J", "Energy", "", "" }, { 0x14, 0x1C, 0, "W", "Power", "", "" }, { 0x1D, 0x25, 3, "J/h", "Power", "", "" },
    { 0x26, 0x2E, -6, "m^3", "Volume", "", "" }, { 0x2F, 0x37, -6, "m^3/h", "Volume flow", "", "" }, { 0x38, 0x38, -3, "°C", "Temperature", "", "" } };
static const char *const pre[10] = { "1e-12 ", "1e-11 ", "1e-10 ", "1e-9 ", "1e-8 ", "1e-7 ", "my", "1e-5 ", "1e-4 ", "m" };
static const char *const pre2[12] = { "1e-2 ", "1e-1 ", "", "10 ", "100 ", "k", "10 k", "100 k", "M", "1e7 ", "1e8 ", "G" };
static const char *const sec[4] = { "seconds", "minutes", "hours", "days" }, *const sec1[4] = { "second(s)", "minute(s)", "hour(s)", "day(s)" }, *const hrs[4] = { "hour(s)", "day(s)", "month(s)", "year(s)" };
static const double month = 2629743.83, year = 31556926.0;
static double scale(const struct range *r, int code)
{
    int k = code - r->first;
    if (r->e == 101) { k += 2; } else if (r->e == 102) k += 1; else if (r->e == 103) k += 4;
    if (r->e >= 100) return k == 0 ? 1 : k == 1 ? 60 : k == 2 ? 3600 : k == 3 ? 86400 : k == 4 ? month : year;
    return p10[r->e + k + 12];
}
static const char *power(const struct range *r, int code, int fdt)
{
    int k = code - r->first, e = r->e + k;
    if (r->e == 100) return fdt ? sec1[k] : sec[k];
    if (r->e == 101) return hrs[k];
    return e < -2 ? pre[e + 12] : pre2[e + 2];
}
static const struct range *find(const struct range *t, int n, int code)
{
    for (int i = 0; i < n; i++) if (code >= t[i].first && code <= t[i].last) return t + i;
    return 0;
}
#define FIND(t, c) find(t, sizeof(t) / sizeof *(t), c)
static mbus_value_information_block vib;
static mbus_data_record rec;
static char *unit, *quantity;
static double v;
static const double xs[3] = { 1, 0, -123456789 };
/* the unit is a text, scaled value and quantity of a record follow r; factor: of an extension */
static void scaled(const struct range *r, int code, double factor)
{
    if (!r || !r->unit) return;
    double x = xs[__ai_split(__ai_range(0, 2))];
    CHECK(mbus_vib_unit_normalize(&vib, x, &unit, &v, &quantity) == 0, "known code has no unit");
    CHECK(__ai_fnear(v, x * scale(r, code) * factor), "value is scaled by another power of ten than its code says");
    CHECK(!strcmp(unit, r->unit), "value has another unit than its code says");
    CHECK(!strcmp(quantity, r->quantity), "value has another quantity than its code says");
    free(unit); free(quantity);
}
static void text(const char *want)
{
    CHECK(!strcmp(mbus_vib_unit_lookup(&vib), want), "unit text differs from the code");
    rec.drh.vib = vib;
    CHECK(!strcmp(mbus_data_record_unit(&rec), want), "unit text of a record differs from the code");
}
static void head_tail(const struct range *r, int code, int fdt)
{
    char b[200];
    if (!r || !r->head) return;
    if (!r->tail) { text(r->head); return; }
    snprintf(b, sizeof b, "%s%s%s", r->head, power(r, code, fdt), r->tail);
    text(b);
}
static void start(void) { memset(&rec, 0, sizeof rec); __ai_havoc(&vib, sizeof vib); }
void drv_primary(void)
{
    int c = __ai_split(__ai_range(0, 0x7F)), x = __ai_split(__ai_range(0, 1));
    const struct range *r = FIND(primary, c);
    start();
    vib.vif = c + 128 * x; vib.nvife = x; vib.vife[0] = x ? 0x00 : (unsigned char)__ai_range(0, 255);
    if (c == 0x7C || (x && (c == 0x7B || c == 0x7D))) __ai_stop();
    if (r && r->unit) scaled(r, c, 1.0);
    else {
        int k = mbus_vib_unit_normalize(&vib, 1.0, &unit, &v, &quantity);
        CHECK(k != 0 || c == 0x6F || __ai_fnear(v, 1.0), "value without a unit is changed");
    }
    head_tail(r, c, 0);
}
/* corrections by the first extension of a primary code */
static void correction(int lo, int hi)
{
    int c = __ai_split(__ai_range(0, 0x77)), x = __ai_split(__ai_range(lo, hi));
    const struct range *r = FIND(primary, c);
    if (!r || !r->unit) __ai_stop();
    start();
    vib.vif = c + 128; vib.nvife = 1; vib.vife[0] = x;
    if (x >= 0x70 && x <= 0x77) scaled(r, c, p10[x - 0x70 - 6 + 12]);
    else if (x == 0x7D) scaled(r, c, 1000.0);
    else if (x >= 0x78 && x <= 0x7B) {
        CHECK(mbus_vib_unit_normalize(&vib, 1.0, &unit, &v, &quantity) == 0, "known code has no unit");
        CHECK(__ai_fnear(v, scale(r, c) + p10[x - 0x78 - 3 + 12]), "value is corrected by another constant than its extension says");
    } else scaled(r, c, 1.0);
}
void drv_correction0(void) { correction(0x6E, 0x70); }
void drv_correction1(void) { correction(0x71, 0x73); }
void drv_correction2(void) { correction(0x74, 0x77); }
void drv_correction3(void) { correction(0x78, 0x7B); }
void drv_correction4(void) { correction(0x7C, 0x7F); }
/* further extensions, and extensions of a code that has none, change nothing */
void drv_no_correction(void)
{
    int c = __ai_split(__ai_range(0, 0x77)), e = __ai_any();
    const struct range *r = FIND(primary, c);
    if (!r || !r->unit) __ai_stop();
    start();
    if (e) { vib.vif = c + 128; vib.nvife = 2; vib.vife[0] = 0x80 + __ai_range(0, 0x6F); }
    else { vib.vif = c; vib.nvife = 0; }
    scaled(r, c, 1.0);
}
void drv_fd(void)
{
    int c = __ai_split(__ai_range(0, 0x7F)), x = __ai_split(__ai_range(0, 1)), i;
    const struct range *r = FIND(fd, c);
    start();
    vib.vif = 0xFD; vib.nvife = 1 + x; vib.vife[0] = c + 128 * x;
    scaled(r, c, 1.0);
    if (!r) {
        int k = mbus_vib_unit_normalize(&vib, 1.0, &unit, &v, &quantity);
        CHECK(k != 0 || __ai_fnear(v, 1.0), "value without a unit is changed");
    }
    head_tail(r, c, 1);
    for (i = 0; i < (int)(sizeof fdtext / sizeof *fdtext); i++) if (fdtext[i].code == c) text(fdtext[i].text);
}
void drv_fb(void)
{
    int c = __ai_split(__ai_range(0, 0x7F)), x = __ai_split(__ai_range(0, 1)), i;
    const struct range *r = FIND(fb, c);
    start();
    vib.vif = 0xFB; vib.nvife = 1 + x; vib.vife[0] = c + 128 * x;
    scaled(r, c, 1.0);
    if (!r) {
        int k = mbus_vib_unit_normalize(&vib, 1.0, &unit, &v, &quantity);
        CHECK(k != 0 || __ai_fnear(v, 1.0), "value without a unit is changed");
    }
    head_tail(r, c, 1);
    for (i = 0; i < (int)(sizeof fbtext / sizeof *fbtext); i++) if (fbtext[i].code == c) text(fbtext[i].text);
}
void drv_missing(void)
{
    start();
    vib.vif = __ai_split(__ai_range(0, 1)) ? 0xFB : 0xFD; vib.nvife = 0;
    CHECK(mbus_vib_unit_normalize(&vib, 1.0, &unit, &v, &quantity) < 0, "missing extension has a unit");
    CHECK(mbus_vib_unit_normalize(0, 1.0, &unit, &v, &quantity) < 0, "no information has a unit");
    CHECK(mbus_vib_unit_lookup(0)[0] == 0 && mbus_data_record_unit(0) == 0, "no information has a unit");
    text("Missing VIF extension");
}
/* unit given as text */
void drv_custom(void)
{
    int n = __ai_split(__ai_range(0, 127)), x = __ai_split(__ai_range(0, 1)), i;
    start();
    for (i = 0; i < n; i++) vib.custom_vif[i] = __ai_range(1, 255);
    vib.custom_vif[n] = 0;
    vib.vif = x ? 0xFC : 0x7C; vib.nvife = x; vib.vife[0] = x ? 0 : __ai_range(0, 255);
    CHECK(mbus_vib_unit_normalize(&vib, 1.0, &unit, &v, &quantity) == 0, "text unit rejected");
    CHECK(__ai_fnear(v, 1.0) && !strcmp(unit, "-") && __ai_sametext(quantity, (char *)vib.custom_vif), "text unit differs from the telegram");
    if (!x) CHECK(__ai_sametext(mbus_vib_unit_lookup(&vib), (char *)vib.custom_vif), "text unit differs from the telegram");
    else {
        int k = __ai_split(__ai_range(0x70, 0x77)); char b[200];
        vib.vife[0] = k;
        CHECK(mbus_vib_unit_normalize(&vib, 1.0, &unit, &v, &quantity) == 0 && __ai_fnear(v, p10[k - 0x70 - 6 + 12]), "value of a text unit is corrected by another factor than its extension says");
        k -= 0x76;
        snprintf(b, sizeof b, "%s %s", k < -2 ? pre[k + 12] : pre2[k + 2], (char *)vib.custom_vif);
        CHECK(__ai_sametext(mbus_vib_unit_lookup(&vib), b), "text unit differs from the telegram");
    }
}
/* the two counters of fixed data */
void drv_fixed(void)
{
    static const char *const pl[9] = { "", "10 ", "100 ", "k", "10 k", "100 k", "M", "10 M", "100 M" }, *const pj[9] = { "k", "10 k", "100 k", "M", "10 M", "100 M", "G", "10 G", "100 G" };
    static const char *const ml[9] = { "ml", "10 ml", "100 ml", "l", "10 l", "100 l", "m^3", "10 m^3", "100 m^3" };
    int c = __ai_split(__ai_range(0, 0x3F)), hi = (int)__ai_range(0, 3), k; char b[64];
    const struct range *r = FIND(fixed, c);
    long x = (long)xs[__ai_split(__ai_range(0, 2))];
    k = mbus_fixed_normalize(c + 64 * hi, x, &unit, &v, &quantity);
    if (r) {
        CHECK(k == 0, "known code has no unit");
        CHECK(__ai_fnear(v, x * scale(r, c)), "counter is scaled by another power of ten than its code says");
        CHECK(!strcmp(unit, r->unit) && !strcmp(quantity, r->quantity), "counter has another unit than its code says");
        k = c - r->first;
        if (c == 0x38) snprintf(b, sizeof b, "1e-3 °C");
        else if (c >= 0x26) snprintf(b, sizeof b, "%s%s", ml[k], c >= 0x2F ? "/h" : "");
        else snprintf(b, sizeof b, "%s%s", r->e ? pj[k] : pl[k], r->unit);
        CHECK(!strcmp(mbus_data_fixed_unit(c + 64 * hi), b), "unit text of a counter differs from its code");
    } else if (c >= 2 && k == 0) {
        CHECK(__ai_fnear(v, c >= 0x3A && c <= 0x3D ? 0.0 : (double)x), "counter without a unit is changed");
    }
    if (c < 2) CHECK(!strcmp(mbus_data_fixed_unit(c), c ? "D,M,Y" : "h,m,s"), "unit text of a counter differs from its code");
    CHECK(mbus_fixed_normalize(c, 1, 0, &v, &quantity) < 0 && mbus_fixed_normalize(c, 1, &unit, 0, &quantity) < 0 && mbus_fixed_normalize(c, 1, &unit, &v, 0) < 0, "no place for a unit accepted");
}
