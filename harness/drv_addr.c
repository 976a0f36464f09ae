/* P23: primary and secondary addresses */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <string.h>
#include <stdio.h>
void drv_primary(void)
{
    int v = (int) __ai_range(-2147483648L, 2147483647);
    int k = __ai_split(__ai_range(0, 2));
    if (k == 0) { __ai_assume(v < 0); CHECK(!mbus_is_primary_address(v), "a number below 0 passes for a primary address"); }
    if (k == 1) { __ai_assume(v > 255); CHECK(!mbus_is_primary_address(v), "a number above 255 passes for a primary address"); }
    if (k == 2) { __ai_assume(v >= 0); __ai_assume(v <= 255); CHECK(mbus_is_primary_address(v), "a primary address is refused"); }
}
static char s[300];
static void digits(int from, int to)
{
    int k = __ai_split(__ai_range(0, 2));
    for (int i = from; i < to; i++) s[i] = k == 0 ? __ai_range('0', '9') : k == 1 ? __ai_range('A', 'F') : __ai_range('a', 'f');
}
/* sixteen digits, of any class before and after any place */
void drv_secondary(void)
{
    int cut = __ai_split(__ai_range(0, 16));
    digits(0, cut); digits(cut, 16);
    s[16] = 0;
    CHECK(mbus_is_secondary_address(s), "sixteen digits are not taken for a secondary address");
}
/* one other character anywhere */
void drv_character(void)
{
    static const short from[] = {-128, 1, 58, 71, 103}, to[] = {-1, 47, 64, 96, 127};
    int at = __ai_split(__ai_range(0, 15)), k = __ai_split(__ai_range(0, 4)), c = __ai_range(from[k], to[k]);
    digits(0, 16); s[16] = 0;
    s[at] = c;
    CHECK(!mbus_is_secondary_address(s), "a text with other characters passes for a secondary address");
}
/* any other length, of any content */
void drv_length(void)
{
    int shorter = __ai_split(__ai_range(0, 1));
    __ai_str(s, shorter ? 0 : 17, shorter ? 15 : 299, 0);
    CHECK(!mbus_is_secondary_address(s), "a text of another length passes for a secondary address");
    CHECK(!mbus_is_secondary_address(0), "no text passes for a secondary address");
}
void drv_any_text(void)
{
    __ai_str(s, 0, 299, 0);
    mbus_is_secondary_address(s);
}
static mbus_frame f;
/* the address of a device is the text of its number, manufacturer, version and medium */
void drv_get(void)
{
    char want[40];
    __ai_havoc(&f, sizeof f);
    f.control = 0x08 + 16 * __ai_range(0, 3);
    f.control_information = 0x72;
    f.data_size = 12;
    f.next = 0;
    unsigned char *d = f.data;
    snprintf(want, sizeof want, "%08lX%02X%02X%02X%02X", (unsigned long) d[0] + 256UL * d[1] + 65536UL * d[2] + 16777216UL * d[3], d[4], d[5], d[6], d[7]);
    __ai_readonly(&f, sizeof f);
    char bytes[40]; /* the same, byte by byte */
    snprintf(bytes, sizeof bytes, "%02X%02X%02X%02X%02X%02X%02X%02X", d[3], d[2], d[1], d[0], d[4], d[5], d[6], d[7]);
    char *a = mbus_frame_get_secondary_address(&f);
    if (!a) return; /* no memory */
    REACH("address");
    CHECK(__ai_sametext(a, want) || __ai_sametext(a, bytes), "the address is not that of the device");
}
static mbus_data_record *made;
int model_mbus_frame_data_parse(mbus_frame *frame, mbus_frame_data *data)
{
    CHECK(frame == &f, "another frame was read");
    data->type = MBUS_DATA_TYPE_VARIABLE;
    __ai_havoc(&data->data_var.header, sizeof data->data_var.header);
    for (int n = __ai_split(__ai_range(0, 2)); n > 0; n--) {
        mbus_data_record *r = mbus_data_record_new();
        if (!r) return -1;
        r->next = data->data_var.record; data->data_var.record = r;
    }
    return __ai_any() ? 0 : -1;
}
/* any frame: no answer unless it carries variable data that can be read */
void drv_get_any(void)
{
    __ai_havoc(&f, sizeof f);
    f.next = 0;
    int ci = f.control_information;
    __ai_readonly(&f, sizeof f);
    char *a = mbus_frame_get_secondary_address(&f);
    if (ci != 0x72) CHECK(!a, "an answer without an address has one");
    if (a) CHECK(strlen(a) == 16, "the address is not of sixteen digits");
    CHECK(!mbus_frame_get_secondary_address(0), "no frame has an address");
}
void drv_get_bad(void)
{
    __ai_havoc(&f, sizeof f);
    f.control = 0x08 + 16 * __ai_range(0, 3);
    f.control_information = 0x72;
    f.next = 0;
    int k = __ai_split(__ai_range(0, 2));
    if (k == 0) f.data_size = __ai_range(0, 11);
    if (k == 1) f.control = 64 + __ai_range(0, 63);
    if (k == 2) f.control_information = __ai_split(__ai_range(0, 1)) ? __ai_range(0, 0x71) : __ai_range(0x73, 255);
    if (k) f.data_size = 12;
    CHECK(!mbus_frame_get_secondary_address(&f), "an answer that tells no address has one");
}
