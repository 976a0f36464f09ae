/* P02, P08: interpretation of the user data of any accepted telegram */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <string.h>
#include <stdlib.h>
static mbus_frame f; /* zero, as mbus_frame_new or the callers leave it */
static mbus_frame_data d;
static int accept_frame(void)
{
    unsigned char buf[1024];
    long n = __ai_range(1, 1024);
    __ai_havoc(buf, sizeof buf);
    return mbus_parse(&f, buf, n) == 0;
}
static void check_records(mbus_data_record *r)
{
    for (; r; r = r->next)
    {
        CHECK(r->data_len <= sizeof r->data, "record longer than its data array");
        CHECK(r->drh.dib.ndife <= sizeof r->drh.dib.dife, "more DIFE than the record holds");
        CHECK(r->drh.vib.nvife <= sizeof r->drh.vib.vife, "more VIFE than the record holds");
        CHECK(strlen((char *)r->drh.vib.custom_vif) < sizeof r->drh.vib.custom_vif, "custom VIF not terminated");
    }
}
void drv_data(void)
{
    if (!accept_frame()) return;
    /* only data[0 .. data_size) belongs to this telegram */
    __ai_stale(f.data, sizeof f.data, &f.data_size);
    __ai_readonly(&f, sizeof f);
    int r = mbus_frame_data_parse(&f, &d);
    __ai_unwatch(f.data);
    CHECK(r == 0 || r == -1, "mbus_frame_data_parse returned an undocumented value");
    if (r == 0)
        CHECK(d.type == MBUS_DATA_TYPE_ERROR || d.type == MBUS_DATA_TYPE_FIXED || d.type == MBUS_DATA_TYPE_VARIABLE, "data of an unknown type");
    check_records(d.data_var.record);
    if (d.data_var.record) mbus_data_record_free(d.data_var.record);
}
