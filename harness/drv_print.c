/* P29: printing, dumping, debug output */
#include "mbai.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
int mbus_data_variable_header_print(mbus_data_variable_header *header);
static mbus_data_record rec, reco, recv;
static mbus_frame_data d;
static void any_record(mbus_data_record *r, int lvar)
{
    __ai_havoc(r, sizeof *r);
    r->data_len = __ai_range(lvar == 1, sizeof r->data);
    r->drh.dib.dif = (lvar == 1 ? 0x0D : lvar ? __ai_range(14, 15) : __ai_range(0, 12)) + 16 * __ai_range(0, 15);
    r->drh.dib.ndife = __ai_range(0, MBUS_DATA_INFO_BLOCK_DIFE_SIZE);
    r->drh.vib.nvife = __ai_range(0, MBUS_VALUE_INFO_BLOCK_VIFE_SIZE);
    __ai_str(r->drh.vib.custom_vif, 0, sizeof r->drh.vib.custom_vif - 1, 0);
}
static mbus_data_record *one_of(void)
{
    mbus_data_record *p = 0;
    if (__ai_any()) p = &rec;
    else if (__ai_any()) p = &reco;
    else if (__ai_any()) p = &recv;
    return p;
}
void drv_data(void)
{
    __ai_havoc(&d, sizeof d);
    d.type = (int) __ai_range(-1, 4);
    any_record(&rec, 0); any_record(&recv, 1); any_record(&reco, 2);
    rec.next = one_of(); reco.next = one_of(); recv.next = one_of();
    __ai_summary(&rec); __ai_summary(&reco); __ai_summary(&recv);
    d.data_var.record = one_of();
    __ai_readonly(&d, sizeof d); __ai_readonly(&rec, sizeof rec); __ai_readonly(&reco, sizeof rec); __ai_readonly(&recv, sizeof rec);
    mbus_frame_data_print(&d);
    mbus_frame_data_print(0);
    mbus_data_variable_print(0); mbus_data_fixed_print(0); mbus_data_variable_header_print(0);
}
static mbus_frame f, fn;
/* frames as a program may have made them: any content, any size that fits */
static void any_frame(mbus_frame *f) { __ai_havoc(f, sizeof *f); f->data_size = __ai_range(0, sizeof f->data); f->type = (int) __ai_range(-1, 6); }
void drv_frame(void)
{
    any_frame(&f); any_frame(&fn);
    f.next = __ai_any() ? &fn : 0; fn.next = __ai_any() ? &fn : 0;
    __ai_summary(&fn);
    int r = mbus_frame_print(&f);
    CHECK(r == 0 || r == -2, "printing a frame has an undocumented result");
    CHECK(mbus_frame_print(0) == -1, "printing no frame succeeds");
}
void drv_dump(void)
{
    unsigned long n = __ai_range(0, 1 << 20), m = __ai_range(0, 100);
    char *b = malloc(n), *label = malloc(m + 1);
    if (!b || !label) { free(b); free(label); return; }
    __ai_havoc(b, n);
    __ai_str(label, m, m, 0);
    __ai_readonly(b, 1 << 20);
    mbus_hex_dump(label, b, n);
    mbus_dump_recv_event(__ai_range(0, 255), b, n);
    mbus_dump_send_event(__ai_range(0, 255), b, n);
    mbus_hex_dump(0, b, n); mbus_hex_dump(label, 0, n);
    __ai_unwatch(b);
    free(b); free(label);
}
/* parsing with its debug output on */
void drv_debug(void)
{
    unsigned long n = __ai_range(0, 1 << 20);
    unsigned char *b = malloc(n);
    if (!b) return;
    __ai_havoc(b, n);
    memset(&f, 0, sizeof f);
    mbus_parse_set_debug(1);
    int r = mbus_parse(&f, b, n);
    CHECK(r >= -4, "parsing has an undocumented result");
    if (r == 0) mbus_frame_print(&f);
    free(b);
}

/* debug output of parsing appears when it was switched on, and only then */
static int g_out;
int model_printf(const char *fmt, ...) { g_out = 1; return 0; }
int model_puts(const char *t) { g_out = 1; return 0; }
int model_putchar(int c) { g_out = 1; return c; }
void drv_switch(void)
{
    unsigned long n = __ai_range(1, 1 << 20);
    unsigned char *b = malloc(n);
    int on = __ai_split(__ai_range(0, 1));
    if (!b) return;
    __ai_havoc(b, n);
    memset(&f, 0, sizeof f);
    if (on) mbus_parse_set_debug(0);
    mbus_parse_set_debug(on);
    mbus_parse(&f, b, n);
    CHECK(g_out || !on, "no debug output although switched on");
    CHECK(!g_out || on, "debug output although not switched on");
    mbus_parse_set_debug(0);
    g_out = 0;
    mbus_parse(&f, b, n);
    CHECK(!g_out, "debug output although switched off again");
    free(b);
}
