/* Contracts on runtime/crc.c against the bitwise definition of the published CRCs.
 * Table lemma: after initialisation every table entry equals 8 bitwise steps of its
 * index; step lemma: one table step equals 8 bitwise steps on the xored byte; the
 * whole-string functions then fold the step over the string (loop contract). */
#include "gv.h"
/* ghost: the specified CRC of the bytes consumed so far, folded by the injected ghost
 * statement of each loop */
static uint32_t spec32(uint32_t crc, uint8_t c);
static uint16_t spec16(uint16_t crc, uint8_t c);
static uint32_t g_f32; static uint16_t g_f16; static size_t g_n; static const unsigned char* g_src;
#include "runtime/crc.c"

/* specification: one byte fed bit by bit, least significant first */
static uint32_t spec32(uint32_t crc, uint8_t c)
{
    crc ^= c;
#define STEP32 crc = (crc & 1) ? (crc >> 1) ^ 0xEDB88320u : crc >> 1;
    STEP32 STEP32 STEP32 STEP32 STEP32 STEP32 STEP32 STEP32
    return crc;
}
static uint16_t spec16(uint16_t crc, uint8_t c)
{
    crc ^= c;
#define STEP16 crc = (crc & 1) ? (uint16_t)((crc >> 1) ^ 0xA001u) : (uint16_t)(crc >> 1);
    STEP16 STEP16 STEP16 STEP16 STEP16 STEP16 STEP16 STEP16
    return crc;
}

/* the first call on fresh state, then a second call: every crc value, every byte */
void h_update32(void)
{
    uint32_t crc = gv_u32(), crc2 = gv_u32(); uint8_t c = gv_u8(), c2 = gv_u8();
    GV_ASSERT(crc32_update(crc, c) == spec32(crc, c), "CRC-32 step, first use");
    GV_ASSERT(crc32_update(crc2, c2) == spec32(crc2, c2), "CRC-32 step, later use");
    GV_REACH("update32");
}
void h_update16(void)
{
    uint16_t crc = gv_u16(), crc2 = gv_u16(); uint8_t c = gv_u8(), c2 = gv_u8();
    GV_ASSERT(crc16_update(crc, c) == spec16(crc, c), "CRC-16 step, first use");
    GV_ASSERT(crc16_update(crc2, c2) == spec16(crc2, c2), "CRC-16 step, later use");
    GV_REACH("update16");
}

#ifdef GV_DFCC
/* whole strings of ANY length: loop contracts on the three loops, postcondition here */
static unsigned char* any_string(size_t* n)
{
    *n = (size_t)gv_nd(); GV_ASSUME(*n <= ((size_t)1 << 40));
    unsigned char* p = malloc(*n);
    GV_ASSUME(p != NULL);
    return p;
}
#define WHOLE(name, fn, F, start, fin, text) \
void name(void) { \
    size_t n; unsigned char* p = any_string(&n); \
    crc_tab16_init = 0; crc_tab32_init = 0; /* program start; later use: update units */ \
    F = start; g_n = 0; g_src = p; \
    __typeof__(F) r = fn(p, n); \
    GV_ASSERT(g_n == n, "every byte is fed, once and in order"); \
    GV_ASSERT(r == (__typeof__(F))(F fin), text); \
    GV_REACH("end"); \
}
WHOLE(h_gen32, crc32_generate, g_f32, 0xFFFFFFFFu, ^ 0xFFFFFFFFu, "CRC-32 of any string")
WHOLE(h_gen16, crc16_generate, g_f16, 0, ^ 0, "CRC-16 of any string")
WHOLE(h_modbus, crc_modbus, g_f16, 0xFFFF, ^ 0, "Modbus CRC of any string")
#endif
#ifndef GV_STRLEN
#define GV_STRLEN 2
#endif
/* whole strings of bounded length against the specification */
#define STRINGS(name, fn, T, spec, start, fin, other) \
void name(void) { \
    uint8_t b[GV_STRLEN]; size_t n = (size_t)gv_range(0, GV_STRLEN); \
    for (int i = 0; i < GV_STRLEN; i++) b[i] = gv_u8(); \
    if (gv_bool()) (void)other; \
    T e = start; \
    for (size_t i = 0; i < GV_STRLEN; i++) if (i < n) e = spec(e, b[i]); \
    GV_ASSERT(fn(b, n) == (T)(e fin), #fn " of a string"); \
    GV_COVER(n == GV_STRLEN, "longest"); GV_COVER(n == 0, "empty"); \
}
STRINGS(h_str32, crc32_generate, uint32_t, spec32, 0xFFFFFFFFu, ^ 0xFFFFFFFFu, crc32_update(1, 2))
STRINGS(h_str16, crc16_generate, uint16_t, spec16, 0, ^ 0, crc16_update(1, 2))
STRINGS(h_strmb, crc_modbus, uint16_t, spec16, 0xFFFF, ^ 0, crc16_generate(b, 1))
