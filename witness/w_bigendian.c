/* The byte-order macros as a big-endian host gets them: big endian is what
 * values are stored in anyway, little endian is their reverse. */
#include "sa.h"
#include <libcork/config.h>
#undef CORK_CONFIG_IS_BIG_ENDIAN
#undef CORK_CONFIG_IS_LITTLE_ENDIAN
#define CORK_CONFIG_IS_BIG_ENDIAN  1
#define CORK_CONFIG_IS_LITTLE_ENDIAN  0
#include <libcork/core/byte-order.h>

static uint64_t
ref_swap(uint64_t v, unsigned bytes)
{
    uint64_t  r = 0;
    unsigned  i;
    for (i = 0; i < bytes; i++) { r = (r << 8) | (v & 0xff); v >>= 8; }
    return r;
}
#define BIG(N, T) \
    T  v = (T) sa_u##N("v"), w, sw = (T) ref_swap(v, N / 8); \
    sa_check(CORK_HOST_ENDIANNESS == CORK_BIG_ENDIAN && CORK_OTHER_ENDIANNESS == CORK_LITTLE_ENDIAN, "the host is big-endian"); \
    sa_check(CORK_UINT##N##_HOST_TO_BIG(v) == v && CORK_UINT##N##_BIG_TO_HOST(v) == v, "values are big-endian already"); \
    sa_check(CORK_UINT##N##_HOST_TO_LITTLE(v) == sw && CORK_UINT##N##_LITTLE_TO_HOST(v) == sw, "little endian is the reverse"); \
    w = v; CORK_UINT##N##_HOST_TO_BIG_IN_PLACE(w); sa_check(w == v, "nothing to do in place"); \
    CORK_UINT##N##_BIG_TO_HOST_IN_PLACE(w); sa_check(w == v, "nothing to do in place"); \
    CORK_UINT##N##_HOST_TO_LITTLE_IN_PLACE(w); sa_check(w == sw, "reversed in place"); \
    CORK_UINT##N##_LITTLE_TO_HOST_IN_PLACE(w); sa_check(w == v, "and back")

void W_big_16(void) { BIG(16, uint16_t); }
void W_big_32(void) { BIG(32, uint32_t); }
void W_big_64(void) { BIG(64, uint64_t); }
