/* Byte-order conversion and 128-bit integers. */
#include "sa.h"
#include <libcork/core.h>
#include <libcork/core/u128.h>

static unsigned
pick(unsigned n, const char *name)
{
    unsigned  i, v = sa_u32(name);
    for (i = 0; i + 1 < n; i++) if (v == i) return i;
    return n - 1;
}
static uint64_t
ref_swap(uint64_t v, unsigned bytes)
{
    uint64_t  r = 0;
    unsigned  i;
    for (i = 0; i < bytes; i++) { r = (r << 8) | (v & 0xff); v >>= 8; }
    return r;
}
/* the memory of a value in big-endian order is its most significant byte first */
#define ENDIAN(N, T) \
    T  v = (T) sa_u##N("v"), w, sw = (T) ref_swap(v, N / 8); \
    sa_check((T) CORK_SWAP_UINT##N(v) == sw, "the bytes are reversed"); \
    sa_check(CORK_SWAP_UINT##N(v) == sw, "no bits outside the value's width"); \
    w = v; CORK_SWAP_IN_PLACE_UINT##N(w); sa_check(w == sw, "the bytes are reversed in place"); \
    w = CORK_UINT##N##_HOST_TO_BIG(v); \
    sa_check(((uint8_t *) &w)[0] == (uint8_t) (v >> (N - 8)) && ((uint8_t *) &w)[N / 8 - 1] == (uint8_t) v, "big endian: most significant byte first"); \
    sa_check((T) CORK_UINT##N##_BIG_TO_HOST(w) == v, "big-endian round trip"); \
    w = v; CORK_UINT##N##_HOST_TO_BIG_IN_PLACE(w); \
    sa_check(((uint8_t *) &w)[0] == (uint8_t) (v >> (N - 8)) && ((uint8_t *) &w)[N / 8 - 1] == (uint8_t) v, "big endian in place"); \
    CORK_UINT##N##_BIG_TO_HOST_IN_PLACE(w); sa_check(w == v, "big-endian round trip in place"); \
    w = CORK_UINT##N##_HOST_TO_LITTLE(v); \
    sa_check(((uint8_t *) &w)[0] == (uint8_t) v && ((uint8_t *) &w)[N / 8 - 1] == (uint8_t) (v >> (N - 8)), "little endian: least significant byte first"); \
    sa_check((T) CORK_UINT##N##_LITTLE_TO_HOST(w) == v, "little-endian round trip"); \
    w = v; CORK_UINT##N##_HOST_TO_LITTLE_IN_PLACE(w); \
    sa_check(((uint8_t *) &w)[0] == (uint8_t) v && ((uint8_t *) &w)[N / 8 - 1] == (uint8_t) (v >> (N - 8)), "little endian in place"); \
    CORK_UINT##N##_LITTLE_TO_HOST_IN_PLACE(w); sa_check(w == v, "little-endian round trip in place")

void W_bytes_16(void) { ENDIAN(16, uint16_t); }
void W_bytes_32(void) { ENDIAN(32, uint32_t); }
void W_bytes_64(void) { ENDIAN(64, uint64_t); }
/* any rvalue expression may be given */
void W_bytes_expression(void)
{
    uint32_t  x = sa_u32("x");
    uint64_t  y = sa_u64("y");
    sa_check(CORK_SWAP_UINT16(x >> 8) == ref_swap((uint16_t) (x >> 8), 2), "16 bits of an expression");
    sa_check(CORK_SWAP_UINT32(y >> 8) == ref_swap((uint32_t) (y >> 8), 4), "32 bits of an expression");
    sa_check(CORK_SWAP_UINT64(x | 1) == ref_swap((uint64_t) (x | 1), 8), "64 bits of an expression");
    sa_check(CORK_SWAP_UINT32(x & 0xff) == ref_swap(x & 0xff, 4), "a masked expression");
}

/*--- 128-bit integers ---*/
static cork_u128
any(uint64_t *hi, uint64_t *lo)
{
    *hi = sa_u64("hi"); *lo = sa_u64("lo");
    return cork_u128_from_64(*hi, *lo);
}
static void
is(cork_u128 v, uint64_t hi, uint64_t lo)
{
    sa_check(cork_u128_be64(v, 0) == hi, "upper half");
    sa_check(cork_u128_be64(v, 1) == lo, "lower half");
    sa_check(v._.be64.hi == hi && v._.be64.lo == lo, "named halves");
}
void W_u128_parts(void)
{
    uint32_t  a = sa_u32("a"), b = sa_u32("b"), c = sa_u32("c"), d = sa_u32("d");
    cork_u128  v = cork_u128_from_32(a, b, c, d);
    unsigned  i = pick(16, "i");
    uint32_t  w[4];
    w[0] = a; w[1] = b; w[2] = c; w[3] = d;
    is(v, ((uint64_t) a << 32) | b, ((uint64_t) c << 32) | d);
    sa_check(cork_u128_be32(v, 0) == a && cork_u128_be32(v, 1) == b && cork_u128_be32(v, 2) == c && cork_u128_be32(v, 3) == d, "32-bit parts, most significant first");
    sa_check(cork_u128_be16(v, i / 2) == (uint16_t) (w[i / 4] >> ((i / 2 & 1)? 0: 16)), "16-bit parts, most significant first");
    sa_check(cork_u128_be8(v, i) == (uint8_t) (w[i / 4] >> (24 - 8 * (i & 3))), "8-bit parts, most significant first");
    is(cork_u128_zero(), 0, 0);
}
void W_u128_halves(void)
{
    uint64_t  hi, lo;
    cork_u128  v = any(&hi, &lo), w;
    is(v, hi, lo);
    is(CORK_SWAP_UINT128(v), ref_swap(lo, 8), ref_swap(hi, 8));
    w = v; CORK_SWAP_IN_PLACE_UINT128(w); is(w, ref_swap(lo, 8), ref_swap(hi, 8));
    w = CORK_UINT128_HOST_TO_BIG(v);
    sa_check(w._.u8[0] == (uint8_t) (hi >> 56) && w._.u8[15] == (uint8_t) lo && w._.u8[8] == (uint8_t) (lo >> 56), "big endian: most significant byte first");
    is(CORK_UINT128_BIG_TO_HOST(w), hi, lo);
    w = v; CORK_UINT128_HOST_TO_BIG_IN_PLACE(w);
    sa_check(w._.u8[0] == (uint8_t) (hi >> 56) && w._.u8[15] == (uint8_t) lo && w._.u8[7] == (uint8_t) hi, "big endian in place");
    CORK_UINT128_BIG_TO_HOST_IN_PLACE(w); is(w, hi, lo);
    w = CORK_UINT128_HOST_TO_LITTLE(v);
    sa_check(w._.u8[0] == (uint8_t) lo && w._.u8[15] == (uint8_t) (hi >> 56), "little endian: least significant byte first");
    is(CORK_UINT128_LITTLE_TO_HOST(w), hi, lo);
    w = v; CORK_UINT128_HOST_TO_LITTLE_IN_PLACE(w);
    sa_check(w._.u8[0] == (uint8_t) lo && w._.u8[15] == (uint8_t) (hi >> 56), "little endian in place");
    CORK_UINT128_LITTLE_TO_HOST_IN_PLACE(w); is(w, hi, lo);
}
void W_u128_compare(void)
{
    uint64_t  h1, l1, h2, l2;
    cork_u128  a = any(&h1, &l1), b = any(&h2, &l2);
    bool  eq = (h1 == h2) && (l1 == l2), lt = (h1 < h2) || (h1 == h2 && l1 < l2);
    sa_check(cork_u128_eq(a, b) == eq, "equal");
    sa_check(cork_u128_ne(a, b) == !eq, "not equal");
    sa_check(cork_u128_lt(a, b) == lt, "less");
    sa_check(cork_u128_le(a, b) == (lt || eq), "less or equal");
    sa_check(cork_u128_gt(a, b) == !(lt || eq), "greater");
    sa_check(cork_u128_ge(a, b) == !lt, "greater or equal");
}
void W_u128_add(void)
{
    uint64_t  h1, l1, h2, l2, lo, hi;
    cork_u128  a = any(&h1, &l1), b = any(&h2, &l2);
    lo = l1 + l2; hi = h1 + h2; if (lo < l1) hi++;
    is(cork_u128_add(a, b), hi, lo);
}
void W_u128_sub(void)
{
    uint64_t  h1, l1, h2, l2, lo, hi;
    cork_u128  a = any(&h1, &l1), b = any(&h2, &l2);
    lo = l1 - l2; hi = h1 - h2; if (l1 < l2) hi--;
    is(cork_u128_sub(a, b), hi, lo);
}
void W_u128_shl(void)
{
    uint64_t  hi, lo;
    cork_u128  a = any(&hi, &lo);
    unsigned  b = pick(128, "b");
    if (b == 0) is(cork_u128_shl(a, b), hi, lo);
    else if (b < 64) is(cork_u128_shl(a, b), (hi << b) | (lo >> (64 - b)), lo << b);
    else is(cork_u128_shl(a, b), lo << (b - 64), 0);
}
void W_u128_shr(void)
{
    uint64_t  hi, lo;
    cork_u128  a = any(&hi, &lo);
    unsigned  b = pick(128, "b");
    if (b == 0) is(cork_u128_shr(a, b), hi, lo);
    else if (b < 64) is(cork_u128_shr(a, b), hi >> b, (lo >> b) | (hi << (64 - b)));
    else is(cork_u128_shr(a, b), 0, hi >> (b - 64));
}
/*--- text ---*/
void W_u128_hex(void)
{
    uint64_t  hi, lo;
    cork_u128  a = any(&hi, &lo);
    char  *buf = sa_object(CORK_U128_HEX_LENGTH, "buf");
    const char  *p = cork_u128_to_hex(buf, a);
    size_t  n;
    if (hi > 0) {
        n = sa_number(p, "lx", hi);
        sa_check(n > 0, "the upper half without leading zeroes");
        p += n;
        n = sa_number(p, "016lx", lo);
        sa_check(n == 16, "then the lower half, all sixteen digits");
    } else {
        n = sa_number(p, "lx", lo);
        sa_check(n > 0, "the lower half without leading zeroes");
    }
    sa_check(p[n] == '\0', "and nothing else");
}
void W_u128_padded_hex(void)
{
    uint64_t  hi, lo;
    cork_u128  a = any(&hi, &lo);
    char  *buf = sa_object(CORK_U128_HEX_LENGTH, "buf");
    const char  *p = cork_u128_to_padded_hex(buf, a);
    sa_check(sa_number(p, "016lx", hi) == 16, "the upper half, all sixteen digits");
    sa_check(sa_number(p + 16, "016lx", lo) == 16, "the lower half, all sixteen digits");
    sa_check(p[32] == '\0', "and nothing else");
}
/* decimal text, for numbers around every change of length */
static const struct { uint64_t  hi, lo; const char  *text; }  DECIMAL[] = {
    { 0, 0, "0" }, { 0, 9, "9" }, { 0, 10, "10" }, { 0, 99, "99" },
    { 0, UINT64_C(0xffffffff), "4294967295" }, { 0, UINT64_C(0x100000000), "4294967296" },
    { 0, UINT64_C(0x8ac7230489e80000), "10000000000000000000" },
    { 0, UINT64_C(0xffffffffffffffff), "18446744073709551615" }, { 1, 0, "18446744073709551616" },
    { UINT64_C(0x100000000), 0, "79228162514264337593543950336" },
    { UINT64_C(0x4b3b4ca85a86c47a), UINT64_C(0x098a223fffffffff), "99999999999999999999999999999999999999" },
    { UINT64_C(0x4b3b4ca85a86c47a), UINT64_C(0x098a224000000000), "100000000000000000000000000000000000000" },
    { UINT64_C(0xffffffffffffffff), UINT64_C(0xffffffffffffffff), "340282366920938463463374607431768211455" },
};
static void
decimal_is(unsigned n)
{
    cork_u128  a = cork_u128_from_64(DECIMAL[n].hi, DECIMAL[n].lo);
    char  *buf = sa_object(CORK_U128_DECIMAL_LENGTH, "buf");
    const char  *p = cork_u128_to_decimal(buf, a), *q = DECIMAL[n].text;
    sa_check(sa_same_object(p, buf), "the text is in the buffer");
    for (; *q != '\0'; p++, q++) sa_check(*p == *q, "the digits");
    sa_check(*p == '\0', "and nothing else");
}
void W_decimal_0(void) { decimal_is(0); }
void W_decimal_1(void) { decimal_is(1); }
void W_decimal_2(void) { decimal_is(2); }
void W_decimal_3(void) { decimal_is(3); }
void W_decimal_4(void) { decimal_is(4); }
void W_decimal_5(void) { decimal_is(5); }
void W_decimal_6(void) { decimal_is(6); }
void W_decimal_7(void) { decimal_is(7); }
void W_decimal_8(void) { decimal_is(8); }
void W_decimal_9(void) { decimal_is(9); }
void W_decimal_10(void) { decimal_is(10); }
void W_decimal_11(void) { decimal_is(11); }
void W_decimal_12(void) { decimal_is(12); }
