/* Hash values: what is read, which of it counts, and the values of the stable hash. */
#include "sa.h"
#include <libcork/core.h>

#define LONGEST  36
static unsigned
pick(unsigned n, const char *name)
{
    unsigned  i, v = sa_u32(name);
    for (i = 0; i + 1 < n; i++) if (v == i) return i;
    return n - 1;
}
/* n arbitrary bytes, at the very end of an object */
static uint8_t *
text(unsigned n, const uint8_t *from)
{
    unsigned  i;
    uint8_t  *p = sa_object(n, "bytes");
    for (i = 0; i < n; i++) p[i] = from[i];
    return p;
}
static void
arbitrary(uint8_t *b, unsigned n)
{
    unsigned  i;
    for (i = 0; i < n; i++) b[i] = sa_u8("byte");
}
/* MurmurHash3_x86_32, as published; blocks are little-endian */
static uint32_t rotl(uint32_t x, unsigned r) { return (x << r) | (x >> (32 - r)); }
static uint32_t
murmur3(uint32_t h, const uint8_t *p, size_t len)
{
    size_t  i;
    uint32_t  k;
    for (i = 0; i + 4 <= len; i += 4) {
        k = (uint32_t) p[i] | (uint32_t) p[i + 1] << 8 | (uint32_t) p[i + 2] << 16 | (uint32_t) p[i + 3] << 24;
        k *= 0xcc9e2d51; k = rotl(k, 15); k *= 0x1b873593;
        h ^= k; h = rotl(h, 13); h = h * 5 + 0xe6546b64;
    }
    k = 0;
    if (len - i > 2) k |= (uint32_t) p[i + 2] << 16;
    if (len - i > 1) k |= (uint32_t) p[i + 1] << 8;
    if (len - i > 0) { k |= p[i]; k *= 0xcc9e2d51; k = rotl(k, 15); k *= 0x1b873593; h ^= k; }
    h ^= (uint32_t) len;
    h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35; h ^= h >> 16;
    return h;
}
void W_hashval_stable(void)
{
    uint8_t  b[LONGEST];
    unsigned  n = pick(LONGEST + 1, "length");
    uint32_t  seed = sa_u32("seed");
    arbitrary(b, n);
    sa_check(cork_stable_hash_buffer(seed, text(n, b), n) == murmur3(seed, b, n), "the stable hash is MurmurHash3, little-endian");
}
/* equal content, equal hash: nothing else (address, neighbours) counts */
void W_hashval_content(void)
{
    uint8_t  b[LONGEST];
    unsigned  n = pick(LONGEST + 1, "length");
    uint32_t  seed = sa_u32("seed");
    uint8_t  *one, *two;
    arbitrary(b, n);
    one = text(n, b); two = text(n, b);
    sa_check(cork_hash_buffer(seed, one, n) == cork_hash_buffer(seed, two, n), "the hash depends on content and seed only");
}
void W_hashval_big(void)
{
    uint8_t  b[LONGEST];
    unsigned  n = pick(LONGEST + 1, "length");
    cork_big_hash  seed, h, g;
    seed.u128 = cork_u128_from_64(sa_u64("high"), sa_u64("low"));
    arbitrary(b, n);
    h = cork_big_hash_buffer(seed, text(n, b), n);
    g = cork_big_hash_buffer(seed, text(n, b), n);
    sa_check(cork_big_hash_equal(h, g), "the big hash depends on content and seed only");
}
void W_hashval_big_equal(void)
{
    uint64_t  a = sa_u64("a"), b = sa_u64("b"), c = sa_u64("c"), d = sa_u64("d");
    cork_big_hash  g, h;
    g.u128 = cork_u128_from_64(a, b);
    h.u128 = cork_u128_from_64(c, d);
    sa_check(cork_big_hash_equal(g, h) == (a == c && b == d), "big hashes are compared in full");
}
/* variables are hashed over their whole size */
void W_hashval_variable(void)
{
    uint64_t  v = sa_u64("value"), w = v;
    uint8_t  b[8];
    unsigned  i;
    uint32_t  seed = sa_u32("seed");
    for (i = 0; i < 8; i++) b[i] = (uint8_t) (v >> (8 * i));
    sa_check(cork_stable_hash_variable(seed, v) == murmur3(seed, b, 8), "the stable hash of a variable is that of its bytes");
    sa_check(cork_hash_variable(seed, v) == cork_hash_buffer(seed, &w, 8), "the hash of a variable is that of its bytes");
    {
        cork_big_hash  big, x, y;
        big.u128 = cork_u128_from_64(sa_u64("seed hi"), sa_u64("seed lo"));
        x = cork_big_hash_variable(big, v); y = cork_big_hash_buffer(big, &w, 8);
        sa_check(cork_big_hash_equal(x, y), "the big hash of a variable is that of its bytes");
    }
}
/* every byte and the seed count */
static void
counts(uint64_t h, const uint8_t *b, unsigned n, uint64_t seed)
{
    unsigned  i;
    for (i = 0; i < n; i++) sa_check(sa_depends(h, b[i]), "every byte of the content counts");
    sa_check(sa_depends(h, seed), "the seed counts");
}
void W_hashval_counts(void)
{
    uint8_t  b[LONGEST];
    unsigned  n = pick(LONGEST + 1, "length");
    uint32_t  seed = sa_u32("seed"), h;
    const uint8_t  *p;
    arbitrary(b, n);
    p = text(n, b);
    counts(cork_hash_buffer(seed, p, n), b, n, seed);
    counts(cork_stable_hash_buffer(seed, p, n), b, n, seed);
    cork_murmur_hash_x86_32(seed, p, n, &h);
    counts(h, b, n, seed);
}
static void
counts_big(cork_big_hash h, const uint8_t *b, unsigned n, const uint32_t *seed)
{
    unsigned  i;
    for (i = 0; i < 4; i++) {
        counts(cork_u128_be64(h.u128, 0), b, n, seed[i]);
        counts(cork_u128_be64(h.u128, 1), b, n, seed[i]);
    }
}
void W_hashval_counts_big(void)
{
    uint8_t  b[LONGEST];
    unsigned  n = pick(LONGEST + 1, "length");
    uint32_t  part[4] = { sa_u32("a"), sa_u32("b"), sa_u32("c"), sa_u32("d") };
    cork_big_hash  seed, h;
    const uint8_t  *p;
    seed.u128 = cork_u128_from_32(part[0], part[1], part[2], part[3]);
    arbitrary(b, n);
    p = text(n, b);
    counts_big(cork_big_hash_buffer(seed, p, n), b, n, part);
    cork_murmur_hash_x86_128(seed, p, n, &h);
    counts_big(h, b, n, part);
    cork_murmur_hash_x64_128(seed, p, n, &h);
    counts_big(h, b, n, part);
}
void W_hashval_any(void)
{
    size_t  n = (size_t) sa_u64("length");
    sa_assume(n < ((size_t) 1 << 31));
    (void) cork_stable_hash_buffer(sa_u32("seed"), sa_object(n, "bytes"), n);
}
void W_hashval_any_hash(void)
{
    size_t  n = (size_t) sa_u64("length");
    sa_assume(n < ((size_t) 1 << 31));
    (void) cork_hash_buffer(sa_u32("seed"), sa_object(n, "bytes"), n);
}
