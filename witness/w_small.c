#include "sa.h"
#include <libcork/core.h>
#include <libcork/ds.h>

/* ------------------------------------------------------------- ring buffers
 * any state: `size` elements starting at read_index, write_index right behind,
 * both cyclic over the capacity */
static struct cork_ring_buffer *
any_ring(void)
{
    struct cork_ring_buffer  *r = sa_heapobj(sizeof(struct cork_ring_buffer), "ring");
    size_t  cap = sa_u64("capacity");
    sa_assume(cap >= 1 && cap < SA_SIZE_LIMIT / 8);
    r->allocated_size = cap;
    r->elements = sa_heapobj(cap * sizeof(void *), "elements");
    r->size = sa_u64("size");
    r->read_index = sa_u64("read");
    sa_assume(r->size <= cap && r->read_index < cap);
    if (r->size < cap - r->read_index) r->write_index = r->read_index + r->size;
    else r->write_index = r->size - (cap - r->read_index);
    return r;
}
static void
check_ring(struct cork_ring_buffer *r, size_t cap)
{
    sa_check(r->allocated_size == cap, "the capacity never changes");
    sa_check(sa_objsize(r->elements) == cap * sizeof(void *), "storage matches the capacity");
    sa_check(r->size <= cap, "never holds more than its capacity");
    if (cap == 0) return;
    sa_check(r->read_index < cap, "read position stays inside the storage");
    sa_check(r->write_index < cap, "write position stays inside the storage");
    if (r->size < cap - r->read_index) sa_check(r->write_index == r->read_index + r->size, "write position follows the elements");
    else sa_check(r->write_index == r->size - (cap - r->read_index), "write position follows the elements");
}
/* the k-th element in FIFO order */
static void *
nth(struct cork_ring_buffer *r, size_t k)
{
    size_t  cap = r->allocated_size;
    if (k < cap - r->read_index) return r->elements[r->read_index + k];
    return r->elements[k - (cap - r->read_index)];
}
void W_ring_new(void)
{
    size_t  cap = sa_u64("capacity");
    struct cork_ring_buffer  *r;
    sa_assume(cap < SA_SIZE_LIMIT / 8);
    r = cork_ring_buffer_new(cap);
    sa_check(cork_ring_buffer_is_empty(r), "a new ring buffer is empty");
    if (cap > 0) sa_check(!cork_ring_buffer_is_full(r), "and not full");
    check_ring(r, cap);
    sa_check(cork_ring_buffer_pop(r) == NULL && cork_ring_buffer_peek(r) == NULL, "nothing to pop");
    cork_ring_buffer_free(r);
    sa_leaks(NULL);
}
void W_ring_init(void)
{
    struct cork_ring_buffer  r;
    size_t  cap = sa_u64("capacity");
    sa_assume(cap < SA_SIZE_LIMIT / 8);
    sa_check(cork_ring_buffer_init(&r, cap) == 0, "init succeeds");
    sa_check(r.size == 0, "empty");
    check_ring(&r, cap);
    cork_ring_buffer_done(&r);
    sa_leaks(NULL);
}
void W_ring_add(void)
{
    struct cork_ring_buffer  *r = any_ring();
    size_t  cap = r->allocated_size, size = r->size, k = sa_u64("k"), ri = r->read_index, wi = r->write_index;
    void  *x = sa_ptr("element"), *old = NULL;
    int  rc;
    if (k < size) old = nth(r, k);
    rc = cork_ring_buffer_add(r, x);
    check_ring(r, cap);
    if (size == cap) {
        sa_check(rc == -1, "adding to a full buffer fails");
        sa_check(r->size == size && r->read_index == ri && r->write_index == wi, "a failed add changes nothing");
    } else {
        sa_check(rc == 0, "adding below capacity succeeds");
        sa_check(r->size == size + 1, "the count grows by one");
        sa_check(nth(r, size) == x, "the new element is last");
    }
    if (k < size) sa_check(nth(r, k) == old, "earlier elements keep their order");
}
void W_ring_pop(void)
{
    struct cork_ring_buffer  *r = any_ring();
    size_t  cap = r->allocated_size, size = r->size, k = sa_u64("k");
    void  *first = NULL, *old = NULL, *x;
    if (size > 0) first = nth(r, 0);
    if (k >= 1 && k < size) old = nth(r, k);
    x = cork_ring_buffer_pop(r);
    check_ring(r, cap);
    if (size == 0) sa_check(x == NULL && r->size == 0, "popping an empty buffer returns NULL");
    else {
        sa_check(x == first, "the oldest element is returned");
        sa_check(r->size == size - 1, "the count drops by one");
        if (k >= 1 && k < size) sa_check(nth(r, k - 1) == old, "the others move up");
    }
}
void W_ring_peek(void)
{
    struct cork_ring_buffer  *r = any_ring();
    size_t  cap = r->allocated_size, size = r->size, ri = r->read_index, wi = r->write_index;
    void  *x = cork_ring_buffer_peek(r);
    check_ring(r, cap);
    sa_check(r->size == size && r->read_index == ri && r->write_index == wi, "peeking changes nothing");
    if (size == 0) sa_check(x == NULL, "peeking an empty buffer returns NULL");
    else sa_check(x == nth(r, 0), "peek shows the oldest element");
}
void W_ring_done(void)
{
    struct cork_ring_buffer  *r = any_ring();
    cork_ring_buffer_free(r);
    sa_leaks(NULL);
}

/* ------------------------------------------------------------- bitsets */
static struct cork_bitset *
any_bitset(void)
{
    struct cork_bitset  *s = sa_heapobj(sizeof(struct cork_bitset), "bitset");
    size_t  n = sa_u64("bytes"), rest = sa_u64("rest");
    sa_assume(n >= 1 && n < SA_SIZE_LIMIT / 8 && rest < 8);
    s->byte_count = n;
    s->bit_count = n * 8 - rest;
    s->bits = sa_heapobj(n, "bits");
    return s;
}
void W_bitset_new(void)
{
    size_t  q = sa_u64("q"), rest = sa_u64("rest"), i = sa_u64("i"), n;
    struct cork_bitset  *s;
    sa_assume(q < SA_SIZE_LIMIT / 8 && rest < 8);
    n = q * 8 + rest;
    s = cork_bitset_new(n);
    sa_check(s->bit_count == n, "remembers the number of bits");
    sa_check(sa_objsize(s->bits) == s->byte_count, "byte count is the storage size");
    sa_check(s->byte_count == q + (rest != 0), "just enough bytes for every bit");
    if (i < s->byte_count) sa_check(s->bits[i] == 0, "all bits start off");
    cork_bitset_free(s);
    sa_leaks(NULL);
}
void W_bitset_init(void)
{
    struct cork_bitset  s;
    size_t  q = sa_u64("q"), rest = sa_u64("rest"), n;
    sa_assume(q < SA_SIZE_LIMIT / 8 && rest < 8);
    n = q * 8 + rest;
    cork_bitset_init(&s, n);
    sa_check(s.bit_count == n && sa_objsize(s.bits) == s.byte_count, "storage fits");
    cork_bitset_done(&s);
    sa_leaks(NULL);
}
void W_bitset_clear(void)
{
    struct cork_bitset  *s = any_bitset();
    size_t  n = s->byte_count, bc = s->bit_count, i = sa_u64("i");
    uint8_t  *bits = s->bits;
    cork_bitset_clear(s);
    sa_check(s->byte_count == n && s->bit_count == bc && s->bits == bits, "shape is unchanged");
    if (i < n) sa_check(s->bits[i] == 0, "all bits are off");
}
#define BITPOS(j) \
void W_bitset_set_##j(void) \
{ \
    struct cork_bitset  *s = any_bitset(); \
    size_t  byte = sa_u64("byte"), other = sa_u64("other"); \
    uint8_t  before, obefore = 0; \
    bool  val = sa_u8("val") & 1; \
    sa_assume(byte < s->byte_count && byte * 8 + j < s->bit_count); \
    before = s->bits[byte]; \
    if (other < s->byte_count && other != byte) obefore = s->bits[other]; \
    sa_check(cork_bitset_get(s, byte * 8 + j) == (((before >> (7 - j)) & 1) != 0), "get reads the addressed bit"); \
    cork_bitset_set(s, byte * 8 + j, val); \
    sa_check(cork_bitset_get(s, byte * 8 + j) == val, "the bit reads back"); \
    sa_check((s->bits[byte] & (0xff ^ (0x80 >> j))) == (before & (0xff ^ (0x80 >> j))), "its neighbours are unchanged"); \
    if (other < s->byte_count && other != byte) sa_check(s->bits[other] == obefore, "other bytes are unchanged"); \
}
BITPOS(0) BITPOS(1) BITPOS(2) BITPOS(3) BITPOS(4) BITPOS(5) BITPOS(6) BITPOS(7)
