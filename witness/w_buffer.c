#include "sa.h"
#include <libcork/core.h>
#include <libcork/ds.h>

/* the abstract entry state: any buffer satisfying the representation invariant */
static struct cork_buffer *
any_buffer(void)
{
    struct cork_buffer  *b = sa_heapobj(sizeof(struct cork_buffer), "buffer");
    size_t  alloc = sa_u64("alloc");
    if (alloc == 0) {
        b->buf = NULL;
        b->size = 0;
        b->allocated_size = 0;
    } else {
        size_t  size = sa_u64("size");
        sa_assume(alloc < SA_SIZE_LIMIT);
        sa_assume(size < alloc);
        b->buf = sa_heapobj(alloc, "data");
        b->size = size;
        b->allocated_size = alloc;
    }
    return b;
}

static void
check_inv(struct cork_buffer *b)
{
    if (b->buf == NULL) {
        sa_check(b->size == 0, "empty buffer has size 0");
        sa_check(b->allocated_size == 0, "empty buffer has allocated size 0");
    } else {
        sa_check(b->size < b->allocated_size, "size stays below the allocated size");
        sa_check(sa_objsize(b->buf) == b->allocated_size, "allocated_size is the size of the allocation");
        sa_check(sa_alive(b->buf), "data area is allocated");
    }
}

static void
check_term(struct cork_buffer *b)
{
    sa_check(b->buf != NULL, "buffer has a data area");
    sa_check(((char *) b->buf)[b->size] == '\0', "content is followed by a NUL byte");
}

static struct cork_buffer *
any_terminated_buffer(void)
{
    struct cork_buffer  *b = any_buffer();
    if (b->buf != NULL) ((char *) b->buf)[b->size] = '\0';
    return b;
}

/* ghost copy of the content before the operation */
static const char *
snapshot(struct cork_buffer *b, size_t *size)
{
    char  *copy = sa_object(b->size + 1, "old");
    *size = b->size;
    if (b->size != 0) __builtin_memcpy(copy, b->buf, b->size);
    return copy;
}

static size_t
any_len(void)
{
    size_t  n = sa_u64("n");
    sa_assume(n < SA_SIZE_LIMIT);
    return n;
}

void W_buffer_new(void)
{
    struct cork_buffer  *b = cork_buffer_new();
    check_inv(b);
    sa_check(b->size == 0, "a new buffer is empty");
    cork_buffer_free(b);
    sa_leaks(NULL);
}

void W_buffer_init(void)
{
    struct cork_buffer  b;
    struct cork_buffer  c = CORK_BUFFER_INIT();
    cork_buffer_init(&b);
    check_inv(&b);
    check_inv(&c);
    cork_buffer_done(&b);
    sa_leaks(NULL);
}

void W_buffer_done(void)
{
    struct cork_buffer  *b = any_buffer();
    cork_buffer_done(b);
    check_inv(b);
    sa_check(b->buf == NULL, "done releases the data area");
    sa_leaks(b, NULL);
    cork_buffer_done(b);
}

void W_buffer_free(void)
{
    struct cork_buffer  *b = any_buffer();
    cork_buffer_free(b);
    sa_leaks(NULL);
}

void W_buffer_ensure_size(void)
{
    struct cork_buffer  *b = any_buffer();
    size_t  want = any_len();
    size_t  n;
    const char  *old = snapshot(b, &n);
    cork_buffer_ensure_size(b, want);
    check_inv(b);
    sa_check(b->allocated_size >= want, "ensure_size provides the requested space");
    sa_check(b->size == n, "ensure_size does not change the size");
    if (n > 0) sa_check(sa_eqbytes(b->buf, old, n), "ensure_size keeps the content");
    sa_leaks(b, NULL);
}

void W_buffer_clear(void)
{
    struct cork_buffer  *b = any_buffer();
    cork_buffer_clear(b);
    check_inv(b);
    sa_check(b->size == 0, "clear empties the buffer");
    if (b->buf != NULL) check_term(b);
    sa_leaks(b, NULL);
}

void W_buffer_truncate(void)
{
    struct cork_buffer  *b = any_buffer();
    size_t  want = sa_u64("want");
    size_t  n;
    const char  *old = snapshot(b, &n);
    if (b->buf != NULL) sa_assume(((char *) b->buf)[b->size] == '\0');
    cork_buffer_truncate(b, want);
    check_inv(b);
    sa_check(b->size == (want < n ? want : n), "truncate keeps the requested prefix");
    if (b->buf != NULL) check_term(b);
    if (b->size > 0) sa_check(sa_eqbytes(b->buf, old, b->size), "truncate keeps the prefix bytes");
}

void W_buffer_set(void)
{
    struct cork_buffer  *b = any_buffer();
    size_t  n = any_len();
    char  *src = sa_object(n, "src");
    cork_buffer_set(b, src, n);
    check_inv(b);
    check_term(b);
    sa_check(b->size == n, "set makes the size the source length");
    sa_check(sa_eqbytes(b->buf, src, n), "set copies the source");
    sa_leaks(b, NULL);
}

void W_buffer_append(void)
{
    struct cork_buffer  *b = any_buffer();
    size_t  n = any_len();
    size_t  o;
    char  *src = sa_object(n, "src");
    const char  *old = snapshot(b, &o);
    cork_buffer_append(b, src, n);
    check_inv(b);
    check_term(b);
    sa_check(b->size == o + n, "append grows the size by the source length");
    sa_check(sa_eqbytes((char *) b->buf + o, src, n), "append copies the source behind the old content");
    if (o > 0) sa_check(sa_eqbytes(b->buf, old, o), "append keeps the old content");
    sa_leaks(b, NULL);
}

void W_buffer_copy(void)
{
    struct cork_buffer  *b = any_buffer();
    struct cork_buffer  *c = any_buffer();
    int  append = sa_u32("append");
    size_t  o = b->size;
    sa_assume(c->buf != NULL);
    if (append) cork_buffer_append_copy(b, c); else { o = 0; cork_buffer_copy(b, c); }
    check_inv(b);
    check_inv(c);
    check_term(b);
    sa_check(b->size == o + c->size, "copy has the source size");
    sa_check(sa_eqbytes((char *) b->buf + o, c->buf, c->size), "copy has the source bytes");
    sa_check(!sa_same_object(b->buf, c->buf), "copies are independent");
    sa_leaks(b, c, NULL);
}

void W_buffer_string(void)
{
    struct cork_buffer  *b = any_buffer();
    const char  *s = sa_cstr("str");
    size_t  n = __builtin_strlen(s);
    size_t  o = b->size;
    int  append = sa_u32("append");
    if (append) cork_buffer_append_string(b, s); else { o = 0; cork_buffer_set_string(b, s); }
    check_inv(b);
    check_term(b);
    sa_check(b->size == o + n, "string length is added");
    sa_check(sa_eqbytes((char *) b->buf + o, s, n), "string bytes are copied");
    sa_leaks(b, NULL);
}

void W_buffer_literal(void)
{
    struct cork_buffer  *b = any_buffer();
    size_t  o = b->size;
    cork_buffer_append_literal(b, "abc");
    check_inv(b);
    check_term(b);
    sa_check(b->size == o + 3, "literal length is added without its terminator");
    cork_buffer_set_literal(b, "wxyz");
    check_inv(b);
    check_term(b);
    sa_check(b->size == 4, "literal length is set without its terminator");
    sa_check(((char *) b->buf)[3] == 'z', "literal bytes are copied");
}

static void
vprintf_(struct cork_buffer *b, int append, const char *fmt, ...)
{
    va_list  args;
    va_start(args, fmt);
    if (append) cork_buffer_append_vprintf(b, fmt, args);
    else cork_buffer_vprintf(b, fmt, args);
    va_end(args);
}

void W_buffer_printf(void)
{
    struct cork_buffer  *b = any_buffer();
    const char  *fmt = sa_cstr("fmt");
    int  how = sa_u32("how");
    size_t  o;
    const char  *old = snapshot(b, &o);
    if (how == 0) { cork_buffer_append_printf(b, fmt, 1); }
    else if (how == 1) { o = 0; cork_buffer_printf(b, fmt, 1); }
    else if (how == 2) { vprintf_(b, 1, fmt, 1); }
    else { o = 0; vprintf_(b, 0, fmt, 1); }
    check_inv(b);
    check_term(b);
    sa_check(b->size >= o, "formatted text is added behind the old content");
    sa_check(b->size - o == sa_gget("fmt_total"), "the whole formatted text is stored");
    if (o > 0) sa_check(sa_eqbytes(b->buf, old, o), "formatting keeps the old content");
    sa_leaks(b, NULL);
}

void W_buffer_indent(void)
{
    struct cork_buffer  *b = any_buffer();
    size_t  n = any_len();
    size_t  o, k = sa_u64("k");
    const char  *old = snapshot(b, &o);
    cork_buffer_append_indent(b, n);
    check_inv(b);
    check_term(b);
    sa_check(b->size == o + n, "indent adds the requested number of bytes");
    if (o <= k && k < o + n) sa_check(((char *) b->buf)[k] == ' ', "indent adds spaces");
    if (o > 0) sa_check(sa_eqbytes(b->buf, old, o), "indent keeps the old content");
}

void W_buffer_c_string(void)
{
    struct cork_buffer  *b = any_terminated_buffer();
    size_t  n = any_len();
    size_t  o = b->size;
    char  *src = sa_object(n, "src");
    cork_buffer_append_c_string(b, src, n);
    check_inv(b);
    check_term(b);
    sa_check(b->size >= o + 2, "quotes are added");
    sa_leaks(b, NULL);
}

void W_buffer_hex_dump(void)
{
    struct cork_buffer  *b = any_terminated_buffer();
    size_t  n = any_len();
    size_t  indent = sa_u8("indent");
    char  *src = sa_object(n, "src");
    cork_buffer_append_hex_dump(b, indent, src, n);
    check_inv(b);
    if (b->buf != NULL) check_term(b);
    sa_leaks(b, NULL);
}

void W_buffer_multiline(void)
{
    struct cork_buffer  *b = any_terminated_buffer();
    size_t  n = any_len();
    size_t  indent = sa_u8("indent");
    char  *src = sa_object(n, "src");
    cork_buffer_append_multiline(b, indent, src, n);
    check_inv(b);
    if (b->buf != NULL) check_term(b);
    sa_leaks(b, NULL);
}

void W_buffer_binary(void)
{
    struct cork_buffer  *b = any_terminated_buffer();
    size_t  n = any_len();
    size_t  indent = sa_u8("indent");
    char  *src = sa_object(n, "src");
    cork_buffer_append_binary(b, indent, src, n);
    check_inv(b);
    if (b->buf != NULL) check_term(b);
    sa_leaks(b, NULL);
}

void W_buffer_equal(void)
{
    struct cork_buffer  *b = any_buffer();
    struct cork_buffer  *c = any_buffer();
    bool  r = cork_buffer_equal(b, c);
    if (b->size != c->size) sa_check(!r, "buffers of different size differ");
    sa_check(cork_buffer_equal(b, b), "a buffer equals itself");
    sa_check(cork_buffer_equal(c, b) == r, "equality is symmetric");
}

void W_buffer_stream_consumer(void)
{
    struct cork_buffer  *b = any_buffer();
    struct cork_stream_consumer  *c = cork_buffer_to_stream_consumer(b);
    size_t  n = any_len();
    size_t  o = b->size;
    char  *src = sa_object(n, "src");
    int  rc = cork_stream_consumer_data(c, src, n, sa_u8("first") & 1);
    sa_check(rc == 0, "chunk is accepted");
    check_inv(b);
    sa_check(b->size == o + n, "the chunk is appended");
    sa_check(sa_eqbytes((char *) b->buf + o, src, n), "the chunk's bytes are appended");
    sa_check(cork_stream_consumer_eof(c) == 0, "end of stream is accepted");
    sa_check(b->size == o + n, "end of stream leaves the content");
    cork_stream_consumer_free(c);
    check_inv(b);
    sa_leaks(b, NULL);
}
