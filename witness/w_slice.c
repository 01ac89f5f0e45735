#include "sa.h"
#include <libcork/core.h>
#include <libcork/ds.h>

static size_t any_size(void)
{
    size_t  n = sa_u64("size");
    sa_assume(n < SA_SIZE_LIMIT);
    return n;
}

/* --- the error indicator: every failure must leave it set ------------------ */
static int
check_rc(int rc)
{
    if (rc != 0) sa_check(cork_error_occurred(), "a failing call leaves the error condition set");
    else sa_check(!cork_error_occurred(), "a successful call leaves no error condition");
    return rc;
}

/* a slice over a buffer of unknown size, of an unknown (user) implementation */
static size_t  cb_calls, cb_offset, cb_length;
static const struct cork_slice  *cb_self;
static struct cork_slice  *cb_dest;
static int  cb_which;
static void u_free(struct cork_slice *self) { cb_which = 1; cb_calls++; cb_self = self; }
static int u_copy(struct cork_slice *dest, const struct cork_slice *self, size_t off, size_t len)
{ cb_which = 2; cb_calls++; cb_self = self; cb_dest = dest; cb_offset = off; cb_length = len; return (int) sa_u32("rc"); }
static int u_light(struct cork_slice *dest, const struct cork_slice *self, size_t off, size_t len)
{ cb_which = 3; cb_calls++; cb_self = self; cb_dest = dest; cb_offset = off; cb_length = len; return (int) sa_u32("rc"); }
static int u_slice(struct cork_slice *self, size_t off, size_t len)
{ cb_which = 4; cb_calls++; cb_self = self; cb_offset = off; cb_length = len; return (int) sa_u32("rc"); }

static struct cork_slice *
user_slice(struct cork_slice_iface *iface)
{
    struct cork_slice  *s = sa_object(sizeof(struct cork_slice), "slice");
    size_t  n = any_size();
    iface->free = (sa_u8("has_free") & 1)? u_free: NULL;
    iface->copy = u_copy;
    iface->light_copy = u_light;
    iface->slice = (sa_u8("has_slice") & 1)? u_slice: NULL;
    s->buf = sa_object(n, "bytes");
    s->size = n;
    s->iface = iface;
    s->user_data = sa_ptr("ud");
    cb_calls = 0; cb_which = 0; cb_self = NULL; cb_dest = NULL;
    cork_error_clear();
    return s;
}

static int valid(size_t size, size_t off, size_t len) { return off <= size && len <= size - off; }

static void
check_cleared(struct cork_slice *d)
{
    sa_check(d->buf == NULL && d->size == 0 && d->iface == NULL, "a failed copy leaves an empty slice");
}

#define COPY_ENTRY(NAME, FN, WHICH) \
void W_slice_##NAME(void) \
{ \
    struct cork_slice_iface  iface; \
    struct cork_slice  *s = user_slice(&iface), *d = sa_object(sizeof(struct cork_slice), "dest"); \
    size_t  off = sa_u64("offset"), len = sa_u64("length"), size = s->size; \
    const void  *buf = s->buf; \
    int  rc = FN(d, s, off, len); \
    if (valid(size, off, len)) { \
        sa_check(cb_calls == 1 && cb_which == WHICH, "a valid range is delegated to the implementation once"); \
        sa_check(cb_self == s && cb_dest == d, "implementation gets source and destination"); \
        sa_check(cb_offset == off && cb_length == len, "implementation gets the requested range"); \
    } else { \
        sa_check(rc != 0, "a range outside the slice is rejected"); \
        sa_check(cb_calls == 0, "the implementation never sees an invalid range"); \
        sa_check(cork_error_occurred(), "a rejected range sets the error condition"); \
        sa_check(cork_error_code() == CORK_SLICE_ERROR + CORK_SLICE_INVALID_SLICE, "with the documented code"); \
        check_cleared(d); \
    } \
    sa_check(s->buf == buf && s->size == size, "the source slice is unchanged"); \
} \
void W_slice_##NAME##_offset(void) \
{ \
    struct cork_slice_iface  iface; \
    struct cork_slice  *s = user_slice(&iface), *d = sa_object(sizeof(struct cork_slice), "dest"); \
    size_t  off = sa_u64("offset"), size = s->size; \
    int  rc = FN##_offset(d, s, off); \
    if (off <= size) { \
        sa_check(cb_calls == 1 && cb_which == WHICH, "a valid range is delegated to the implementation once"); \
        sa_check(cb_offset == off && cb_length == size - off, "implementation gets the rest of the slice"); \
    } else { \
        sa_check(rc != 0 && cb_calls == 0, "an offset outside the slice is rejected"); \
        sa_check(cork_error_occurred(), "a rejected offset sets the error condition"); \
        check_cleared(d); \
    } \
} \
void W_slice_##NAME##_null(void) \
{ \
    struct cork_slice  *d = sa_object(sizeof(struct cork_slice), "dest"); \
    size_t  off = sa_u64("offset"), len = sa_u64("length"); \
    cork_error_clear(); \
    sa_check(FN(d, NULL, off, len) != 0, "a NULL slice is rejected"); \
    sa_check(cork_error_occurred(), "a NULL slice sets the error condition"); \
    check_cleared(d); \
    cork_error_clear(); \
    sa_check(FN##_offset(d, NULL, off) != 0, "a NULL slice is rejected"); \
    sa_check(cork_error_occurred(), "a NULL slice sets the error condition"); \
    check_cleared(d); \
}
COPY_ENTRY(copy, cork_slice_copy, 2)
COPY_ENTRY(light_copy, cork_slice_light_copy, 3)

static void
check_window(struct cork_slice *s, const void *buf, size_t off, size_t len)
{
    sa_check(s->buf == (const char *) buf + off, "slice starts at the requested offset");
    sa_check(s->size == len, "slice has the requested length");
}

void W_slice_slice(void)
{
    struct cork_slice_iface  iface;
    struct cork_slice  *s = user_slice(&iface);
    size_t  off = sa_u64("offset"), len = sa_u64("length"), size = s->size;
    const void  *buf = s->buf;
    int  rc = cork_slice_slice(s, off, len);
    if (!valid(size, off, len)) {
        sa_check(rc != 0 && cork_error_occurred(), "a range outside the slice is rejected");
        sa_check(cb_calls == 0, "the implementation never sees an invalid range");
        check_window(s, buf, 0, size);
    } else if (iface.slice == NULL) {
        sa_check(rc == 0 && !cork_error_occurred(), "a valid range is accepted");
        check_window(s, buf, off, len);
    } else {
        sa_check(cb_calls == 1 && cb_which == 4 && cb_offset == off && cb_length == len && cb_self == s, "delegated");
    }
}
void W_slice_slice_offset(void)
{
    struct cork_slice_iface  iface;
    struct cork_slice  *s = user_slice(&iface);
    size_t  off = sa_u64("offset"), size = s->size;
    const void  *buf = s->buf;
    int  rc = cork_slice_slice_offset(s, off);
    if (off > size) {
        sa_check(rc != 0 && cork_error_occurred() && cb_calls == 0, "an offset outside the slice is rejected");
        check_window(s, buf, 0, size);
    } else if (iface.slice == NULL) {
        sa_check(rc == 0 && !cork_error_occurred(), "a valid offset is accepted");
        check_window(s, buf, off, size - off);
    } else sa_check(cb_calls == 1 && cb_which == 4 && cb_offset == off && cb_length == size - off, "delegated");
}
void W_slice_advance_checked(void)
{
    struct cork_slice_iface  iface;
    struct cork_slice  *s = user_slice(&iface);
    size_t  off = sa_u64("offset"), size = s->size;
    const void  *buf = s->buf, *r = cork_slice_advance_checked(s, off);
    if (off > size) {
        sa_check(r == NULL && cork_error_occurred() && cb_calls == 0, "advancing past the end is rejected");
        check_window(s, buf, 0, size);
    } else if (iface.slice == NULL) {
        sa_check(r == buf && !cork_error_occurred(), "advance returns the old start");
        check_window(s, buf, off, size - off);
    } else {
        sa_check(cb_calls == 1 && cb_which == 4 && cb_offset == off && cb_length == size - off, "delegated");
        sa_check(r == buf || r == NULL, "advance returns the old start or NULL");
    }
}
void W_slice_fast(void)
{
    struct cork_slice_iface  iface;
    struct cork_slice  *s = user_slice(&iface), *d = sa_object(sizeof(struct cork_slice), "dest");
    size_t  off = sa_u64("offset"), len = sa_u64("length"), size = s->size;
    const void  *buf = s->buf;
    sa_assume(valid(size, off, len));
    switch (sa_u8("which")) {
      case 0: cork_slice_copy_fast(d, s, off, len);
        sa_check(cb_which == 2 && cb_offset == off && cb_length == len && cb_self == s && cb_dest == d, "delegated"); break;
      case 1: cork_slice_copy_offset_fast(d, s, off);
        sa_check(cb_which == 2 && cb_offset == off && cb_length == size - off && cb_self == s && cb_dest == d, "delegated"); break;
      case 2: cork_slice_light_copy_fast(d, s, off, len);
        sa_check(cb_which == 3 && cb_offset == off && cb_length == len && cb_self == s && cb_dest == d, "delegated"); break;
      case 3: cork_slice_light_copy_offset_fast(d, s, off);
        sa_check(cb_which == 3 && cb_offset == off && cb_length == size - off && cb_self == s && cb_dest == d, "delegated"); break;
      case 4: {
        int rc = cork_slice_slice_fast(s, off, len);
        if (iface.slice == NULL) { sa_check(rc == 0, "ok"); check_window(s, buf, off, len); }
        else sa_check(cb_which == 4 && cb_offset == off && cb_length == len && cb_self == s, "delegated");
        break; }
      case 5: {
        int rc = cork_slice_slice_offset_fast(s, off);
        if (iface.slice == NULL) { sa_check(rc == 0, "ok"); check_window(s, buf, off, size - off); }
        else sa_check(cb_which == 4 && cb_offset == off && cb_length == size - off && cb_self == s, "delegated");
        break; }
      default: {
        const void *r = cork_slice_advance(s, off);
        if (iface.slice == NULL) { sa_check(r == buf, "advance returns the old start"); check_window(s, buf, off, size - off); }
        else { sa_check(cb_which == 4 && cb_offset == off && cb_length == size - off && cb_self == s, "delegated");
               sa_check(r == buf || r == NULL, "advance returns the old start or NULL"); }
        break; }
    }
}
void W_slice_null(void)
{
    size_t  off = sa_u64("offset"), len = sa_u64("length");
    cork_error_clear();
    sa_check(cork_slice_slice(NULL, off, len) != 0, "a NULL slice is rejected");
    sa_check(cork_error_occurred(), "a NULL slice sets the error condition");
    cork_error_clear();
    sa_check(cork_slice_slice_offset(NULL, off) != 0, "a NULL slice is rejected");
    sa_check(cork_error_occurred(), "a NULL slice sets the error condition");
    cork_error_clear();
    sa_check(cork_slice_advance_checked(NULL, off) == NULL, "a NULL slice is rejected");
    sa_check(cork_error_occurred(), "a NULL slice sets the error condition");
}
void W_slice_finish(void)
{
    struct cork_slice_iface  iface;
    struct cork_slice  *s = user_slice(&iface);
    cork_slice_finish(s);
    sa_check(cb_calls == (iface.free != NULL) && (cb_calls == 0 || (cb_which == 1 && cb_self == s)), "the implementation's release runs exactly once");
    check_cleared(s);
    cork_slice_finish(s);
    sa_check(cb_calls == (iface.free != NULL), "finishing again releases nothing");
    sa_check(cork_slice_is_empty(s), "a finished slice is empty");
}
void W_slice_equal(void)
{
    struct cork_slice  a, b;
    size_t  n = any_size(), m = any_size();
    a.buf = sa_object(n, "a"); a.size = n; b.buf = sa_object(m, "b"); b.size = m;
    sa_check(cork_slice_equal(&a, &a), "a slice equals itself");
    {
        bool  e = cork_slice_equal(&a, &b);
        if (n != m) sa_check(!e, "slices of different length differ");
        else sa_check(e == (memcmp(a.buf, b.buf, n) == 0), "equality is byte equality");
    }
}

/* --- built-in implementations ------------------------------------------------ */
void W_slice_static(void)
{
    struct cork_slice  s, d, l;
    size_t  n = any_size(), off = sa_u64("offset"), len = sa_u64("length");
    const char  *buf = sa_object(n, "bytes");
    cork_slice_init_static(&s, buf, n);
    check_window(&s, buf, 0, n);
    cork_error_clear();
    if (cork_slice_copy(&d, &s, off, len) == 0) {
        sa_check(valid(n, off, len), "only valid ranges succeed");
        check_window(&d, buf, off, len);
        sa_check(cork_slice_light_copy(&l, &d, 0, len) == 0, "a copy can be copied");
        check_window(&l, buf, off, len);
        cork_slice_finish(&s);
        cork_slice_finish(&l);
        check_window(&d, buf, off, len);
        cork_slice_finish(&d);
    } else {
        sa_check(!valid(n, off, len), "valid ranges succeed");
        cork_slice_finish(&d);
        cork_slice_finish(&s);
    }
    sa_leaks(NULL);
}
void W_slice_copy_once(void)
{
    struct cork_slice  s, d, e;
    size_t  n = any_size(), off = sa_u64("offset"), len = sa_u64("length");
    char  *buf = sa_object(n, "bytes");
    const void  *copy;
    cork_slice_init_copy_once(&s, buf, n);
    check_window(&s, buf, 0, n);
    cork_error_clear();
    if (cork_slice_copy(&d, &s, off, len) == 0) {
        sa_check(valid(n, off, len), "only valid ranges succeed");
        copy = s.buf;
        sa_check(d.size == len && s.size == n, "sizes are kept");
        sa_check(!sa_same_object(copy, buf), "the copy owns its own bytes");
        sa_check(d.buf == (const char *) copy + off, "copy and source share one managed copy");
        sa_check(sa_eqbytes(copy, buf, n), "the managed copy has the source's bytes");
        sa_check(cork_slice_copy(&e, &s, 0, n) == 0, "second copy succeeds");
        sa_check(e.buf == copy, "the bytes are copied only once");
        sa_havoc(buf);
        cork_slice_finish(&s);
        sa_check(sa_alive(d.buf) && sa_alive(e.buf), "copies outlive the source");
        cork_slice_finish(&e);
        sa_check(sa_alive(d.buf), "remaining copy keeps the bytes alive");
        cork_slice_finish(&d);
        sa_check(!sa_alive(copy), "the last slice frees the bytes");
    } else {
        sa_check(!valid(n, off, len), "valid ranges succeed");
        cork_slice_finish(&d);
        cork_slice_finish(&s);
    }
    sa_leaks(NULL);
}
void W_slice_copy_once_light(void)
{
    struct cork_slice  s, d, e;
    size_t  n = any_size(), off = sa_u64("offset"), len = sa_u64("length");
    char  *buf = sa_object(n, "bytes");
    cork_slice_init_copy_once(&s, buf, n);
    cork_error_clear();
    sa_assume(valid(n, off, len));
    sa_check(cork_slice_light_copy(&d, &s, off, len) == 0, "valid ranges succeed");
    check_window(&d, buf, off, len);
    check_window(&s, buf, 0, n);
    sa_check(cork_slice_copy(&e, &d, 0, len) == 0, "a light copy can be copied");
    sa_check(!sa_same_object(e.buf, buf), "a full copy of a light copy owns its bytes");
    sa_check(sa_eqbytes(e.buf, buf + off, len), "with the same content");
    cork_slice_finish(&d);
    cork_slice_finish(&s);
    sa_check(sa_alive(e.buf), "the full copy outlives both");
    cork_slice_finish(&e);
    sa_leaks(NULL);
}

/* --- managed buffers ---------------------------------------------------------- */
static int  freed_count;
static void  *freed_buf;
static size_t  freed_size;
static void u_freer(void *buf, size_t size) { freed_count++; freed_buf = buf; freed_size = size; }

void W_managed_copy(void)
{
    size_t  n = any_size();
    const char  *src = sa_object(n, "src");
    struct cork_managed_buffer  *m = cork_managed_buffer_new_copy(src, n);
    const void  *data = m->buf;
    sa_check(m->size == n && m->ref_count == 1, "one reference, same size");
    sa_check(!sa_same_object(data, src) && sa_eqbytes(data, src, n), "an independent copy of the bytes");
    sa_check(cork_managed_buffer_ref(m) == m, "ref returns its argument");
    cork_managed_buffer_unref(m);
    sa_check(sa_alive(data), "still referenced");
    cork_managed_buffer_unref(m);
    sa_check(!sa_alive(data), "released with the last reference");
    sa_leaks(NULL);
}
void W_managed_wrapped(void)
{
    size_t  n = any_size();
    char  *src = sa_object(n, "src");
    struct cork_managed_buffer  *m = cork_managed_buffer_new(src, n, u_freer);
    freed_count = 0;
    sa_check(m->buf == src && m->size == n && m->ref_count == 1, "wraps the given bytes");
    cork_managed_buffer_ref(m);
    cork_managed_buffer_unref(m);
    sa_check(freed_count == 0, "not released while referenced");
    cork_managed_buffer_unref(m);
    sa_check(freed_count == 1 && freed_buf == src && freed_size == n, "released exactly once with its buffer and size");
    sa_leaks(NULL);
}
/* any managed buffer with any reference count */
static int  mfree_calls;
static void u_mfree(struct cork_managed_buffer *m) { mfree_calls++; }
static struct cork_managed_buffer_iface  u_miface = { u_mfree };
static struct cork_managed_buffer *
any_managed(void)
{
    struct cork_managed_buffer  *m = sa_object(sizeof(struct cork_managed_buffer), "managed");
    size_t  n = any_size();
    m->buf = sa_object(n, "bytes"); m->size = n;
    m->ref_count = (int) sa_u32("refs");
    sa_assume(m->ref_count >= 1 && m->ref_count < 1000000000);
    m->iface = &u_miface;
    mfree_calls = 0;
    cork_error_clear();
    return m;
}
void W_managed_ref(void)
{
    struct cork_managed_buffer  *m = any_managed();
    int  refs = m->ref_count;
    sa_check(cork_managed_buffer_ref(m) == m && m->ref_count == refs + 1 && mfree_calls == 0, "ref adds one reference");
}
void W_managed_unref(void)
{
    struct cork_managed_buffer  *m = any_managed();
    int  refs = m->ref_count;
    cork_managed_buffer_unref(m);
    sa_check(m->ref_count == refs - 1, "unref drops one reference");
    sa_check(mfree_calls == (refs == 1), "released exactly when the count reaches zero");
}
/* the same while other threads hold and drop references of their own */
void W_managed_ref_shared(void)
{
    struct cork_managed_buffer  *m = any_managed();
    sa_shared_count((int *) &m->ref_count);
    sa_check(cork_managed_buffer_ref(m) == m && mfree_calls == 0, "ref returns the buffer");
    sa_check(sa_gget("rmw_count") == 1 && sa_gget("rmw_delta") == 1, "one atomic increment");
}
void W_managed_unref_shared(void)
{
    struct cork_managed_buffer  *m = any_managed();
    sa_shared_count((int *) &m->ref_count);
    cork_managed_buffer_unref(m);
    sa_check(sa_gget("rmw_count") == 1 && sa_gget("rmw_delta") == (uint64_t) -1, "one atomic decrement");
    sa_check(mfree_calls == sa_gget("rmw_last"), "released by exactly the thread that drops the last reference");
}
void W_managed_slice(void)
{
    struct cork_managed_buffer  *m = any_managed();
    struct cork_slice  s, d;
    int  refs = m->ref_count;
    size_t  off = sa_u64("offset"), len = sa_u64("length"), o2 = sa_u64("offset2"), l2 = sa_u64("length2");
    int  rc = cork_managed_buffer_slice(&s, m, off, len);
    if (!valid(m->size, off, len)) {
        sa_check(rc != 0 && cork_error_occurred(), "a range outside the buffer is rejected with an error");
        sa_check(m->ref_count == refs, "a rejected slice takes no reference");
        check_cleared(&s);
        return;
    }
    sa_check(rc == 0 && !cork_error_occurred(), "a valid range is accepted");
    check_window(&s, m->buf, off, len);
    sa_check(m->ref_count == refs + 1, "a slice holds one reference");
    rc = (sa_u8("light") & 1)? cork_slice_light_copy(&d, &s, o2, l2): cork_slice_copy(&d, &s, o2, l2);
    if (valid(len, o2, l2)) {
        sa_check(rc == 0, "a valid sub-range is accepted");
        check_window(&d, m->buf, off + o2, l2);
        sa_check(m->ref_count == refs + 2, "every slice holds its own reference");
    } else {
        sa_check(rc != 0 && cork_error_occurred(), "an invalid sub-range is rejected");
        sa_check(m->ref_count == refs + 1, "a rejected copy takes no reference");
    }
    check_window(&s, m->buf, off, len);
    cork_slice_finish(&s);
    cork_slice_finish(&d);
    sa_check(m->ref_count == refs && mfree_calls == 0, "finishing slices returns their references");
}
void W_managed_slice_sub(void)
{
    struct cork_managed_buffer  *m = any_managed();
    struct cork_slice  s;
    int  refs = m->ref_count;
    size_t  off = sa_u64("offset"), o2 = sa_u64("offset2"), l2 = sa_u64("length2");
    int  rc = cork_managed_buffer_slice_offset(&s, m, off);
    if (off > m->size) {
        sa_check(rc != 0 && cork_error_occurred() && m->ref_count == refs, "an offset outside the buffer is rejected");
        check_cleared(&s);
        return;
    }
    sa_check(rc == 0, "valid offset is accepted");
    check_window(&s, m->buf, off, m->size - off);
    rc = cork_slice_slice(&s, o2, l2);
    sa_check((rc == 0) == valid(m->size - off, o2, l2), "sub-slicing succeeds exactly for valid ranges");
    sa_check(m->ref_count == refs + 1, "sub-slicing keeps the one reference");
    if (rc == 0) check_window(&s, m->buf, off + o2, l2);
    else check_window(&s, m->buf, off, m->size - off);
    cork_slice_finish(&s);
    sa_check(m->ref_count == refs, "finish drops the reference");
}
void W_managed_null(void)
{
    struct cork_slice  *s = sa_object(sizeof(struct cork_slice), "s"), *s2 = sa_object(sizeof(struct cork_slice), "s2");
    size_t  off = sa_u64("offset"), len = sa_u64("length");
    cork_error_clear();
    sa_check(cork_managed_buffer_slice(s, NULL, off, len) != 0 && cork_error_occurred(), "NULL buffer is an error");
    check_cleared(s);
    cork_error_clear();
    sa_check(cork_managed_buffer_slice_offset(s2, NULL, off) != 0 && cork_error_occurred(), "NULL buffer is an error");
    check_cleared(s2);
}
void W_managed_from_buffer(void)
{
    struct cork_buffer  *b = sa_heapobj(sizeof(struct cork_buffer), "buffer");
    size_t  alloc = any_size(), size = any_size();
    struct cork_slice  s;
    const void  *data;
    sa_assume(size < alloc);
    b->buf = sa_heapobj(alloc, "data"); b->size = size; b->allocated_size = alloc;
    data = b->buf;
    cork_error_clear();
    sa_check(cork_buffer_to_slice(b, &s) == 0, "a buffer becomes a slice");
    check_window(&s, data, 0, size);
    sa_check(sa_alive(data) && sa_alive(b), "bytes are alive while sliced");
    cork_slice_finish(&s);
    sa_check(!sa_alive(data) && !sa_alive(b), "finishing the last slice frees the buffer");
    sa_leaks(NULL);
}
void W_managed_from_buffer2(void)
{
    struct cork_buffer  *b = sa_heapobj(sizeof(struct cork_buffer), "buffer");
    size_t  alloc = any_size(), size = any_size();
    struct cork_managed_buffer  *m;
    const void  *data;
    sa_assume(size < alloc);
    b->buf = sa_heapobj(alloc, "data"); b->size = size; b->allocated_size = alloc;
    data = b->buf;
    m = cork_buffer_to_managed_buffer(b);
    sa_check(m->buf == data && m->size == size && m->ref_count == 1, "wraps the buffer's bytes");
    cork_managed_buffer_unref(m);
    sa_check(!sa_alive(data) && !sa_alive(b), "last reference frees the buffer");
    sa_leaks(NULL);
}
