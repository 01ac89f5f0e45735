/* The allocator interface.  Analysed without the allocation summaries and from the
 * program's initial state: every call below goes through the library's own code.
 * The custom allocator may fail at every request and checks every size it is given. */
#include "sa.h"
#include <stdlib.h>
#include "core/allocator.c"

static const struct cork_alloc  *self;      /* the instance the methods must be given */
static void  *self_ud;
static int  mode;                           /* 0 never fails, 1 may fail, 2 always fails */
static int  failed, aborted_ok, recoverable;
static size_t  allocs, frees, last_size, last_freed_size;
static void  *last_alloc, *last_freed;

void abort(void)
{
    sa_check(!recoverable, "recoverable functions return NULL instead of aborting");
    sa_check(failed || aborted_ok, "the process is only aborted when an allocation failed");
    sa_assume(0);
    for (;;) {}
}

void
__assert_fail(const char *expr, const char *file, unsigned int line, const char *fn)
{
    sa_check(aborted_ok, "assertions only stop impossible requests");
    sa_assume(0);
    for (;;) {}
}

static void (*exit_fn)(void);
static size_t  n_atexit;
int atexit(void (*f)(void)) { n_atexit++; exit_fn = f; return 0; }

static void *
c_xmalloc(const struct cork_alloc *a, size_t size)
{
    void  *p;
    sa_check(a == self, "the method is given its own allocator");
    allocs++; last_size = size;
    if (mode == 2 || (mode == 1 && (sa_u8("fail") & 1))) { failed = 1; return NULL; }
    p = malloc(size);
    sa_assume(p != NULL);
    last_alloc = p;
    return p;
}
static void
c_free(const struct cork_alloc *a, void *p, size_t size)
{
    sa_check(a == self, "the method is given its own allocator");
    frees++; last_freed = p; last_freed_size = size;
    sa_check(sa_objsize(p) == size, "memory is released with the size it was allocated with");
    free(p);
}
static struct cork_alloc *
custom(int m)
{
    struct cork_alloc  *a = cork_alloc_new_alloc(cork_allocator);
    cork_alloc_set_xmalloc(a, c_xmalloc);
    cork_alloc_set_free(a, c_free);
    self = a; mode = m; failed = 0; allocs = 0; frees = 0;
    return a;
}
static struct cork_alloc *
custom_start(int m)
{
    struct cork_alloc  *a;
    failed = 1;                 /* the allocator itself comes from malloc */
    a = custom(m);
    return a;
}
static size_t
any_esize(void)
{
    switch (sa_u8("esize") & 3) { case 0: return 1; case 1: return 8; case 2: return 24; default: return 4096; }
}
static size_t
any_size(const char *n)
{
    size_t  s = sa_u64(n);
    sa_assume(s > 0 && s < SA_SIZE_LIMIT);
    return s;
}

/* ---- default methods on top of xmalloc and free */
void W_alloc_malloc(void)
{
    struct cork_alloc  *a = custom_start(1);
    size_t  n = any_size("n");
    char  *p = cork_alloc_malloc(a, n);
    sa_check(p != NULL, "malloc never returns NULL");
    sa_check(!failed, "it does not return when the allocation failed");
    sa_check(sa_objsize(p) == n && allocs == 1, "exactly the requested size is allocated, once");
    p[0] = 1; p[n - 1] = 1;
    cork_alloc_free(a, p, n);
    sa_check(frees == 1 && last_freed == p && last_freed_size == n, "and released once");
}
/* requests of no bytes at all follow the same rules */
void W_alloc_nothing(void)
{
    struct cork_alloc  *a = custom_start(0);
    size_t  n = sa_u64("n"), m = sa_u64("m");
    char  *p, *q;
    sa_assume(n < SA_SIZE_LIMIT && m < SA_SIZE_LIMIT);
    switch (sa_u8("zero") & 3) { case 0: n = 0; break; case 1: m = 0; break; default: n = 0; m = 0; }
    p = cork_alloc_malloc(a, n);
    sa_check(p != NULL && allocs == 1, "allocated");
    frees = 0;
    mode = 1;
    if (sa_u8("x") & 1) {
        recoverable = 1;
        q = cork_alloc_xrealloc(a, p, n, m);
        sa_check((q == NULL) == failed, "NULL exactly when the allocation failed");
    } else {
        q = cork_alloc_realloc(a, p, n, m);
        sa_check(q != NULL && !failed, "realloc does not return when the allocation failed");
    }
    if (q == NULL) { sa_check(sa_alive(p) && frees == 0, "and then the memory is unchanged"); return; }
    if (q != p) sa_check(!sa_alive(p) && frees == 1, "the old memory is released, once");
    sa_check(sa_objsize(q) == m, "the new size");
    cork_alloc_free(a, q, m);
    recoverable = 0;
    failed = 0;
    p = cork_alloc_malloc(a, 0);
    sa_check(p != NULL && !failed, "malloc does not return when the allocation failed");
}
/* a number of bytes that doesn't exist is never handed out */
void W_alloc_overflow(void)
{
    struct cork_alloc  *a = NULL;
    size_t  count = sa_u64("count"), size = any_esize();
    char  *p;
    if (sa_u8("custom") & 1) { a = custom_start(1); failed = 0; } else failed = 1;
    aborted_ok = 1;
    if (count < 4096) size = (size_t) 1 << 40;
    if (sa_u8("x") & 1) p = a != NULL? cork_alloc_xcalloc(a, count, size): cork_xcalloc(count, size);
    else p = a != NULL? cork_alloc_calloc(a, count, size): cork_calloc(count, size);
    if (p == NULL) return;
    sa_check(count <= SIZE_MAX / size, "there is no memory whose size can't be expressed");
}
void W_alloc_malloc_succeeds(void)
{
    struct cork_alloc  *a = custom_start(0);
    size_t  n = any_size("n");
    sa_check(cork_alloc_malloc(a, n) == last_alloc, "the allocated memory is returned");
}
void W_alloc_xmalloc(void)
{
    struct cork_alloc  *a = custom_start(1);
    size_t  n = any_size("n");
    char  *p;
    recoverable = 1;
    p = cork_alloc_xmalloc(a, n);
    sa_check((p == NULL) == failed, "NULL exactly when the allocation failed");
    if (p == NULL) return;
    sa_check(sa_objsize(p) == n, "the requested size");
    cork_alloc_free(a, p, n);
}
static void
zeroed(const char *p, size_t total)
{
    size_t  k = sa_u64("k");
    sa_check(sa_objsize(p) == total && last_size == total, "count * size bytes are allocated");
    if (k < total) sa_check(p[k] == 0, "every byte is zero");
}
static size_t
any_count(void)
{
    size_t  count = sa_u64("count");
    sa_assume(count > 0 && count < ((size_t) 1 << 48));
    return count;
}
void W_alloc_calloc(void)
{
    struct cork_alloc  *a = custom_start(1);
    size_t  count = any_count(), size = any_esize();
    char  *p = cork_alloc_calloc(a, count, size);
    sa_check(p != NULL && !failed, "calloc never returns NULL");
    zeroed(p, count * size);
    cork_alloc_cfree(a, p, count, size);
    sa_check(frees == 1 && last_freed == p && last_freed_size == count * size, "and released once");
}
void W_alloc_xcalloc(void)
{
    struct cork_alloc  *a = custom_start(1);
    size_t  count = any_count(), size = any_esize();
    char  *p;
    recoverable = 1;
    p = cork_alloc_xcalloc(a, count, size);
    sa_check((p == NULL) == failed, "NULL exactly when the allocation failed");
    if (p == NULL) return;
    zeroed(p, count * size);
    cork_alloc_cfree(a, p, count, size);
}
void W_alloc_calloc_empty(void)
{
    struct cork_alloc  *a = custom_start(0);
    size_t  count = any_count(), size = any_esize();
    char  *p;
    if (sa_u8("z") & 1) count = 0; else size = 0;
    p = (sa_u8("x") & 1)? cork_alloc_xcalloc(a, count, size): cork_alloc_calloc(a, count, size);
    sa_check(sa_objsize(p) == 0, "nothing is needed for no elements");
    cork_alloc_cfree(a, p, count, size);
}
static void
moved(const char *p, size_t n, const char *q, size_t m, size_t k, char ck)
{
    sa_check(q != NULL && sa_objsize(q) == m, "the new size is available");
    if (k < n && k < m) sa_check(q[k] == ck, "the common part of the content is kept");
    if (q != p) sa_check(!sa_alive(p), "the old memory is released when the content moves");
}
void W_alloc_realloc(void)
{
    struct cork_alloc  *a = custom_start(0);
    size_t  n = any_size("n"), m = any_size("m"), k = sa_u64("k");
    char  *p = cork_alloc_malloc(a, n), *q, ck;
    sa_assume(k < n);
    sa_havoc(p);
    ck = p[k];
    mode = 1;
    q = cork_alloc_realloc(a, p, n, m);
    sa_check(!failed, "realloc does not return when the allocation failed");
    moved(p, n, q, m, k, ck);
    cork_alloc_free(a, q, m);
}
void W_alloc_xrealloc(void)
{
    struct cork_alloc  *a = custom_start(0);
    size_t  n = any_size("n"), m = any_size("m"), k = sa_u64("k");
    char  *p = cork_alloc_malloc(a, n), *q, ck;
    sa_assume(k < n);
    sa_havoc(p);
    ck = p[k];
    mode = 1; recoverable = 1;
    q = cork_alloc_xrealloc(a, p, n, m);
    sa_check((q == NULL) == failed, "NULL exactly when the allocation failed");
    if (q == NULL) {
        sa_check(sa_alive(p) && sa_objsize(p) == n && p[k] == ck, "and then the memory is unchanged");
        cork_alloc_free(a, p, n);
    } else {
        moved(p, n, q, m, k, ck);
        cork_alloc_free(a, q, m);
    }
}
void W_alloc_xreallocf(void)
{
    struct cork_alloc  *a = custom_start(0);
    size_t  n = any_size("n"), m = any_size("m"), k = sa_u64("k");
    char  *p = cork_alloc_malloc(a, n), *q, ck;
    sa_assume(k < n);
    sa_havoc(p);
    ck = p[k];
    mode = 1; recoverable = 1;
    q = cork_alloc_xreallocf(a, p, n, m);
    sa_check((q == NULL) == failed, "NULL exactly when the allocation failed");
    if (q == NULL) {
        sa_check(!sa_alive(p) && frees == 1, "and then the old memory is released, once");
    } else {
        moved(p, n, q, m, k, ck);
        cork_alloc_free(a, q, m);
    }
}
void W_alloc_realloc_null(void)
{
    struct cork_alloc  *a = custom_start(1);
    size_t  m = any_size("m");
    int  which = sa_u8("which") & 1;
    char  *q;
    recoverable = which;
    q = which? cork_alloc_xrealloc(a, NULL, 0, m): cork_alloc_realloc(a, NULL, 0, m);
    sa_check((q == NULL) == failed, "a NULL pointer is allocated afresh");
    if (!which) sa_check(q != NULL, "realloc never returns NULL");
    sa_check(frees == 0, "nothing to release");
    if (q != NULL) { sa_check(sa_objsize(q) == m, "the new size"); cork_alloc_free(a, q, m); }
}

/* ---- overridden methods are the ones used, with the instance and the arguments */
static int  used;
static size_t  arg1, arg2;
static void  *argp;
static char  thing;
static void *o_calloc(const struct cork_alloc *a, size_t c, size_t s) { sa_check(a == self && a->user_data == self_ud, "the instance"); used = 1; arg1 = c; arg2 = s; return &thing; }
static void *o_malloc(const struct cork_alloc *a, size_t s) { sa_check(a == self && a->user_data == self_ud, "the instance"); used = 2; arg1 = s; return &thing; }
static void *o_realloc(const struct cork_alloc *a, void *p, size_t o, size_t n) { sa_check(a == self && a->user_data == self_ud, "the instance"); used = 3; argp = p; arg1 = o; arg2 = n; return &thing; }
static void *o_xcalloc(const struct cork_alloc *a, size_t c, size_t s) { sa_check(a == self && a->user_data == self_ud, "the instance"); used = 4; arg1 = c; arg2 = s; return &thing; }
static void *o_xmalloc(const struct cork_alloc *a, size_t s) { sa_check(a == self && a->user_data == self_ud, "the instance"); used = 5; arg1 = s; return &thing; }
static void *o_xrealloc(const struct cork_alloc *a, void *p, size_t o, size_t n) { sa_check(a == self && a->user_data == self_ud, "the instance"); used = 6; argp = p; arg1 = o; arg2 = n; return &thing; }
static void o_free(const struct cork_alloc *a, void *p, size_t s) { sa_check(a == self && a->user_data == self_ud, "the instance"); used = 7; argp = p; arg1 = s; }
static struct cork_alloc *
overridden(void)
{
    struct cork_alloc  *a;
    failed = 1;
    a = cork_alloc_new_alloc(cork_allocator);
    cork_alloc_set_calloc(a, o_calloc);
    cork_alloc_set_malloc(a, o_malloc);
    cork_alloc_set_realloc(a, o_realloc);
    cork_alloc_set_xcalloc(a, o_xcalloc);
    cork_alloc_set_xmalloc(a, o_xmalloc);
    cork_alloc_set_xrealloc(a, o_xrealloc);
    cork_alloc_set_free(a, o_free);
    self = a;
    failed = 0;
    self_ud = sa_ptr("ud");
    cork_alloc_set_user_data(a, self_ud, NULL);
    used = 0;
    return a;
}
/* whether called through the instance or through the process-wide allocator */
void W_alloc_dispatch(void)
{
    struct cork_alloc  *a = overridden();
    size_t  x = any_size("x"), y = any_size("y");
    void  *p = sa_ptr("p");
    int  global = sa_u8("global") & 1;
    sa_assume(x < ((size_t) 1 << 30) && y < ((size_t) 1 << 30));
    if (global) cork_set_allocator(a);
    switch (sa_u8("op") & 7) {
        case 0:
            sa_check((global? cork_calloc(x, y): cork_alloc_calloc(a, x, y)) == &thing, "its result is returned");
            sa_check(used == 1 && arg1 == x && arg2 == y, "calloc method used with the given count and size");
            break;
        case 1:
            sa_check((global? cork_malloc(x): cork_alloc_malloc(a, x)) == &thing, "its result is returned");
            sa_check(used == 2 && arg1 == x, "malloc method used with the given size");
            break;
        case 2:
            sa_check((global? cork_realloc(p, x, y): cork_alloc_realloc(a, p, x, y)) == &thing, "its result is returned");
            sa_check(used == 3 && argp == p && arg1 == x && arg2 == y, "realloc method used with the given pointer and sizes");
            break;
        case 3:
            sa_check((global? cork_xcalloc(x, y): cork_alloc_xcalloc(a, x, y)) == &thing, "its result is returned");
            sa_check(used == 4 && arg1 == x && arg2 == y, "xcalloc method used with the given count and size");
            break;
        case 4:
            sa_check((global? cork_xmalloc(x): cork_alloc_xmalloc(a, x)) == &thing, "its result is returned");
            sa_check(used == 5 && arg1 == x, "xmalloc method used with the given size");
            break;
        case 5:
            if (sa_u8("f") & 1) sa_check((global? cork_xreallocf(p, x, y): cork_alloc_xreallocf(a, p, x, y)) == &thing, "its result is returned");
            else sa_check((global? cork_xrealloc(p, x, y): cork_alloc_xrealloc(a, p, x, y)) == &thing, "its result is returned");
            sa_check(used == 6 && argp == p && arg1 == x && arg2 == y, "xrealloc method used with the given pointer and sizes");
            break;
        case 6:
            if (global) cork_free(p, x); else cork_alloc_free(a, p, x);
            sa_check(used == 7 && argp == p && arg1 == x, "free method used with the given pointer and size");
            break;
        case 7:
            if (global) cork_cfree(p, x, y); else cork_alloc_cfree(a, p, x, y);
            sa_check(used == 7 && argp == p && arg1 == x * y, "free method used with count * size");
            break;
    }
}

/* ---- strings */
static void
is_copy(const char *s, const char *src, size_t len)
{
    size_t  k = sa_u64("k");
    sa_check(s != NULL && s != src, "a fresh copy");
    sa_check(s[len] == '\0', "the copy is NUL-terminated");
    if (k < len) sa_check(s[k] == src[k], "the copy has the same bytes");
    sa_check(cork_strlen(s) == len, "the copy's length is known");
    sa_check(allocs == 1, "one allocation");
}
void W_alloc_strdup(void)
{
    struct cork_alloc  *a = custom_start(1);
    int  x = sa_u8("x") & 1, counted = sa_u8("counted") & 1, global = sa_u8("global") & 1;
    const char  *src, *s;
    size_t  len;
    recoverable = x;
    if (global) cork_set_allocator(a);
    if (counted) {
        len = sa_u64("len");
        sa_assume(len < SA_SIZE_LIMIT);
        src = sa_object(len, "src");
        if (global) s = x? cork_xstrndup(src, len): cork_strndup(src, len);
        else s = x? cork_alloc_xstrndup(a, src, len): cork_alloc_strndup(a, src, len);
    } else {
        src = sa_cstr("src"); len = strlen(src);
        sa_assume(len < SA_SIZE_LIMIT);
        if (global) s = x? cork_xstrdup(src): cork_strdup(src);
        else s = x? cork_alloc_xstrdup(a, src): cork_alloc_strdup(a, src);
    }
    if (!x) sa_check(s != NULL, "never NULL");
    sa_check((s == NULL) == failed, "NULL exactly when the allocation failed");
    if (s == NULL) return;
    is_copy(s, src, len);
    if (global) cork_strfree(s); else cork_alloc_strfree(a, s);
    sa_check(frees == 1 && last_freed == last_alloc, "released once");
}

/* ---- the standard allocator */
void W_alloc_stdlib(void)
{
    size_t  n = any_size("n"), m = any_size("m"), k = sa_u64("k");
    char  *p, *q, ck;
    failed = 1;
    p = cork_malloc(n);
    sa_check(p != NULL && sa_objsize(p) == n, "malloc never returns NULL");
    sa_assume(k < n);
    sa_havoc(p);
    ck = p[k];
    if (sa_u8("x") & 1) {
        q = cork_xrealloc(p, n, m);
        if (q == NULL) {
            sa_check(sa_alive(p) && p[k] == ck, "a failed xrealloc leaves the memory alone");
            cork_free(p, n);
            sa_check(!sa_alive(p), "released");
            return;
        }
    } else {
        q = cork_realloc(p, n, m);
    }
    moved(p, n, q, m, k, ck);
    cork_free(q, m);
    sa_check(!sa_alive(q), "released");
}
void W_alloc_stdlib_reallocf(void)
{
    size_t  n = any_size("n"), m = any_size("m"), k = sa_u64("k");
    char  *p, *q, ck;
    failed = 1;
    p = cork_malloc(n);
    sa_assume(k < n);
    sa_havoc(p);
    ck = p[k];
    q = cork_xreallocf(p, n, m);
    if (q == NULL) { sa_check(!sa_alive(p), "a failed xreallocf releases the memory"); return; }
    moved(p, n, q, m, k, ck);
    cork_free(q, m);
    sa_check(!sa_alive(q), "released");
}
void W_alloc_stdlib_calloc(void)
{
    size_t  count = any_count(), size = any_esize(), k = sa_u64("k");
    int  x = sa_u8("x") & 1;
    char  *p;
    failed = 1;
    p = x? cork_xcalloc(count, size): cork_calloc(count, size);
    if (!x) sa_check(p != NULL, "calloc never returns NULL");
    if (p == NULL) return;
    sa_check(sa_objsize(p) == count * size, "count * size bytes");
    if (k < count * size) sa_check(p[k] == 0, "every byte is zero");
    cork_cfree(p, count, size);
    sa_check(!sa_alive(p), "released");
}
void W_alloc_stdlib_x(void)
{
    size_t  n = any_size("n");
    char  *p = cork_xmalloc(n);         /* must not abort */
    if (p == NULL) return;
    sa_check(sa_objsize(p) == n, "the requested size");
    cork_free(p, n);
    sa_check(!sa_alive(p), "released");
}
void W_alloc_stdlib_str(void)
{
    const char  *src = sa_cstr("src"), *s;
    size_t  len = strlen(src), k = sa_u64("k");
    int  x = sa_u8("x") & 1;
    sa_assume(len < SA_SIZE_LIMIT);
    failed = !x;
    s = x? cork_xstrdup(src): cork_strdup(src);
    if (!x) sa_check(s != NULL, "strdup never returns NULL");
    if (s == NULL) return;
    sa_check(s[len] == '\0' && cork_strlen(s) == len, "the copy has the same length");
    if (k < len) sa_check(s[k] == src[k], "the copy has the same bytes");
    cork_strfree(s);
    sa_leaks(NULL);
}

/* ---- the debugging allocator: sizes are checked, exact sizes go to the parent */
static struct cork_alloc *
debug_start(int m)
{
    struct cork_alloc  *parent = custom_start(0), *d = cork_debug_alloc_new(parent);
    allocs = 0; frees = 0; failed = 0; mode = m;
    return d;
}
void W_alloc_debug(void)
{
    struct cork_alloc  *d = debug_start(1);
    size_t  n = any_size("n"), k = sa_u64("k");
    int  op = sa_u8("op") & 3;
    char  *p;
    recoverable = op & 1;
    p = op == 0? cork_alloc_malloc(d, n): op == 1? cork_alloc_xmalloc(d, n): op == 2? cork_alloc_calloc(d, n, 1): cork_alloc_xcalloc(d, n, 1);
    sa_check((p == NULL) == failed, "a failing parent makes the x functions return NULL");
    if (!(op & 1)) sa_check(p != NULL, "the others never return NULL");
    if (p == NULL) return;
    if (k < n) {
        if (op >= 2) sa_check(p[k] == 0, "calloc clears the memory");
        p[k] = 1;
    }
    cork_alloc_free(d, p, n);
    sa_check(allocs == 1 && frees == 1 && last_freed == last_alloc, "the parent's memory goes back to the parent");
}
void W_alloc_debug_realloc(void)
{
    struct cork_alloc  *d = debug_start(0);
    size_t  n = any_size("n"), m = any_size("m"), k = sa_u64("k");
    char  *p = cork_alloc_malloc(d, n), *q;
    sa_assume(k < n);
    p[k] = 42;
    mode = 1; recoverable = 1;
    q = cork_alloc_xrealloc(d, p, n, m);
    sa_check((q == NULL) == failed, "NULL exactly when the parent fails");
    if (q == NULL) { sa_check(p[k] == 42, "and then nothing changes"); cork_alloc_free(d, p, n); return; }
    if (k < m) sa_check(q[k] == 42, "the content is kept");
    cork_alloc_free(d, q, m);
    sa_check(frees == 2, "everything goes back to the parent");
}
void W_alloc_debug_wrong_size(void)
{
    struct cork_alloc  *d = debug_start(0);
    size_t  n = any_size("n"), m = sa_u64("m");
    char  *p = cork_alloc_malloc(d, n);
    aborted_ok = (m != n);
    cork_alloc_free(d, p, m);
    sa_check(m == n, "releasing with a different size does not go unnoticed");
}

/* ---- lifetime: user data and instances */
static size_t  ud_frees;
static void  *ud_freed[3];
static void ud_free(void *p) { if (ud_frees < 3) ud_freed[ud_frees] = p; ud_frees++; }
void W_alloc_user_data(void)
{
    struct cork_alloc  *a;
    void  *u1 = sa_ptr("u1"), *u2 = sa_ptr("u2");
    int  h1 = sa_u8("h1") & 1, h2 = sa_u8("h2") & 1;
    failed = 1;
    a = cork_alloc_new_alloc(cork_allocator);
    sa_check(a->parent == cork_allocator, "the parent is available to the methods");
    cork_alloc_set_user_data(a, u1, h1? ud_free: NULL);
    sa_check(a->user_data == u1 && ud_frees == 0, "user data is available to the methods");
    cork_alloc_set_user_data(a, u2, h2? ud_free: NULL);
    sa_check(a->user_data == u2, "user data can be replaced");
    sa_check(ud_frees == (size_t) (h1 && u1 != NULL? 1: 0) || (h1 && u1 == NULL && ud_frees <= 1), "replaced user data is released once");
    if (ud_frees > 0) sa_check(ud_freed[0] == u1, "with its own release function");
    sa_check(n_atexit == 1 && exit_fn != NULL, "instances are released at process exit");
    ud_frees = 0;
    exit_fn();
    sa_check(ud_frees == (size_t) (h2 && u2 != NULL? 1: 0) || (h2 && u2 == NULL && ud_frees <= 1), "user data is released once at exit");
    if (ud_frees > 0) sa_check(ud_freed[0] == u2, "the current user data");
    sa_check(!sa_alive(a), "the instance is released at exit");
    sa_leaks(NULL);
}
void W_alloc_exit_order(void)
{
    struct cork_alloc  *a, *b, *c;
    void  *u1 = sa_object(1, "u1"), *u2 = sa_object(1, "u2"), *u3 = sa_object(1, "u3");
    failed = 1;
    a = cork_alloc_new_alloc(cork_allocator);
    cork_alloc_set_xmalloc(a, c_xmalloc);
    cork_alloc_set_free(a, c_free);
    self = a; mode = 0;
    b = cork_alloc_new_alloc(a);
    c = cork_alloc_new_alloc(a);
    cork_alloc_set_user_data(a, u1, ud_free);
    cork_alloc_set_user_data(b, u2, ud_free);
    cork_alloc_set_user_data(c, u3, ud_free);
    sa_check(n_atexit == 1, "one exit handler");
    frees = 0;
    exit_fn();
    sa_check(ud_frees == 3 && ud_freed[0] == u3 && ud_freed[1] == u2 && ud_freed[2] == u1, "instances are released in reverse order of creation");
    sa_check(frees == 2, "children are released by their parent");
    sa_check(!sa_alive(a) && !sa_alive(b) && !sa_alive(c), "all instances are released");
    sa_leaks(NULL);
}
/* allocating by type */
struct thing { char c[24]; };
void W_alloc_typed(void)
{
    struct cork_alloc  *a = custom_start(1);
    struct thing  *t, *u;
    int  global = sa_u8("global") & 1;
    if (global) { mode = 0; cork_set_allocator(a); allocs = 0; frees = 0; mode = 1; }
    failed = 0;
    t = global? cork_new(struct thing): cork_alloc_new(a, struct thing);
    sa_check(t != NULL && !failed && allocs == 1, "allocating by type never returns NULL");
    sa_check(sa_objsize(t) == sizeof(struct thing), "an object of the type");
    recoverable = 1;
    u = global? cork_xnew(struct thing): cork_alloc_xnew(a, struct thing);
    sa_check((u == NULL) == failed && allocs == 2, "NULL exactly when the allocation failed");
    frees = 0;
    if (u != NULL) {
        sa_check(u != t && sa_objsize(u) == sizeof(struct thing), "another object of the type");
        if (global) cork_delete(struct thing, u); else cork_alloc_delete(a, struct thing, u);
        sa_check(frees == 1 && last_freed == u && last_freed_size == sizeof(struct thing), "released once");
        frees = 0;
    }
    if (global) cork_delete(struct thing, t); else cork_alloc_delete(a, struct thing, t);
    sa_check(frees == 1 && last_freed == t && last_freed_size == sizeof(struct thing), "released once");
}
