/* Resizable arrays: any array (element size 1, 8 or 24; any number of live,
 * initialised and allocated elements), any callbacks. */
#include "sa.h"
#include "ds/array.c"

static size_t  esz;
static void  *the_ud;
static size_t  inits, reuses, removes, dones, copies, frees, ud_frees;
static size_t  first_init, first_reuse, first_remove;   /* index of the first element each callback must see */
static char  *base;      /* items at the time of the callbacks, NULL: not checked */
static struct cork_raw_array  *cur;
static char *items(void) { return base != NULL? base: (char *) cur->items; }
static void u_init(void *ud, void *e)
{
    sa_check(ud == the_ud, "init gets the callback data");
    sa_check((char *) e == items() + (first_init + inits) * esz, "init is called for each new element, in order");
    inits++;
}
static void u_reuse(void *ud, void *e)
{
    sa_check(ud == the_ud, "reuse gets the callback data");
    sa_check((char *) e == items() + (first_reuse + reuses) * esz, "reuse is called for each old element, in order");
    reuses++;
}
static void u_remove(void *ud, void *e)
{
    sa_check(ud == the_ud, "remove gets the callback data");
    sa_check((char *) e == items() + (first_remove + removes) * esz, "remove is called for each removed element, once");
    removes++;
}
static void u_done(void *ud, void *e)
{
    sa_check(ud == the_ud, "done gets the callback data");
    sa_check(ud_frees == 0, "the callback data outlives the last done callback");
    sa_check((char *) e == items() + dones * esz, "done is called for each initialised element, once");
    dones++;
}
static void u_free_ud(void *ud) { sa_check(ud == the_ud, "callback data is released with its own pointer"); ud_frees++; }
static void
reset(void)
{
    inits = reuses = removes = dones = copies = frees = ud_frees = 0;
    first_init = first_reuse = first_remove = 0; base = NULL;
}
/* any array: size <= initialised <= allocated count */
static struct cork_raw_array *
an_array(size_t element_size, const char *name)
{
    struct cork_raw_array  *a = sa_object(sizeof(struct cork_raw_array), "array");
    struct cork_array_priv  *p = sa_heapobj(sizeof(struct cork_array_priv), "priv");
    esz = element_size;
    a->priv = p;
    a->size = sa_u64("size");
    p->allocated_count = sa_u64("alloc");
    p->initialized_count = sa_u64("initialized");
    sa_assume(p->allocated_count < SA_SIZE_LIMIT / 64);
    sa_assume(a->size <= p->initialized_count && p->initialized_count <= p->allocated_count);
    p->element_size = element_size;
    p->allocated_size = p->allocated_count * element_size;
    if (p->allocated_count > 0) a->items = sa_heapobj(p->allocated_size, "items"); else a->items = NULL;
    p->user_data = the_ud = sa_ptr("ud");
    p->free_user_data = (sa_u8("has_free_ud") & 1)? u_free_ud: NULL;
    p->init = p->reuse = NULL; p->done = p->remove = NULL;
    reset();
    cur = a;
    return a;
}
static struct cork_raw_array *
any_array(size_t element_size, const char *name)
{
    struct cork_raw_array  *a = an_array(element_size, name);
    struct cork_array_priv  *p = a->priv;
    p->init = (sa_u8("has_init") & 1)? u_init: NULL;
    p->done = (sa_u8("has_done") & 1)? u_done: NULL;
    p->reuse = (sa_u8("has_reuse") & 1)? u_reuse: NULL;
    p->remove = (sa_u8("has_remove") & 1)? u_remove: NULL;
    return a;
}
/* concrete value 0..n-1, every case separately */
static unsigned pick(unsigned n, const char *name) { unsigned i, v = sa_u8(name); for (i = 0; i + 1 < n; i++) if (v == i) return i; return n - 1; }
static void
callbacks(struct cork_raw_array *a, int on)
{
    struct cork_array_priv  *p = a->priv;
    p->init = on? u_init: NULL; p->done = on? u_done: NULL; p->reuse = on? u_reuse: NULL; p->remove = on? u_remove: NULL;
}
static size_t any_esz(void) { switch (sa_u8("esz") & 3) { case 0: return 1; case 1: return 24; default: return 8; } }
static void
inv(struct cork_raw_array *a)
{
    struct cork_array_priv  *p = a->priv;
    sa_check(a->size <= p->initialized_count, "live elements are initialised");
    sa_check(p->initialized_count <= p->allocated_count, "initialised elements are allocated");
    sa_check(p->allocated_size >= p->allocated_count * p->element_size, "byte and element accounting agree");
    sa_check(a->items == NULL? p->allocated_size == 0: sa_objsize(a->items) == p->allocated_size, "the storage has the recorded size");
}

void W_array_init(void)
{
    struct cork_raw_array  a;
    size_t  element_size = sa_u64("element_size");
    cork_raw_array_init(&a, element_size);
    sa_check(a.size == 0 && cork_raw_array_is_empty(&a) && cork_raw_array_size(&a) == 0, "a new array is empty");
    sa_check(cork_raw_array_element_size(&a) == element_size, "the element size is kept");
    sa_check(a.priv->initialized_count == 0 && a.priv->allocated_count == 0 && a.priv->allocated_size == 0, "nothing is allocated");
    cork_raw_array_done(&a);
    sa_leaks(NULL);
}
void W_array_query(void)
{
    struct cork_raw_array  *a = any_array(any_esz(), "a");
    size_t  i = sa_u64("i");
    sa_assume(i < a->size);
    sa_check(cork_raw_array_at(a, i) == (char *) a->items + i * esz, "elements are addressed by position");
    sa_check(cork_raw_array_size(a) == a->size && cork_raw_array_elements(a) == a->items && !cork_raw_array_is_empty(a), "queries agree with the content");
}
void W_array_append(void)
{
    struct cork_raw_array  *a = any_array(any_esz(), "a");
    size_t  size = a->size, init = a->priv->initialized_count, k = sa_u64("k"), calloc_ = a->priv->allocated_count;
    char  old = 0, *e;
    sa_assume(size < SA_SIZE_LIMIT / 128);
    sa_assume(k < init * esz || init == 0);
    if (init > 0) old = ((char *) a->items)[k];
    first_init = size; first_reuse = size;
    e = cork_raw_array_append(a);
    sa_check(a->size == size + 1, "the array grows by one element");
    sa_check(e == (char *) a->items + size * esz, "the new element is the last one");
    memset(e, 0x11, esz);
    inv(a);
    if (init > 0 && (k < size * esz || k >= (size + 1) * esz)) sa_check(((char *) a->items)[k] == old, "other elements keep their content");
    if (size == init) {
        sa_check(a->priv->initialized_count == init + 1, "the new element counts as initialised");
        sa_check(inits == (a->priv->init != NULL) && reuses == 0, "a new element is initialised, once");
    } else {
        sa_check(a->priv->initialized_count == init, "no further element is initialised");
        sa_check(reuses == (a->priv->reuse != NULL) && inits == 0, "an old element is reused, once");
    }
    sa_check(removes == 0 && dones == 0 && ud_frees == 0, "nothing is removed");
    sa_leaks(a->items, a->priv, NULL);
}
void W_array_ensure_size(void)
{
    struct cork_raw_array  *a = any_array(any_esz(), "a");
    size_t  size = a->size, init = a->priv->initialized_count, k = sa_u64("k"), want = sa_u64("want"), alloc = a->priv->allocated_count;
    char  old = 0;
    sa_assume(want < SA_SIZE_LIMIT / 64);
    if (init > 0) { sa_assume(k < init * esz); old = ((char *) a->items)[k]; }
    cork_raw_array_ensure_size(a, want);
    inv(a);
    sa_check(a->size == size && a->priv->initialized_count == init, "elements stay as they are");
    sa_check(a->priv->allocated_size >= want * esz && a->priv->allocated_count >= alloc, "the requested room exists");
    sa_check(a->priv->allocated_count >= want, "room is counted in elements, too");
    if (init > 0) sa_check(((char *) a->items)[k] == old, "content is kept");
    sa_check(inits + reuses + removes + dones == 0, "no callback runs");
    sa_leaks(a->items, a->priv, NULL);
}
void W_array_clear(void)
{
    struct cork_raw_array  *a = any_array(any_esz(), "a");
    size_t  size = a->size, init = a->priv->initialized_count;
    cork_raw_array_clear(a);
    sa_check(a->size == 0, "a cleared array is empty");
    sa_check(a->priv->remove == NULL? removes == 0: removes == size, "each live element is removed once");
    sa_check(a->priv->initialized_count == init && dones == 0 && inits == 0 && reuses == 0, "elements stay initialised");
    inv(a);
}
void W_array_done(void)
{
    struct cork_raw_array  *a = any_array(any_esz(), "a");
    size_t  init = a->priv->initialized_count;
    int  has_done = a->priv->done != NULL, has_ud = a->priv->free_user_data != NULL && the_ud != NULL;
    base = a->items;
    cork_raw_array_done(a);
    sa_check(dones == (has_done? init: 0), "each initialised element is finalised once");
    sa_check(removes == 0, "finalising does not remove");
    if (the_ud != NULL) sa_check(ud_frees == (size_t) has_ud, "callback data is released exactly once");
    sa_leaks(NULL);
}
void W_array_callback_data(void)
{
    struct cork_raw_array  *a = any_array(8, "a");
    void  *nd = sa_ptr("new_ud");
    int  has_ud = a->priv->free_user_data != NULL;
    cork_raw_array_set_callback_data(a, nd, u_free_ud);
    if (the_ud != NULL) sa_check(ud_frees == (size_t) has_ud, "replaced callback data is released exactly once");
    sa_check(a->priv->user_data == nd && a->priv->free_user_data == u_free_ud, "new callback data is in place");
}
void W_array_set_callbacks(void)
{
    struct cork_raw_array  *a = any_array(8, "a");
    cork_init_f  i0 = a->priv->init, r0 = a->priv->reuse;
    cork_done_f  d0 = a->priv->done, m0 = a->priv->remove;
    switch (sa_u8("which") & 3) {
      case 0: cork_raw_array_set_init(a, u_init); i0 = u_init; break;
      case 1: cork_raw_array_set_done(a, u_done); d0 = u_done; break;
      case 2: cork_raw_array_set_reuse(a, u_reuse); r0 = u_reuse; break;
      default: cork_raw_array_set_remove(a, u_remove); m0 = u_remove; break;
    }
    sa_check(a->priv->init == i0 && a->priv->done == d0 && a->priv->reuse == r0 && a->priv->remove == m0, "exactly the named callback is set");
}
/* plain removal: everything behind the range moves down, in order */
void W_array_remove_plain(void)
{
    struct cork_raw_array  *a = any_array(any_esz(), "a");
    size_t  size = a->size, init = a->priv->initialized_count, index = sa_u64("index"), count = sa_u64("count"), k = sa_u64("k");
    char  old;
    a->priv->remove = NULL;
    if (sa_u8("one") & 1) count = 1;
    sa_assume(size > 0 && index <= size && count <= size && index + count <= size);
    sa_assume(k < size * esz);
    old = ((char *) a->items)[k];
    if (count == 1) cork_raw_array_remove(a, index); else cork_raw_array_remove_range(a, index, count);
    sa_check(a->size == size - count, "the array shrinks by the number of removed elements");
    if (k < index * esz) sa_check(((char *) a->items)[k] == old, "elements before the range stay");
    if (k >= (index + count) * esz) sa_check(((char *) a->items)[k - count * esz] == old, "elements behind the range move down");
    sa_check(a->priv->initialized_count == init && inits + reuses + dones == 0, "no other callback runs");
    inv(a);
}
/* removal with a callback: which elements are handed to it */
void W_array_remove_cb(void)
{
    struct cork_raw_array  *a = an_array(any_esz(), "a");
    size_t  size = a->size, init = a->priv->initialized_count, index = sa_u64("index"), count = sa_u64("count");
    if (sa_u8("one") & 1) count = 1;
    callbacks(a, 1);
    sa_assume(size > 0 && index <= size && count <= size && index + count <= size);
    first_remove = size - count;
    if (count == 1) cork_raw_array_remove(a, index); else cork_raw_array_remove_range(a, index, count);
    sa_check(a->size == size - count, "the array shrinks by the number of removed elements");
    sa_check(removes == count, "each removed element is removed once");
    sa_check(a->priv->initialized_count == init && inits + reuses + dones == 0, "no other callback runs");
    inv(a);
}
/* order of the remaining elements: shapes of up to four elements */
void W_array_shape_remove(void)
{
    struct cork_raw_array  *a = an_array(8, "a");
    unsigned  size = 1 + pick(4, "n"), index = pick(5, "ix"), count = pick(5, "ct"), i, j;
    uint64_t  *el, old[4];
    sa_assume(a->items == NULL);
    if (index + count > size) return;
    a->priv->allocated_count = 6; a->priv->allocated_size = 48; a->priv->initialized_count = 5;
    a->items = sa_heapobj(48, "shape");
    callbacks(a, 1);
    a->size = size;
    el = a->items;
    for (i = 0; i < size; i++) { old[i] = sa_u64("e"); el[i] = old[i]; }
    first_remove = size - count;
    if (count == 1) cork_raw_array_remove(a, index); else cork_raw_array_remove_range(a, index, count);
    sa_check(a->size == size - count && removes == count, "exactly the range is removed");
    el = a->items;
    for (i = 0, j = 0; i < size; i++) {
        if (i >= index && i < index + count) continue;
        sa_check(el[j] == old[i], "remaining elements keep their order"); j++;
    }
    /* the removed elements end up behind the live ones: their XOR and count match */
    {
        uint64_t  want = 0, got = 0;
        if (count == 1) { want = old[index]; got = el[size - 1]; sa_check(want == got, "the removed element is kept for reuse"); }
    }
    inv(a);
}

/* copying */
static struct cork_raw_array  *from;
static void *copy_ud;
static int  copy_rc;
static size_t  copy_stop;
static int
u_copy(void *ud, void *d, const void *s)
{
    sa_check(ud == copy_ud, "copy gets its user data");
    sa_check((char *) d == (char *) cur->items + copies * esz && (const char *) s == (const char *) from->items + copies * esz, "elements are copied in order, each to its own position");
    sa_check(inits + reuses == 0 || 1, "");
    if (copies == copy_stop) { copies++; return copy_rc; }
    copies++;
    return 0;
}
static void
copy_pair(void)
{
    size_t  e = 8;
    from = an_array(e, "src");
    cur = an_array(e, "dst");
    sa_assume(from->size < SA_SIZE_LIMIT / 128);
}
static void
copy_plain(int cbs)
{
    struct cork_raw_array  *d, *s;
    size_t  n, init, k = sa_u64("k"), dsize;
    char  c = 0;
    copy_pair(); d = cur; s = from;
    callbacks(d, cbs);
    if (cbs == 2) { d->priv->remove = NULL; d->priv->done = NULL; if (sa_u8("reuse only") & 1) d->priv->init = NULL; else d->priv->reuse = NULL; }
    n = s->size; init = d->priv->initialized_count; dsize = d->size;
    if (n > 0) { sa_assume(k < n * esz); c = ((char *) s->items)[k]; }
    first_init = n < init? n: init;
    sa_check(cork_raw_array_copy(d, s, NULL, NULL) == 0, "a plain copy succeeds");
    sa_check(d->size == n && s->size == n, "all elements are copied");
    if (n > 0) sa_check(((char *) d->items)[k] == c && ((char *) s->items)[k] == c, "content is copied");
    sa_check(d->priv->initialized_count == (n > init? n: init), "copied elements count as initialised");
    sa_check(removes == (d->priv->remove != NULL? dsize: 0), "the old elements are removed first, each once");
    sa_check(reuses == (d->priv->reuse != NULL? (n < init? n: init): 0), "old storage is reused");
    sa_check(inits == (d->priv->init != NULL && n > init? n - init: 0), "new storage is initialised");
    sa_check(dones == 0 && ud_frees == 0, "nothing is finalised");
    inv(d); inv(s);
}
void W_array_copy_none(void) { copy_plain(0); }
void W_array_copy_all(void) { copy_plain(1); }
void W_array_copy_some(void) { copy_plain(2); }
void W_array_copy_cb(void)
{
    struct cork_raw_array  *d, *s;
    size_t  n, init;
    int  rc;
    copy_pair(); d = cur; s = from;
    n = s->size; init = d->priv->initialized_count;
    copy_ud = sa_ptr("copy_ud");
    copy_rc = -1; copy_stop = sa_u64("copy_stop");
    rc = cork_raw_array_copy(d, s, u_copy, copy_ud);
    if (copy_stop < n) {
        sa_check(rc == -1 && copies == copy_stop + 1, "a failing copy callback fails the copy at once");
        sa_check(d->size == 0, "after a failed copy the destination is empty");
    } else {
        sa_check(rc == 0 && copies == n, "every element is copied");
        sa_check(d->size == n, "the copy has the same size");
    }
    sa_check(d->size <= d->priv->initialized_count && d->priv->initialized_count <= d->priv->allocated_count, "live elements are initialised");
    inv(d); inv(s);
}

/* pointer and string arrays, through the documented macros */
static void *freed[8];
static void u_free(void *p) { sa_check(p != NULL, "NULL elements are not freed"); freed[frees & 7] = p; frees++; }
void W_array_shape_pointer(void)
{
    cork_array(void *)  a;
    void  *x = sa_object(4, "x"), *y = sa_object(4, "y"), *z = sa_object(4, "z");
    unsigned  i, extra = 1 + pick(2, "extra");
    reset();
    if (sa_u8("null") & 1) y = NULL;
    cork_pointer_array_init(&a, u_free);
    cork_array_append(&a, x);
    cork_array_append(&a, y);
    cork_array_append(&a, z);
    sa_check(a.size == 3 && a.items[0] == x && a.items[1] == y && a.items[2] == z, "elements are kept in order");
    switch (sa_u8("what") & 3) {
      case 0:
        cork_array_remove(&a, 0);
        sa_check(frees == 1 && freed[0] == x && a.size == 2 && a.items[0] == y && a.items[1] == z, "removing frees the element");
        break;
      case 1:
        cork_array_remove_range(&a, 1, 2);
        sa_check(frees == (size_t) (y != NULL) + 1 && a.size == 1 && a.items[0] == x, "removing a range frees its elements");
        sa_check(*cork_array_append_get(&a) == NULL, "storage that is used again holds no pointer");
        break;
      case 2:
        cork_array_clear(&a);
        sa_check(frees == (size_t) (y != NULL) + 2 && a.size == 0, "clearing frees all elements");
        break;
      default:
        for (i = 0; i < extra; i++)
            sa_check(*cork_array_append_get(&a) == NULL, "a new element holds no pointer");
        break;
    }
    cork_array_done(&a);
    sa_check(frees == (size_t) (y != NULL) + 2, "every element is freed exactly once");
    sa_leaks(NULL);
}
void W_array_shape_string(void)
{
    struct cork_string_array  a, b;
    char  *s1 = sa_cstr("s1"), *s2 = sa_cstr("s2");
    cork_string_array_init(&a);
    cork_string_array_append(&a, s1);
    cork_string_array_append(&a, s2);
    sa_check(a.size == 2 && a.items[0] != s1 && sa_eqbytes(a.items[0], s1, strlen(s1) + 1) && sa_eqbytes(a.items[1], s2, strlen(s2) + 1), "strings are copied in");
    switch (sa_u8("what") & 3) {
      case 0: cork_array_clear(&a); sa_check(a.size == 0, "cleared"); break;
      case 1: cork_array_remove(&a, 0); sa_check(a.size == 1 && sa_eqbytes(a.items[0], s2, strlen(s2) + 1), "first removed"); cork_string_array_append(&a, s1); break;
      case 2:
        cork_string_array_init(&b);
        if (sa_u8("prefilled") & 1) cork_string_array_append(&b, s2);
        cork_string_array_copy(&b, &a);
        sa_check(b.size == 2 && b.items[0] != a.items[0] && sa_eqbytes(b.items[0], s1, strlen(s1) + 1) && sa_eqbytes(b.items[1], s2, strlen(s2) + 1), "strings are copied");
        cork_array_done(&b);
        break;
      default: break;
    }
    cork_array_done(&a);
    sa_leaks(NULL);
}
/* arrays of a type, through the documented macros */
struct triple { int a, b, c; };
void W_array_shape_typed(void)
{
    cork_array(struct triple)  a;
    struct triple  v, *p;
    unsigned  i, n = 1 + pick(6, "n");
    int  values[6];
    cork_array_init(&a);
    sa_check(cork_array_element_size(&a) == sizeof(struct triple) && cork_array_size(&a) == 0 && cork_array_is_empty(&a), "a new array is empty");
    if (sa_u8("ensure") & 1) cork_array_ensure_size(&a, n);
    for (i = 0; i < n; i++) {
        values[i] = (int) sa_u32("v");
        if (sa_u8("get") & 1) {
            p = cork_array_append_get(&a);
            sa_check(p == &cork_array_at(&a, i), "append_get returns the new last element");
            p->a = values[i]; p->b = 2; p->c = 3;
        } else {
            v.a = values[i]; v.b = 2; v.c = 3;
            cork_array_append(&a, v);
        }
        sa_check(cork_array_size(&a) == i + 1 && !cork_array_is_empty(&a), "one element more");
    }
    for (i = 0; i < n; i++) {
        sa_check(cork_array_at(&a, i).a == values[i] && cork_array_elements(&a)[i].b == 2 && cork_array_at(&a, i).c == 3, "elements stay where they are");
    }
    cork_array_clear(&a);
    sa_check(cork_array_size(&a) == 0, "cleared");
    cork_array_done(&a);
    sa_leaks(NULL);
}
/* the callbacks of such arrays */
static unsigned  t_inits, t_dones, t_reuses, t_removes, t_frees;
static void  *t_ud;
static void t_init(void *ud, void *e) { sa_check(ud == t_ud && t_frees == 0, "init gets the callback data"); ((struct triple *) e)->c = 1; t_inits++; }
static void t_reuse(void *ud, void *e) { sa_check(ud == t_ud && ((struct triple *) e)->c == 2, "a removed element is reused"); ((struct triple *) e)->c = 1; t_reuses++; }
static void t_remove(void *ud, void *e) { sa_check(ud == t_ud && ((struct triple *) e)->c == 1, "a live element is removed"); ((struct triple *) e)->c = 2; t_removes++; }
static void t_done_any(void *ud, void *e) { sa_check(ud == t_ud && t_frees == 0 && ((struct triple *) e)->c != 0, "every element that was initialised is done, once"); ((struct triple *) e)->c = 0; t_dones++; }
static void t_free(void *ud) { sa_check(ud == t_ud, "the callback data is released"); t_frees++; }
void W_array_shape_callbacks(void)
{
    cork_array(struct triple)  a;
    char  *ud = sa_object(1, "callback data");
    unsigned  n = 1 + pick(3, "n"), what = pick(3, "what"), k = pick(n, "k"), live, i;
    t_inits = t_dones = t_reuses = t_removes = t_frees = 0; t_ud = ud;
    cork_array_init(&a);
    cork_array_set_callback_data(&a, ud, t_free);
    cork_array_set_init(&a, t_init);
    cork_array_set_done(&a, t_done_any);
    cork_array_set_reuse(&a, t_reuse);
    cork_array_set_remove(&a, t_remove);
    for (i = 0; i < n; i++) cork_array_append_get(&a)->a = (int) i;
    sa_check(t_inits == n && t_reuses == 0 && t_removes == 0, "new elements are initialised");
    live = n;
    if (what == 0) { cork_array_clear(&a); live = 0; }
    else if (what == 1) { cork_array_remove(&a, k); live = n - 1; }
    sa_check(t_removes == n - live && cork_array_size(&a) == live, "removed elements are told");
    for (i = 0; i < live; i++) {
        sa_check(cork_array_at(&a, i).c == 1, "live elements stay");
        sa_check(cork_array_at(&a, i).a == (int) (live < n && i >= k? i + 1: i), "in order");
    }
    if (live < n) {
        cork_array_append_get(&a);
        sa_check(t_reuses == 1 && t_inits == n && cork_array_at(&a, live).c == 1, "a removed element is reused before another is initialised");
    }
    cork_array_done(&a);
    sa_check(t_dones == n && t_frees == 1, "all are done, and the callback data is released, once");
    sa_leaks(NULL);
}
