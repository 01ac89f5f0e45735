/* Hash tables: the bin a key belongs to, and the insertion order, are explicit
 * (every table with up to 3 entries, each in the key's bin or in another one);
 * hashes, keys, values, callbacks, and which entry (if any) equals the key are
 * arbitrary.  Bin counts are concrete powers of two. */
#include "sa.h"
#include "ds/hash-table.c"

#define MAXE 3
typedef struct cork_hash_table_entry_priv  ent;
static struct cork_hash_table  *t;
static ent  *en[MAXE + 1];
static unsigned  n, eq_index, n_eq_calls;
static int  in_bin[MAXE + 1];
static const void  *the_key;
static void  *the_ud;
static cork_hash  the_hash;
static unsigned  bin;
static unsigned  key_frees, value_frees, hash_calls, ud_frees;
static void  *key_freed, *value_freed;

static cork_hash
u_hash(void *ud, const void *key)
{
    sa_check(ud == the_ud && key == the_key, "the hash callback gets the user data and the key");
    hash_calls++;
    return the_hash;
}
/* at most one entry has an equal key */
static bool
u_equals(void *ud, const void *k1, const void *k2)
{
    unsigned  i;
    sa_check(ud == the_ud, "the comparison callback gets the user data");
    n_eq_calls++;
    for (i = 0; i < n; i++) {
        if (k2 == en[i]->public.key) return k1 == the_key && i == eq_index;
        if (k1 == en[i]->public.key) return k2 == the_key && i == eq_index;
    }
    sa_unreachable("keys are compared with keys of the table");
    return false;
}
static void u_free_key(void *k) { key_frees++; key_freed = k; }
static void u_free_value(void *v) { value_frees++; value_freed = v; }
static void u_free_ud(void *ud) { sa_check(ud == the_ud, "user data is released with its own pointer"); ud_frees++; }

static void
link_tail(struct cork_dllist *l, struct cork_dllist_item *x)
{
    struct cork_dllist_item  *p = l->head.prev;
    x->prev = p; x->next = &l->head; p->next = x; l->head.prev = x;
}
static void
reset(void)
{
    key_frees = value_frees = hash_calls = ud_frees = n_eq_calls = 0; key_freed = value_freed = NULL;
}
static void
table_base(size_t bins)
{
    unsigned  i;
    t = sa_heapobj(sizeof(struct cork_hash_table), "table");
    t->bins = sa_heapobj(bins * sizeof(struct cork_dllist), "bins");
    t->bin_count = bins;
    t->bin_mask = bins - 1;
    for (i = 0; i < bins; i++) { t->bins[i].head.next = &t->bins[i].head; t->bins[i].head.prev = &t->bins[i].head; }
    t->insertion_order.head.next = &t->insertion_order.head;
    t->insertion_order.head.prev = &t->insertion_order.head;
    t->user_data = the_ud = sa_ptr("ud");
    t->free_user_data = (sa_u8("has_free_ud") & 1)? u_free_ud: NULL;
    t->hash = u_hash;
    t->equals = u_equals;
    t->free_key = NULL;
    t->free_value = NULL;
    reset();
}
/* 8 bins; up to max entries; the key's hash selects a bin and so do the
 * entries': same bin as the key, or bin other */
static void
any_table(unsigned max)
{
    unsigned  i, other;
    size_t  more = sa_u64("more_entries");
    table_base(8);
    bin = sa_u8("bin") & 1? 5: 0;
    other = bin == 5? 6: 7;
    the_key = sa_ptr("key");
    the_hash = (sa_u32("hash") & 0xfffffff8u) | bin;
    n = 0;
    for (i = 0; i < max; i++) {
        ent  *e;
        if (sa_u8("fewer") & 1) break;
        e = sa_heapobj(sizeof(ent), "entry");
        en[i] = e; n++;
        in_bin[i] = sa_u8("in_bin") & 1;
        e->public.hash = (sa_u32("ehash") & 0xfffffff8u) | (in_bin[i]? bin: other);
        e->public.key = sa_object(1, "ekey");
        e->public.value = sa_ptr("evalue");
        link_tail(&t->insertion_order, &e->insertion_order);
        link_tail(&t->bins[in_bin[i]? bin: other], &e->in_bucket);
    }
    /* which entry's key equals the_key?  (an equal key has an equal hash, hence the same bin) */
    eq_index = sa_u8("equal") & 3;
    if (eq_index < n && !in_bin[eq_index]) eq_index = MAXE;
    /* entries of other bins, not shown */
    sa_assume(more < 40);
    t->entry_count = n + more;
    if (eq_index < n) en[eq_index]->public.hash = the_hash;
}
/* the table holds exactly en[0..n): in order, in their bins, nothing else in the shown bins */
static void
expect_table(size_t count)
{
    unsigned  i, b;
    sa_check(t->user_data == the_ud, "the user data stays what the caller set");
    struct cork_dllist_item  *prev = &t->insertion_order.head;
    sa_check(t->bin_mask == t->bin_count - 1, "mask matches the number of bins");
    sa_check(sa_objsize(t->bins) == t->bin_count * sizeof(struct cork_dllist), "storage matches the number of bins");
    for (i = 0; i < n; i++) {
        sa_check(prev->next == &en[i]->insertion_order && en[i]->insertion_order.prev == prev, "insertion order is kept");
        prev = &en[i]->insertion_order;
    }
    sa_check(prev->next == &t->insertion_order.head && t->insertion_order.head.prev == prev, "insertion order ends at the last entry");
    for (b = 0; b < t->bin_count; b++) {
        struct cork_dllist_item  *h = &t->bins[b].head;
        unsigned  k = 0;
        prev = h;
        /* entries of one bin appear in some order; count them */
        while (prev->next != h) {
            ent  *e = cork_container_of(prev->next, ent, in_bucket);
            unsigned  found = 0;
            for (i = 0; i < n; i++) if (e == en[i]) found = 1;
            sa_check(found, "bins contain entries of the table only");
            sa_check((e->public.hash & t->bin_mask) == b, "an entry sits in the bin its hash selects");
            sa_check(prev->next->prev == prev, "bin links mirror each other");
            prev = prev->next; k++;
            if (k > n) sa_unreachable("an entry is in its bin only once");
        }
        sa_check(h->prev == prev, "bin list is closed");
        count -= k;
    }
    sa_check(count == 0, "the size is the number of entries in the bins");
}
/* entries not shown keep out of the picture */
static size_t  hidden;
static void begin(unsigned max) { any_table(max); hidden = t->entry_count - n; }
static void end(void) { sa_check(cork_hash_table_size(t) == n + hidden, "the size counts the entries"); expect_table(n); }

void W_hash_get(void)
{
    struct cork_hash_table_entry  *r;
    begin(3);
    switch (sa_u8("which") & 3) {
      case 0: r = cork_hash_table_get_entry(t, the_key); sa_check(hash_calls == 1, "the key is hashed once"); break;
      default: r = cork_hash_table_get_entry_hash(t, the_hash, the_key); sa_check(hash_calls == 0, "a given hash is used as is");
    }
    sa_check(r == (eq_index < n? &en[eq_index]->public: NULL), "finds exactly the entry with an equal key");
    end();
}
void W_hash_get_value(void)
{
    void  *v;
    begin(3);
    if (sa_u8("which") & 1) { v = cork_hash_table_get(t, the_key); sa_check(hash_calls == 1, "the key is hashed once"); }
    else v = cork_hash_table_get_hash(t, the_hash, the_key);
    sa_check(v == (eq_index < n? en[eq_index]->public.value: NULL), "returns exactly the value of the equal key");
    end();
}
static void
adopt(struct cork_hash_table_entry *pub)
{
    en[n] = cork_container_of(pub, ent, public);
    n++;
}
void W_hash_get_or_create(void)
{
    struct cork_hash_table_entry  *r;
    bool  is_new;
    void  *k, *v;
    begin(2);
    if (eq_index < n) { k = en[eq_index]->public.key; v = en[eq_index]->public.value; }
    if (sa_u8("which") & 1) { r = cork_hash_table_get_or_create(t, (void *) the_key, &is_new); sa_check(hash_calls == 1, "the key is hashed once"); }
    else r = cork_hash_table_get_or_create_hash(t, the_hash, (void *) the_key, &is_new);
    if (eq_index < n) {
        sa_check(!is_new && r == &en[eq_index]->public, "an existing entry is returned");
        sa_check(r->key == k && r->value == v, "unchanged");
    } else {
        unsigned  i;
        sa_check(is_new && r != NULL, "a missing entry is created");
        for (i = 0; i < n; i++) sa_check(r != &en[i]->public, "as an entry of its own");
        sa_check(r->key == the_key && r->value == NULL && r->hash == the_hash, "with the key, its hash, and no value");
        adopt(r);
    }
    sa_check(key_frees == 0 && value_frees == 0, "nothing is freed");
    end();
}
void W_hash_put(void)
{
    bool  is_new;
    void  *ok, *ov, *k, *v, *nv = sa_ptr("value");
    int  which = sa_u8("which") & 1, want_new = sa_u8("want new") & 1, want_key = sa_u8("want key") & 1, want_value = sa_u8("want value") & 1;
    ent  *last;
    begin(2);
    if (sa_u8("freers") & 1) { t->free_key = u_free_key; t->free_value = u_free_value; }
    if (eq_index < n) { k = en[eq_index]->public.key; v = en[eq_index]->public.value; }
    if (which) cork_hash_table_put(t, (void *) the_key, nv, want_new? &is_new: NULL, want_key? &ok: NULL, want_value? &ov: NULL);
    else cork_hash_table_put_hash(t, the_hash, (void *) the_key, nv, want_new? &is_new: NULL, want_key? &ok: NULL, want_value? &ov: NULL);
    if (which) sa_check(hash_calls == 1, "the key is hashed once");
    if (eq_index < n) {
        ent  *e = en[eq_index];
        sa_check(e->public.key == the_key && e->public.value == nv, "key and value are replaced");
        sa_check((!want_new || !is_new) && (!want_key || ok == k) && (!want_value || ov == v), "the old key and value are handed back, if asked for");
    } else {
        sa_check((!want_new || is_new) && (!want_key || ok == NULL) && (!want_value || ov == NULL), "a new entry has no old key and value");
        last = cork_container_of(t->insertion_order.head.prev, ent, insertion_order);
        adopt(&last->public);
        sa_check(last->public.key == the_key && last->public.value == nv && last->public.hash == the_hash, "the new entry holds key, value and hash");
    }
    sa_check(key_frees == 0 && value_frees == 0 && ud_frees == 0, "nothing is freed: old key and value go to the caller");
    end();
}
static void
drop(unsigned k)
{
    unsigned  i;
    for (i = k; i + 1 < n; i++) en[i] = en[i + 1];
    n--;
}
void W_hash_delete(void)
{
    void  *dk, *dv, *k, *v;
    int  which = sa_u8("which") & 1, want_key = sa_u8("want key") & 1, want_value = sa_u8("want value") & 1;
    bool  rc;
    ent  *e;
    begin(2);
    if (sa_u8("free_key") & 1) t->free_key = u_free_key;
    if (sa_u8("free_value") & 1) t->free_value = u_free_value;
    if (eq_index < n) { e = en[eq_index]; k = e->public.key; v = e->public.value; }
    if (which) rc = cork_hash_table_delete(t, the_key, want_key? &dk: NULL, want_value? &dv: NULL);
    else rc = cork_hash_table_delete_hash(t, the_hash, the_key, want_key? &dk: NULL, want_value? &dv: NULL);
    if (eq_index < n) {
        sa_check(rc, "deleting an existing key succeeds");
        sa_check((!want_key || dk == k) && (!want_value || dv == v), "the deleted key and value are handed back, if asked for");
        sa_check(!sa_alive(e), "the entry is released");
        sa_check(key_frees == (t->free_key != NULL) && value_frees == (t->free_value != NULL), "key and value are freed exactly once");
        if (key_frees) sa_check(key_freed == k, "the entry's own key is freed");
        if (value_frees) sa_check(value_freed == v, "the entry's own value is freed");
        drop(eq_index);
    } else {
        sa_check(!rc, "deleting a missing key fails");
        sa_check(key_frees == 0 && value_frees == 0, "and frees nothing");
    }
    end();
}
void W_hash_delete_entry(void)
{
    unsigned  k = sa_u8("entry") & 3;
    void  *key, *value;
    ent  *e;
    begin(3);
    if (k >= n || eq_index < n) return;
    e = en[k]; key = e->public.key; value = e->public.value;
    if (sa_u8("free_key") & 1) t->free_key = u_free_key;
    if (sa_u8("free_value") & 1) t->free_value = u_free_value;
    cork_hash_table_delete_entry(t, &e->public);
    sa_check(!sa_alive(e), "the entry is released");
    sa_check(key_frees == (t->free_key != NULL) && value_frees == (t->free_value != NULL), "key and value are freed exactly once");
    if (key_frees) sa_check(key_freed == key, "the entry's own key is freed");
    if (value_frees) sa_check(value_freed == value, "the entry's own value is freed");
    drop(k);
    end();
}
/* an entry whose key and value are the same pointer is an entry like any other */
void W_hash_same_pointer(void)
{
    void  *p;
    bool  fk = sa_u8("free_key") & 1, fv = sa_u8("free_value") & 1;
    begin(1);
    if (n == 0 || eq_index < n) return;
    p = en[0]->public.value = en[0]->public.key;
    if (fk) t->free_key = u_free_key;
    if (fv) t->free_value = u_free_value;
    if (sa_u8("clear") & 1) { cork_hash_table_clear(t); hidden = 0; n = 0; }
    else { cork_hash_table_delete_entry(t, &en[0]->public); drop(0); }
    sa_check(key_frees == fk && value_frees == fv, "key and value are each freed once, even when they are the same pointer");
    if (fk) sa_check(key_freed == p, "the key is freed");
    if (fv) sa_check(value_freed == p, "the value is freed");
    end();
}
void W_hash_clear(void)
{
    unsigned  i, m;
    size_t  bins;
    begin(3);
    if (eq_index < n) return;
    if (sa_u8("free_key") & 1) t->free_key = u_free_key;
    if (sa_u8("free_value") & 1) t->free_value = u_free_value;
    m = n;
    cork_hash_table_clear(t);
    for (i = 0; i < m; i++) sa_check(!sa_alive(en[i]), "every entry is released");
    sa_check(key_frees == (t->free_key != NULL? m: 0), "every key is freed once");
    sa_check(value_frees == (t->free_value != NULL? m: 0), "every value is freed once");
    sa_check(cork_hash_table_size(t) == 0, "a cleared table is empty");
    sa_check(ud_frees == 0, "user data stays with the table");
    n = 0; hidden = 0;
    end();
}
void W_hash_free(void)
{
    unsigned  i;
    int  has;
    begin(2);
    if (sa_u8("free_key") & 1) t->free_key = u_free_key;
    if (sa_u8("free_value") & 1) t->free_value = u_free_value;
    has = t->free_user_data != NULL;
    {
        int  hk = t->free_key != NULL, hv = t->free_value != NULL;
        cork_hash_table_free(t);
        sa_check(key_frees == (hk? n: 0) && value_frees == (hv? n: 0), "every key and value is freed once");
    }
    sa_check(ud_frees == has, "user data is released exactly once");
    sa_leaks(NULL);
}
void W_hash_user_data(void)
{
    int  has;
    void  *nd = sa_ptr("new_ud");
    table_base(8);
    has = t->free_user_data != NULL;
    cork_hash_table_set_user_data(t, nd, NULL);
    sa_check(ud_frees == has, "replaced user data is released exactly once");
    sa_check(t->user_data == nd && t->free_user_data == NULL, "new user data is in place");
    cork_hash_table_set_hash(t, u_hash); cork_hash_table_set_equals(t, u_equals);
    cork_hash_table_set_free_key(t, u_free_key); cork_hash_table_set_free_value(t, u_free_value);
    sa_check(t->hash == u_hash && t->equals == u_equals && t->free_key == u_free_key && t->free_value == u_free_value, "callbacks are installed");
}

/* ---- growth */
/* entries with concrete low hash bits (every relation between old and new bins), arbitrary high bits */
static void
small_table(unsigned max)
{
    unsigned  i;
    table_base(8);
    bin = 3;
    the_key = sa_ptr("key");
    the_hash = (sa_u32("hash") & 0xffffff00u) | (sa_u8("key_hi") & 1? 0x0b: 0x53);
    n = 0;
    for (i = 0; i < max; i++) {
        ent  *e;
        unsigned  low;
        if (sa_u8("fewer") & 1) break;
        e = sa_heapobj(sizeof(ent), "entry");
        en[i] = e; n++;
        switch (sa_u8("low") & 7) {
          case 0: low = 0x03; break; case 1: low = 0x1b; break; case 2: low = 0x2f; break; case 3: low = 0x83; break;
          case 4: low = 0x08; break; case 5: low = 0x14; break; default: low = 0xf0; break;
        }
        e->public.hash = (sa_u32("ehash") & 0xffffff00u) | low;
        e->public.key = sa_object(1, "ekey");
        e->public.value = sa_ptr("evalue");
        link_tail(&t->insertion_order, &e->insertion_order);
        link_tail(&t->bins[low & 7], &e->in_bucket);
    }
    eq_index = MAXE;
    t->entry_count = n;
    hidden = 0;
}
void W_hash_ensure_size(void)
{
    size_t  want;
    struct cork_dllist  *old;
    small_table(2);
    old = t->bins;
    switch (sa_u8("want") & 3) { case 0: want = 0; break; case 1: want = 8; break; case 2: want = 9; break; default: want = 17; }
    cork_hash_table_ensure_size(t, want);
    sa_check(t->bin_count >= want && t->bin_count >= 8, "at least the requested number of bins");
    sa_check((t->bin_count & (t->bin_count - 1)) == 0, "a power of two");
    if (want <= 8) sa_check(t->bins == old, "a table that is big enough stays as it is");
    else sa_check(!sa_alive(old), "the old bins are released");
    end();
    sa_check(key_frees == 0 && value_frees == 0, "nothing is freed");
}
/* growth triggered by an insertion into a dense table */
void W_hash_put_grow(void)
{
    bool  is_new = false;
    void  *ok, *ov, *nv = sa_ptr("value");
    ent  *last;
    struct cork_hash_table_entry  *r;
    small_table(2);
    hidden = 48 - n; t->entry_count = 48;   /* the others are not shown */
    if (sa_u8("create") & 1) {
        r = cork_hash_table_get_or_create(t, (void *) the_key, &is_new);
        r->value = nv;
    } else cork_hash_table_put(t, (void *) the_key, nv, &is_new, &ok, &ov);
    sa_check(is_new, "the key is new");
    last = cork_container_of(t->insertion_order.head.prev, ent, insertion_order);
    adopt(&last->public);
    sa_check(last->public.key == the_key && last->public.value == nv && last->public.hash == the_hash, "the new entry holds key, value and hash");
    end();
    eq_index = n - 1;
    sa_check(cork_hash_table_get(t, the_key) == nv, "the new entry is found again");
}
/* a table of any requested size */
void W_hash_new(void)
{
    size_t  want = sa_u64("want");
    sa_assume(want < ((size_t) 1 << 58));
    t = cork_hash_table_new(want, 0);
    sa_check(t->bin_count >= want && t->bin_count >= 1, "at least the requested number of bins");
    sa_check((t->bin_count & (t->bin_count - 1)) == 0, "a power of two");
    sa_check(t->bin_mask == t->bin_count - 1, "mask matches the number of bins");
    sa_check(sa_objsize(t->bins) == t->bin_count * sizeof(struct cork_dllist), "storage matches the number of bins");
}
void W_hash_new_default(void)
{
    void  *k = sa_ptr("k"), *k2 = sa_ptr("k2"), *v = sa_ptr("v"), *v2 = sa_ptr("v2");
    bool  is_new;
    t = (sa_u8("kind") & 1)? cork_hash_table_new(0, 0): cork_pointer_hash_table_new(8, 0);
    n = 0; hidden = 0; the_ud = NULL;
    end();
    sa_check(cork_hash_table_get(t, k) == NULL, "a new table is empty");
    sa_check(t->free_key == NULL && t->free_value == NULL && t->free_user_data == NULL, "nothing is freed by default");
    cork_hash_table_free(t);
    sa_leaks(NULL);
}
/* default comparison: same pointer */
void W_hash_default_compare(void)
{
    char  *k = sa_object(1, "k"), *k2 = sa_object(1, "k2");
    t = cork_hash_table_new(0, 0);
    sa_check(t->equals(NULL, k, k) && !t->equals(NULL, k, k2), "keys are compared by identity");
    sa_check(t->hash(NULL, k) == t->hash(NULL, k), "hashing is a function of the key");
}
/* string keys: equal text, equal hash; same text is equal, different text is not */
void W_hash_string_compare(void)
{
    char  *k = sa_cstr("k"), *k2 = sa_cstr("k2");
    t = cork_string_hash_table_new(0, 0);
    sa_check(t->equals(NULL, k, k), "a string equals itself");
    sa_check(t->equals(NULL, k, k2) == (strcmp(k, k2) == 0), "keys are compared as strings");
}

/* ---- iteration */
static unsigned  visits;
static ent  *left[MAXE];
static unsigned  kept;
static void  *map_ud;
static void  *gone_key;
static enum cork_hash_table_map_result
mapper(void *ud, struct cork_hash_table_entry *e)
{
    sa_check(ud == map_ud, "the caller's data is passed on");
    sa_check(visits < n && e == &en[visits]->public, "entries are visited in insertion order, each once");
    visits++;
    switch (sa_u8("result") & 3) {
      case 0: left[kept++] = en[visits - 1]; return CORK_HASH_TABLE_MAP_ABORT;
      case 1: return CORK_HASH_TABLE_MAP_DELETE;
      default: left[kept++] = en[visits - 1]; return CORK_HASH_TABLE_MAP_CONTINUE;
    }
}
void W_hash_map(void)
{
    unsigned  i, total, gone;
    begin(2);
    t->free_key = u_free_key;
    if (sa_u8("free_value") & 1) t->free_value = u_free_value;
    visits = 0; kept = 0; total = n;
    map_ud = sa_ptr("map_ud");
    cork_hash_table_map(t, map_ud, mapper);
    for (i = visits; i < n; i++) left[kept++] = en[i];
    gone = total - kept;
    sa_check(key_frees == gone, "every deleted entry's key is freed once");
    sa_check(value_frees == (t->free_value != NULL? gone: 0), "every deleted entry's value is freed once");
    n = kept;
    for (i = 0; i < kept; i++) en[i] = left[i];
    end();
}
static enum cork_hash_table_map_result all(void *ud, struct cork_hash_table_entry *e) { visits++; return CORK_HASH_TABLE_MAP_CONTINUE; }
static enum cork_hash_table_map_result wipe(void *ud, struct cork_hash_table_entry *e) { visits++; return CORK_HASH_TABLE_MAP_DELETE; }
static enum cork_hash_table_map_result stop(void *ud, struct cork_hash_table_entry *e) { visits++; return CORK_HASH_TABLE_MAP_ABORT; }
void W_hash_map_all(void)
{
    begin(3);
    visits = 0;
    switch (sa_u8("how") & 3) {
      case 0: cork_hash_table_map(t, NULL, all); sa_check(visits == n, "every entry is visited"); break;
      case 1: cork_hash_table_map(t, NULL, wipe); sa_check(visits == n, "every entry is visited"); n = 0; break;
      default: cork_hash_table_map(t, NULL, stop); sa_check(visits == (n > 0), "an abort ends the visit at once"); break;
    }
    end();
}
void W_hash_iterate(void)
{
    struct cork_hash_table_iterator  it;
    struct cork_hash_table_entry  *e;
    unsigned  k = 0;
    begin(3);
    cork_hash_table_iterator_init(t, &it);
    while ((e = cork_hash_table_iterator_next(&it)) != NULL) {
        sa_check(k < n && e == &en[k]->public, "entries are returned in insertion order, each once");
        k++;
    }
    sa_check(k == n, "every entry is returned");
    sa_check(cork_hash_table_iterator_next(&it) == NULL, "and then nothing more");
    end();
}
