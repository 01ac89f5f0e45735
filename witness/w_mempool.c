#include "sa.h"
#include "core/mempool.c"

static size_t  ud_frees, inits, dones;
static void  *ud_last;
static size_t  last_end;
static size_t  init_size;
static struct cork_mempool_block  *old_block;
static int  carving;

static void u_free_ud(void *ud) { ud_frees++; ud_last = ud; }
static void u_done(void *ud, void *obj);

static struct cork_mempool *
any_pool(size_t *need)
{
    struct cork_mempool  *mp = sa_heapobj(sizeof(struct cork_mempool), "pool");
    size_t  esize = sa_u64("esize"), bsize = sa_u64("bsize");
    sa_assume(esize >= 1 && esize < SA_SIZE_LIMIT && bsize < SA_SIZE_LIMIT);
    *need = esize + sizeof(struct cork_mempool_object);
    sa_assume(bsize >= sizeof(struct cork_mempool_block) + *need);
    mp->element_size = esize;
    mp->block_size = bsize;
    mp->free_list = NULL;
    mp->blocks = NULL;
    mp->allocated_count = sa_u64("count");
    sa_assume(mp->allocated_count < SA_SIZE_LIMIT);
    mp->user_data = sa_ptr("ud");
    mp->free_user_data = (sa_u8("has_free") & 1)? u_free_ud: NULL;
    mp->init_object = NULL;
    mp->done_object = NULL;
    ud_frees = 0; inits = 0; dones = 0;
    return mp;
}

/* a free-list node: the header of an object of the pool in an earlier block */
static struct cork_mempool_object *
free_node(struct cork_mempool *mp)
{
    struct cork_mempool_object  *o = sa_object(sizeof(struct cork_mempool_object) + mp->element_size, "object");
    o->next_free = sa_ptr("next_free");
    return o;
}

void W_mempool_new(void)
{
    size_t  esize = sa_u64("esize"), bsize = sa_u64("bsize");
    struct cork_mempool  *mp;
    sa_assume(esize >= 1 && esize < SA_SIZE_LIMIT && bsize < SA_SIZE_LIMIT);
    mp = (sa_u8("default") & 1)? cork_mempool_new_size(esize): cork_mempool_new_size_ex(esize, bsize);
    sa_check(mp->element_size >= esize, "objects are at least as large as requested");
    sa_check(mp->block_size >= sizeof(struct cork_mempool_block) + sizeof(struct cork_mempool_object) + mp->element_size,
             "a block has room for at least one object");
    sa_check(mp->allocated_count == 0 && mp->free_list == NULL && mp->blocks == NULL, "a new pool is empty");
    cork_mempool_free(mp);
    sa_leaks(NULL);
}

/* carving a new block: each object lies inside the block, after its predecessor */
static void u_init(void *ud, void *obj)
{
    struct cork_mempool  *mp = ud;
    char  *o = obj;
    size_t  off;
    if (inits == 0 && carving) sa_check(mp->blocks != old_block && mp->blocks->next_block == old_block, "the block is linked for release");
    inits++;
    sa_check(sa_same_object(o, mp->blocks), "objects are carved from the new block");
    off = o - (char *) mp->blocks;
    sa_check(off >= last_end + sizeof(struct cork_mempool_object), "objects do not overlap each other or the block header");
    memset(o, 0x5a, init_size);      /* must stay inside the block */
    last_end = off + init_size;
}
void W_mempool_carve(void)
{
    size_t  need;
    struct cork_mempool  *mp = any_pool(&need);
    struct cork_mempool_block  *old = sa_ptr("oldblock");
    mp->blocks = old;
    old_block = old; carving = 1;
    mp->user_data = mp;
    mp->init_object = u_init;
    init_size = mp->element_size;
    /* the block is allocated by the call; positions are offsets from its start */
    last_end = sizeof(struct cork_mempool_block);
    {
        size_t  count = mp->allocated_count;
        char  *p = cork_mempool_new_object(mp);
        sa_check(mp->allocated_count == count + 1, "one object is handed out");
        sa_check(mp->blocks != old, "the new block is on the release list");
        sa_check(sa_objsize(mp->blocks) == mp->block_size, "block has the pool's block size");
        sa_check(p != (char *) sizeof(struct cork_mempool_object), "a new block provides at least one object");
        sa_check(sa_same_object(p, mp->blocks), "the object comes from the new block");
    }
}
void W_mempool_pop(void)
{
    size_t  need;
    struct cork_mempool  *mp = any_pool(&need);
    struct cork_mempool_object  *o = free_node(mp), *next = o->next_free;
    size_t  count = mp->allocated_count;
    char  *p;
    mp->free_list = o;
    mp->init_object = u_init;
    p = cork_mempool_new_object(mp);
    sa_check(p == (char *) (o + 1), "a free object is reused");
    sa_check(mp->free_list == next, "and leaves the free list");
    sa_check(mp->allocated_count == count + 1, "the outstanding count grows by one");
    sa_check(inits == 0, "a reused object is not initialised again");
    memset(p, 1, mp->element_size);
}
void W_mempool_push(void)
{
    size_t  need;
    struct cork_mempool  *mp = any_pool(&need);
    struct cork_mempool_object  *o = free_node(mp), *head = sa_ptr("head");
    size_t  count = mp->allocated_count;
    char  c;
    sa_assume(count > 0);
    mp->free_list = head;
    mp->init_object = u_init; mp->done_object = u_done;
    c = ((char *) (o + 1))[0];
    cork_mempool_free_object(mp, o + 1);
    sa_check(mp->free_list == o && o->next_free == head, "a returned object becomes the first free one");
    sa_check(mp->allocated_count == count - 1, "the outstanding count drops by one");
    sa_check(((char *) (o + 1))[0] == c, "the object's content is kept");
    sa_check(dones == 0 && inits == 0, "finalisation waits for the pool");
    sa_check(cork_mempool_new_object(mp) == (void *) (o + 1), "it is the next one handed out");
}
void W_mempool_first(void)
{
    size_t  need;
    struct cork_mempool  *mp = any_pool(&need);
    size_t  count = mp->allocated_count;
    char  *p = cork_mempool_new_object(mp);
    sa_check(p != NULL && mp->allocated_count == count + 1, "an object is handed out and counted");
    memset(p, 1, mp->element_size);
    sa_check(sa_same_object(p, mp->blocks) && p >= (char *) (mp->blocks + 1), "inside the new block, behind its header");
}

/* finalisation: every free object is finalised, every block and the user data released once */
static void *the_pool_ud;
static void u_done(void *ud, void *obj)
{
    dones++;
    sa_check(ud == the_pool_ud, "the finaliser gets the pool's user data");
    sa_check(ud_frees == 0, "the user data outlives the last finaliser");
}
void W_mempool_free(void)
{
    size_t  need;
    struct cork_mempool  *mp = any_pool(&need);
    int  has = mp->free_user_data != NULL;
    void  *ud = mp->user_data;
    mp->allocated_count = 0;
    if (sa_u8("one_block") & 1) {
        struct cork_mempool_block  *b = sa_heapobj(mp->block_size, "block");
        struct cork_mempool_object  *o = (void *) (b + 1);
        b->next_block = NULL;
        mp->blocks = b;
        if (sa_u8("two_blocks") & 1) {
            b->next_block = sa_heapobj(mp->block_size, "block2");
            b->next_block->next_block = NULL;
        }
        mp->free_list = o;
        o->next_free = NULL;
        mp->done_object = u_done; the_pool_ud = mp->user_data;
        cork_mempool_free(mp);
        sa_check(dones == 1, "every object is finalised exactly once");
    } else cork_mempool_free(mp);
    if (ud != NULL) sa_check(ud_frees == (size_t) has, "user data is released exactly once");
    if (has && ud != NULL) sa_check(ud_last == ud, "with its own pointer");
    sa_leaks(NULL);
}
void W_mempool_user_data(void)
{
    size_t  need;
    struct cork_mempool  *mp = any_pool(&need);
    int  has = mp->free_user_data != NULL;
    void  *ud = mp->user_data, *nd = sa_ptr("new_ud");
    switch (sa_u8("which") & 3) {
      case 0: cork_mempool_set_user_data(mp, nd, u_free_ud); break;
      case 1: cork_mempool_set_callbacks(mp, nd, u_free_ud, u_init, u_done);
              sa_check(mp->init_object == u_init && mp->done_object == u_done, "callbacks are installed"); break;
      case 2: cork_mempool_set_init_object(mp, u_init); sa_check(mp->init_object == u_init && ud_frees == 0, "callback is installed"); return;
      default: cork_mempool_set_done_object(mp, u_done); sa_check(mp->done_object == u_done && ud_frees == 0, "callback is installed"); return;
    }
    if (ud != NULL) sa_check(ud_frees == (size_t) has, "replaced user data is released exactly once");
    if (has && ud != NULL) sa_check(ud_last == ud, "with its own pointer");
    sa_check(mp->user_data == nd && mp->free_user_data == u_free_ud, "new user data is in place");
}
/* small pools seen from outside, for all small sizes: alignment, and a history of taking and returning */
static void  *seen_init[40], *seen_done[40];
static void h_init(void *ud, void *obj) { sa_check(ud == the_pool_ud && inits < 40, "initialised with the user data"); seen_init[inits++] = obj; }
static void h_done(void *ud, void *obj) { sa_check(ud == the_pool_ud && dones < 40, "finalised with the user data"); seen_done[dones++] = obj; }
void W_mempool_history(void)
{
    size_t  esize = 1, want = sa_u8("esize");
    struct cork_mempool  *mp;
    char  *p, *q, *r, *s;
    size_t  i, j, n;
    while (esize < want && esize < 20) esize++;
    mp = cork_mempool_new_size_ex(esize, (sa_u8("large") & 1)? 100: 1);
    the_pool_ud = sa_object(1, "ud");
    inits = 0; dones = 0; ud_frees = 0;
    cork_mempool_set_callbacks(mp, the_pool_ud, u_free_ud, h_init, h_done);
    p = cork_mempool_new_object(mp);
    sa_check(inits > 0 && dones == 0, "objects are initialised before they are handed out");
    q = cork_mempool_new_object(mp);
    memset(p, 1, esize); memset(q, 2, esize);
    sa_check(p[esize - 1] == 1, "objects don't overlap");
    cork_mempool_free_object(mp, p);
    r = cork_mempool_new_object(mp);
    s = cork_mempool_new_object(mp);
    sa_check(r != q && s != q && r != s, "objects in use are different");
    cork_mempool_free_object(mp, q);
    cork_mempool_free_object(mp, s);
    cork_mempool_free_object(mp, r);
    sa_check(dones == 0 && ud_frees == 0, "finalisation waits for the pool");
    n = inits;
    for (i = 0; i < n; i++) for (j = 0; j < i; j++) sa_check(seen_init[i] != seen_init[j], "each object is initialised once");
    cork_mempool_free(mp);
    sa_check(inits == n && dones == n, "every object that was initialised is finalised");
    for (i = 0; i < n; i++) for (j = 0; j < i; j++) sa_check(seen_done[i] != seen_done[j], "once");
    sa_check(ud_frees == 1, "the user data is released once");
    sa_leaks(NULL);
}
void W_mempool_aligned(void)
{
    size_t  esize = 1, want = sa_u8("esize");
    struct cork_mempool  *mp;
    char  *p, *q, *block;
    while (esize < want && esize < 20) esize++;
    mp = cork_mempool_new_size_ex(esize, 1000);
    p = cork_mempool_new_object(mp);
    q = cork_mempool_new_object(mp);
    block = (char *) mp->blocks;
    sa_check(sa_same_object(p, block) && sa_same_object(q, block), "both come from the block");
    sa_check((p - block) % sizeof(void *) == 0 && (q - block) % sizeof(void *) == 0, "objects are aligned for pointers");
}
/* pools of a type */
struct element { char text[11]; int number; };
void W_mempool_typed(void)
{
    struct cork_mempool  *mp;
    struct element  *p, *q;
    int  ex = (int) (sa_u8("ex") & 1);
    if (ex) mp = cork_mempool_new_ex(struct element, (sa_u8("large") & 1)? 100: 1);
    else mp = cork_mempool_new_size_ex(sizeof(struct element), 64);
    p = cork_mempool_new_object(mp); memset(p, 1, sizeof(*p));
    q = cork_mempool_new_object(mp); memset(q, 2, sizeof(*q));
    sa_check(p != q && p->text[0] == 1 && p->text[10] == 1 && p->number == 0x01010101, "objects of the type fit, side by side");
    cork_mempool_free_object(mp, p); cork_mempool_free_object(mp, q);
    cork_mempool_free(mp);
    sa_leaks(NULL);
}
void W_mempool_typed_default(void)
{
    struct cork_mempool  *mp = cork_mempool_new(struct element);
    sa_check(mp->element_size >= sizeof(struct element) && mp->block_size >= mp->element_size + sizeof(struct cork_mempool_block) + sizeof(struct cork_mempool_object), "objects of the type fit");
    cork_mempool_free(mp);
    sa_leaks(NULL);
}
