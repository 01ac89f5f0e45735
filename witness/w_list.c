/* Doubly-linked lists.  Link operations are local: the abstract entry state
 * names every cell they may read or write, in each aliasing shape (neighbours
 * equal to each other, to the sentinel, or distinct).  Traversals are decided
 * on every list of 0..4 elements with unrestricted callbacks. */
#include "sa.h"
#include <libcork/ds.h>

extern void (cork_dllist_init)(struct cork_dllist *list);
#define N 4
static struct cork_dllist  l1, l2;
static struct cork_dllist_item  *e[2 * N];

static struct cork_dllist_item *
item(void)
{
    return sa_object(sizeof(struct cork_dllist_item), "item");
}
/* any list of up to max elements e[from..] */
static unsigned
any_list(struct cork_dllist *l, unsigned from, unsigned max)
{
    unsigned  n = 0, i;
    struct cork_dllist_item  *prev = &l->head;
    for (i = 0; i < max; i++) {
        struct cork_dllist_item  *x;
        if (sa_u8("longer") & 1) break;
        x = item();
        e[from + i] = x;
        x->prev = prev; prev->next = x; prev = x;
        n++;
    }
    prev->next = &l->head; l->head.prev = prev;
    return n;
}
/* l is exactly the sequence x[0..n), linked both ways */
static void
expect(struct cork_dllist *l, struct cork_dllist_item **x, unsigned n)
{
    unsigned  i;
    struct cork_dllist_item  *prev = &l->head;
    for (i = 0; i < n; i++) {
        sa_check(prev->next == x[i], "every element is reachable in order");
        sa_check(x[i]->prev == prev, "backward links mirror forward links");
        prev = x[i];
    }
    sa_check(prev->next == &l->head, "the list ends at its sentinel");
    sa_check(l->head.prev == prev, "the sentinel's backward link is the last element");
}
void W_list_init(void)
{
    struct cork_dllist  l, m = CORK_DLLIST_INIT(m);
    cork_dllist_init(&l);
    expect(&l, e, 0); expect(&m, e, 0);
    sa_check(cork_dllist_is_empty(&l) && cork_dllist_size(&l) == 0, "a new list is empty");
    sa_check(cork_dllist_head(&l) == NULL && cork_dllist_tail(&l) == NULL, "an empty list has no first and last element");
    (cork_dllist_init)(&m);
    expect(&m, e, 0);
}
void W_list_query(void)
{
    unsigned  n = any_list(&l1, 0, N);
    sa_check(cork_dllist_size(&l1) == n, "size counts the elements");
    sa_check(!!cork_dllist_is_empty(&l1) == (n == 0), "empty means no elements");
    if (n > 0) {
        sa_check(cork_dllist_head(&l1) == e[0] && cork_dllist_start(&l1) == e[0], "head is the first element");
        sa_check(cork_dllist_tail(&l1) == e[n - 1] && cork_dllist_end(&l1) == e[n - 1], "tail is the last element");
        sa_check(!cork_dllist_is_end(&l1, e[0]) && !cork_dllist_is_start(&l1, e[0]), "elements are not the sentinel");
    } else {
        sa_check(cork_dllist_head(&l1) == NULL && cork_dllist_tail(&l1) == NULL, "an empty list has no first and last element");
        sa_check(cork_dllist_is_end(&l1, cork_dllist_start(&l1)) && cork_dllist_is_start(&l1, cork_dllist_end(&l1)), "sentinel");
    }
    expect(&l1, e, n);
}
static void
insert_at(unsigned n, unsigned k, struct cork_dllist_item *x)
{
    unsigned  i;
    for (i = n; i > k; i--) e[i] = e[i - 1];
    e[k] = x;
}
void W_list_add(void)
{
    unsigned  n = any_list(&l1, 0, 3), k = sa_u8("at") & 3;
    struct cork_dllist_item  *x = item();
    switch (sa_u8("how") & 7) {
      case 0: cork_dllist_add_to_head(&l1, x); insert_at(n, 0, x); break;
      case 1: cork_dllist_add_to_tail(&l1, x); insert_at(n, n, x); break;
      case 2: cork_dllist_add(&l1, x); insert_at(n, n, x); break;
      case 3: if (k >= n) return; cork_dllist_add_after(e[k], x); insert_at(n, k + 1, x); break;
      case 4: if (k >= n) return; cork_dllist_add_before(e[k], x); insert_at(n, k, x); break;
      case 5: cork_dllist_add_after(&l1.head, x); insert_at(n, 0, x); break;
      default: cork_dllist_add_before(&l1.head, x); insert_at(n, n, x); break;
    }
    expect(&l1, e, n + 1);
    sa_check(cork_dllist_size(&l1) == n + 1, "exactly one element more");
}
/* the same in the middle of a list of any length: only the neighbours are touched */
void W_list_local(void)
{
    struct cork_dllist_item  *p = item(), *s = item(), *x = item(), *pp, *sn;
    pp = p->prev; sn = s->next;
    if (sa_u8("op") & 1) {
        p->next = s; s->prev = p;
        if (sa_u8("before") & 1) cork_dllist_add_before(s, x); else cork_dllist_add_after(p, x);
        sa_check(p->next == x && x->prev == p && x->next == s && s->prev == x, "linked between its neighbours");
    } else {
        p->next = x; x->prev = p; x->next = s; s->prev = x;
        cork_dllist_remove(x);
        sa_check(p->next == s && s->prev == p, "neighbours are joined");
    }
    sa_check(p->prev == pp && s->next == sn, "the rest of the list is untouched");
}
void W_list_remove(void)
{
    unsigned  n = any_list(&l1, 0, N), k = sa_u8("at") & 3, i;
    if (k >= n) return;
    cork_dllist_remove(e[k]);
    for (i = k; i + 1 < n; i++) e[i] = e[i + 1];
    expect(&l1, e, n - 1);
    sa_check(cork_dllist_size(&l1) == n - 1, "exactly one element less");
}
void W_list_splice(void)
{
    unsigned  n = any_list(&l1, 0, 3), m, i;
    struct cork_dllist_item  *s[3], *r[6];
    m = any_list(&l2, 3, 3);
    for (i = 0; i < m; i++) s[i] = e[3 + i];
    if (sa_u8("head") & 1) {
        cork_dllist_add_list_to_head(&l1, &l2);
        for (i = 0; i < m; i++) r[i] = s[i];
        for (i = 0; i < n; i++) r[m + i] = e[i];
    } else {
        cork_dllist_add_list_to_tail(&l1, &l2);
        for (i = 0; i < n; i++) r[i] = e[i];
        for (i = 0; i < m; i++) r[n + i] = s[i];
    }
    expect(&l1, r, n + m);
    expect(&l2, r, 0);
}

/* ---- traversal */
static unsigned  visits, total, stop_at, removed, kept;
static struct cork_dllist_item  *left[N];
static void  *the_ud;
static int
visitor(void *ud, struct cork_dllist_item *x)
{
    sa_check(ud == the_ud, "the caller's data is passed on");
    sa_check(visits < total && x == e[visits], "elements are visited in order, each once");
    visits++;
    if (sa_u8("remove") & 1) { cork_dllist_remove(x); sa_havoc(x); removed++; }
    else left[kept++] = x;
    return sa_u8("stop") & 1? 17: 0;
}
static void
mapper(struct cork_dllist_item *x, void *ud)
{
    visitor(ud, x);
}
static void
start(void)
{
    unsigned  i;
    total = any_list(&l1, 0, 3); visits = 0; removed = 0; kept = 0;
    the_ud = sa_ptr("ud");
}
static void
remaining(void)
{
    unsigned  i;
    for (i = visits; i < total; i++) left[kept++] = e[i];
    expect(&l1, left, kept);
}
void W_list_visit(void)
{
    int  rc;
    start();
    rc = cork_dllist_visit(&l1, the_ud, visitor);
    sa_check(rc == 0 || rc == 17, "the visitor's result is passed on");
    if (rc == 0) sa_check(visits == total, "every element is visited");
    remaining();
}
static int  stop_rc;
static int stopper(void *ud, struct cork_dllist_item *x)
{
    sa_check(ud == the_ud, "user data is passed on");
    visits++;
    return visits == stop_at? stop_rc: 0;
}
void W_list_visit_stop(void)
{
    int  rc;
    start();
    stop_at = sa_u8("stop_at") & 7;
    stop_rc = (int) sa_u32("stop_rc");
    if (stop_rc == 0) return;
    rc = cork_dllist_visit(&l1, the_ud, stopper);
    if (stop_at >= 1 && stop_at <= total) sa_check(rc == stop_rc && visits == stop_at, "a non-zero result ends the visit at once");
    else sa_check(rc == 0 && visits == total, "otherwise every element is visited");
    expect(&l1, e, total);
}
void W_list_map(void)
{
    start();
    cork_dllist_map(&l1, mapper, the_ud);
    sa_check(visits == total, "every element is visited");
    remaining();
}
void W_list_foreach_void(void)
{
    struct cork_dllist_item  *curr, *next;
    start();
    cork_dllist_foreach_void(&l1, curr, next) visitor(the_ud, curr);
    sa_check(visits == total, "every element is visited");
    remaining();
}
struct wrap { int  pad; struct cork_dllist_item  item; };
void W_list_foreach(void)
{
    struct cork_dllist_item  *curr, *next;
    struct wrap  *w;
    start();
    cork_dllist_foreach(&l1, curr, next, struct wrap, w, item) {
        sa_check(&w->item == curr, "the container of the current element");
        visitor(the_ud, curr);
    }
    sa_check(visits == total, "every element is visited");
    remaining();
}
