/* Garbage collection: every graph of a few objects, from which references are
 * dropped in any way.  An object is reachable if somebody outside holds a
 * reference to it, or a reachable object refers to it. */
#include "sa.h"
#include <libcork/core.h>
#include <libcork/helpers/gc.h>

#define N  3
#define NONE  N
struct node { unsigned id; struct node *slot[2]; };
static struct node  *object[N];
static unsigned  refs[N], edge[N][2];       /* references from outside; what each slot refers to */
static int  freed[N], reach[N], initialised, finished;

static unsigned
pick(unsigned n, const char *name)
{
    unsigned  i, v = sa_u32(name);
    for (i = 0; i + 1 < n; i++) if (v == i) return i;
    return n - 1;
}
static void
visit(unsigned i)
{
    if (i == NONE || reach[i]) return;
    reach[i] = 1;
}
static void
reachable(void)
{
    unsigned  i, round;
    for (i = 0; i < N; i++) reach[i] = refs[i] > 0;
    for (round = 1; round < N; round++)
        for (i = 0; i < N; i++) if (reach[i]) { visit(edge[i][0]); visit(edge[i][1]); }
}
static struct node *at(unsigned i) { return i == NONE? NULL: object[i]; }

_free_(node) {
    struct node  *self = obj;
    unsigned  id = self->id;
    sa_check(id < N && self == object[id], "objects are passed to their callbacks");
    sa_check(!freed[id], "an object is freed once");
    reachable();
    sa_check(!reach[id], "reachable objects are not freed");
    sa_check(self->slot[0] == at(edge[id][0]) && self->slot[1] == at(edge[id][1]), "an object is intact until it is freed");
    freed[id] = 1;
}
_recurse_(node) {
    struct node  *self = obj;
    sa_check(self->id < N && self == object[self->id] && !freed[self->id], "only existing objects are traversed");
    recurse(gc, self->slot[0], ud);
    recurse(gc, self->slot[1], ud);
}
_gc_(node);

static void
create(unsigned i)
{
    object[i] = cork_gc_new(node);
    object[i]->id = i; object[i]->slot[0] = object[i]->slot[1] = NULL;
    refs[i] = 1; edge[i][0] = edge[i][1] = NONE; freed[i] = 0;
}
static void
point(unsigned i, unsigned s, unsigned to)
{
    struct node  *n = cork_gc_incref(at(to));
    sa_check(n == at(to), "taking a reference returns the object");
    object[i]->slot[s] = n; edge[i][s] = to;
}
static void
drop(unsigned i)
{
    unsigned  j;
    refs[i]--;
    cork_gc_decref(object[i]);
    reachable();
    for (j = 0; j < N; j++) sa_check(!(reach[j] && freed[j]), "reachable objects stay");
}
static void
collect(void)
{
    unsigned  j;
    cork_gc_done();
    reachable();
    for (j = 0; j < N; j++) sa_check(freed[j] == !reach[j], "exactly the unreachable objects have been freed");
}
static void
start(void)
{
    create(0); create(1); create(2);
}
/* all references from outside are dropped, in between or after a collection */
static void
finish(unsigned keep)
{
    unsigned  i;
    for (i = 0; i < N; i++) if (!(keep & (1 << i))) drop(i);
    collect();
    if (keep != 0) {
        for (i = 0; i < N; i++) if (keep & (1 << i)) drop(i);
        collect();
    }
    sa_leaks(NULL);
}
static void
graph(unsigned a, unsigned b, unsigned slots)
{
    start();
    point(0, 0, a); point(0, 1, b);
    if (slots > 0) point(1, 0, pick(4, "edge"));
    if (slots > 1) point(1, 1, pick(4, "edge"));
    if (slots > 2) point(2, 0, pick(4, "edge"));
    if (slots > 3) point(2, 1, pick(4, "edge"));
    finish(pick(8, "keep"));
}
#ifndef SLOTS
#define SLOTS  3
#endif
#define GRAPH(a, b)  void W_gc_graph_##a##b(void) { graph(a, b, SLOTS); }
#define GRAPHS(a)  GRAPH(a, 0) GRAPH(a, 1) GRAPH(a, 2) GRAPH(a, 3)
GRAPHS(0) GRAPHS(1) GRAPHS(2) GRAPHS(3)

/* any history of a few operations on two objects, starting with a reference to
 * each, and one of them referring to itself or the other */
static void
history(unsigned ops)
{
    unsigned  i, op, x, s, old;
    create(0); create(1);
    object[2] = NULL; refs[2] = 0; freed[2] = 1; edge[2][0] = edge[2][1] = NONE; reach[2] = 0;
    point(0, 0, pick(2, "to"));
    for (i = 0; i < ops; i++) {
        op = pick(4, "operation");
        x = op == 2? 0: pick(2, "object");
        if (op == 0) { if (refs[x] > 0) drop(x); }
        else if (op == 1) { if (refs[x] > 0) { sa_check(cork_gc_incref(object[x]) == object[x], "taking a reference returns the object"); refs[x]++; } }
        else if (op == 2) collect();
        else if (refs[x] > 0) {                 /* change what it refers to */
            unsigned  to = pick(2, "to");
            s = pick(2, "slot");
            if (refs[to] == 0) to = NONE;
            old = edge[x][s];
            point(x, s, to);
            cork_gc_decref(at(old));
            reachable();
            sa_check(!(reach[0] && freed[0]) && !(reach[1] && freed[1]), "reachable objects stay");
        }
    }
    while (refs[0] > 0) drop(0);
    while (refs[1] > 0) drop(1);
    collect();
    sa_leaks(NULL);
}
void W_gc_history(void) { history(2); }
void W_gc_history_more(void) { history(3); }

/* without cycles, and if each object is only ever referred to once, objects go
 * at once */
static int  leaves;
struct leaf { int data; };
_gc_leaf_(leaf);
_free_(counted) { leaves++; }
struct counted { int data[3]; };
_gc_no_recurse_(counted);
struct plain { void *child; };
_recurse_(plain) { struct plain *self = obj; recurse(gc, self->child, ud); }
_gc_no_free_(plain);
void W_gc_at_once(void)
{
    struct plain  *p;
    unsigned  i;
    start();
    object[0]->slot[0] = object[1]; edge[0][0] = 1; refs[1] = 0;
    object[pick(2, "which")]->slot[1] = object[2]; edge[object[1]->slot[1] != NULL? 1: 0][1] = 2; refs[2] = 0;
    cork_gc_init();
    cork_gc_incref(NULL); cork_gc_decref(NULL);
    drop(0);
    for (i = 0; i < N; i++) sa_check(freed[i], "an object is freed when its last reference goes");
    leaves = 0;
    p = cork_gc_new(plain);
    p->child = cork_gc_new(counted);
    cork_gc_decref(cork_gc_new(leaf));
    cork_gc_decref(p);
    sa_check(leaves == 1, "objects of all kinds are freed");
    sa_leaks(NULL);
    cork_gc_done();
    sa_leaks(NULL);
}
/* more candidates for cycles than are kept before the next search for garbage;
 * the search begins with any of an object that is released, and what it refers
 * to, which stays in use */
#define MANY  360
struct pair { void *child[2]; };
_recurse_(pair) { struct pair *self = obj; recurse(gc, self->child[0], ud); recurse(gc, self->child[1], ud); }
_gc_no_free_(pair);
static struct plain  *many[2 * MANY], *other[2];
static struct plain *plain(void) { struct plain *p = cork_gc_new(plain); p->child = NULL; return p; }
static void candidate(void *p) { cork_gc_incref(p); cork_gc_decref(p); }
void W_gc_many(void)
{
    unsigned  i, more = pick(3, "more");
    for (i = 0; i < more; i++) { other[i] = plain(); candidate(other[i]); }
    for (i = 0; i < 2 * MANY; i += 2) {
        struct pair  *p = cork_gc_new(pair);
        many[i] = plain(); many[i + 1] = plain();
        p->child[0] = cork_gc_incref(many[i]); p->child[1] = cork_gc_incref(many[i + 1]);
        candidate(p);
        cork_gc_decref(p);
    }
    for (i = 0; i < 2 * MANY; i++) sa_check(many[i]->child == NULL, "objects that are still in use stay");
    for (i = 0; i < more; i++) cork_gc_decref(other[i]);
    for (i = 0; i < 2 * MANY; i++) cork_gc_decref(many[i]);
    cork_gc_done();
    sa_leaks(NULL);
}
