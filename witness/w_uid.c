/* Unique identifiers */
#include "sa.h"
#include <libcork/core.h>
#include <libcork/ds.h>

cork_uid_define(first);
cork_uid_define(second);
cork_uid_define_named(third, "first");      /* the same name */
static struct cork_uid  any_ids[2];
static cork_uid
one_of(unsigned which)
{
    switch (which) { case 0: return first; case 1: return second; case 2: return third; case 3: return CORK_UID_NONE; case 4: return &any_ids[0]; default: return &any_ids[1]; }
}
static unsigned
pick(unsigned n, const char *name)
{
    unsigned  i, v = sa_u32(name);
    for (i = 0; i + 1 < n; i++) if (v == i) return i;
    return n - 1;
}
void W_uid(void)
{
    unsigned  i = pick(6, "i"), j = pick(6, "j");
    cork_uid  a = one_of(i), b = one_of(j);
    any_ids[0].name = "x"; any_ids[1].name = "x";
    sa_check(cork_uid_equal(a, b) == (i == j), "identifiers are equal exactly when they were defined together, whatever their names");
    if (i == j) sa_check(cork_uid_hash(a) == cork_uid_hash(b), "equal identifiers have equal hashes");
    sa_check(cork_uid_hash(a) == cork_uid_hash(a), "and always the same");
}
static void
is_named(cork_uid id, const char *name)
{
    const char  *s = cork_uid_name(id);
    for (; *name != '\0'; s++, name++) sa_check(*s == *name, "the identifier has its name");
    sa_check(*s == '\0', "the identifier has its name");
}
void W_uid_name(void)
{
    is_named(first, "first");
    is_named(second, "second");
    is_named(third, "first");
}
/* members and their containers */
struct outer { char  c; struct { int  x; } inner; long  after; };
void W_container(void)
{
    struct outer  *o = sa_object(sizeof(struct outer), "outer");
    sa_check(cork_container_of(&o->inner, struct outer, inner) == o, "a member's container");
    sa_check(cork_container_of(&o->after, struct outer, after) == o, "a member's container");
    sa_check(cork_container_of(&o->c, struct outer, c) == o, "a member's container");
}
