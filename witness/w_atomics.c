/* The atomic operations on a variable that any thread may change at any time:
 * what one call did to the variable, and what it returned. */
#include "sa.h"
#include <libcork/threads.h>

/* writes: how often this thread wrote; before and after: the values around the last write; seen: the last value observed */
#define writes  sa_gget("cell_writes")
#define before  sa_gget("cell_old")
#define after   sa_gget("cell_new")
#define seen    sa_gget("cell_seen")

#define ARITHMETIC(name, type, utype, any) \
void W_atomic_##name(void) \
{ \
    volatile type  *var = sa_object(sizeof(type), "var"); \
    type  delta = (type) any("delta"), result; \
    unsigned  which = sa_u8("which"); \
    utype  old, now; \
    sa_shared_cell(var, 0); \
    switch (which) { \
        case 0: result = cork_##name##_atomic_add(var, delta); break; \
        case 1: result = cork_##name##_atomic_pre_add(var, delta); break; \
        case 2: result = cork_##name##_atomic_sub(var, delta); break; \
        default: result = cork_##name##_atomic_pre_sub(var, delta); break; \
    } \
    sa_check(writes == 1, "the variable is changed once, in one step"); \
    old = (utype) before; \
    now = (utype) after; \
    if (which < 2) sa_check(now == (utype) (old + (utype) delta), "the amount is added to the value at that moment"); \
    else sa_check(now == (utype) (old - (utype) delta), "the amount is subtracted from the value at that moment"); \
    if (which == 0 || (which != 1 && which == 2)) sa_check((utype) result == now, "the new value is returned"); \
    else sa_check((utype) result == old, "the old value is returned"); \
} \
void W_atomic_cas_##name(void) \
{ \
    volatile type  *var = sa_object(sizeof(type), "var"); \
    type  old = (type) any("old"), new_value = (type) any("new"), result; \
    sa_shared_cell(var, 0); \
    result = cork_##name##_cas(var, old, new_value); \
    if (result == old) { \
        sa_check(writes == 1, "the variable is changed when it has the old value"); \
        sa_check((utype) before == (utype) old && (utype) after == (utype) new_value, "from the old to the new value, in one step"); \
    } else { \
        sa_check(writes == 0, "and left alone otherwise"); \
        sa_check((utype) seen == (utype) result, "the variable's value is returned"); \
    } \
}
ARITHMETIC(int, int, unsigned int, sa_u32)
ARITHMETIC(uint, unsigned int, unsigned int, sa_u32)
ARITHMETIC(size, size_t, size_t, sa_u64)

void W_atomic_cas_ptr(void)
{
    struct thing { int x; };
    struct thing * volatile  *var = sa_object(sizeof(struct thing *), "var");
    struct thing  *old = sa_ptr("old"), *new_value = sa_ptr("new"), *result;
    sa_shared_cell(var, 1);
    result = cork_ptr_cas(var, old, new_value);
    if (result == old) {
        sa_check(writes == 1, "the variable is changed when it has the old value");
        sa_check(before == (uintptr_t) old && after == (uintptr_t) new_value, "from the old to the new value, in one step");
    } else {
        sa_check(writes == 0, "and left alone otherwise");
        sa_check(seen == (uintptr_t) result, "the variable's value is returned");
    }
}
