/* One-time initialisation, analysed thread-modularly: any number of other
 * threads advance the barrier (0 -> 1 -> 2) between any two accesses. */
#include "sa.h"
#include <libcork/threads.h>

cork_once_barrier(plain);
cork_once_barrier(rec);

static int  calls, inited, nested;

static void
plain_init(void)
{
    calls++;
    sa_check(sa_gget("once_mine") == 1, "only the thread that claimed the barrier initialises");
    inited = 1;
    sa_gset("once_done", 1);
}

void W_once(void)
{
    calls = 0; inited = 0;
    sa_once(&plain__once.barrier, &plain__once.initializing_thread);
    cork_once(plain, plain_init());
    sa_check(calls <= 1, "this thread initialises at most once");
    sa_check(calls == (int) sa_gget("once_mine"), "initialised by exactly the thread that claimed the barrier");
    sa_check(plain__once.barrier == 2, "on return the initialisation has finished, whoever ran it");
    cork_once(plain, plain_init());
    sa_check(calls == (int) sa_gget("once_mine"), "never run again");
}

/* the winner's path must exist: a thread that finds the barrier unclaimed initialises */
void W_once_alone(void)
{
    calls = 0;
    plain__once.barrier = 0;
    cork_once(plain, sa_gset("once_done", 1); calls++);
    sa_check(calls == 1, "with nobody else around the initialiser runs");
    cork_once(plain, calls++);
    sa_check(calls == 1, "exactly once");
}

static void
rec_init(void)
{
    calls++;
    sa_check(sa_gget("once_mine") == 1, "only the thread that claimed the barrier initialises");
    cork_once_recursive(rec, sa_unreachable("a recursive use must not initialise again"));
    nested++;
    sa_gset("once_done", 1);
}

void W_once_recursive(void)
{
    unsigned  me = cork_current_thread_get_id();
    sa_assume(me != CORK_THREAD_NONE);    /* fewer than 2^32 threads so far */
    calls = 0; nested = 0;
    sa_gset("my_tid", me);
    sa_once(&rec__once.barrier, &rec__once.initializing_thread);
    cork_once_recursive(rec, rec_init());
    sa_check(calls <= 1, "this thread initialises at most once");
    sa_check(calls == (int) sa_gget("once_mine"), "initialised by exactly the thread that claimed the barrier");
    sa_check(nested == calls, "the recursive use inside the initialiser returns");
    sa_check(rec__once.barrier == 2, "on return the initialisation has finished, whoever ran it");
}

void W_once_recursive_alone(void)
{
    calls = 0;
    rec__once.barrier = 0;
    cork_once_recursive(rec,
        calls++;
        cork_once_recursive(rec, calls += 10);
        nested = 1;
        sa_check(calls == 1, "the nested use neither waits nor runs it again"));
    sa_check(calls == 1, "initialised exactly once");
    cork_once_recursive(rec, calls++);
    sa_check(calls == 1, "never run again");
}
