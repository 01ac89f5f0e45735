/* Cleanup functions: up to three with any priorities, registered before or
 * while the process terminates. */
#include "sa.h"
#include <stdlib.h>
#include <libcork/core.h>
#include <libcork/os/process.h>

static unsigned
pick(unsigned n, const char *name)
{
    unsigned  i, v = sa_u32(name);
    for (i = 0; i + 1 < n; i++) if (v == i) return i;
    return n - 1;
}
static void  (*at_exit)(void);
static int  exiting, called[3], registered[3], priority[3], last, any, late;

int atexit(void (*f)(void))
{
    sa_check(at_exit == NULL && !exiting, "the process's exit is hooked once");
    at_exit = f;
    return 0;
}
static void add(unsigned i);
static void
cleanup(int i)
{
    sa_check(exiting, "cleanup functions run when the process terminates");
    sa_check(registered[i] && !called[i], "each of them once");
    sa_check(!any || last <= priority[i], "in the order of their priorities");
    called[i] = 1; any = 1; last = priority[i];
    if (late == i && !registered[2]) add(2);
}
static void f0(void) { cleanup(0); }
static void f1(void) { cleanup(1); }
static void f2(void) { cleanup(2); }
static void
add(unsigned i)
{
    char  name[2];
    name[0] = sa_u8("name"); name[1] = 0;
    priority[i] = (int) sa_u32("priority");
    if (exiting) sa_assume(priority[i] >= last);
    registered[i] = 1;
    cork_cleanup_at_exit_named(name, priority[i], i == 0? f0: i == 1? f1: f2);
    sa_havoc(name);
    sa_check(exiting || (!called[0] && !called[1] && !called[2]), "registering a function does not call it");
    sa_check(at_exit != NULL, "it will be called when the process terminates");
}
static void
terminate(void)
{
    exiting = 1;
    if (at_exit != NULL) at_exit();
    sa_check(called[0] == registered[0] && called[1] == registered[1] && called[2] == registered[2], "every registered function is called");
    sa_leaks(NULL);
}
static void
start(void)
{
    at_exit = NULL; exiting = any = last = 0; late = -1;
    called[0] = called[1] = called[2] = registered[0] = registered[1] = registered[2] = 0;
}
void W_cleanup_before(void)
{
    unsigned  n = pick(4, "n");
    start();
    if (n > 0) add(0);
    if (n > 1) add(1);
    if (n > 2) add(2);
    terminate();
}
/* one of them registers another */
void W_cleanup_during(void)
{
    unsigned  n = 1 + pick(2, "n");
    start();
    add(0);
    if (n > 1) add(1);
    late = (int) pick(n, "late");
    terminate();
}
