/* Threads and thread identifiers.  A thread body is run (with its own
 * thread-local storage) either before pthread_create returns or only when it is joined.
 * The error condition is the witness's own, one per thread. */
#include "pthreads/thread.c"
#include <errno.h>
#include "sa.h"

/* ---- the error condition of the running thread */
static int  cur;                        /* 0 the caller, 1 the new thread */
static cork_error  err_code[2];
static const char  *err_args[4];
static int  n_err_args, err_sets;
static const char  *err_text;           /* the message of the body's error: some text, or an empty one */
static size_t  stored_len;
bool cork_error_occurred(void) { return err_code[cur] != CORK_ERROR_NONE; }
cork_error cork_error_code(void) { return err_code[cur]; }
const char *cork_error_message(void) { return err_code[cur] != CORK_ERROR_NONE? err_text: "No error"; }
void cork_error_clear(void) { err_code[cur] = CORK_ERROR_NONE; }
void cork_error_set_printf(cork_error ec, const char *fmt, ...)
{
    va_list  args;
    const char  *p;
    err_sets++;
    err_code[cur] = ec;
    n_err_args = 0;
    va_start(args, fmt);
    for (p = fmt; *p != '\0'; p++) {
        if (p[0] == '%' && p[1] == 's') {
            const char  *arg = va_arg(args, const char *);
            sa_check(sa_alive(arg), "the text put into the error message is still there");
            if (n_err_args < 4) err_args[n_err_args++] = arg;
            /* the body's own message is one of the arguments: remembered as a verdict, the text may be released later */
            if (n_err_args == 2 && (err_text[0] != 0? arg[0] == 'e' && arg[1] == '\0': arg[0] == '\0')) stored_len = 1;
        }
    }
    va_end(args);
}
void cork_error_set_string(cork_error ec, const char *s) { err_sets++; err_code[cur] = ec; }
void cork_system_error_set_explicit(int e) { err_sets++; err_code[cur] = (cork_error) e; }
void cork_system_error_set(void) { err_sets++; err_code[cur] = (cork_error) errno; }

/* ---- the thread layer below */
static void  *(*body)(void *);
static void  *body_arg;
static int  create_rc, join_rc, started, finished, joins, early;
static int  runs, run_rc, body_sets_error, ud_frees, freed_too_early;
static cork_error  body_error;
static void  *ud, *ud_freed;
static struct cork_thread  *th;
static cork_thread_id  th_id;
static pthread_t  handle;

static void
run_thread(void)
{
    int  before = cur;
    cur = 1;
    sa_tls_enter();
    body(body_arg);
    sa_tls_leave();
    cur = before;
    finished = 1;
}
int pthread_create(pthread_t *t, const pthread_attr_t *attr, void *(*f)(void *), void *arg)
{
    if (create_rc != 0) return create_rc;
    sa_check(!started, "a thread is started once");
    started = 1; body = f; body_arg = arg;
    *t = handle;
    if (early) run_thread();
    return 0;
}
int pthread_join(pthread_t t, void **result)
{
    sa_check(started && t == handle, "the started thread is waited for");
    sa_check(++joins == 1, "and only once");
    if (join_rc != 0) return join_rc;
    if (!finished) run_thread();
    return 0;
}
int pthread_setname_np(pthread_t t, const char *name)
{
    sa_check(strlen(name) < 16, "the name given to the system fits");
    return sa_u32("setname");
}

static int
t_run(void *vud)
{
    runs++;
    sa_check(vud == ud, "the body is given the user data");
    sa_check(ud_frees == 0, "which is still there");
    sa_check(cork_current_thread_get() == th, "the running thread is known");
    sa_check(cork_current_thread_get_id() == th_id, "and has the thread's identifier");
    if (body_sets_error) { err_code[1] = body_error; }
    return run_rc;
}
static void t_free(void *vud) { ud_frees++; ud_freed = vud; }

static void
start_state(void)
{
    cur = 0; err_code[0] = CORK_ERROR_NONE; err_code[1] = CORK_ERROR_NONE; err_sets = 0; n_err_args = 0; stored_len = 0;
    create_rc = 0; join_rc = 0; started = 0; finished = 0; joins = 0; runs = 0; ud_frees = 0; ud_freed = NULL;
    early = sa_u8("early") & 1;
    run_rc = 0; body_sets_error = 0; err_text = (sa_u8("text") & 1)? "e": "";
    handle = (pthread_t) sa_u64("handle");
}
static struct cork_thread *
new_thread(const char *name, int with_free)
{
    ud = sa_object(8, "ud");
    th = cork_thread_new(name, ud, with_free? t_free: NULL, t_run);
    th_id = cork_thread_get_id(th);
    return th;
}

void W_thread_run(void)
{
    const char  *name = sa_cstr("name");
    int  with_free = sa_u8("with_free") & 1, rc;
    start_state();
    body_sets_error = sa_u8("sets") & 1;        /* an error condition left over by a body that succeeds */
    body_error = sa_u32("body_error");
    sa_assume(body_error != CORK_ERROR_NONE);
    new_thread(name, with_free);
    sa_check(strlen(cork_thread_get_name(th)) == strlen(name), "the thread has the given name");
    sa_check(runs == 0 && !started, "a new thread is not started");
    rc = cork_thread_start(th);
    sa_check(rc == 0 && started, "starting succeeds");
    sa_check(ud_frees == 0, "the user data is kept while the thread may run");
    sa_check(cork_current_thread_get() != th, "the caller is another thread");
    rc = cork_thread_join(th);
    sa_check(rc == 0, "joining a thread whose body succeeded succeeds");
    sa_check(runs == 1 && joins == 1, "the body ran once, and has finished");
    sa_check(err_sets == 0 && err_code[0] == CORK_ERROR_NONE, "no error is set");
    sa_check(ud_frees == with_free && (!with_free || ud_freed == ud), "the user data is released once");
    sa_check(!sa_alive(th), "the thread is released");
    sa_leaks(NULL);
}
void W_thread_error(void)
{
    int  rc;
    start_state();
    run_rc = (int) sa_u32("run_rc");
    sa_assume(run_rc != 0);
    body_sets_error = sa_u8("sets") & 1;
    body_error = sa_u32("body_error");
    sa_assume(body_error != CORK_ERROR_NONE);
    new_thread("t", 1);
    sa_check(cork_thread_start(th) == 0, "starting succeeds");
    rc = cork_thread_join(th);
    sa_check(rc == -1 && runs == 1, "joining a thread whose body failed fails");
    sa_check(err_code[0] == (body_sets_error? body_error: CORK_UNKNOWN_ERROR), "with the body's error, or an unknown error if it set none");
    if (body_sets_error) sa_check(stored_len == 1, "and the body's message");
    sa_check(ud_frees == 1 && ud_freed == ud, "the user data is released once");
    sa_check(!sa_alive(th), "the thread is released");
    sa_leaks(NULL);
}
void W_thread_start_fails(void)
{
    int  with_free = sa_u8("with_free") & 1;
    start_state();
    create_rc = (int) sa_u32("create_rc");
    sa_assume(create_rc != 0);
    new_thread("t", with_free);
    sa_check(cork_thread_start(th) == -1, "a failure to start is reported");
    sa_check(err_code[0] == (cork_error) create_rc, "with the system's error");
    sa_check(sa_alive(th) && ud_frees == 0, "the thread still belongs to the caller");
    cork_thread_free(th);
    sa_check(ud_frees == with_free && runs == 0, "who can release it");
    sa_leaks(NULL);
}
void W_thread_join_fails(void)
{
    start_state();
    early = 1;
    new_thread("t", 1);
    sa_check(cork_thread_start(th) == 0, "starting succeeds");
    join_rc = (int) sa_u32("join_rc");
    sa_assume(join_rc != 0);
    sa_check(cork_thread_join(th) == -1, "a failure to wait is reported");
    sa_check(err_code[0] == (cork_error) join_rc, "with the system's error");
    sa_check(ud_frees == 1, "the user data is released once");
    sa_leaks(NULL);
}
void W_thread_free(void)
{
    int  with_free = sa_u8("with_free") & 1;
    start_state();
    new_thread(sa_cstr("name"), with_free);
    cork_thread_free(th);
    sa_check(runs == 0 && ud_frees == with_free && (!with_free || ud_freed == ud), "an unstarted thread never runs; its user data is released once");
    sa_check(!sa_alive(th), "the thread is released");
    sa_leaks(NULL);
}

/* ---- identifiers, with other threads drawing from the same counter at any time */
void W_thread_id_new(void)
{
    struct cork_thread  *t;
    cork_thread_id  drawn;
    sa_gset("counter_rmw", 0);
    sa_shared_counter(&last_thread_descriptor);
    t = cork_thread_new("t", NULL, NULL, t_run);
    sa_check(sa_gget("counter_rmw") == 1, "one number is drawn");
    drawn = (cork_thread_id) sa_gget("counter_old") + 1;
    sa_check(cork_thread_get_id(t) == drawn, "the identifier is the number this call drew");
    sa_check(cork_thread_get_id(t) == drawn, "and stays the same");
    sa_check(drawn != CORK_THREAD_NONE, "and is never the reserved one");
    cork_thread_free(t);
}
void W_thread_id_foreign(void)
{
    cork_thread_id  drawn, id;
    sa_gset("counter_rmw", 0);
    sa_shared_counter(&last_thread_descriptor);
    sa_tls_enter();             /* a thread not created by libcork */
    sa_check(cork_current_thread_get() == NULL, "not one of our threads");
    id = cork_current_thread_get_id();
    sa_check(sa_gget("counter_rmw") == 1, "one number is drawn");
    drawn = (cork_thread_id) sa_gget("counter_old") + 1;
    sa_check(id == drawn, "the identifier is the number this call drew");
    sa_check(cork_current_thread_get_id() == id && sa_gget("counter_rmw") == 1, "and stays the same");
    sa_tls_enter();             /* yet another */
    sa_check(cork_current_thread_get_id() != 0 && sa_gget("counter_rmw") == 2, "another thread draws its own");
    sa_tls_leave();
    sa_check(cork_current_thread_get_id() == id, "and does not disturb ours");
}
