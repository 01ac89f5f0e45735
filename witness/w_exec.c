/* Program specifications: what is put in, what comes out, and what the new
 * program is started with.  Strings are empty or one arbitrary character long. */
#include "sa.h"
#include <errno.h>
#include <stdlib.h>
#include <unistd.h>
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>

size_t strlen(const char *s) { size_t n = 0; while (s[n] != 0) n++; return n; }
int strcmp(const char *a, const char *b)
{
    for (; *a == *b; a++, b++) if (*a == '\0') return 0;
    return *a < *b? -1: 1;
}
static unsigned
pick(unsigned n, const char *name)
{
    unsigned  i, v = sa_u32(name);
    for (i = 0; i + 1 < n; i++) if (v == i) return i;
    return n - 1;
}
#define PARAMS  3
static char  program, param[PARAMS];
static unsigned  params;
static int  have_env, have_cwd, changed, started, sys_errno, cleared, sets;
static char  cwd;
static struct cork_exec  *exec;
char **environ;

static int
is_text(const char *s, char c) { return s != NULL && s[0] == c && (c == 0 || s[1] == 0); }
static char
any_char(const char *name) { char c = sa_u8(name); sa_assume(c != 0); return c; }
static int  empties;                                 /* parameters may be empty strings */
static char
any_param(const char *name) { return empties? (char) sa_u8(name): any_char(name); }
static void
text(char *s, char c) { s[0] = c; s[1] = 0; }

/* ---- the system */
int setenv(const char *name, const char *value, int overwrite)
{
    sa_check(have_env && name[0] == 'N' && name[1] == 0 && value[0] == 'V' && value[1] == 0, "the given environment is used");
    sets++;
    return 0;
}
int clearenv(void) { sa_check(have_env, "the environment is replaced only by the one given"); cleared++; return 0; }
static int
outcome(void)
{
    if (sa_u8("intr") & 1) { errno = EINTR; return -1; }
    if (sa_u8("fail") & 1) {
        sys_errno = (int) (sa_u32("errno") & 0xfff);
        sa_assume(sys_errno != 0 && sys_errno != EINTR);
        errno = sys_errno;
        return -1;
    }
    return 0;
}
int chdir(const char *path)
{
    int  rc;
    sa_check(have_cwd && !changed && is_text(path, cwd), "the given directory is entered");
    sa_check(sys_errno == 0, "nothing further is done after a failure");
    rc = outcome();
    if (rc == 0) changed = 1;
    return rc;
}
int execvp(const char *file, char *const argv[])
{
    unsigned  i;
    int  rc;
    sa_check(sys_errno == 0, "nothing further is done after a failure");
    sa_check(is_text(file, program), "the given program is started");
    for (i = 0; i < params; i++) sa_check(is_text(argv[i], param[i]), "with the parameters in order");
    sa_check(argv[params] == NULL, "and no others");
    sa_check(changed == have_cwd, "in the given directory, or the current one");
    sa_check((cleared > 0) == have_env && (!have_env || sets == 1), "with the given environment, or the current one");
    rc = outcome();
    if (rc == 0) sa_assume(0);
    return rc;
}

/* ---- building a specification */
static void
start(void)
{
    params = 0; have_env = 0; have_cwd = 0; changed = 0; started = 0; sys_errno = 0; cleared = 0; sets = 0;
    cork_error_clear();
}
static void
add(void)
{
    char  s[2];
    param[params] = any_param("param"); text(s, param[params]);
    cork_exec_add_param(exec, s);
    params++;
    sa_havoc(s);
}
static void
make(unsigned how, unsigned more)
{
    char  p[2], a[2], b[2];
    const char  *array[3];
    unsigned  i, n = how % 3;
    start();
    program = any_char("program"); text(p, program);
    if (how == 0) {
        exec = cork_exec_new(p);
    } else {
        char  x = any_param("a"), y = any_param("b");
        text(a, x); text(b, y);
        if (how < 4) {                               /* a list of 0 to 2 */
            param[params++] = program;
            if (n == 1) exec = cork_exec_new_with_params(p, a, NULL);
            else if (n == 2) exec = cork_exec_new_with_params(p, a, b, NULL);
            else exec = cork_exec_new_with_params(p, NULL);
        } else {                                     /* an array of 0 to 2 */
            for (i = 0; i < n; i++) array[i] = i == 0? a: b;
            array[n] = NULL;
            exec = cork_exec_new_with_param_array(p, (char *const *) array);
        }
        if (n > 0) param[params++] = x;
        if (n > 1) param[params++] = y;
        sa_havoc(a); sa_havoc(b);
    }
    sa_havoc(p);
    for (i = 0; i < more && params < PARAMS; i++) add();
}
static void
check(void)
{
    const char  *d = cork_exec_description(exec);
    unsigned  i;
    sa_check(is_text(cork_exec_program(exec), program), "the program is the given one");
    sa_check(cork_exec_param_count(exec) == params, "the parameters are counted");
    for (i = 0; i < params; i++) sa_check(is_text(cork_exec_param(exec, i), param[i]), "and kept in order");
    if (program != 0) sa_check(*d++ == program, "the description is the program");
    for (i = 1; i < params; i++) {
        sa_check(*d++ == ' ', "and its further parameters");
        if (param[i] != 0) sa_check(*d++ == param[i], "and its further parameters");
    }
    sa_check(*d == 0, "and nothing else");
}
static void
environment(void)
{
    struct cork_env  *env = cork_env_new();
    cork_env_add(env, "N", "V");
    cork_exec_set_env(exec, env);
    sa_check(cork_exec_env(exec) == env, "the environment is the last given one");
    have_env = 1;
}
static void
directory(void)
{
    char  s[2];
    cwd = any_char("cwd"); text(s, cwd);
    cork_exec_set_cwd(exec, s);
    sa_havoc(s);
    sa_check(is_text(cork_exec_cwd(exec), cwd), "the directory is the last given one");
    have_cwd = 1;
}
static void
built(unsigned how, unsigned more)
{
    empties = 1;
    make(how, more);
    check();
    sa_check(cork_exec_env(exec) == NULL && cork_exec_cwd(exec) == NULL, "no environment and directory at first");
    cork_exec_free(exec);
    sa_leaks(NULL);
}
void W_exec_new(void) { built(0, pick(4, "more")); }
void W_exec_list(void) { built(1 + pick(3, "n"), pick(2, "more")); }
void W_exec_array(void) { built(4 + pick(3, "n"), pick(2, "more")); }
void W_exec_settings(void)
{
    unsigned  twice = pick(2, "twice");
    empties = 0;
    make(0, 1);
    environment(); directory();
    if (twice) { directory(); environment(); }
    check();
    cork_exec_free(exec);
    sa_leaks(NULL);
}
static void
run(unsigned more)
{
    int  rc;
    empties = 0;
    make(0, more);
    if (sa_u8("cwd?") & 1) directory();
    if (sa_u8("env?") & 1) environment();
    rc = cork_exec_run(exec);
    sa_check(rc == -1 && sys_errno != 0, "running returns only if it fails");
    sa_check(cork_error_occurred() && cork_error_code() == (cork_error) sys_errno, "with the system's error");
    cork_exec_free(exec);
    sa_leaks(NULL);
}
void W_exec_run(void) { run(1); }
void W_exec_run_empty(void) { run(0); }
void W_exec_run_params(void) { run(3); }
