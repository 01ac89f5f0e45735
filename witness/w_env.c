/* Environments and program specifications.  Names are a few concrete strings
 * (they decide the shape of the table underneath); values are arbitrary. */
#include "sa.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>

static unsigned
pick(unsigned n, const char *name)
{
    unsigned  i, v = sa_u32(name);
    for (i = 0; i + 1 < n; i++) if (v == i) return i;
    return n - 1;
}
#define NAMES  3
static const char *const  NAME[NAMES] = { "A", "BC", "D" };
/* what each variable should be: unset, or a one-character string */
struct expect { int set; char value; };

static int
is_text(const char *s, char c) { return s != NULL && s[0] == c && (c == 0 || s[1] == 0); }

size_t strlen(const char *s) { size_t n = 0; while (s[n] != 0) n++; return n; }
char *strchr(const char *s, int c)
{
    for (; ; s++) {
        if (*s == (char) c) return (char *) s;
        if (*s == '\0') return NULL;
    }
}
int strcmp(const char *a, const char *b)
{
    for (; *a == *b; a++, b++) if (*a == '\0') return 0;
    return *a < *b? -1: 1;
}

/* ---- the process environment, as the library sees it */
static struct expect  process[NAMES];
static int  cleared, sets;
static char  process_value[2];
char **environ;

static unsigned
index_of(const char *name)
{
    unsigned  i;
    for (i = 0; i < NAMES; i++) if (name[0] == NAME[i][0]) break;
    sa_check(i < NAMES && (NAME[i][1] == 0? name[1] == 0: (name[1] == NAME[i][1] && name[2] == 0)), "the variable's name is passed on");
    return i;
}
int setenv(const char *name, const char *value, int overwrite)
{
    unsigned  i = index_of(name);
    sets++;
    sa_check(value[0] == 0 || value[1] == 0, "the variable's value is passed on");
    if (process[i].set && !overwrite) return 0;
    process[i].set = 1; process[i].value = value[0];
    return 0;
}
int unsetenv(const char *name) { process[index_of(name)].set = 0; return 0; }
char *getenv(const char *name)
{
    unsigned  i = index_of(name);
    if (!process[i].set) return NULL;
    process_value[0] = process[i].value; process_value[1] = 0;
    return process_value;
}
int clearenv(void)
{
    unsigned  i;
    for (i = 0; i < NAMES; i++) process[i].set = 0;
    cleared++;
    return 0;
}
/* the only conversion used: one string */
int vsnprintf(char *buf, size_t size, const char *format, va_list args)
{
    const char  *s = va_arg(args, const char *);
    sa_check(format[0] == '%' && format[1] == 's' && format[2] == 0, "the format is passed on");
    if (size > 0) buf[0] = size > 1? s[0]: 0;
    if (size > 1 && s[0] != 0) buf[1] = 0;
    return s[0] == 0? 0: 1;
}

/* ---- one operation with an expected outcome; caller-owned strings change afterwards */
static void
change(struct cork_env *env, struct expect *e, unsigned names)
{
    char  name[3], value[2];
    unsigned  i = pick(names, "name"), op = pick(3, "op"), k;
    for (k = 0; k < 3; k++) { name[k] = NAME[i][k]; if (name[k] == 0) break; }
    value[0] = sa_u8("value"); value[1] = 0;
    switch (op) {
        case 0: cork_env_add(env, name, value); break;
        case 1: cork_env_add_printf(env, name, "%s", value); break;
        case 2: cork_env_remove(env, name); e[i].set = 0; break;
    }
    if (op != 2) { e[i].set = 1; e[i].value = value[0]; }
    sa_havoc(name); sa_havoc(value);
}
static void
same(struct cork_env *env, struct expect *e)
{
    unsigned  i;
    for (i = 0; i < NAMES; i++) {
        const char  *v = cork_env_get(env, NAME[i]);
        if (e[i].set) sa_check(is_text(v, e[i].value), "a variable has the value last given to it");
        else sa_check(v == NULL, "a variable that was not added, or was removed, is not there");
    }
}
static void
nothing(struct expect *e)
{
    unsigned  i;
    for (i = 0; i < NAMES; i++) { e[i].set = 0; e[i].value = 0; }
    cleared = 0; sets = 0;
}
static void
anything(struct expect *e)
{
    unsigned  i;
    for (i = 0; i < NAMES; i++) { e[i].set = pick(2, "set"); e[i].value = sa_u8("v"); }
    cleared = 0; sets = 0;
}

/* every history of three operations */
static void
history(unsigned a, unsigned b, unsigned c)
{
    struct expect  e[NAMES];
    struct cork_env  *env = cork_env_new();
    nothing(e);
    if (a) change(env, e, a);
    if (b) change(env, e, b);
    if (c) change(env, e, c);
    same(env, e);
    cork_env_free(env);
    sa_check(cleared == 0 && sets == 0, "the process's own environment is left alone");
    sa_leaks(NULL);
}
void W_env_history_three(void) { history(1, 2, 2); }
void W_env_history_two(void) { history(0, 3, 3); }
void W_env_empty(void)
{
    struct expect  e[NAMES];
    struct cork_env  *env = cork_env_new();
    nothing(e);
    same(env, e);
    cork_env_free(env);
    sa_leaks(NULL);
}
/* the process's environment */
void W_env_process(void)
{
    struct expect  e[NAMES];
    unsigned  i;
    anything(process);
    for (i = 0; i < NAMES; i++) e[i] = process[i];
    change(NULL, e, NAMES);
    same(NULL, e);
    for (i = 0; i < NAMES; i++) sa_check(process[i].set == e[i].set && (!e[i].set || process[i].value == e[i].value), "the process's environment is changed accordingly");
    sa_leaks(NULL);
}
/* copying the process's environment: every variable, and nothing else; entries without '=' are skipped */
void W_env_clone(void)
{
    static char  text[NAMES][5];
    static char  *entries[NAMES + 2];
    struct expect  e[NAMES];
    struct cork_env  *env;
    unsigned  i, k, n = 0;
    unsigned  malformed = pick(NAMES + 1, "malformed");
    anything(process);
    for (i = 0; i < NAMES; i++) {
        e[i] = process[i];
        if (malformed == i) entries[n++] = "Z";
        if (!e[i].set) continue;
        for (k = 0; NAME[i][k] != 0; k++) text[i][k] = NAME[i][k];
        text[i][k++] = '='; text[i][k++] = e[i].value; text[i][k] = 0;
        entries[n++] = text[i];
    }
    entries[n] = NULL;
    environ = entries;
    env = cork_env_clone_current();
    for (i = 0; i < NAMES; i++) sa_havoc(text[i]);
    same(env, e);
    sa_check(cork_env_get(env, "Z") == NULL, "an entry that is no variable is skipped");
    cork_env_free(env);
    sa_check(cleared == 0 && sets == 0, "the process's own environment is left alone");
    sa_leaks(NULL);
}
/* values may contain '=' */
void W_env_clone_equals(void)
{
    static char  *entries[2];
    struct cork_env  *env;
    const char  *v;
    entries[0] = "A=b=c"; entries[1] = NULL;
    environ = entries;
    env = cork_env_clone_current();
    v = cork_env_get(env, "A");
    sa_check(v != NULL && v[0] == 'b' && v[1] == '=' && v[2] == 'c' && v[3] == 0, "the value starts after the first '='");
    cork_env_free(env);
    sa_leaks(NULL);
}
/* replacing the process's environment */
void W_env_replace(void)
{
    struct expect  e[NAMES];
    struct cork_env  *env = cork_env_new();
    unsigned  i;
    nothing(e); anything(process);
    change(env, e, 2); change(env, e, 2);
    cork_env_replace_current(env);
    for (i = 0; i < NAMES; i++) {
        sa_check(process[i].set == e[i].set, "the process has exactly the given variables");
        if (e[i].set) sa_check(process[i].value == e[i].value, "with their values");
    }
    sa_check(cleared >= 1, "whatever else was set is gone");
    same(env, e);
    cork_env_free(env);
    sa_leaks(NULL);
}
/* long names and values */
#define LONG  300
static char  long_entry[3 * LONG];
void W_env_long(void)
{
    static char  *entries[2];
    struct cork_env  *env;
    unsigned  length = pick(2, "name")? LONG: 1, how = pick(3, "how");
    char  x = sa_u8("x"), *value = long_entry + length + 1;
    const char  *v;
    sa_assume(x != 0);
    memset(long_entry, 'y', 3 * LONG - 1);
    long_entry[3 * LONG - 1] = 0;
    long_entry[length] = how == 0? '=': 0;
    value[LONG] = x;
    if (how == 0) {
        entries[0] = long_entry; entries[1] = NULL;
        environ = entries;
        env = cork_env_clone_current();
        long_entry[length] = 0;
    } else {
        env = cork_env_new();
        if (how == 1) cork_env_add(env, long_entry, "");
        cork_env_add(env, long_entry, value);
    }
    v = cork_env_get(env, long_entry);
    sa_check(v != NULL && v != value && sa_eqbytes(v, value, 3 * LONG - length - 1), "long values are kept");
    long_entry[0] = 'z';
    sa_check(cork_env_get(env, long_entry) == NULL, "other names have no value");
    cork_env_free(env);
    sa_leaks(NULL);
}
