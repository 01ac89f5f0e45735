/* Paths, lists of paths, and the standard directories.  Strings have up to a
 * few characters, each of them arbitrary. */
#include "sa.h"
#include <errno.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>

static unsigned
pick(unsigned n, const char *name)
{
    unsigned  i, v = sa_u32(name);
    for (i = 0; i + 1 < n; i++) if (v == i) return i;
    return n - 1;
}
size_t strlen(const char *s) { size_t n = 0; while (s[n] != 0) n++; return n; }
char *strchr(const char *s, int c)
{
    for (; ; s++) {
        if (*s == (char) c) return (char *) s;
        if (*s == '\0') return NULL;
    }
}
char *strrchr(const char *s, int c)
{
    const char  *found = NULL;
    for (; ; s++) {
        if (*s == (char) c) found = s;
        if (*s == '\0') return (char *) found;
    }
}
size_t strcspn(const char *s, const char *reject)
{
    size_t  n = 0;
    while (s[n] != 0 && strchr(reject, s[n]) == NULL) n++;
    return n;
}
int strcmp(const char *a, const char *b)
{
    for (; *a == *b; a++, b++) if (*a == '\0') return 0;
    return *a < *b? -1: 1;
}

/* a string of up to `most` characters other than NUL */
static unsigned
text(char *s, unsigned most, const char *name)
{
    unsigned  i, n = pick(most + 1, name);
    for (i = 0; i < n; i++) { s[i] = sa_u8(name); sa_assume(s[i] != 0); }
    s[n] = 0;
    return n;
}
static void
is(const struct cork_path *path, const char *s, unsigned n)
{
    const char  *p;
    unsigned  i;
    sa_check(path != NULL, "there is a path");
    p = cork_path_get(path);
    sa_check(p != NULL, "a path's string is never NULL");
    for (i = 0; i < n; i++) sa_check(p[i] == s[i], "the path is right");
    sa_check(p[n] == 0, "and ends there");
}
#define MOST  3
static char  a[MOST + 1], b[MOST + 1], keep_a[MOST + 1], keep_b[MOST + 1];

void W_path_new(void)
{
    unsigned  n = text(a, MOST, "a"), m = text(b, MOST, "b");
    int  null = sa_u8("null") & 1;
    struct cork_path  *p, *q;
    memcpy(keep_a, a, sizeof(a)); memcpy(keep_b, b, sizeof(b));
    if (null) n = 0;
    p = cork_path_new(null? NULL: a);
    is(p, keep_a, n);
    sa_havoc(a);
    is(p, keep_a, n);
    q = cork_path_clone(p);
    is(q, keep_a, n);
    null = sa_u8("null2") & 1;
    if (null) m = 0;
    cork_path_set(p, null? NULL: b);
    sa_havoc(b);
    is(p, keep_b, m); is(q, keep_a, n);
    cork_path_free(p);
    is(q, keep_a, n);
    cork_path_free(q);
    sa_leaks(NULL);
}
/* the four ways to put one path after another */
static char  joined[2 * MOST + 2];
void W_path_append(void)
{
    unsigned  n = text(a, MOST, "a"), m = text(b, 2, "b"), i, l = 0, how = pick(5, "how");
    struct cork_path  *p = cork_path_new(a), *more = cork_path_new(b), *q = NULL;
    memcpy(keep_a, a, sizeof(a)); memcpy(keep_b, b, sizeof(b));
    if (how == 4) m = 0;
    if (m == 0 || b[0] != '/') {
        for (i = 0; i < n; i++) joined[l++] = a[i];
        if (m > 0 && n > 0 && a[n - 1] != '/') joined[l++] = '/';
    }
    for (i = 0; i < m; i++) joined[l++] = b[i];
    if (how == 0) cork_path_append(p, b);
    if (how == 1) cork_path_append_path(p, more);
    if (how == 2) q = cork_path_join(p, b);
    if (how == 3) q = cork_path_join_path(p, more);
    if (how == 4) { if (sa_u8("join") & 1) q = cork_path_join(p, NULL); else cork_path_append(p, NULL); }
    sa_havoc(b);
    is(q == NULL? p: q, joined, l);
    if (q != NULL) { is(p, keep_a, n); cork_path_free(p); is(q, joined, l); p = q; }
    if (how == 1 || how == 3) is(more, keep_b, m);
    cork_path_free(more);
    is(p, joined, l);
    cork_path_free(p);
    sa_leaks(NULL);
}
static char  c[7];
void W_path_basename(void)
{
    unsigned  n = text(c, 4, "path"), from = n;
    struct cork_path  *p = cork_path_new(c), *q = NULL;
    while (from > 0 && c[from - 1] != '/') from--;
    if (sa_u8("set") & 1) { cork_path_set_basename(p); is(p, c + from, n - from); }
    else { q = cork_path_basename(p); is(p, c, n); cork_path_free(p); is(q, c + from, n - from); p = q; }
    cork_path_append(p, "x");                   /* it can be continued */
    if (n > from) { c[n++] = '/'; }
    c[n++] = 'x'; c[n] = 0;
    is(p, c + from, n - from);
    cork_path_free(p);
    sa_leaks(NULL);
}
void W_path_dirname(void)
{
    unsigned  n = text(c, 4, "path"), to = n;
    struct cork_path  *p = cork_path_new(c), *q = NULL;
    while (to > 0 && c[to - 1] != '/') to--;
    if (to > 1) to--;
    if (sa_u8("set") & 1) { cork_path_set_dirname(p); is(p, c, to); }
    else { q = cork_path_dirname(p); is(p, c, n); cork_path_free(p); is(q, c, to); p = q; }
    cork_path_free(p);
    sa_leaks(NULL);
}
/* paths much longer than those above */
#ifndef LONG
#define LONG  300
#endif
static char  l[2 * LONG + 4];
static void
same(const struct cork_path *path, const char *s, unsigned n)
{
    sa_check(path != NULL && cork_path_get(path) != NULL, "there is a path");
    sa_check(n == 0 || sa_eqbytes(cork_path_get(path), s, n), "the long path is right");
    sa_check(cork_path_get(path)[n] == 0, "and ends there");
}
void W_path_long(void)
{
    unsigned  m, n = LONG, cut, how = pick(6, "how");
    struct cork_path  *p, *q, *more;
    char  x = sa_u8("x");
    static const unsigned  places[] = { 1, LONG - 257, LONG - 1 };
    cut = places[pick(3, "slash")];
    sa_assume(x != 0 && x != '/');
    memset(l, 'y', n);
    l[cut] = '/'; l[n - (cut == n - 1? 2: 1)] = x; l[n] = 0;
    p = cork_path_new(l);
    if (how == 0) { q = cork_path_basename(p); same(q, l + cut + 1, n - cut - 1); cork_path_free(q); }
    if (how == 1) { q = cork_path_dirname(p); same(q, l, cut == 0? 1: cut); cork_path_free(q); }
    if (how == 2) { q = cork_path_clone(p); same(q, l, n); cork_path_free(q); }
    if (how == 3) cork_path_set(p, l);
    if (how == 4) cork_path_append(p, "");
    if (how == 5) {
        more = cork_path_new(l + cut + 1);
        q = cork_path_join_path(p, more);
        cork_path_free(more);
        m = n - cut - 1;
        if (m > 0) l[n++] = '/';
        memcpy(l + n, l + cut + 1, m);
        n += m;
        l[n] = 0;
        same(q, l, n);
        cork_path_free(q);
        cork_path_free(p);
        sa_leaks(NULL);
        return;
    }
    same(p, l, n);
    cork_path_free(p);
    sa_leaks(NULL);
}
/* ---- the current directory */
static char  cwd[3];
static unsigned  cwd_length;
static int  cwd_error;
char *getcwd(char *buf, size_t size)
{
    unsigned  i;
    sa_check(buf != NULL && size >= PATH_MAX, "there is room for any path");
    if (sa_u8("intr") & 1) { errno = EINTR; return NULL; }
    if (sa_u8("fail") & 1) {
        errno = cwd_error = (int) (sa_u32("errno") & 0xfff);
        sa_assume(cwd_error != 0 && cwd_error != EINTR);
        return NULL;
    }
    buf[size - 1] = sa_u8("noise");
    for (i = 0; i < cwd_length; i++) buf[i] = cwd[i];
    buf[cwd_length] = 0;
    return buf;
}
static void
any_cwd(void)
{
    cwd[0] = '/'; cwd[1] = sa_u8("cwd"); sa_assume(cwd[1] != 0); cwd[2] = 0;
    cwd_length = 1 + pick(2, "cwd"); cwd[cwd_length] = 0;
    cwd_error = 0;
    cork_error_clear();
}
static void
as_expected(int failed)
{
    sa_check(failed == (cwd_error != 0), "it fails if the system does");
    sa_check(cork_error_occurred() == (cwd_error != 0), "with an error exactly then");
    if (cwd_error) sa_check(cork_error_code() == (cork_error) cwd_error, "the system's");
}
void W_path_cwd(void)
{
    struct cork_path  *p;
    any_cwd();
    if (sa_u8("set") & 1) {
        int  rc;
        text(a, MOST, "a");
        p = cork_path_new(a);
        rc = cork_path_set_cwd(p);
        sa_check(rc == 0 || rc == -1, "0 or -1");
        as_expected(rc != 0);
    } else {
        p = cork_path_cwd();
        as_expected(p == NULL);
        if (p == NULL) { sa_leaks(NULL); return; }
    }
    if (!cwd_error) {
        is(p, cwd, cwd_length);
        joined[0] = '/'; if (cwd_length == 2) { joined[1] = cwd[1]; if (cwd[1] != '/') { joined[2] = '/'; joined[3] = 'x'; } else joined[2] = 'x'; }
        else joined[1] = 'x';
        cork_path_append(p, "x");
        is(p, joined, cwd_length == 1? 2: cwd[1] == '/'? 3: 4);
    }
    cork_path_free(p);
    sa_leaks(NULL);
}
void W_path_absolute(void)
{
    unsigned  n = text(a, MOST, "a"), i, l = 0;
    struct cork_path  *p = cork_path_new(a), *q = NULL;
    any_cwd();
    if (n == 0 || a[0] != '/') { for (i = 0; i < cwd_length; i++) joined[l++] = cwd[i]; joined[l++] = '/'; }
    for (i = 0; i < n; i++) joined[l++] = a[i];
    if (sa_u8("set") & 1) {
        int  rc = cork_path_set_absolute(p);
        sa_check(rc == 0 || rc == -1, "0 or -1");
        as_expected(rc != 0);
        if (rc != 0) is(p, a, n); else is(p, joined, l);
    } else {
        q = cork_path_absolute(p);
        as_expected(q == NULL);
        is(p, a, n);
        if (q != NULL) { cork_path_free(p); is(q, joined, l); p = q; }
    }
    cork_path_free(p);
    sa_leaks(NULL);
}
/* ---- lists of paths */
static char  list_text[5], more_text[3];
static struct cork_path_list  *list;
static unsigned  list_size;
/* the list's paths are the pieces of s */
static void
pieces(const char *s)
{
    unsigned  from = 0, to;
    for (;;) {
        for (to = from; s[to] != 0 && s[to] != ':'; to++) {}
        is(cork_path_list_get(list, list_size++), s + from, to - from);
        if (s[to] == 0) break;
        from = to + 1;
    }
}
static void
reads(const char *s)
{
    const char  *p = cork_path_list_to_string(list);
    unsigned  i = 0;
    sa_check(p != NULL, "a list's string is never NULL");
    for (i = 0; s[i] != 0; i++) sa_check(p[i] == s[i], "the string has the paths, separated by colons");
    sa_check(p[i] == 0, "and nothing else");
}
void W_paths_list(void)
{
    unsigned  n = text(list_text, 4, "list");
    (void) n;
    list = cork_path_list_new(list_text);
    list_size = 0;
    pieces(list_text);
    sa_check(cork_path_list_size(list) == list_size, "one path per piece");
    reads(list_text);
    cork_path_list_free(list);
    sa_leaks(NULL);
}
static struct cork_path  *paths[3];
void W_paths_add(void)
{
    unsigned  n = pick(4, "n"), i, l = 0;
    char  s[7];
    list = cork_path_list_new_empty();
    s[0] = 0;
    reads(s);
    for (i = 0; i < n; i++) {
        char  t[2];
        t[0] = sa_u8("path"); t[1] = 0;
        if (i > 0) s[l++] = ':';
        if (t[0] != 0) s[l++] = t[0];
        s[l] = 0;
        paths[i] = cork_path_new(t);
        cork_path_list_add(list, paths[i]);
    }
    sa_check(cork_path_list_size(list) == n, "the list has the paths added to it");
    for (i = 0; i < n; i++) sa_check(cork_path_list_get(list, i) == paths[i], "in order");
    reads(s);
    cork_path_list_free(list);
    sa_leaks(NULL);
}
/* ---- standard paths, from the environment */
enum { HOME, USER, SYSTEM };
static const char  *variable[3];
static char  value[3][4], *given[3];
static unsigned  given_length[3];
char *getenv(const char *name)
{
    unsigned  i;
    for (i = 0; i < 3; i++)
        if (variable[i] != NULL && strcmp(name, variable[i]) == 0) return given[i];
    sa_check(0, "only the documented variables matter");
    return NULL;
}
static void
environment(const char *user, const char *system)
{
    unsigned  i;
    variable[HOME] = "HOME"; variable[USER] = user; variable[SYSTEM] = system;
    for (i = 0; i < 3; i++) {
        given_length[i] = 0;
        given[i] = NULL;
        if (sa_u8("set") & 1) { given_length[i] = text(value[i], i == SYSTEM? 3: 1, "value"); given[i] = value[i]; }
    }
    cork_error_clear();
}
static char  want[64];
static unsigned  want_length;
static void
add(const char *s)
{
    unsigned  i;
    for (i = 0; s[i] != 0; i++) want[want_length++] = s[i];
    want[want_length] = 0;
}
/* what a path below the home directory should be */
static int
home(const char *below)
{
    if (given_length[HOME] == 0) return 0;
    add(value[HOME]);
    if (value[HOME][0] != '/') add("/");
    add(below);
    return 1;
}
static void
standard_list(struct cork_path_list *l, const char *below, const char *system)
{
    int  ok = 1;
    unsigned  i, user;
    list = l;
    want_length = 0;
    if (given_length[USER] != 0) add(value[USER]); else ok = home(below);
    sa_check((l != NULL) == ok, "it fails if there is no home directory to use");
    sa_check(cork_error_occurred() == !ok, "with an error exactly then");
    if (l == NULL) { sa_leaks(NULL); return; }
    list_size = 1;
    is(cork_path_list_get(list, 0), want, want_length);
    add(":");
    user = want_length;
    add(given_length[SYSTEM] != 0? value[SYSTEM]: system);
    pieces(want + user);
    sa_check(cork_path_list_size(list) == list_size, "and nothing else is in the list");
    reads(want);
    cork_path_list_free(list);
    sa_leaks(NULL);
}
void W_paths_config(void)
{
    environment("XDG_CONFIG_HOME", "XDG_CONFIG_DIRS");
    standard_list(cork_path_config_paths(), ".config", "/etc/xdg");
}
void W_paths_data(void)
{
    environment("XDG_DATA_HOME", "XDG_DATA_DIRS");
    standard_list(cork_path_data_paths(), ".local/share", "/usr/local/share:/usr/share");
}
static void
standard_path(struct cork_path *p, int ok)
{
    sa_check((p != NULL) == ok, "it fails if there is no directory to use");
    sa_check(cork_error_occurred() == !ok, "with an error exactly then");
    if (p != NULL) { is(p, want, want_length); cork_path_free(p); }
    sa_leaks(NULL);
}
void W_paths_home(void)
{
    environment(NULL, NULL);
    want_length = 0; add(given_length[HOME] != 0? value[HOME]: "");
    standard_path(cork_path_home(), given_length[HOME] != 0);
}
void W_paths_cache(void)
{
    int  ok = 1;
    environment("XDG_CACHE_HOME", NULL);
    want_length = 0;
    if (given_length[USER] != 0) add(value[USER]); else ok = home(".cache");
    standard_path(cork_path_user_cache_path(), ok);
}
void W_paths_runtime(void)
{
    environment("XDG_RUNTIME_DIR", NULL);
    want_length = 0; add(given_length[USER] != 0? value[USER]: "");
    standard_path(cork_path_user_runtime_path(), given_length[USER] != 0);
}
