/* Walking a directory tree.  The tree has up to three levels; entries are of
 * any kind, with names of one or two arbitrary characters. */
#include "sa.h"
#include <dirent.h>
#include <errno.h>
#include <string.h>
#include <sys/stat.h>
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>

size_t strlen(const char *s) { size_t n = 0; while (s[n] != 0) n++; return n; }
int strcmp(const char *a, const char *b)
{
    for (; *a == *b; a++, b++) if (*a == '\0') return 0;
    return *a < *b? -1: 1;
}
static unsigned
pick(unsigned n, const char *name)
{
    unsigned  i, v = sa_u32(name);
    for (i = 0; i + 1 < n; i++) if (v == i) return i;
    return n - 1;
}
/* ---- the tree */
#define DEPTH  3
static char  path[16];                      /* where the walk should be */
static unsigned  len, root, depth;          /* its length, of which the root has this much */
static unsigned  base[DEPTH];               /* the length of each open directory's path */
static unsigned  left[DEPTH];               /* how many entries it still has */
static unsigned  start_of_name;
static int  opened[DEPTH], expect_open, kind, pending, skipped, failed, result, last_errno;
static struct dirent  entry;
static const unsigned  *entries;            /* how many entries a directory of each level can have */
static int  first, sub, second;             /* -1, or what the first entry is, how many its directory has, and what its second entry is */
static int  handles[DEPTH], names;          /* names: one file with any name; otherwise any tree with fixed ones */
enum { NONE, REG, DIRECTORY, OTHER };

static void
is_path(const char *s, unsigned from)
{
    unsigned  i;
    if (from == 0 && path[0] == '/') while (s[0] == '/' && s[1] == '/') s++;    /* "//x" is "/x" */
    for (i = from; i < len; i++) sa_check(s[i - from] == path[i], "the path is right");
    sa_check(s[len - from] == 0, "and complete");
}
static void
any_errno(void)
{
    last_errno = (int) (sa_u32("errno") & 0xfff);
    sa_assume(last_errno != 0 && last_errno != EINTR);
    errno = last_errno;
}
static int
fails(void)
{
    sa_check(!failed, "nothing is done after a failure");
    if (!(sa_u8("fail") & 1)) { errno = (int) sa_u8("noise"); return 0; }
    any_errno(); failed = 1; result = -1;
    return 1;
}
DIR *opendir(const char *name)
{
    sa_check(expect_open, "only directories are opened");
    is_path(name, 0);
    if (sa_u8("intr") & 1) { errno = EINTR; return NULL; }
    if (len == 0) { sa_check(!failed, "nothing is done after a failure"); failed = 1; result = -1; errno = last_errno = ENOENT; return NULL; }
    if (fails()) return NULL;
    expect_open = 0;
    base[depth] = len; opened[depth] = 1;
    left[depth] = names? 1: depth < DEPTH - 1? pick(entries[depth] + 1, "entries"): 0;
    if (depth == 1 && sub >= 0) { sa_assume(left[1] == (unsigned) sub); sub = -1; }
    pending = 0; skipped = 0;
    return (DIR *) &handles[depth++];
}
struct dirent *readdir(DIR *dir)
{
    unsigned  d = depth - 1;
    sa_check(depth > 0 && dir == (DIR *) &handles[d] && opened[d], "the innermost directory is read");
    sa_check(!failed && !pending && !expect_open, "every entry is dealt with");
    len = base[d];
    if (left[d] == 0) {
        if (sa_u8("fail") & 1) { any_errno(); failed = 1; result = -1; }
        return NULL;
    }
    left[d]--;
    if (path[len - 1] != '/') path[len++] = '/';
    start_of_name = len;
    if (!names) {                           /* "a", "bc", ... or special */
        entry.d_name[0] = sa_u8("special") & 1? '.': 'a' + d;
        entry.d_name[1] = 0;
        path[len++] = entry.d_name[0];
        pending = entry.d_name[0] != '.'; kind = NONE;
        return &entry;
    }
    entry.d_name[0] = sa_u8("name"); sa_assume(entry.d_name[0] != 0 && entry.d_name[0] != '/');
    path[len++] = entry.d_name[0];
    if (pick(2, "two")) {
        entry.d_name[1] = sa_u8("name"); sa_assume(entry.d_name[1] != 0 && entry.d_name[1] != '/');
        path[len++] = entry.d_name[1]; entry.d_name[2] = 0;
        pending = entry.d_name[0] != '.' || entry.d_name[1] != '.';
    } else {
        entry.d_name[1] = 0;
        pending = entry.d_name[0] != '.';
    }
    kind = NONE;
    return &entry;
}
int stat(const char *restrict name, struct stat *restrict info)
{
    sa_check(pending && kind == NONE, "every entry but the two special ones is looked at once");
    is_path(name, 0);
    if (fails()) { pending = 0; return -1; }
    kind = names? REG: 1 + (int) pick(3, "kind");
    info->st_mode = (kind == REG? S_IFREG: kind == DIRECTORY? S_IFDIR: S_IFIFO) | (sa_u32("mode") & 0777);
    if (first >= 0) { sa_assume(kind == first); first = -1; }
    else if (second >= 0) { sa_assume(kind == second); second = -1; }
    if (kind == OTHER) pending = 0;
    return 0;
}
int closedir(DIR *dir)
{
    unsigned  d = depth - 1;
    sa_check(depth > 0 && dir == (DIR *) &handles[d] && opened[d], "every directory is closed once, innermost first");
    sa_check(failed || left[d] == 0, "a directory is left when all of it is read");
    opened[d] = 0; depth--;
    if (sa_u8("fail") & 1) { any_errno(); failed = 1; result = -1; return -1; }
    len = base[d];
    if (!failed) { errno = (int) sa_u8("noise"); start_of_name = len; while (start_of_name > 0 && path[start_of_name - 1] != '/') start_of_name--; }
    return 0;
}
/* ---- the callbacks */
static int
outcome(const char *full, const char *rel, const char *name)
{
    int  rc;
    sa_check(!failed, "no callback after a failure");
    is_path(full, 0); is_path(rel, path[0] == '/'? 1: root + 1); is_path(name, start_of_name);
    errno = (int) sa_u8("noise");
    rc = (int) sa_u32("rc");
    return rc;
}
static int
on_file(struct cork_dir_walker *w, const char *full, const char *rel, const char *name)
{
    int  rc;
    sa_check(pending && kind == REG, "regular files are reported, once");
    pending = 0;
    rc = outcome(full, rel, name);
    if (rc != 0) { failed = 1; result = rc; last_errno = 0; }
    return rc;
}
static int
on_enter(struct cork_dir_walker *w, const char *full, const char *rel, const char *name)
{
    int  rc;
    sa_check(pending && kind == DIRECTORY, "subdirectories are entered, once");
    pending = 0;
    rc = outcome(full, rel, name);
    if (rc == CORK_SKIP_DIRECTORY) return rc;
    if (rc != 0) { failed = 1; result = rc; last_errno = 0; }
    else { expect_open = 1; skipped = 1; }
    return rc;
}
static int  levels;
static int
on_leave(struct cork_dir_walker *w, const char *full, const char *rel, const char *name)
{
    int  rc;
    sa_check(depth > 0 && !opened[depth] && !expect_open, "a subdirectory is left after its entries");
    rc = outcome(full, rel, name);
    levels++;
    if (rc != 0) { failed = 1; result = rc; last_errno = 0; }
    return rc;
}
static const char *const  ROOT[] = { "r", "r/", "ab//", "/", "//", "" };
static const char *const  CLEAN[] = { "r", "r", "ab", "/", "/", "" };

static void
walk(unsigned which)
{
    struct cork_dir_walker  w = { on_enter, on_file, on_leave };
    const char  *c = CLEAN[which];
    int  rc;
    memset(opened, 0, sizeof(opened));
    for (len = 0; c[len] != 0; len++) path[len] = c[len];
    root = len; depth = 0; expect_open = 1; pending = 0; failed = 0; result = 0; last_errno = 0; kind = NONE; levels = 0; start_of_name = 0;
    cork_error_clear();
    rc = cork_walk_directory(ROOT[which], &w);
    sa_check(rc == result, "the result is that of the callback that stopped the walk, -1 for a failure, or 0");
    sa_check(depth == 0, "no directory stays open");
    if (last_errno != 0) sa_check(cork_error_occurred() && cork_error_code() == (cork_error) last_errno, "a failure sets the error to the system's");
    sa_check(failed || !expect_open, "the directory has been read");
    sa_leaks(NULL);
}
void W_walk_names(void) { names = 1; first = sub = second = -1; walk(pick(6, "root")); }
static const unsigned  WIDE[] = { 3, 0 }, DEEP[] = { 1, 1 }, BOTH[] = { 2, 1 };
static void
tree(const unsigned *n, unsigned which, int first_, int sub_, int second_)
{
    names = 0; entries = n; first = first_; sub = sub_; second = second_; walk(which);
}
void W_walk_wide(void) { tree(WIDE, 0, -1, -1, -1); }
void W_walk_deep(void) { tree(DEEP, 0, -1, -1, -1); }
void W_walk_tree_file(void) { tree(BOTH, 0, REG, -1, -1); }
void W_walk_tree_other(void) { tree(BOTH, 0, OTHER, -1, -1); }
void W_walk_tree_empty(void) { tree(BOTH, 0, DIRECTORY, 0, -1); }
void W_walk_tree_nested_file(void) { tree(BOTH, 0, DIRECTORY, 1, REG); }
void W_walk_tree_nested_directory(void) { tree(BOTH, 0, DIRECTORY, 1, DIRECTORY); }
void W_walk_tree_nested_other(void) { tree(BOTH, 0, DIRECTORY, 1, OTHER); }
void W_walk_tree_slash(void) { tree(BOTH, 3, -1, -1, -1); }
