/* Files and directories: what is known about a file, reading a directory,
 * creating and removing, and searching a list of paths.  The system calls are a
 * model of a small tree; each of them can fail. */
#include "sa.h"
#include <dirent.h>
#include <errno.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>

size_t strlen(const char *s) { size_t n = 0; while (s[n] != 0) n++; return n; }
int strcmp(const char *a, const char *b)
{
    for (; *a == *b; a++, b++) if (*a == '\0') return 0;
    return *a < *b? -1: 1;
}
char *strrchr(const char *s, int c)
{
    const char  *found = NULL;
    for (; ; s++) {
        if (*s == (char) c) found = s;
        if (*s == '\0') return (char *) found;
    }
}
char *strchr(const char *s, int c)
{
    for (; ; s++) {
        if (*s == (char) c) return (char *) s;
        if (*s == '\0') return NULL;
    }
}
static unsigned
pick(unsigned n, const char *name)
{
    unsigned  i, v = sa_u32(name);
    for (i = 0; i + 1 < n; i++) if (v == i) return i;
    return n - 1;
}

/* ---- failures */
static int  failed, last_errno;
static void
any_errno(void)
{
    last_errno = (int) (sa_u32("errno") & 0xfff);
    sa_assume(last_errno != 0 && last_errno != EINTR && last_errno != ENOENT && last_errno != ENOTDIR);
    errno = last_errno; failed = 1;
}
static int  unreliable;                     /* system calls can fail */
static int
fails(void)
{
    sa_check(!failed, "nothing is done after a failure");
    if (!unreliable || !(sa_u8("fail") & 1)) return 0;
    any_errno();
    return 1;
}
static int
refuse(int err)
{
    failed = 1; errno = last_errno = err;
    return -1;
}
static void
is_result(int rc)
{
    sa_check(rc == (failed? -1: 0), "-1 exactly if something failed, or 0");
    sa_check(!!cork_error_occurred() == failed, "with an error exactly then");
    if (failed && last_errno != 0) sa_check(cork_error_code() == (cork_error) last_errno, "the system's error");
}
static void
is_text(const char *s, const char *want)
{
    unsigned  i;
    for (i = 0; want[i] != 0; i++) sa_check(s[i] == want[i], "the path is right");
    sa_check(s[i] == 0, "and complete");
}
static mode_t
kind_to_mode(unsigned kind)
{
    mode_t  type = kind == CORK_FILE_REGULAR? S_IFREG: kind == CORK_FILE_DIRECTORY? S_IFDIR: kind == CORK_FILE_SYMLINK? S_IFLNK: S_IFIFO;
    return type | (sa_u32("mode") & 07777);
}

/* ---- which model answers the system calls */
static enum { ONE, ITERATE, MKDIR, REMOVE, FIND }  world;
static int stat_one(const char *, struct stat *), stat_child(const char *, struct stat *), stat_parent(const char *, struct stat *),
           stat_node(const char *, struct stat *, int), stat_found(const char *, struct stat *);
int stat(const char *restrict path, struct stat *restrict info)
{
    switch (world) {
        case ONE: return stat_one(path, info);
        case ITERATE: return stat_child(path, info);
        case MKDIR: return stat_parent(path, info);
        case REMOVE: return stat_node(path, info, 1);
        default: return stat_found(path, info);
    }
}
int lstat(const char *restrict path, struct stat *restrict info)
{
    sa_check(world == REMOVE, "symbolic links are followed, unless something is to be removed");
    return stat_node(path, info, 0);
}

/* ---- one file */
static char  one[4];
static int  state;                          /* -1: not known to exist or not; else its type */
static int
stat_one(const char *path, struct stat *info)
{
    is_text(path, one);
    if (sa_u8("missing") & 1) { state = CORK_FILE_MISSING; errno = sa_u8("enotdir") & 1? ENOTDIR: ENOENT; return -1; }
    if (fails()) return -1;
    state = 1 + (int) pick(4, "type");
    info->st_mode = kind_to_mode((unsigned) state);
    return 0;
}
void W_file_type(void)
{
    unsigned  i, n = pick(4, "length"), m = 1 + pick(2, "calls");
    struct cork_file  *f;
    world = ONE; failed = 0; last_errno = 0; unreliable = 1; state = -1;
    for (i = 0; i < n; i++) { one[i] = sa_u8("path"); sa_assume(one[i] != 0); }
    one[n] = 0;
    cork_error_clear();
    f = sa_u8("from path") & 1? cork_file_new_from_path(cork_path_new(one)): cork_file_new(one);
    is_text(cork_path_get(cork_file_path(f)), one);
    for (i = 0; i < m && !failed; i++) {
        if (sa_u8("exists") & 1) {
            bool  exists = sa_u8("exists") & 1;
            is_result(cork_file_exists(f, &exists));
            if (!failed) sa_check(state >= 0 && exists == (state != CORK_FILE_MISSING), "whether the file exists");
        } else {
            enum cork_file_type  type = (enum cork_file_type) sa_u32("type");
            is_result(cork_file_type(f, &type));
            if (!failed) sa_check(state >= 0 && (int) type == state, "the file's type");
        }
    }
    cork_file_free(f);
    sa_leaks(NULL);
}

/* ---- reading a directory: up to three entries, special or not */
static const char *const  DIR_PATH[] = { "d", "d/", "/", "" };
static const char *const  DIR_PREFIX[] = { "d/", "d/", "/", "" };
static unsigned  dir_path, entries, seen, name_length;
static int  is_open, pending, stated, result, child_kind, token;
static struct dirent  entry;
static char  child[8], handle;
static DIR *open_node(const char *);
static struct dirent *read_node(DIR *);
static int close_node(DIR *);
DIR *opendir(const char *path)
{
    if (world == REMOVE) return open_node(path);
    sa_check(world == ITERATE && !is_open, "the directory is opened once");
    is_text(path, DIR_PATH[dir_path]);
    if (sa_u8("intr") & 1) { errno = EINTR; return NULL; }
    if (DIR_PATH[dir_path][0] == 0) { refuse(ENOENT); result = -1; return NULL; }
    if (fails()) { result = -1; return NULL; }
    is_open = 1;
    return (DIR *) &handle;
}
struct dirent *readdir(DIR *dir)
{
    unsigned  i, n;
    if (world == REMOVE) return read_node(dir);
    sa_check(dir == (DIR *) &handle && is_open && !pending, "each entry is dealt with");
    sa_check(!failed, "nothing is done after a failure");
    if (seen == entries) {
        if (sa_u8("fail") & 1) { any_errno(); result = -1; }
        return NULL;
    }
    seen++; stated = 0;
    n = name_length != 0? name_length: 1 + pick(2, "name");
    for (i = 0; i < n; i++) { entry.d_name[i] = sa_u8("name"); sa_assume(entry.d_name[i] != 0 && entry.d_name[i] != '/'); }
    entry.d_name[n] = 0;
    pending = !(entry.d_name[0] == '.' && (n == 1 || (n == 2 && entry.d_name[1] == '.')));
    for (i = 0; DIR_PREFIX[dir_path][i] != 0; i++) child[i] = DIR_PREFIX[dir_path][i];
    child[i] = entry.d_name[0]; child[i + 1] = entry.d_name[1]; child[i + 2] = n > 1? entry.d_name[2]: 0; child[i + 3] = 0;
    return &entry;
}
int closedir(DIR *dir)
{
    if (world == REMOVE) return close_node(dir);
    sa_check(dir == (DIR *) &handle && is_open, "the directory is closed once");
    is_open = 0;
    if (sa_u8("fail") & 1) { any_errno(); result = -1; return -1; }
    return 0;
}
static int
stat_child(const char *path, struct stat *info)
{
    sa_check(pending, "only entries are looked at");
    is_text(path, child);
    stated = 1;
    if (sa_u8("missing") & 1) { child_kind = CORK_FILE_MISSING; errno = ENOENT; return -1; }
    if (fails()) { pending = 0; result = -1; return -1; }
    child_kind = 1 + (int) pick(4, "type");
    info->st_mode = kind_to_mode((unsigned) child_kind);
    return 0;
}
static int
iterator(struct cork_file *file, const char *name, void *user_data)
{
    int  rc = (int) sa_u32("rc");
    enum cork_file_type  type = (enum cork_file_type) sa_u32("type");
    sa_check(user_data == &token, "the callback gets its data");
    sa_check(pending && !failed, "each entry is reported once");
    is_text(name, entry.d_name);
    is_text(cork_path_get(cork_file_path(file)), child);
    unreliable = 0;
    sa_check(cork_file_type(file, &type) == 0 && stated && (int) type == child_kind, "its type is its own");
    unreliable = 1; pending = 0;
    errno = (int) sa_u8("noise");
    if (rc != 0) { failed = 1; result = rc; last_errno = 0; }
    return rc;
}
static void
iterate(unsigned most)
{
    struct cork_file  *f;
    int  rc;
    world = ITERATE; failed = is_open = pending = result = last_errno = 0; unreliable = 1; seen = 0;
    entries = pick(most + 1, "entries");
    cork_error_clear();
    f = cork_file_new(DIR_PATH[dir_path]);
    rc = cork_file_iterate_directory(f, iterator, &token);
    sa_check(rc == result, "the result is that of the callback that stopped it, -1 for a failure, or 0");
    sa_check(!is_open, "the directory does not stay open");
    sa_check(failed || seen == entries, "all entries have been read");
    sa_check(!!cork_error_occurred() == (last_errno != 0), "an error is set exactly for a failure");
    if (last_errno != 0) sa_check(cork_error_code() == (cork_error) last_errno, "the system's");
    is_text(cork_path_get(cork_file_path(f)), DIR_PATH[dir_path]);
    cork_file_free(f);
    sa_leaks(NULL);
}
void W_file_iterate(void) { name_length = 0; dir_path = pick(4, "path"); iterate(1); }
void W_file_iterate_more(void) { name_length = 1; dir_path = 1; iterate(2); }
void W_file_iterate_long(void) { name_length = 3; dir_path = 0; iterate(1); }

/* ---- creating directories: some of the path's components exist, the one
 * after them can be in the way */
#define PATHS  11
static const char *const  MK[PATHS] = { "a", "a/b", "a/b/c", "/a", "/a/b/c", "a/", "a//b//", "//a/b", "/a//b//c///", "/", "" };
static const unsigned  COMPONENTS[PATHS] = { 1, 2, 3, 1, 3, 1, 2, 2, 3, 0, 0 };
static unsigned  mk, exist, blocked;
static cork_file_mode  mk_mode;
/* how many of the components this path has */
static unsigned
components(const char *path)
{
    unsigned  n = 0, i = 0;
    sa_check((path[0] == '/') == (MK[mk][0] == '/'), "the path's parents are absolute if it is");
    for (;;) {
        while (path[i] == '/') i++;
        if (path[i] == 0) break;
        sa_check(path[i] == "abc"[n] && (path[i + 1] == 0 || path[i + 1] == '/') && n < COMPONENTS[mk], "only the path and its parents are used");
        i++; n++;
    }
    return n;
}
static int
stat_parent(const char *path, struct stat *info)
{
    unsigned  n = components(path);
    sa_check(!failed, "nothing is done after a failure");
    if (path[0] == 0) { errno = ENOENT; return -1; }
    if (n > exist && (n > exist + 1 || !blocked)) { errno = blocked? ENOTDIR: ENOENT; return -1; }
    if (fails()) return -1;
    info->st_mode = kind_to_mode(n <= exist? CORK_FILE_DIRECTORY: blocked);
    return 0;
}
int mkdir(const char *path, mode_t mode)
{
    unsigned  n = components(path);
    sa_check(world == MKDIR && !failed, "nothing is done after a failure");
    sa_check(mode == mk_mode, "directories are created with the given mode");
    if (sa_u8("intr") & 1) { errno = EINTR; return -1; }
    if (path[0] == 0) return refuse(ENOENT);
    if (n <= exist || (n == exist + 1 && blocked)) return refuse(EEXIST);
    if (n > exist + 1) return refuse(blocked? ENOTDIR: ENOENT);
    if (fails()) return -1;
    exist = n;
    return 0;
}
void W_file_mkdir(void)
{
    struct cork_file  *f;
    enum cork_file_type  type;
    unsigned  flags = sa_u32("flags") & (CORK_FILE_RECURSIVE | CORK_FILE_PERMISSIVE), before, n, possible;
    bool  exists = false;
    int  rc;
    world = MKDIR; failed = last_errno = 0; unreliable = 1;
    flags = (flags & CORK_FILE_RECURSIVE? CORK_FILE_RECURSIVE: 0) | (flags & CORK_FILE_PERMISSIVE? CORK_FILE_PERMISSIVE: 0);
    mk_mode = sa_u32("mode"); mk = pick(PATHS, "path"); n = COMPONENTS[mk];
    exist = before = pick(n + 1, "exist");
    blocked = exist < n && (sa_u8("blocked") & 1)? (sa_u8("blocked by") & 1? CORK_FILE_REGULAR: CORK_FILE_UNKNOWN): 0;
    f = cork_file_new(MK[mk]);
    cork_error_clear();
    if (sa_u8("known") & 1) {               /* something was already known about it */
        unreliable = 0;
        sa_check(cork_file_exists(f, &exists) == 0, "the file can be looked at");
        unreliable = 1;
    }
    if (MK[mk][0] == 0) possible = 0;
    else if (exist == n) possible = (flags & CORK_FILE_PERMISSIVE) != 0;
    else possible = !blocked && (exist + 1 == n || (flags & CORK_FILE_RECURSIVE));
    rc = cork_file_mkdir(f, mk_mode, flags);
    sa_check(rc == 0 || rc == -1, "0 or -1");
    if (!possible) sa_check(rc == -1, "it fails if the directory can't be created");
    else sa_check((rc == -1) == failed, "otherwise, it fails if a system call does");
    sa_check(!!cork_error_occurred() == (rc != 0), "with an error exactly then");
    if (failed) sa_check(cork_error_code() == (cork_error) last_errno, "the system's error");
    else if (rc == -1) sa_check(cork_error_code() == EEXIST || MK[mk][0] == 0, "something is in the way");
    if (rc == 0) sa_check(exist == n, "the directory exists");
    if (!possible) sa_check(exist == before, "nothing is created if it can't be");
    if (rc == 0) {
        unreliable = 0;
        sa_check(cork_file_type(f, &type) == 0 && type == CORK_FILE_DIRECTORY, "it is then known to be a directory");
    }
    is_text(cork_path_get(cork_file_path(f)), MK[mk]);
    cork_file_free(f);
    sa_leaks(NULL);
}

/* ---- removing: a directory T may have the entries A and B, and A the entry C */
enum { T, A, B, C, NODES };
static const char  NAME[NODES] = { 't', 'a', 'b', 'c' };
static const unsigned  UP[NODES] = { T, T, T, A };
static unsigned  kind[NODES];               /* what each of them is */
static int  listed[NODES], recursive, open_dir[2], rooted;
static char  node_handle[2];
static unsigned
node(const char *path)
{
    unsigned  n = T;
    if (rooted) { sa_check(path[0] == '/', "the path is right"); path++; }
    sa_check(path[0] == 't', "the path is right"); path++;
    for (;;) {
        while (path[0] == '/') path++;
        if (path[0] == 0) return n;
        sa_check(n == T || n == A, "the path is right");
        sa_check(kind[n] == CORK_FILE_DIRECTORY, "symbolic links are not followed");
        if (n == T) { sa_check(path[0] == 'a' || path[0] == 'b', "the path is right"); n = path[0] == 'a'? A: B; }
        else { sa_check(path[0] == 'c', "the path is right"); n = C; }
        path++;
        sa_check(path[0] == 0 || path[0] == '/', "the path is right");
    }
}
static int
stat_node(const char *path, struct stat *info, int follow)
{
    unsigned  n = node(path), k = kind[n];
    if (k == CORK_FILE_SYMLINK && follow) {
        if (sa_u8("dangling") & 1) { errno = ENOENT; return -1; }
        k = sa_u8("to file") & 1? CORK_FILE_REGULAR: CORK_FILE_DIRECTORY;
    }
    if (k == CORK_FILE_MISSING) { errno = sa_u8("enotdir") & 1? ENOTDIR: ENOENT; return -1; }
    if (fails()) return -1;
    info->st_mode = kind_to_mode(k);
    return 0;
}
static DIR *
open_node(const char *path)
{
    unsigned  n = node(path);
    sa_check(recursive, "a directory's content is only removed when that is asked for");
    sa_check(kind[n] == CORK_FILE_DIRECTORY && (n == T || n == A) && !open_dir[n], "only directories are opened");
    if (fails()) return NULL;
    listed[n] = 1; open_dir[n] = 1;
    if (n == T) { listed[A] = listed[B] = 0; } else listed[C] = 0;
    return (DIR *) &node_handle[n];
}
static struct dirent *
read_node(DIR *dir)
{
    unsigned  n = dir == (DIR *) &node_handle[T]? T: A, e = NODES;
    sa_check(dir == (DIR *) &node_handle[n] && open_dir[n] && !failed, "open directories are read");
    if (n == T) {
        if (!listed[A] && kind[A] != CORK_FILE_MISSING) e = A;
        else if (!listed[B] && kind[B] != CORK_FILE_MISSING) e = B;
    } else if (!listed[C] && kind[C] != CORK_FILE_MISSING) e = C;
    if (e == NODES) {
        if (unreliable && (sa_u8("fail") & 1)) any_errno();
        return NULL;
    }
    listed[e] = 1;
    entry.d_name[0] = NAME[e]; entry.d_name[1] = 0;
    return &entry;
}
static int
close_node(DIR *dir)
{
    unsigned  n = dir == (DIR *) &node_handle[T]? T: A;
    sa_check(dir == (DIR *) &node_handle[n] && open_dir[n], "open directories are closed");
    open_dir[n] = 0;
    if (!failed && fails()) return -1;
    return 0;
}
int unlink(const char *path)
{
    unsigned  n = node(path);
    sa_check(world == REMOVE && kind[n] != CORK_FILE_MISSING && kind[n] != CORK_FILE_DIRECTORY, "files that are there are unlinked");
    if (unreliable && (sa_u8("intr") & 1)) { errno = EINTR; return -1; }
    if (fails()) return -1;
    kind[n] = CORK_FILE_MISSING;
    return 0;
}
int rmdir(const char *path)
{
    unsigned  n = node(path);
    sa_check(world == REMOVE && kind[n] == CORK_FILE_DIRECTORY, "directories that are there are removed");
    if (unreliable && (sa_u8("intr") & 1)) { errno = EINTR; return -1; }
    if ((n == T && (kind[A] != CORK_FILE_MISSING || kind[B] != CORK_FILE_MISSING)) || (n == A && kind[C] != CORK_FILE_MISSING)) {
        sa_check(!recursive, "a directory's content is removed first");
        return refuse(ENOTEMPTY);
    }
    if (fails()) return -1;
    kind[n] = CORK_FILE_MISSING;
    return 0;
}
static const char *const  RM[] = { "t", "/t", "t/" };
static void
remove_it(unsigned which)
{
    struct cork_file  *f;
    enum cork_file_type  type;
    unsigned  was = kind[T], flags = sa_u8("permissive") & 1? CORK_FILE_PERMISSIVE: 0;
    bool  exists;
    int  rc;
    if (recursive) flags |= CORK_FILE_RECURSIVE;
    world = REMOVE; failed = last_errno = 0; open_dir[0] = open_dir[1] = 0;
    rooted = which == 1;
    f = cork_file_new(RM[which]);
    cork_error_clear();
    if (sa_u8("known") & 1) {
        int  u = unreliable;
        unreliable = 0;
        sa_check(cork_file_exists(f, &exists) == 0, "the file can be looked at");
        unreliable = u;
    }
    rc = cork_file_remove(f, flags);
    if (was == CORK_FILE_MISSING && !failed && !(flags & CORK_FILE_PERMISSIVE)) { failed = 1; last_errno = ENOENT; }
    is_result(rc);
    sa_check(!open_dir[0] && !open_dir[1], "no directory stays open");
    if (rc == 0) {
        sa_check(kind[T] == CORK_FILE_MISSING && kind[A] == CORK_FILE_MISSING && kind[B] == CORK_FILE_MISSING && kind[C] == CORK_FILE_MISSING, "it is removed with all of its content");
        unreliable = 0;
        sa_check(cork_file_type(f, &type) == 0 && type == CORK_FILE_MISSING, "it is then known not to exist");
    }
    is_text(cork_path_get(cork_file_path(f)), RM[which]);
    cork_file_free(f);
    sa_leaks(NULL);
}
void W_file_remove_one(void)
{
    kind[T] = pick(5, "kind"); unreliable = 1; recursive = sa_u8("recursive") & 1;
    kind[A] = kind[B] = kind[C] = CORK_FILE_MISSING;
    if (!recursive && kind[T] == CORK_FILE_DIRECTORY && (sa_u8("full") & 1)) kind[B] = CORK_FILE_REGULAR;
    remove_it(kind[T] == CORK_FILE_DIRECTORY? pick(3, "path"): pick(2, "path"));
}
void W_file_remove_tree(void)
{
    kind[T] = CORK_FILE_DIRECTORY; recursive = 1; unreliable = 0;
    kind[A] = pick(5, "kind"); kind[B] = pick(4, "kind"); if (kind[B] == CORK_FILE_DIRECTORY) kind[B] = CORK_FILE_UNKNOWN;
    kind[C] = kind[A] == CORK_FILE_DIRECTORY? pick(4, "kind"): CORK_FILE_MISSING; if (kind[C] == CORK_FILE_DIRECTORY) kind[C] = CORK_FILE_UNKNOWN;
    remove_it(0);
}
void W_file_remove_failing(void)
{
    kind[T] = CORK_FILE_DIRECTORY; recursive = 1; unreliable = 1;
    kind[A] = CORK_FILE_DIRECTORY;
    kind[B] = sa_u8("more") & 1? CORK_FILE_REGULAR: CORK_FILE_MISSING;
    kind[C] = sa_u8("more") & 1? CORK_FILE_SYMLINK: CORK_FILE_MISSING;
    remove_it(0);
}

/* ---- searching a list of paths */
static const char *const  WHERE[] = { "p", "q/", "/" };
static const char *const  FOUND[] = { "p/x", "q/x", "/x" };
static unsigned  places, tried, found[3], place[3];
static int
stat_found(const char *path, struct stat *info)
{
    unsigned  i = tried;
    sa_check(i < places && !failed, "each of the paths is tried once, in order");
    is_text(path, FOUND[place[i]]);
    tried++; found[i] = 0;
    if (sa_u8("missing") & 1) { errno = sa_u8("enotdir") & 1? ENOTDIR: ENOENT; return -1; }
    if (fails()) return -1;
    found[i] = 1;
    info->st_mode = kind_to_mode(1 + pick(4, "type"));
    return 0;
}
void W_file_find(void)
{
    struct cork_path_list  *list = cork_path_list_new_empty();
    char  name[2];
    unsigned  i, n = 0;
    world = FIND; failed = last_errno = 0; unreliable = 1; tried = 0;
    found[0] = found[1] = found[2] = 0;
    places = pick(4, "places");
    for (i = 0; i < places; i++) { place[i] = i; cork_path_list_add(list, cork_path_new(WHERE[i])); }
    name[0] = 'x'; name[1] = 0;
    cork_error_clear();
    if (sa_u8("all") & 1) {
        struct cork_file_list  *files = cork_path_list_find_files(list, name);
        sa_check((files == NULL) == failed, "the search fails if a system call does");
        sa_check(!!cork_error_occurred() == failed, "with an error exactly then");
        if (failed) sa_check(cork_error_code() == (cork_error) last_errno, "the system's");
        if (files != NULL) {
            sa_check(tried == places, "all paths are tried");
            for (i = 0; i < places; i++) if (found[i]) {
                sa_check(n < cork_file_list_size(files), "all existing files are found");
                is_text(cork_path_get(cork_file_path(cork_file_list_get(files, n++))), FOUND[i]);
            }
            sa_check(cork_file_list_size(files) == n, "and nothing else");
            cork_file_list_free(files);
        }
    } else {
        struct cork_file  *f = cork_path_list_find_file(list, name);
        for (i = 0; i < places; i++) if (found[i]) { sa_check(i + 1 == tried, "the first existing file is enough"); n = 1; }
        sa_check((f != NULL) == (n == 1), "it is found if it exists");
        sa_check(f != NULL || failed || tried == places, "after trying all of the paths");
        sa_check(!!cork_error_occurred() == (f == NULL), "otherwise, there is an error");
        if (failed) sa_check(cork_error_code() == (cork_error) last_errno, "the system's");
        else if (f == NULL) sa_check(cork_error_code() == ENOENT, "not found");
        if (f != NULL) { is_text(cork_path_get(cork_file_path(f)), FOUND[tried - 1]); cork_file_free(f); }
    }
    sa_check(cork_path_list_size(list) == places, "the list is as before");
    for (i = 0; i < places; i++) is_text(cork_path_get(cork_path_list_get(list, i)), WHERE[i]);
    cork_path_list_free(list);
    sa_leaks(NULL);
}
void W_file_list(void)
{
    struct cork_path_list  *list = cork_path_list_new_empty();
    struct cork_file_list  *files;
    struct cork_file  *own[2];
    unsigned  i, n = pick(3, "n"), m = pick(3, "m");
    for (i = 0; i < n; i++) cork_path_list_add(list, cork_path_new(WHERE[i]));
    files = sa_u8("empty") & 1? cork_file_list_new_empty(): cork_file_list_new(list);
    if (cork_file_list_size(files) == 0) n = 0;
    sa_check(cork_file_list_size(files) == n, "one file per path");
    cork_path_list_free(list);
    for (i = 0; i < n; i++) is_text(cork_path_get(cork_file_path(cork_file_list_get(files, i))), WHERE[i]);
    for (i = 0; i < m; i++) { own[i] = cork_file_new("o"); cork_file_list_add(files, own[i]); }
    sa_check(cork_file_list_size(files) == n + m, "and one per file added");
    for (i = 0; i < m; i++) sa_check(cork_file_list_get(files, n + i) == own[i], "in order");
    cork_file_list_free(files);
    sa_leaks(NULL);
}
