/* Subprocesses, over a model of the system: a table of descriptors, pipes whose
 * content arrives in any pieces, children that finish at any time.  One
 * arbitrary position `K` of one of the two output streams, `tracked`, stands for all. */
#include "sa.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>

static unsigned
pick(unsigned n, const char *name)
{
    unsigned  i, v = sa_u32(name);
    for (i = 0; i + 1 < n; i++) if (v == i) return i;
    return n - 1;
}

/* ---- descriptors: 0..2 are the process's own, pipes get the next two */
#define FDS  9                              /* at most three pipes */
#define READ_END   1
#define WRITE_END  2
static struct { int open, pipe, end, nonblock; } fds[FDS];  /* pipes are numbered from 1 */
static int  next_fd, pipes, in_child, sys_errno, failures, quiet;

static int
fail(void)
{
    sys_errno = (int) (sa_u32("errno") & 0xfff);
    sa_assume(sys_errno != 0 && sys_errno != EINTR && sys_errno != EAGAIN);
    errno = sys_errno; failures++;
    return -1;
}
static int  may_fail, may_intr, streams;    /* streams: which of the outputs have a consumer (4: any), 8 and 16: which is tracked */
#define FAULTS \
    if (may_intr && (sa_u8("intr") & 1)) { errno = EINTR; return -1; } \
    if (may_fail && (sa_u8("fail") & 1)) return fail();

static void
system_start(void)
{
    memset(fds, 0, sizeof(fds));
    fds[0].open = fds[1].open = fds[2].open = 1;
    next_fd = 3; pipes = 0; in_child = 0; sys_errno = 0; failures = 0; quiet = 0;
    may_fail = 1; may_intr = 1; streams = 4;
    cork_error_clear();
}
static int
is_open(int fd) { return fd >= 0 && fd < FDS && fds[fd].open; }
static int
all_closed(void)
{
    return !fds[3].open && !fds[4].open && !fds[5].open && !fds[6].open && !fds[7].open && !fds[8].open;
}
int pipe(int p[2])
{
    FAULTS
    sa_check(next_fd + 1 < FDS, "at most three pipes");
    p[0] = next_fd++; p[1] = next_fd++;
    fds[p[0]].open = fds[p[1]].open = 1;
    fds[p[0]].nonblock = fds[p[1]].nonblock = 0;
    fds[p[0]].pipe = fds[p[1]].pipe = ++pipes;
    fds[p[0]].end = READ_END; fds[p[1]].end = WRITE_END;
    return 0;
}
int close(int fd)
{
    sa_check(is_open(fd), "only open descriptors are closed");
    fds[fd].open = 0;
    return 0;
}
int dup2(int from, int to)
{
    FAULTS
    sa_check(is_open(from) && to >= 0 && to < FDS, "open descriptors are duplicated");
    fds[to] = fds[from];
    return to;
}
int fcntl(int fd, int cmd, ...)
{
    va_list  args;
    int  arg;
    sa_check(is_open(fd), "the flags of an open descriptor");
    FAULTS
    if (cmd == F_GETFL) return fds[fd].nonblock? O_NONBLOCK: 0;
    if (cmd == F_GETFD) return 0;
    va_start(args, cmd);
    arg = va_arg(args, int);
    va_end(args);
    if (cmd == F_SETFL) fds[fd].nonblock = (arg & O_NONBLOCK) != 0;
    return 0;
}

/* ---- what the children write */
static size_t  K, total, delivered;
static char  B;
static int  tracked, at_end[2], eofs[2], calls, refused, last_event;
static int  pipe_of[2];                     /* the pipe behind stdout and stderr */

ssize_t read(int fd, void *vbuf, size_t n)
{
    char  *buf = vbuf;
    size_t  r;
    int  which;
    sa_check(is_open(fd) && fds[fd].end == READ_END, "the read end of a pipe is read");
    sa_check(fds[fd].nonblock, "reading never blocks");
    sa_check(n > 0, "room to read into");
    which = fds[fd].pipe == pipe_of[1];
    if (sa_u8("none") & 1) { errno = sa_u8("intr") & 1? EINTR: EAGAIN; return -1; }
    if (may_fail && (sa_u8("fail") & 1)) return fail();
    last_event = 1;
    if (at_end[which] || (sa_u8("end") & 1)) { at_end[which] = 1; return 0; }
    r = sa_u64("r");
    sa_assume(r >= 1 && r <= n);
    sa_havoc_range(buf, n);
    if (which == tracked) {
        sa_assume(total + r < SA_SIZE_LIMIT);
        if (K >= total && K < total + r) sa_assume(buf[K - total] == B);
        total += r;
    }
    return (ssize_t) r;
}
static struct cork_stream_consumer  consumer[2];
static int
data(struct cork_stream_consumer *c, const void *buf, size_t size, bool first)
{
    int  which = c == &consumer[1];
    sa_check(size > 0 && eofs[which] == 0 && !refused, "data is handed over before the end");
    if (which == tracked) {
        sa_check(first == (calls == 0), "exactly the first chunk is marked as the first");
        calls = 1;
        sa_check(size <= total - delivered, "only what the child wrote is delivered");
        if (K >= delivered && K < delivered + size) sa_check(((const char *) buf)[K - delivered] == B, "every byte is delivered in order to the stream's consumer");
        delivered += size;
    }
    if (may_fail && (sa_u8("refuse") & 1)) { refused = 1; failures++; sys_errno = 0; cork_error_set_string(EINVAL, "refused"); return -1; }
    return 0;
}
static int
eof(struct cork_stream_consumer *c)
{
    int  which = c == &consumer[1];
    sa_check(eofs[which] == 0 && at_end[which] && !refused, "the end is announced once, at the end");
    eofs[which]++;
    if (may_fail && (sa_u8("refuse") & 1)) { refused = 1; failures++; sys_errno = 0; cork_error_set_string(EINVAL, "refused"); return -1; }
    return 0;
}
static void
no_free(struct cork_stream_consumer *c) { sa_unreachable("consumers stay the caller's"); }

/* ---- children */
#define CHILDREN  2
static struct { int started, ended, reaped, killed, status; } child[CHILDREN];
static int  children, forks_fail, child_of_fork;
static int  run_rc, ran, freed;
static int  user_data[CHILDREN], freed_data[CHILDREN];

static int
index_of(pid_t pid)
{
    int  i = pid == 101;
    sa_check((pid == 100 || pid == 101) && i < children && !child[i].reaped, "the process is a child that has not been waited for");
    return i;
}
pid_t fork(void)
{
    int  i = children;
    if (child_of_fork) { in_child = 1; return 0; }
    if (may_fail && (sa_u8("fork") & 1)) return fail();
    children++;
    child[i].started = 1; child[i].ended = 0; child[i].reaped = 0; child[i].killed = 0;
    child[i].status = (int) sa_u8("status");
    return 100 + i;
}
int kill(pid_t pid, int sig)
{
    int  i = index_of(pid);
    sa_check(sig == SIGTERM || sig == SIGKILL, "the child is terminated");
    child[i].killed = 1;
    return 0;
}
static int  lost;                           /* waiting can fail */
pid_t waitpid(pid_t pid, int *status, int flags)
{
    int  i = index_of(pid);
    sa_check(!in_child, "children are waited for by their parent");
    if (may_intr && (sa_u8("intr") & 1)) { errno = EINTR; return -1; }
    if (lost && (sa_u8("lost") & 1)) return fail();
    if ((flags & WNOHANG) && (sa_u8("running") & 1)) return 0;
    child[i].reaped = 1; last_event = 1;
    if (status != NULL) *status = child[i].status << 8;
    return pid;
}
int usleep(useconds_t usec) { return 0; }
int sched_yield(void) { return 0; }

static void
free_user_data(void *ud)
{
    int  i = ud == &user_data[1];
    sa_check((i == 1 || ud == &user_data[0]) && freed_data[i] == 0, "the user data is freed once");
    freed_data[i] = 1; freed++;
}
static int  with_out, with_err, exit_code;

static void
check_child(void)
{
    int  i;
    sa_check(in_child, "the body runs in the child");
    sa_check(fds[0].open && fds[0].end == READ_END && fds[0].pipe == 1, "its standard input is the pipe");
    if (with_out) sa_check(fds[1].open && fds[1].end == WRITE_END && fds[1].pipe == pipe_of[0], "its standard output is the pipe to the consumer");
    else sa_check(fds[1].open && fds[1].pipe == 0, "its standard output is inherited");
    if (with_err) sa_check(fds[2].open && fds[2].end == WRITE_END && fds[2].pipe == pipe_of[1], "its standard error is the pipe to the consumer");
    else sa_check(fds[2].open && fds[2].pipe == 0, "its standard error is inherited");
    for (i = 3; i < FDS; i++) sa_check(!(fds[i].open && fds[i].end == (fds[i].pipe == 1? WRITE_END: READ_END)), "the parent's ends are closed in the child");
}
static int
run(void *ud)
{
    sa_check(ud == &user_data[0] && ran == 0, "the body runs once, with its user data");
    ran++;
    check_child();
    run_rc = (int) sa_u32("rc");
    if (run_rc != 0) cork_error_set_string(EINVAL, "failed");
    return run_rc;
}
void _exit(int status)
{
    sa_check(in_child, "only the child exits");
    sa_check(ran == 1 || failures > 0, "after its body has run, or could not");
    sa_check((status == 0) == (ran == 1 && run_rc == 0), "with a code that says whether the body succeeded");
    sa_assume(0);
    for (;;) ;
}
static void
data_start(void)
{
    K = sa_u64("K"); sa_assume(K < SA_SIZE_LIMIT); B = sa_u8("B");
    tracked = streams & 8? 1: streams & 16? 0: (int) pick(2, "tracked");
    total = delivered = 0;
    at_end[0] = at_end[1] = eofs[0] = eofs[1] = calls = refused = last_event = 0;
}
static struct cork_subprocess *
make(void)
{
    data_start();
    consumer[0].data = consumer[1].data = data; consumer[0].eof = consumer[1].eof = eof; consumer[0].free = consumer[1].free = no_free;
    memset(child, 0, sizeof(child));
    children = 0; child_of_fork = 0; lost = 0; ran = 0; freed = 0; freed_data[0] = freed_data[1] = 0; exit_code = -1; run_rc = 0;
    if (streams & 4) { with_out = (int) pick(2, "out"); with_err = (int) pick(2, "err"); }
    else { with_out = streams & 1; with_err = (streams & 2) != 0; }
    pipe_of[0] = with_out? 2: -2; pipe_of[1] = with_err? 2 + with_out: -3;
    sa_partition(&fds[5].open, 4); sa_partition(&fds[7].open, 4); sa_partition(&fds[3].open, 4);
    sa_partition(&at_end[0], 4); sa_partition(&at_end[1], 4); sa_partition(&eofs[0], 4); sa_partition(&eofs[1], 4);
    sa_partition(&calls, 4); sa_partition(&refused, 4); sa_partition(&failures, 4);
    sa_partition(&child[0].reaped, 4); sa_partition(&child[0].killed, 4);
    return cork_subprocess_new(&user_data[0], free_user_data, run, with_out? &consumer[0]: NULL, with_err? &consumer[1]: NULL, &exit_code);
}
static void
release(struct cork_subprocess *sub)
{
    may_fail = 0; may_intr = 0;
    cork_subprocess_free(sub);
    sa_check(freed == 1, "the user data is freed with the subprocess");
    sa_check(all_closed(), "no descriptor stays open");
    sa_leaks(NULL);
}
/* a running subprocess */
static struct cork_subprocess *
started_with(int which)
{
    struct cork_subprocess  *sub;
    system_start();
    streams = which;
    may_fail = 0; may_intr = 0;
    sub = make();
    sa_check(cork_subprocess_start(sub) == 0 && children == 1, "a subprocess is started");
    may_fail = 1; may_intr = 1;
    cork_error_clear();
    return sub;
}

static struct cork_subprocess *
started(void) { return started_with(4); }

void W_sub_unused(void)
{
    struct cork_subprocess  *sub;
    system_start();
    sub = make();
    sa_check(cork_subprocess_is_finished(sub), "a subprocess that was not started is not running");
    sa_check(cork_subprocess_abort(sub) == 0 && cork_subprocess_wait(sub) == 0, "nothing to wait for");
    release(sub);
}
void W_sub_start(void)
{
    struct cork_subprocess  *sub;
    int  rc, i;
    system_start();
    sub = make();
    rc = cork_subprocess_start(sub);
    sa_check((rc == 0) == (failures == 0) && (rc == 0) == (children == 1), "started, unless the system refused");
    if (rc == 0) {
        sa_check(!cork_error_occurred(), "no error on success");
        for (i = 3; i < FDS; i++) if (fds[i].pipe != 0) sa_check(fds[i].open == (fds[i].end == (fds[i].pipe == 1? WRITE_END: READ_END)), "the parent keeps its own ends of the pipes, only");
        sa_check(pipes == 1 + with_out + with_err, "a pipe for standard input and every consumer");
        sa_check(!cork_subprocess_is_finished(sub), "it is running");
    } else {
        sa_check(rc == -1 && cork_error_occurred() && cork_error_code() == (cork_error) sys_errno, "a failure sets the error to the system's");
        sa_check(all_closed(), "a failed start leaves no descriptor open");
        sa_check(cork_subprocess_is_finished(sub), "and nothing running");
    }
    sa_check(ran == 0 && fds[0].pipe == 0 && fds[1].pipe == 0 && fds[2].pipe == 0, "the parent's own streams are left alone");
    release(sub);
}
/* the same, in the child */
void W_sub_child(void)
{
    struct cork_subprocess  *sub;
    system_start();
    sub = make();
    child_of_fork = 1;
    if (cork_subprocess_start(sub) == 0) sa_unreachable("the child does not return");
    sa_check(!in_child, "the child does not return");
}
static void
outcome(int fine)
{
    sa_check(fine == (failures == 0), "a failure is reported");
    if (fine) return;
    sa_check(cork_error_occurred(), "with the error set");
    if (sys_errno != 0) sa_check(cork_error_code() == (cork_error) sys_errno, "to the system's");
    sa_check(child[0].reaped, "and the child is terminated");
}
void W_sub_drain(void)
{
    struct cork_subprocess  *sub = started();
    bool  rc = cork_subprocess_drain(sub);
    if (rc) sa_check(last_event && !cork_error_occurred(), "progress is reported if there was any");
    outcome(!cork_error_occurred());
    if (failures == 0) {
        sa_check(rc == (last_event != 0), "progress is reported exactly if there was any");
        sa_check(delivered == total, "everything read has been delivered");
        sa_check(eofs[0] == at_end[0] && eofs[1] == at_end[1], "and every end announced");
        sa_check(cork_subprocess_is_finished(sub) == (child[0].reaped && (!with_out || at_end[0]) && (!with_err || at_end[1])), "it is finished when the child is, and its output is read");
        sa_check(exit_code == (child[0].reaped? child[0].status: -1), "the exit code is the child's");
    }
    release(sub);
}
static void
waited(int which)
{
    struct cork_subprocess  *sub = started_with(which);
    int  rc;
    if ((which & 3) == 3) may_fail = may_intr = 0;    /* failures with one stream each are enough */
    rc = cork_subprocess_wait(sub);
    outcome(rc == 0);
    if (rc == 0) {
        sa_check(child[0].reaped && !child[0].killed, "the child has finished");
        sa_check(delivered == total, "everything it wrote has been delivered");
        sa_check(eofs[0] == with_out && eofs[1] == with_err, "and the ends announced");
        sa_check(exit_code == child[0].status, "the exit code is the child's");
        sa_check(cork_subprocess_is_finished(sub) && !cork_error_occurred(), "it is finished");
        sa_check(cork_subprocess_wait(sub) == 0 && cork_subprocess_abort(sub) == 0, "waiting again does nothing");
    } else {
        sa_check(rc == -1, "failure");
    }
    release(sub);
}
void W_sub_wait_none(void) { waited(0); }
void W_sub_wait_out(void) { waited(1 | 16); }
void W_sub_wait_err(void) { waited(2 | 8); }
void W_sub_wait_both_out(void) { waited(3 | 16); }
void W_sub_wait_both_err(void) { waited(3 | 8); }
void W_sub_abort(void)
{
    struct cork_subprocess  *sub = started();
    int  rc;
    lost = 1;
    rc = cork_subprocess_abort(sub);
    sa_check(child[0].killed, "the child is terminated");
    sa_check((rc == 0) == (failures == 0), "and waited for");
    if (rc == 0) {
        sa_check(child[0].reaped, "so that it is gone");
        sa_check(cork_subprocess_abort(sub) == 0, "again, nothing is done");
    } else {
        sa_check(rc == -1 && cork_error_occurred() && cork_error_code() == (cork_error) sys_errno, "a failure sets the error to the system's");
    }
    release(sub);
}

/* ---- standard input */
static size_t  written, src_size;
static const char  *src;
ssize_t write(int fd, const void *vbuf, size_t n)
{
    const char  *buf = vbuf;
    size_t  r;
    sa_check(is_open(fd) && fds[fd].end == WRITE_END && fds[fd].pipe == 1, "the child's standard input is written");
    FAULTS
    sa_check(n > 0 && n <= src_size - written, "nothing but the data is written");
    r = sa_u64("r"); sa_assume(r >= 1 && r <= n);
    if (K >= written && K < written + r) sa_check(buf[K - written] == src[K], "in order");
    written += r;
    return (ssize_t) r;
}
void W_sub_stdin(void)
{
    struct cork_subprocess  *sub = started();
    struct cork_stream_consumer  *in = cork_subprocess_stdin(sub);
    int  rc;
    written = 0; src_size = sa_u64("size"); sa_assume(src_size < SA_SIZE_LIMIT);
    src = sa_object(src_size, "src");
    rc = cork_stream_consumer_data(in, src, src_size, true);
    sa_check((rc == 0) == (failures == 0), "the data is written, unless the system refused");
    if (rc == 0) sa_check(written == src_size && !cork_error_occurred(), "all of it");
    else sa_check(cork_error_occurred() && cork_error_code() == (cork_error) sys_errno, "a failure sets the error to the system's");
    sa_check(cork_stream_consumer_eof(in) == 0 && !fds[4].open, "at the end, the child's standard input is closed");
    cork_stream_consumer_free(in);
    release(sub);
}

/* ---- groups: the first of two subprocesses may have a consumer for its output */
static int  exit_code2;
static struct cork_subprocess_group  *group;
static void
make_group(int which)
{
    struct cork_subprocess  *sub;
    system_start();
    streams = which;
    group = cork_subprocess_group_new();
    sa_check(cork_subprocess_group_is_finished(group), "an empty group is finished");
    cork_subprocess_group_add(group, make());
    sub = cork_subprocess_new(&user_data[1], free_user_data, run, NULL, NULL, &exit_code2);
    exit_code2 = -1;
    cork_subprocess_group_add(group, sub);
    sa_partition(&child[1].reaped, 4); sa_partition(&child[1].killed, 4);
    sa_check(cork_subprocess_group_is_finished(group), "nothing runs before it is started");
}
static void
group_started(int which)
{
    make_group(which);
    may_fail = 0; may_intr = 0;
    sa_check(cork_subprocess_group_start(group) == 0 && children == 2, "every subprocess is started");
    sa_check(!cork_subprocess_group_is_finished(group), "and the group is running");
    may_fail = 1; may_intr = 1;
    cork_error_clear();
}
static void
release_group(void)
{
    may_fail = 0; may_intr = 0;
    cork_subprocess_group_free(group);
    sa_check(freed == 2, "the subprocesses are freed with the group");
    sa_check(all_closed(), "no descriptor stays open");
    sa_leaks(NULL);
}
void W_group_start(void)
{
    int  rc;
    make_group(0);
    rc = cork_subprocess_group_start(group);
    sa_check((rc == 0) == (failures == 0) && (rc == 0) == (children == 2), "all are started, unless the system refused");
    if (rc != 0) {
        sa_check(rc == -1 && cork_error_occurred() && cork_error_code() == (cork_error) sys_errno, "a failure sets the error to the system's");
        sa_check(children == 0 || (child[0].killed && child[0].reaped), "the ones already started are terminated");
    } else sa_check(!cork_error_occurred(), "no error on success");
    release_group();
}
void W_group_drain(void)
{
    bool  rc;
    group_started(1);
    rc = cork_subprocess_group_drain(group);
    if (failures != 0) {
        sa_check(cork_error_occurred(), "a failure sets the error");
        sa_check(child[0].reaped && child[1].reaped, "and every subprocess is terminated");
        sa_check(!rc, "a failure is no progress");
    } else {
        sa_check(rc == (last_event != 0), "progress is reported exactly if there was any");
        sa_check(!cork_error_occurred() && delivered == total && eofs[0] == at_end[0], "everything read has been delivered");
        sa_check(cork_subprocess_group_is_finished(group) == (child[0].reaped && child[1].reaped && at_end[0]), "it is finished when all of them are");
    }
    release_group();
}
static void
group_waited(int which)
{
    int  rc;
    group_started(which);
    lost = which == 0;
    rc = cork_subprocess_group_wait(group);
    sa_check((rc == 0) == (failures == 0), "a failure is reported");
    if (rc == 0) {
        sa_check(child[0].reaped && child[1].reaped && !child[0].killed && !child[1].killed, "all have finished");
        sa_check(exit_code == child[0].status && exit_code2 == child[1].status, "the exit codes are the children's");
        sa_check(delivered == total && eofs[0] == with_out, "everything written has been delivered");
        sa_check(cork_subprocess_group_is_finished(group) && !cork_error_occurred(), "it is finished");
    } else {
        sa_check(rc == -1 && cork_error_occurred(), "with the error set");
        sa_check((child[0].reaped || child[0].killed) && (child[1].reaped || child[1].killed), "and every subprocess is terminated");
    }
    release_group();
}
void W_group_wait_none(void) { group_waited(0); }
void W_group_wait_out(void) { group_waited(1 | 16); }
void W_group_abort(void)
{
    int  rc;
    group_started(0);
    lost = 1;
    rc = cork_subprocess_group_abort(group);
    sa_check(child[0].killed && child[1].killed, "every subprocess is terminated");
    sa_check((rc == 0) == (failures == 0), "and waited for");
    if (rc == 0) sa_check(child[0].reaped && child[1].reaped && cork_subprocess_group_is_finished(group), "so that all are gone");
    else sa_check(rc == -1 && cork_error_occurred(), "a failure sets the error");
    release_group();
}
