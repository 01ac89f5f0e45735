/* Stream producers and consumers.  The file underneath is the witness's: it
 * returns any amount, is interrupted at any time and fails at any time.  One
 * arbitrary position `K` of the stream, holding `B`, stands for all of them. */
#include "sa.h"
#include <errno.h>
#include <stdio.h>
#include <fcntl.h>
#include <libcork/core.h>
#include <libcork/ds.h>

static int  the_fd;
static FILE  *the_fp;
static size_t  K, total, delivered, written, src_size;
static char  B;
static int  calls, eofs, failed, at_end, opens, closes, is_open, open_flags;
static int  data_rc, eof_rc, refused, last_errno;
static const char  *the_path;
static const char  *src;

static void
start(void)
{
    K = sa_u64("K"); sa_assume(K < SA_SIZE_LIMIT); B = sa_u8("B");
    total = 0; delivered = 0; written = 0; calls = 0; eofs = 0; failed = 0; at_end = 0;
    opens = 0; closes = 0; is_open = 0; refused = 0; last_errno = 0;
    the_fd = (int) (sa_u32("fd") & 0x7fffffff);
    the_fp = sa_object(1, "fp");
    cork_error_clear();
}
static int
any_errno(void)
{
    int  e = (int) (sa_u32("errno") & 0xfff);
    sa_assume(e != 0 && e != EINTR);
    return e;
}
/* ---- the file: reading */
static ssize_t
some_input(char *buf, size_t n)
{
    size_t  r = sa_u64("r");
    sa_check(!failed && !at_end, "nothing is read after an error or the end");
    sa_check(!refused, "nothing is read once the consumer has failed");
    sa_check(n > 0, "room to read into");
    sa_assume(r <= n && total + r < SA_SIZE_LIMIT);
    if (r == 0) { at_end = 1; return 0; }
    buf[n - 1] = 0;             /* must be writable */
    sa_havoc(buf);
    if (K >= total && K < total + r) buf[K - total] = B;
    total += r;
    return (ssize_t) r;
}
ssize_t read(int fd, void *buf, size_t n)
{
    sa_check(fd == the_fd, "the given file is read");
    if (sa_u8("intr") & 1) { errno = EINTR; return -1; }
    if (sa_u8("fail") & 1) { failed = 1; errno = last_errno = any_errno(); return -1; }
    return some_input(buf, n);
}
size_t fread(void *buf, size_t size, size_t n, FILE *fp)
{
    sa_check(fp == the_fp && size == 1, "the given file is read");
    if (sa_u8("intr") & 1) { errno = EINTR; return 0; }
    if (sa_u8("fail") & 1) { failed = 1; errno = last_errno = any_errno(); return 0; }
    return (size_t) some_input(buf, n);
}
int feof(FILE *fp) { sa_check(fp == the_fp, "the given file"); return at_end; }
int ferror(FILE *fp) { sa_check(fp == the_fp, "the given file"); return failed; }
/* ---- the file: writing */
static ssize_t
some_output(const char *buf, size_t n, int all)
{
    size_t  r = sa_u64("w");
    sa_check(!failed, "nothing is written after an error");
    sa_check(n <= src_size - written, "nothing but the data is written");
    if (K >= written && K < written + n) sa_check(buf[K - written] == src[K], "the bytes are written in order");
    sa_assume(r >= 1 && r <= n);
    if (all) r = n;
    written += r;
    return (ssize_t) r;
}
ssize_t write(int fd, const void *buf, size_t n)
{
    sa_check(fd == the_fd, "the given file is written");
    if (sa_u8("intr") & 1) { errno = EINTR; return -1; }
    if (sa_u8("fail") & 1) { failed = 1; errno = last_errno = any_errno(); return -1; }
    if (n == 0) return 0;
    return some_output(buf, n, 0);
}
size_t fwrite(const void *buf, size_t size, size_t n, FILE *fp)
{
    sa_check(fp == the_fp && size == 1, "the given file is written");
    if (n == 0) return 0;
    if (sa_u8("fail") & 1) {
        size_t  r = sa_u64("part");
        sa_assume(r < n);
        failed = 1; errno = last_errno = any_errno();
        return r;
    }
    return (size_t) some_output(buf, n, 1);
}
/* ---- opening and closing */
int open(const char *path, int flags, ...)
{
    sa_check(path == the_path && flags == open_flags, "the given path is opened with the given flags");
    if (sa_u8("intr") & 1) { errno = EINTR; return -1; }
    if (sa_u8("openfail") & 1) { failed = 1; errno = last_errno = any_errno(); return -1; }
    opens++; is_open = 1;
    return the_fd;
}
int close(int fd)
{
    sa_check(fd == the_fd && is_open, "an open file is closed, once");
    is_open = 0; closes++;
    if (sa_u8("closefail") & 1) { failed = 1; errno = last_errno = any_errno(); return -1; }
    return 0;
}

/* ---- a consumer that may fail at any time */
static struct cork_stream_consumer  consumer;
static int
c_data(struct cork_stream_consumer *c, const void *buf, size_t size, bool first)
{
    sa_check(c == &consumer, "the consumer gets itself");
    sa_check(eofs == 0 && !refused, "no data after the end, or after the consumer failed");
    sa_check(size > 0, "chunks are not empty");
    sa_check(first == (calls == 0), "exactly the first chunk is marked as the first");
    calls = 1;
    sa_check(size <= total - delivered, "nothing but the file's content is delivered");
    if (K >= delivered && K < delivered + size) sa_check(((const char *) buf)[K - delivered] == B, "every byte is delivered in order");
    delivered += size;
    if (sa_u8("refuse") & 1) { refused = 1; data_rc = -1; cork_error_set_string(0x1234, "refused"); return data_rc; }
    return 0;
}
static int
c_eof(struct cork_stream_consumer *c)
{
    sa_check(c == &consumer, "the consumer gets itself");
    sa_check(eofs == 0 && !refused && at_end && !failed, "the end is announced once, at the end of a file read without error");
    sa_check(delivered == total, "after all data has been delivered");
    eofs = 1;
    if (sa_u8("refuse") & 1) { refused = 1; cork_error_set_string(0x1234, "refused"); return -1; }
    return 0;
}
static void c_free(struct cork_stream_consumer *c) { sa_unreachable("a producer does not free the consumer"); }
static struct cork_stream_consumer *
any_consumer(void)
{
    consumer.data = c_data; consumer.eof = c_eof; consumer.free = c_free;
    return &consumer;
}
static void
consumed(int rc)
{
    sa_check((rc == 0) == (eofs == 1 && !refused && !failed), "success exactly when everything was delivered and accepted");
    if (rc == 0) {
        sa_check(delivered == total, "all data has been delivered");
        sa_check(!cork_error_occurred(), "no error is set on success");
    } else {
        sa_check(cork_error_occurred(), "a failure sets the error");
        if (failed && !refused) sa_check(cork_error_code() == (cork_error) last_errno, "to the system's error");
    }
}
void W_stream_consume_fd(void) { start(); consumed(cork_consume_fd(any_consumer(), the_fd)); sa_check(closes == 0, "the caller's file stays open"); }
void W_stream_consume_file(void) { start(); consumed(cork_consume_file(any_consumer(), the_fp)); }
void W_stream_consume_path(void)
{
    int  rc;
    start();
    the_path = sa_cstr("path"); open_flags = sa_u32("flags");
    rc = cork_consume_file_from_path(any_consumer(), the_path, open_flags);
    consumed(rc);
    sa_check(!is_open && closes == opens, "the file is closed again whatever happened");
}

/* ---- built-in consumers */
static void
feed(struct cork_stream_consumer *c)
{
    int  rc;
    src_size = sa_u64("size");
    sa_assume(src_size < SA_SIZE_LIMIT);
    src = sa_object(src_size, "src");
    rc = cork_stream_consumer_data(c, src, src_size, sa_u8("first") & 1);
    sa_check((rc == 0) == !failed, "the data is accepted exactly when the file took it");
    if (rc == 0) sa_check(written == src_size, "all of it has been written");
    else sa_check(rc == -1 && cork_error_occurred() && cork_error_code() == (cork_error) last_errno, "a failure sets the error to the system's");
}
void W_stream_fd_consumer(void)
{
    struct cork_stream_consumer  *c;
    start();
    c = cork_fd_consumer_new(the_fd);
    if (sa_u8("data") & 1) feed(c);
    if (!failed && (sa_u8("eof") & 1)) sa_check(cork_stream_consumer_eof(c) == 0 && !cork_error_occurred(), "the end is accepted");
    cork_stream_consumer_free(c);
    sa_check(closes == 0, "the caller's file stays open");
    sa_leaks(NULL);
}
void W_stream_file_consumer(void)
{
    struct cork_stream_consumer  *c;
    start();
    c = cork_file_consumer_new(the_fp);
    if (sa_u8("data") & 1) feed(c);
    if (!failed && (sa_u8("eof") & 1)) sa_check(cork_stream_consumer_eof(c) == 0 && !cork_error_occurred(), "the end is accepted");
    cork_stream_consumer_free(c);
    sa_check(closes == 0, "the caller's file stays open");
    sa_leaks(NULL);
}
void W_stream_path_consumer(void)
{
    struct cork_stream_consumer  *c;
    int  rc;
    start();
    the_path = sa_cstr("path"); open_flags = sa_u32("flags");
    c = cork_file_from_path_consumer_new(the_path, open_flags);
    sa_check((c == NULL) == (opens == 0), "a consumer exactly when the file could be opened");
    if (c == NULL) { sa_check(cork_error_occurred() && cork_error_code() == (cork_error) last_errno, "a failure sets the error to the system's"); sa_leaks(NULL); return; }
    sa_check(is_open, "the file is open");
    if (sa_u8("data") & 1) feed(c);
    if (!failed && (sa_u8("eof") & 1)) {
        rc = cork_stream_consumer_eof(c);
        sa_check(!is_open, "the file is closed at the end");
        sa_check((rc == 0) == !failed, "an error on closing is reported");
        if (rc != 0) sa_check(cork_error_occurred(), "with the error set");
    }
    cork_stream_consumer_free(c);
    sa_check(!is_open && closes == 1, "the file is closed once, also when the stream failed");
    sa_leaks(NULL);
}
