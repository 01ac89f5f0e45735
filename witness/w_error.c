/* The per-thread error condition, from any state of it. */
#include "sa.h"
#include <errno.h>
#include <libcork/os/process.h>
static void  (*at_exit)(void);
static unsigned  registered;
static void capture(int priority, void (*f)(void)) { at_exit = f; registered++; }
#define cork_cleanup_at_exit  capture
#include "core/error.c"

static struct cork_error  *me;
/* any error record: both buffers satisfy the buffer invariant, in either role */
static void
a_buffer(struct cork_buffer *b)
{
    size_t  alloc = sa_u64("alloc");
    if (alloc == 0) { b->buf = NULL; b->size = 0; b->allocated_size = 0; }
    else {
        size_t  size = sa_u64("size");
        sa_assume(alloc < SA_SIZE_LIMIT && size < alloc);
        b->buf = sa_heapobj(alloc, "text"); b->size = size; b->allocated_size = alloc;
        ((char *) b->buf)[size] = '\0';
    }
}
static void
any_error(void)
{
    me = sa_heapobj(sizeof(struct cork_error), "error");
    me->code = sa_u32("code");
    a_buffer(&me->buf1); a_buffer(&me->buf2);
    if (sa_u8("swapped") & 1) { me->message = &me->buf2; me->other = &me->buf1; }
    else { me->message = &me->buf1; me->other = &me->buf2; }
    *cork_error__get() = me;
}
static void
inv(void)
{
    struct cork_buffer  *b;
    sa_check(*cork_error__get() == me, "the thread keeps its error record");
    sa_check((me->message == &me->buf1 && me->other == &me->buf2) || (me->message == &me->buf2 && me->other == &me->buf1), "message and scratch buffer are distinct");
    b = &me->buf1; sa_check(b->buf == NULL? b->size == 0 && b->allocated_size == 0: b->size < b->allocated_size && sa_objsize(b->buf) == b->allocated_size, "first buffer is consistent");
    b = &me->buf2; sa_check(b->buf == NULL? b->size == 0 && b->allocated_size == 0: b->size < b->allocated_size && sa_objsize(b->buf) == b->allocated_size, "second buffer is consistent");
}
/* the first use in a thread: a fresh record, published once, no error */
void W_error_first_use(void)
{
    *cork_error__get() = NULL;
    sa_shared_list((void *) &errors, offsetof(struct cork_error, next));
    sa_once(&cork_error_list__once.barrier, &cork_error_list__once.initializing_thread);
    sa_gset("once_done", 1);
    sa_check(!cork_error_occurred(), "a thread starts without an error");
    sa_check(cork_error_code() == CORK_ERROR_NONE, "and without an error code");
    sa_check(*cork_error__get() != NULL, "the record is remembered");
    sa_check(sa_gget("pushed") == 1, "the record is put on the release list exactly once");
    cork_error_clear();
    sa_check(sa_gget("pushed") == 1, "later uses reuse the record");
}
void W_error_query(void)
{
    any_error();
    sa_check(cork_error_occurred() == (me->code != CORK_ERROR_NONE), "an error occurred exactly when a code is set");
    sa_check(cork_error_code() == me->code, "the code is reported");
    sa_check(cork_error_message() == me->message->buf, "the message is reported");
    inv();
}
void W_error_clear(void)
{
    any_error();
    cork_error_clear();
    sa_check(!cork_error_occurred() && cork_error_code() == CORK_ERROR_NONE, "clearing removes the error");
    { const char  *m = cork_error_message(); sa_check(m == NULL || m[0] == '\0', "and its message"); }
    sa_check(me->message->size == 0, "and its message");
    inv();
}
static void
set_v(cork_error code, const char *fmt, ...)
{
    va_list  args;
    va_start(args, fmt);
    cork_error_set_vprintf(code, fmt, args);
    va_end(args);
}
static void
prefix_v(const char *fmt, ...)
{
    va_list  args;
    va_start(args, fmt);
    cork_error_prefix_vprintf(fmt, args);
    va_end(args);
}
static void
text_is(const char *s)
{
    size_t  n = strlen(s);
    sa_check(me->message->size == n, "the message is the whole text");
    sa_check(sa_eqbytes(cork_error_message(), s, n), "the message is the text");
    sa_check(cork_error_message()[n] == '\0', "the message is terminated");
}
static void
formatted(void)
{
    sa_check(me->message->size == sa_gget("fmt_total"), "the message is the whole formatted text");
    sa_check(((char *) me->message->buf)[me->message->size] == '\0', "the message is terminated");
}
void W_error_set(void)
{
    const char  *fmt = sa_cstr("fmt");
    cork_error  code = sa_u32("newcode");
    unsigned  cls = sa_u32("class"), c = sa_u32("c");
    any_error();
    switch (sa_u8("how") & 3) {
      case 0: cork_error_set_printf(code, fmt, 1); formatted(); break;
      case 1: set_v(code, fmt, 1); formatted(); break;
      case 2: code = cls + c; cork_error_set(cls, c, fmt, 1); formatted(); break;
      default: cork_error_set_string(code, fmt); text_is(fmt); break;
    }
    sa_check(cork_error_code() == code && cork_error_occurred() == (code != CORK_ERROR_NONE), "the new code is in force");
    inv();
}
void W_error_builtin(void)
{
    int  err = (int) sa_u32("errno");
    cork_error  want;
    any_error();
    sa_assume(err > 0);
    sa_check(CORK_ERROR_NONE != CORK_PARSE_ERROR && CORK_ERROR_NONE != CORK_REDEFINED && CORK_ERROR_NONE != CORK_UNDEFINED && CORK_ERROR_NONE != CORK_UNKNOWN_ERROR, "codes of errors are not the code of no error");
    sa_check(CORK_PARSE_ERROR != CORK_REDEFINED && CORK_PARSE_ERROR != CORK_UNDEFINED && CORK_PARSE_ERROR != CORK_UNKNOWN_ERROR && CORK_REDEFINED != CORK_UNDEFINED
             && CORK_REDEFINED != CORK_UNKNOWN_ERROR && CORK_UNDEFINED != CORK_UNKNOWN_ERROR, "the built-in codes are different");
    switch (sa_u8("how") & 7) {
      case 4: want = CORK_REDEFINED; cork_redefined("%s exists", "x"); break;
      case 5: want = CORK_UNDEFINED; cork_undefined("No %s", "x"); break;
      case 0: errno = err; want = err; cork_system_error_set(); break;
      case 1: want = err; cork_system_error_set_explicit(err); break;
      case 2: want = CORK_UNKNOWN_ERROR; cork_unknown_error(); break;
      default: want = CORK_PARSE_ERROR; cork_parse_error("Cannot parse %s", "x"); break;
    }
    sa_check(cork_error_code() == want && cork_error_occurred(), "the error code identifies the failure");
    sa_check(cork_error_message() != NULL && cork_error_message()[me->message->size] == '\0', "the message is terminated");
    inv();
}
void W_error_prefix(void)
{
    const char  *fmt = sa_cstr("fmt");
    cork_error  code;
    size_t  old, n;
    char  *copy;
    any_error();
    code = me->code;
    old = me->message->size;
    copy = sa_object(old + 1, "old_message");
    if (old > 0) memcpy(copy, me->message->buf, old);
    switch (sa_u8("how") & 3) {
      case 0: cork_error_prefix_printf(fmt, 1); n = sa_gget("fmt_total"); break;
      case 1: prefix_v(fmt, 1); n = sa_gget("fmt_total"); break;
      case 2: cork_error_prefix(fmt, 1); n = sa_gget("fmt_total"); break;
      default:
        cork_error_prefix_string(fmt); n = strlen(fmt);
        sa_check(sa_eqbytes(cork_error_message(), fmt, n), "the prefix comes first");
        break;
    }
    sa_check(me->message->size == n + old, "the message is prefix plus old message");
    if (old > 0) sa_check(sa_eqbytes((char *) me->message->buf + n, copy, old), "the old message follows the prefix");
    sa_check(((char *) me->message->buf)[me->message->size] == '\0', "the message is terminated");
    sa_check(cork_error_code() == code, "the code stays");
    inv();
}
/* at exit every record is released */
void W_error_release(void)
{
    struct cork_error  *other;
    at_exit = NULL; registered = 0;
    cork_error_list__once.barrier = 0;
    errors = NULL;
    if (sa_u8("none") & 1) { any_error(); me->next = NULL; errors = me; }
    *cork_error__get() = NULL;
    cork_error_occurred();                  /* a new thread's first use sets up the release */
    sa_check(registered == 1 && at_exit != NULL, "the release is registered once");
    other = *cork_error__get();
    if (sa_u8("text") & 1) cork_error_set_string(7, "text");
    *cork_error__get() = NULL;
    cork_error_occurred();                  /* and another thread's */
    sa_check(registered == 1, "not again by the next thread");
    sa_check(other != *cork_error__get(), "threads have their own records");
    at_exit();
    sa_leaks(NULL);
    /* a cleanup function that runs later can still fail */
    sa_check(!cork_error_occurred(), "no error is left over");
    cork_error_set_string(9, "late");
    sa_check(cork_error_code() == 9, "a late error is reported");
}
