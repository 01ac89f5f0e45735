/* Timestamps: construction, fractional parts and formatting. */
#include "sa.h"
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <libcork/core.h>
#include <libcork/ds.h>

#define SEC  ((uint64_t) 1 << 32)

static unsigned
pick(unsigned n, const char *name)
{
    unsigned  i, v = sa_u32(name);
    for (i = 0; i + 1 < n; i++) if (v == i) return i;
    return n - 1;
}

/* ---- construction and access */
#define UNIT(name, units) \
void W_time_##name(void) \
{ \
    uint64_t  s = sa_u32("sec"), f = sa_u64("frac"), g; \
    cork_timestamp  ts; \
    sa_assume(f < units); \
    cork_timestamp_init_##name(&ts, s, f); \
    sa_check(cork_timestamp_sec(ts) == s, "the seconds are kept"); \
    g = cork_timestamp_gsec(ts); \
    sa_check(g * units <= f * SEC && f * SEC < (g + 1) * units, "the fraction is converted to 2^-32 seconds, rounding down"); \
    sa_check(cork_timestamp_##name(ts) == f, "and is read back unchanged"); \
}
UNIT(msec, 1000)
UNIT(usec, 1000000)
UNIT(nsec, 1000000000)
void W_time_gsec(void)
{
    uint64_t  s = sa_u32("sec"), g = sa_u32("gsec");
    cork_timestamp  ts;
    cork_timestamp_init_gsec(&ts, s, g);
    sa_check(cork_timestamp_sec(ts) == s && cork_timestamp_gsec(ts) == g, "seconds and fraction are kept");
    cork_timestamp_init_sec(&ts, s);
    sa_check(cork_timestamp_sec(ts) == s && cork_timestamp_gsec(ts) == 0, "whole seconds have no fraction");
}
#define READ(name, units) \
void W_time_read_##name(void) \
{ \
    uint64_t  g = sa_u32("gsec"), f; \
    cork_timestamp  ts = (cork_timestamp) sa_u32("sec") << 32 | g; \
    f = cork_timestamp_##name(ts); \
    sa_check(f < units, "the fraction is less than a second"); \
    sa_check(f * SEC < (g + 1) * units + SEC / 2 && (f == units - 1 || (f + 1) * SEC > g * units + SEC / 2 - units), "and the nearest one"); \
}
READ(msec, 1000)
READ(usec, 1000000)
READ(nsec, 1000000000)

static uint64_t  now_sec, now_usec;
int gettimeofday(struct timeval *tv, void *tz)
{
    tv->tv_sec = now_sec; tv->tv_usec = now_usec;
    return 0;
}
void W_time_now(void)
{
    cork_timestamp  ts;
    now_sec = sa_u32("sec"); now_usec = sa_u32("usec");
    sa_assume(now_usec < 1000000);
    cork_timestamp_init_now(&ts);
    sa_check(cork_timestamp_sec(ts) == now_sec && cork_timestamp_usec(ts) == now_usec, "the current time");
}

/* ---- formatting */
static struct tm  utc, local;
static uint64_t  clock_seen;
static void
any_tm(struct tm *tm)
{
    tm->tm_year = sa_u32("year"); sa_assume(tm->tm_year >= 69 && tm->tm_year <= 206);
    tm->tm_mon = sa_u32("mon"); sa_assume(tm->tm_mon >= 0 && tm->tm_mon <= 11);
    tm->tm_mday = sa_u32("mday"); sa_assume(tm->tm_mday >= 1 && tm->tm_mday <= 31);
    tm->tm_hour = sa_u32("hour"); sa_assume(tm->tm_hour >= 0 && tm->tm_hour <= 23);
    tm->tm_min = sa_u32("min"); sa_assume(tm->tm_min >= 0 && tm->tm_min <= 59);
    tm->tm_sec = sa_u32("s"); sa_assume(tm->tm_sec >= 0 && tm->tm_sec <= 60);
}
struct tm *gmtime_r(const time_t *clock, struct tm *tm) { clock_seen = *clock; *tm = utc; return tm; }
struct tm *localtime_r(const time_t *clock, struct tm *tm) { clock_seen = *clock; *tm = local; return tm; }
size_t strlen(const char *s) { size_t n = 0; while (s[n] != 0) n++; return n; }
char *strchr(const char *s, int c)
{
    for (; ; s++) {
        if (*s == (char) c) return (char *) s;
        if (*s == '\0') return NULL;
    }
}

static cork_timestamp  ts;
static struct tm  *the_tm;
static struct cork_buffer  dest;
static const char  *pos;
static char  format[16];

static int
run(void)
{
    int  rc, is_utc = sa_u8("utc") & 1;
    any_tm(&utc); any_tm(&local);
    the_tm = is_utc? &utc: &local;
    ts = ((cork_timestamp) sa_u32("sec") << 32) | sa_u32("gsec");
    cork_error_clear();
    cork_buffer_init(&dest);
    cork_buffer_append(&dest, "<", 1);
    rc = is_utc? cork_timestamp_format_utc(ts, format, &dest): cork_timestamp_format_local(ts, format, &dest);
    sa_check(clock_seen == cork_timestamp_sec(ts), "the timestamp's seconds are converted");
    pos = dest.buf;
    if (rc == 0) sa_check(*pos == '<', "the result is appended");
    pos++;
    if (rc == 0) sa_check(!cork_error_occurred(), "no error on success");
    else sa_check(rc == -1 && cork_error_occurred(), "an invalid format is an error");
    return rc;
}
static void
number(const char *conv, uint64_t v)
{
    size_t  n = sa_number(pos, conv, v);
    sa_check(n > 0, "the field is printed as specified");
    pos += n;
}
static void
literal(char c)
{
    sa_check(*pos == c, "other text is copied");
    pos++;
}
static void
finish(void)
{
    sa_check(*pos == '\0' && dest.size == (size_t) (pos - (char *) dest.buf), "and nothing else");
    cork_buffer_done(&dest);
}
static int
is_field(char c)
{
    return c == 'Y' || c == 'm' || c == 'd' || c == 'H' || c == 'M' || c == 'S' || c == 's' || c == '%';
}
static void
field(char c)
{
    switch (c) {
        case 'Y': number("04u", the_tm->tm_year + 1900); break;
        case 'm': number("02u", the_tm->tm_mon + 1); break;
        case 'd': number("02u", the_tm->tm_mday); break;
        case 'H': number("02u", the_tm->tm_hour); break;
        case 'M': number("02u", the_tm->tm_min); break;
        case 'S': number("02u", the_tm->tm_sec); break;
        case 's': number("u", (uint32_t) cork_timestamp_sec(ts)); break;
        case '%': literal('%'); break;
    }
}
/* one specifier (every character), between other text */
void W_time_format_field(void)
{
    char  a = sa_u8("a"), c = sa_u8("c"), b = sa_u8("b");
    unsigned  i = 0;
    sa_assume(a != '%' && b != '%' && a != 0 && b != 0 && c != 0);
    sa_assume(c < '0' || c > '9'); sa_assume(c != 'f');
    format[i++] = a; format[i++] = '%'; format[i++] = c; format[i++] = b; format[i] = '\0';
    if (run() == 0) {
        sa_check(is_field(c), "an unknown specifier is an error");
        literal(a); field(c); literal(b);
        finish();
    } else {
        sa_check(!is_field(c), "a known specifier is accepted");
    }
}
/* a width before a specifier that isn't a fraction */
void W_time_format_width(void)
{
    char  c = sa_u8("c");
    unsigned  i = 0;
    sa_assume(c != 0 && c != 'f' && (c < '0' || c > '9'));
    format[i++] = '%'; format[i++] = (char) ('1' + pick(9, "w")); format[i++] = c; format[i] = '\0';
    if (run() == 0) {
        sa_check(is_field(c), "an unknown specifier is an error");
        field(c);
        finish();
    } else {
        sa_check(!is_field(c), "a known specifier is accepted");
    }
}
/* several specifiers in a row */
void W_time_format_fields(void)
{
    static const char  fields[] = "YmdHMSs%";
    char  c = fields[pick(8, "c")], d = fields[pick(8, "d")];
    unsigned  i = 0;
    format[i++] = '%'; format[i++] = c; format[i++] = '%'; format[i++] = d; format[i++] = 'x'; format[i++] = '%'; format[i++] = c; format[i] = '\0';
    sa_check(run() == 0, "known specifiers are accepted");
    field(c); field(d); literal('x'); field(c);
    finish();
}
/* fractions of every width */
void W_time_format_fraction(void)
{
    unsigned  w = pick(13, "w"), i = 0;
    uint64_t  denom = 1, k;
    format[i++] = 'a'; format[i++] = '%';
    if (w == 12) ;                               /* no width */
    else if (w >= 10) { format[i++] = '1'; format[i++] = (char) ('0' + w - 10); }
    else { if (sa_u8("zero") & 1) format[i++] = '0'; format[i++] = (char) ('0' + w); }
    format[i++] = 'f'; format[i++] = 'b'; format[i] = '\0';
    for (k = 0; k < w; k++) denom *= 10;
    if (run() != 0) { sa_check(w == 0 || w > 9, "widths from 1 to 9 are accepted"); return; }
    sa_check(w >= 1 && w <= 9, "other widths are an error");
    literal('a');
    {
        uint64_t  f = cork_timestamp_gsec_to_units(ts, denom);
        sa_check(f < denom, "the fraction has no more digits than asked for");
        switch (w) {
            case 1: number("01lu", f); break;
            case 2: number("02lu", f); break;
            case 3: number("03lu", f); break;
            case 4: number("04lu", f); break;
            case 5: number("05lu", f); break;
            case 6: number("06lu", f); break;
            case 7: number("07lu", f); break;
            case 8: number("08lu", f); break;
            case 9: number("09lu", f); break;
        }
    }
    literal('b');
    finish();
}
/* text without specifiers, and formats that end in one */
void W_time_format_text(void)
{
    unsigned  n = pick(4, "n"), i;
    int  trailing = sa_u8("trailing") & 1;
    char  c;
    for (i = 0; i < n; i++) { c = sa_u8("c"); sa_assume(c != '%' && c != 0); format[i] = c; }
    if (trailing) {
        format[i++] = '%';
        if (sa_u8("digit") & 1) format[i++] = '3';
    }
    format[i] = '\0';
    if (run() != 0) { sa_check(trailing, "plain text is accepted"); return; }
    sa_check(!trailing, "a specifier without its letter is an error");
    for (i = 0; i < n; i++) literal(format[i]);
    finish();
}
