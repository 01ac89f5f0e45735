/* Parsing IP addresses: any string. */
#include "sa.h"
#include <libcork/core.h>

static unsigned
pick(unsigned n, const char *name)
{
    unsigned  i, v = sa_u32(name);
    for (i = 0; i + 1 < n; i++) if (v == i) return i;
    return n - 1;
}
/* strings of any length and content: no access outside the string or the address;
 * failure is reported and leaves the address alone */
void W_ipv4_any(void)
{
    struct cork_ipv4  *addr = sa_object(sizeof(struct cork_ipv4), "addr");
    uint32_t  old = addr->_.u32;
    int  rc;
    cork_error_clear();
    rc = cork_ipv4_init(addr, sa_cstr("str"));
    sa_check(rc == 0 || rc == -1, "success or failure");
    sa_check((rc != 0) == cork_error_occurred(), "an error is set exactly on failure");
    if (rc != 0) sa_check(addr->_.u32 == old, "a failed parse leaves the address unchanged");
}
void W_ipv6_any(void)
{
    struct cork_ipv6  *addr = sa_object(sizeof(struct cork_ipv6), "addr");
    uint64_t  o0 = addr->_.u64[0], o1 = addr->_.u64[1];
    int  rc;
    cork_error_clear();
    rc = cork_ipv6_init(addr, sa_cstr("str"));
    sa_check(rc == 0 || rc == -1, "success or failure");
    sa_check((rc != 0) == cork_error_occurred(), "an error is set exactly on failure");
    if (rc != 0) sa_check(addr->_.u64[0] == o0 && addr->_.u64[1] == o1, "a failed parse leaves the address unchanged");
}
/*--- exact language and value, on all strings up to a length ---*/
static char  str[64];
static void
any_string(unsigned len)
{
    unsigned  i;
    for (i = 0; i < len; i++) { str[i] = (char) sa_u8("c"); sa_assume(str[i] != '\0'); }
    str[len] = '\0';
}
static void
v4_exact(unsigned len)
{
    struct cork_ipv4  *addr = sa_object(sizeof(struct cork_ipv4), "addr");
    uint32_t  old = addr->_.u32;
    unsigned  i, octets = 0, digits = 0, value = 0;
    uint8_t  expect[4];
    bool  ok = true;
    int  rc;
    cork_error_clear();
    rc = cork_ipv4_init(addr, str);
    for (i = 0; ok && i < len; i++) {
        if (str[i] >= '0' && str[i] <= '9') {
            digits++;
            value = value * 10 + (str[i] - '0');
            if (value > 255) ok = false;
        } else if (str[i] == '.' && digits > 0 && octets < 3) {
            expect[octets++] = value;
            digits = value = 0;
        } else ok = false;
    }
    if (digits == 0 || octets != 3) ok = false;
    else expect[3] = value;
    sa_check((rc == 0) == ok, "accepted exactly when it is four dotted octets");
    sa_check(cork_error_occurred() == !ok, "an error is set exactly on failure");
    if (ok) for (i = 0; i < 4; i++) sa_check(addr->_.u8[i] == expect[i], "the octets in network order");
    else sa_check(addr->_.u32 == old, "a failed parse leaves the address unchanged");
}
void W_ipv4_short(void)
{
    unsigned  len = pick(9, "len");
    any_string(len);
    v4_exact(len);
}
/* four octets of one to four digits each, and something after them */
void W_ipv4_octets(void)
{
    unsigned  i, j, n, len = 0;
    for (i = 0; i < 4; i++) {
        n = pick(4, "digits") + 1;
        for (j = 0; j < n; j++) { unsigned  d = sa_u8("digit"); sa_assume(d < 10); str[len++] = '0' + d; }
        if (i < 3) str[len++] = '.';
    }
    if (sa_u8("more") & 1) { str[len] = sa_u8("c"); sa_assume(str[len] != '\0'); len++; }
    str[len] = '\0';
    v4_exact(len);
}

/*--- IPv6: a reference reading of RFC 4291 text, compared on strings built from a known beginning
 * and any few characters ---*/
static unsigned  len;
static void
put(const char *s)
{
    while (*s != '\0') str[len++] = *s++;
    str[len] = '\0';
}
static void
any_chars(unsigned n)
{
    unsigned  i;
    for (i = 0; i < n; i++) { str[len] = (char) sa_u8("c"); sa_assume(str[len] != '\0'); len++; }
    str[len] = '\0';
}
static int
hex_value(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
/* four dotted octets from position i to the end */
static bool
quad_at(unsigned i, uint8_t *out)
{
    unsigned  octets = 0, digits = 0, value = 0;
    for (; str[i] != '\0'; i++) {
        if (str[i] >= '0' && str[i] <= '9') {
            digits++;
            value = value * 10 + (str[i] - '0');
            if (value > 255) return false;
        } else if (str[i] == '.' && digits > 0 && octets < 3) {
            out[octets++] = value;
            digits = value = 0;
        } else return false;
    }
    if (digits == 0 || octets != 3) return false;
    out[3] = value;
    return true;
}
static uint8_t  groups[20];    /* bytes of the groups in order of appearance */
/* 1 valid, 0 invalid, 2 not asserted ("::" next to eight groups) */
static int
reference(uint8_t *out)
{
    unsigned  i = 0, n = 0, dbl = 99, k, j;
    if (str[0] == ':') {
        if (str[1] != ':') return 0;
        dbl = 0;
        i = 2;
    }
    while (dbl != n || str[i] != '\0') {
        unsigned  v = 0, d = 0;
        for (k = i; hex_value(str[k]) >= 0; k++) { v = v * 16 + hex_value(str[k]); d++; if (d > 4) return 0; }
        if (str[k] == '.') {
            if (d == 0 || n > 6 || !quad_at(i, groups + 2 * n)) return 0;
            n += 2;
            break;
        }
        if (d == 0 || n == 8) return 0;
        groups[2 * n] = v >> 8;
        groups[2 * n + 1] = v & 255;
        n++;
        if (str[k] == '\0') break;
        if (str[k] != ':') return 0;
        i = k + 1;
        if (str[i] == ':') {
            if (dbl != 99) return 0;
            dbl = n;
            i++;
        }
    }
    if (dbl == 99) {
        if (n != 8) return 0;
        for (j = 0; j < 16; j++) out[j] = groups[j];
        return 1;
    }
    if (n == 8) return 2;
    for (j = 0; j < 16; j++) out[j] = 0;
    for (j = 0; j < 2 * dbl; j++) out[j] = groups[j];
    for (j = 2 * dbl; j < 2 * n; j++) out[16 - 2 * n + j] = groups[j];
    return 1;
}
static void
v6_exact(void)
{
    struct cork_ipv6  *addr = sa_object(sizeof(struct cork_ipv6), "addr");
    uint64_t  o0 = addr->_.u64[0], o1 = addr->_.u64[1];
    uint8_t  expect[16];
    unsigned  i;
    int  rc, want;
    cork_error_clear();
    rc = cork_ipv6_init(addr, str);
    want = reference(expect);
    sa_check((rc != 0) == cork_error_occurred(), "an error is set exactly on failure");
    if (want == 2) return;
    sa_check((rc == 0) == (want == 1), "accepted exactly when it is an IPv6 address");
    if (rc == 0) for (i = 0; i < 16; i++) sa_check(addr->_.u8[i] == expect[i], "the address bytes in network order");
    else sa_check(addr->_.u64[0] == o0 && addr->_.u64[1] == o1, "a failed parse leaves the address unchanged");
}
void W_ipv6_short(void) { len = 0; any_chars(pick(5, "n")); v6_exact(); }
void W_ipv6_after_double(void) { len = 0; put("::"); any_chars(pick(4, "n")); v6_exact(); }
void W_ipv6_middle_double(void) { len = 0; put("9:8::a:B"); any_chars(pick(4, "n")); v6_exact(); }
void W_ipv6_fifth_digit(void) { len = 0; put("::12c"); any_chars(pick(4, "n")); v6_exact(); }
void W_ipv6_end_double(void) { len = 0; put("1:2:3:4:5:6"); any_chars(pick(4, "n")); v6_exact(); }
void W_ipv6_seventh(void) { len = 0; put("1:2:3:4:5:6:7:"); any_chars(pick(4, "n")); v6_exact(); }
void W_ipv6_ninth(void) { len = 0; put("1:2:3:4:5:6:7:fe"); any_chars(pick(4, "n")); v6_exact(); }
void W_ipv6_eight_after(void) { len = 0; put("::2:3:4:5:6:7:8"); any_chars(pick(4, "n")); v6_exact(); }
void W_ipv6_quad_end(void) { len = 0; put("::1.20.3"); any_chars(pick(4, "n")); v6_exact(); }
void W_ipv6_quad_full(void) { len = 0; put("1:2:3:4:5:6:7.8.90."); any_chars(pick(4, "n")); v6_exact(); }
/* a quad with too few or too many groups before it, with and without "::" */
void W_ipv6_quad_groups(void)
{
    unsigned  i, n = pick(9, "groups"), d = pick(10, "double colon before group");
    len = 0;
    put("");
    if (d == 0) put("::");
    for (i = 0; i < n; i++) {
        any_chars(1);
        sa_assume(str[len - 1] >= '0' && str[len - 1] <= '9');
        put(":");
        if (d == i + 1) put(":");
    }
    put("1.2.3.4");
    v6_exact();
}
/* every number of groups before and after a "::", or none; every group a different digit */
void W_ipv6_groups(void)
{
    unsigned  i, n = pick(10, "groups"), d = pick(11, "double colon before group");
    len = 0;
    put("");
    for (i = 0; i < n; i++) {
        if (d == i) put("::");
        else if (i > 0) put(":");
        str[len++] = '1' + i;
        str[len] = '\0';
    }
    if (d == n) put("::");
    if (pick(2, "colon at the end") == 1) put(":");
    v6_exact();
}
/* every digit of every group position */
void W_ipv6_digits(void)
{
    unsigned  i, j, at = pick(8, "group"), n = pick(5, "digits");
    len = 0;
    put("");
    for (i = 0; i < 8; i++) {
        if (i > 0) put(":");
        if (i == at) {
            for (j = 0; j < n; j++) { any_chars(1); sa_assume(hex_value(str[len - 1]) >= 0); }
        }
        else { str[len++] = '1' + i; str[len] = '\0'; }
    }
    v6_exact();
}

/*--- generic addresses: IPv4 first, then IPv6 ---*/
void W_ip_any(void)
{
    struct cork_ip  *addr = sa_object(sizeof(struct cork_ip), "addr");
    struct cork_ipv4  v4;
    struct cork_ipv6  v6;
    const char  *s = sa_cstr("str");
    int  rc;
    cork_error_clear();
    rc = cork_ip_init(addr, s);
    sa_check(rc == 0 || rc == -1, "success or failure");
    sa_check((rc != 0) == cork_error_occurred(), "an error is set exactly on failure");
    if (rc == 0) sa_check(addr->version == 4 || addr->version == 6, "the version is recorded");
}
static void
ip_exact(void)
{
    struct cork_ip  *addr = sa_object(sizeof(struct cork_ip), "addr");
    struct cork_ipv6  expect;
    uint8_t  quad[4];
    unsigned  i;
    int  rc, want;
    cork_error_clear();
    rc = cork_ip_init(addr, str);
    sa_check((rc != 0) == cork_error_occurred(), "an error is set exactly on failure");
    if (quad_at(0, quad)) {
        sa_check(rc == 0 && addr->version == 4, "an IPv4 address is recognised");
        for (i = 0; i < 4; i++) sa_check(addr->ip.v4._.u8[i] == quad[i], "the octets in network order");
        return;
    }
    want = reference(expect._.u8);
    if (want == 2) return;
    sa_check((rc == 0) == (want == 1), "otherwise accepted exactly when it is an IPv6 address");
    if (rc == 0) {
        sa_check(addr->version == 6, "an IPv6 address is recognised");
        for (i = 0; i < 16; i++) sa_check(addr->ip.v6._.u8[i] == expect._.u8[i], "the address bytes in network order");
    }
}
void W_ip_v4(void) { len = 0; put("10.2.3"); any_chars(pick(4, "n")); ip_exact(); }
void W_ip_v6(void) { len = 0; put("fe80::"); any_chars(pick(3, "n")); ip_exact(); }
void W_ip_v6_zero(void) { len = 0; put("::"); any_chars(pick(2, "n")); ip_exact(); }
