/* Printing, comparing and converting IP addresses (every address). */
#include "sa.h"
#include <libcork/core.h>

static unsigned
pick(unsigned n, const char *name)
{
    unsigned  i, v = sa_u32(name);
    for (i = 0; i + 1 < n; i++) if (v == i) return i;
    return n - 1;
}
static const char *
number(const char *p, const char *conv, uint64_t v)
{
    size_t  n = sa_number(p, conv, v);
    sa_check(n > 0, "the number is printed");
    return p + n;
}
static const char *
quad(const char *p, const uint8_t *b)
{
    unsigned  i;
    for (i = 0; i < 4; i++) {
        if (i > 0) { sa_check(*p == '.', "a dot between octets"); p++; }
        p = number(p, "u", b[i]);
    }
    return p;
}
static uint8_t  bytes[16];
static void
any_bytes(unsigned n)
{
    unsigned  i;
    for (i = 0; i < n; i++) bytes[i] = sa_u8("byte");
}
void W_ipv4_print(void)
{
    struct cork_ipv4  addr;
    char  *dest = sa_object(CORK_IPV4_STRING_LENGTH, "dest");
    const char  *p;
    any_bytes(4);
    cork_ipv4_copy(&addr, bytes);
    cork_ipv4_to_raw_string(&addr, dest);
    p = quad(dest, bytes);
    sa_check(*p == '\0', "and nothing else");
}
/* groups in hexadecimal, the first longest run of at least two zero groups as "::",
 * IPv4-compatible and IPv4-mapped addresses with a dotted quad at the end */
static const char *
v6_text(const char *p, unsigned mask)
{
    unsigned  best = 8, blen = 1, i, n, end;
    for (i = 0; i < 8; i++) {
        for (n = 0; i + n < 8 && (mask & (1u << (i + n))); n++) ;
        if (n > blen) { best = i; blen = n; }
    }
    end = (best == 8)? 8: best + blen;
    for (i = 0; i < 8; ) {
        if (i == best) { sa_check(p[0] == ':' && p[1] == ':', "the longest zero run is ::"); p += 2; i = end; continue; }
        if (i > 0 && i != end) { sa_check(*p == ':', "a colon between groups"); p++; }
        if (i == 6 && best == 0 && (blen == 6 || (blen == 5 && bytes[10] == 0xff && bytes[11] == 0xff))) {
            return quad(p, bytes + 12);
        }
        p = number(p, "x", ((unsigned) bytes[2 * i] << 8) | bytes[2 * i + 1]);
        i++;
    }
    return p;
}
static unsigned
any_v6(void)
{
    unsigned  i, mask = 0;
    any_bytes(16);
    for (i = 0; i < 8; i++) {
        if (sa_u8("zero") & 1) { bytes[2 * i] = bytes[2 * i + 1] = 0; mask |= 1u << i; }
        else sa_assume(((unsigned) bytes[2 * i] << 8) + bytes[2 * i + 1] > 0);
    }
    return mask;
}
void W_ipv6_print(void)
{
    struct cork_ipv6  addr;
    char  *dest = sa_object(CORK_IPV6_STRING_LENGTH, "dest");
    const char  *p;
    unsigned  mask = any_v6();
    cork_ipv6_copy(&addr, bytes);
    cork_ipv6_to_raw_string(&addr, dest);
    p = v6_text(dest, mask);
    sa_check(*p == '\0', "and nothing else");
}
void W_ip_print(void)
{
    struct cork_ip  addr;
    char  *dest = sa_object(CORK_IP_STRING_LENGTH, "dest");
    const char  *p;
    unsigned  mask;
    switch (pick(3, "version")) {
      case 0:
        any_bytes(4);
        cork_ip_from_ipv4(&addr, bytes);
        cork_ip_to_raw_string(&addr, dest);
        p = quad(dest, bytes);
        break;
      case 1:
        any_bytes(16);
        bytes[0] = 0x20; bytes[6] = 1; bytes[15] = 1;
        for (mask = 2; mask < 16; mask += 2) if (mask != 6 && mask != 14) { if (mask == 2) bytes[2] = 7; else bytes[mask] = bytes[mask + 1] = 0; }
        cork_ip_from_ipv6(&addr, bytes);
        cork_ip_to_raw_string(&addr, dest);
        p = v6_text(dest, 0x74);
        break;
      default:
        addr.version = sa_u32("v");
        sa_assume(addr.version != 4 && addr.version != 6);
        cork_ip_to_raw_string(&addr, dest);
        for (mask = 0; mask < sizeof "<INVALID>"; mask++) sa_check(dest[mask] == "<INVALID>"[mask], "an invalid version is named so");
        return;
    }
    sa_check(*p == '\0', "and nothing else");
}
static uint64_t
ref_swap(uint64_t v, unsigned n)
{
    uint64_t  r = 0;
    unsigned  i;
    for (i = 0; i < n; i++) { r = (r << 8) | (v & 0xff); v >>= 8; }
    return r;
}
void W_ip_equal(void)
{
    struct cork_ip  a, b;
    uint32_t  x = sa_u32("x"), y = sa_u32("y");
    uint64_t  w[4];
    unsigned  i;
    for (i = 0; i < 4; i++) w[i] = sa_u64("w");
    switch (pick(4, "which")) {
      case 0:
        cork_ip_from_ipv4(&a, &x); cork_ip_from_ipv4(&b, &y);
        sa_check(cork_ipv4_equal(&a.ip.v4, &b.ip.v4) == (x == y), "v4: equal addresses are equal");
        sa_check(cork_ipv4_equal_(&a.ip.v4, &b.ip.v4) == (x == y), "v4: exported form");
        sa_check(cork_ip_equal(&a, &b) == (x == y), "generic v4");
        break;
      case 1:
        cork_ip_from_ipv6(&a, w); cork_ip_from_ipv6(&b, w + 2);
        sa_check(cork_ipv6_equal(&a.ip.v6, &b.ip.v6) == (w[0] == w[2] && w[1] == w[3]), "v6: equal addresses are equal");
        sa_check(cork_ipv6_equal_(&a.ip.v6, &b.ip.v6) == (w[0] == w[2] && w[1] == w[3]), "v6: exported form");
        sa_check(cork_ip_equal(&a, &b) == (w[0] == w[2] && w[1] == w[3]), "generic v6");
        break;
      case 2:
        cork_ip_from_ipv4(&a, &x); cork_ip_from_ipv6(&b, w);
        sa_check(a.version == 4 && b.version == 6, "the version is recorded");
        sa_check(sa_eqbytes(&a.ip.v4, &x, 4) && sa_eqbytes(&b.ip.v6, w, 16), "the address is copied");
        sa_check(!cork_ip_equal(&a, &b) && !cork_ip_equal(&b, &a), "addresses of different versions differ");
        break;
      default: {
        struct cork_ipv6  v6;
        struct cork_ipv4  v4;
        cork_ipv4_copy(&v4, &x); cork_ipv6_copy(&v6, w);
        sa_check(sa_eqbytes(&v4, &x, 4) && sa_eqbytes(&v6, w, 16), "the address is copied");
        sa_check(sizeof v4 == 4 && sizeof v6 == 16, "addresses have no padding");
      }
    }
}
void W_ipv4_network(void)
{
    struct cork_ip  addr;
    uint32_t  v = sa_u32("address");
    unsigned  n = pick(34, "prefix");
    bool  expected;
    if (n == 33) { n = sa_u32("long"); sa_assume(n > 32); expected = false; }
    else if (n == 32) expected = true;
    else expected = (v & (0xffffffffu >> n)) == 0;
    addr.version = 4;
    addr.ip.v4._.u32 = (uint32_t) ref_swap(v, 4);
    sa_check(cork_ipv4_is_valid_network(&addr.ip.v4, n) == expected, "aligned exactly when all host bits are zero");
    sa_check(cork_ip_is_valid_network(&addr, n) == expected, "generic form");
}
void W_ipv6_network(void)
{
    struct cork_ip  addr;
    uint64_t  hi = sa_u64("hi"), lo = sa_u64("lo");
    unsigned  n = pick(130, "prefix");
    bool  expected;
    if (n == 129) { n = sa_u32("long"); sa_assume(n > 128); expected = false; }
    else if (n == 128) expected = true;
    else if (n >= 64) expected = (lo & (~UINT64_C(0) >> (n - 64))) == 0;
    else expected = (hi & (~UINT64_C(0) >> n)) == 0 && lo == 0;
    addr.version = 6;
    addr.ip.v6._.u64[0] = ref_swap(hi, 8);
    addr.ip.v6._.u64[1] = ref_swap(lo, 8);
    sa_check(cork_ipv6_is_valid_network(&addr.ip.v6, n) == expected, "aligned exactly when all host bits are zero");
    sa_check(cork_ip_is_valid_network(&addr, n) == expected, "generic form");
}
void W_ip_network_version(void)
{
    struct cork_ip  addr;
    addr.version = sa_u32("version");
    sa_assume(addr.version != 4 && addr.version != 6);
    sa_check(!cork_ip_is_valid_network(&addr, sa_u32("prefix")), "an address of unknown version is no network");
}
