/* Escaped, indented and dumped text, byte by byte. */
#include "sa.h"
#include <libcork/ds.h>

#define MAX  52
static unsigned
pick(unsigned n, const char *name)
{
    unsigned  i, v = sa_u32(name);
    for (i = 0; i + 1 < n; i++) if (v == i) return i;
    return n - 1;
}
static struct cork_buffer  buf;
static size_t  old, pos;

/* a buffer that holds something already, or nothing */
static void
start(void)
{
    cork_buffer_init(&buf);
    if (pick(2, "filled")) cork_buffer_append(&buf, "ab", 2);
    pos = old = buf.size;
}
static unsigned char at(size_t i) { sa_check(i < buf.size, "the text is complete"); return ((unsigned char *) buf.buf)[i]; }
static void next(unsigned char c) { sa_check(at(pos) == c, "the text is exactly what is documented"); pos++; }
static void
finish(void)
{
    sa_check(pos == buf.size, "nothing else is added");
    if (buf.buf != NULL) sa_check(((char *) buf.buf)[buf.size] == 0, "the text is followed by a NUL byte");
    if (old > 0) sa_check(at(0) == 'a' && at(1) == 'b', "what was there stays");
    cork_buffer_done(&buf);
    sa_leaks(NULL);
}
static void next_string(const char *s) { for (; *s != 0; s++) next(*s); }
static void indentation(size_t n) { size_t i; for (i = 0; i < n; i++) next(' '); }

static unsigned
hex_digit(unsigned char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    sa_check(0, "escapes have two digits");
    return 0;
}
/* what a string literal denotes, with escapes of two digits */
static void
literal(const unsigned char *src, size_t n)
{
    size_t  i;
    next('"');
    for (i = 0; i < n; i++) {
        unsigned char  c = at(pos++), v;
        sa_check(c >= 0x20 && c <= 0x7e, "only printable characters appear");
        sa_check(c != '"', "quotes are escaped");
        v = c;
        if (c == '\\') {
            c = at(pos++);
            if (c == 'a') v = 7;
            else if (c == 'b') v = 8;
            else if (c == 't') v = 9;
            else if (c == 'n') v = 10;
            else if (c == 'v') v = 11;
            else if (c == 'f') v = 12;
            else if (c == 'r') v = 13;
            else if (c == 'x') {
                v = hex_digit(at(pos)) << 4 | hex_digit(at(pos + 1));
                pos += 2;
                sa_check(v < 9 || v > 13, "letters stand for whatever has one");
                sa_check(v < 0x20 || v > 0x7e, "what can be printed is");
            } else {
                sa_check(c == '"' || c == '\\', "every escape is a standard one");
                v = c;
            }
        }
        sa_check(v == src[i], "the literal denotes the bytes");
    }
    next('"');
}
static const unsigned char  edges[] = { 'a', 0, 7, 8, 9, 10, 11, 12, 13, 0x1f, ' ', '"', '\\', '0', 'x', 0x7e, 0x7f, 0x80, 0xff };
#define EDGES  19
void W_text_literal_one(void)
{
    unsigned char  src[1];
    start();
    src[0] = pick(256, "byte");
    cork_buffer_append_c_string(&buf, (char *) src, 1);
    literal(src, 1);
    finish();
}
void W_text_literal_two(void)
{
    unsigned char  src[2];
    size_t  n = 2 * pick(2, "length");
    start();
    src[0] = edges[pick(EDGES, "byte")]; src[1] = edges[pick(EDGES, "byte")];
    cork_buffer_append_c_string(&buf, (char *) src, n);
    literal(src, n);
    finish();
}

static unsigned char digit(unsigned v) { return v < 10? '0' + v: 'a' + v - 10; }
static void
dump(const unsigned char *src, size_t n, size_t indent)
{
    size_t  row, i;
    for (row = 0; row < n; row += 16) {
        if (row > 0) { next('\n'); indentation(indent); }
        for (i = row; i < row + 16; i++) {
            if (i < n) { next(digit(src[i] >> 4)); next(digit(src[i] & 15)); next(' '); }
            else { next(' '); next(' '); next(' '); }
        }
        next(' '); next('|');
        for (i = row; i < row + 16 && i < n; i++) next(src[i] >= 0x20 && src[i] <= 0x7e? src[i]: '.');
        next('|');
    }
}
static void
lines(const unsigned char *src, size_t n, size_t indent)
{
    size_t  i;
    for (i = 0; i < n; i++) { next(src[i]); if (src[i] == '\n') indentation(indent); }
}
static void
binary(const unsigned char *src, size_t n, size_t indent)
{
    size_t  i;
    int  hex = 0, newline = 0;
    for (i = 0; i < n; i++) {
        if (src[i] == '\n') newline = 1;
        if (!(src[i] >= 0x20 && src[i] <= 0x7e) && !(src[i] >= 9 && src[i] <= 13)) hex = 1;
    }
    if (hex) { next_string("(hex)\n"); indentation(indent); dump(src, n, indent); }
    else if (newline) { next_string("(multiline)\n"); indentation(indent); lines(src, n, indent); }
    else for (i = 0; i < n; i++) next(src[i]);
}
void W_text_dump_one(void)
{
    unsigned char  src[1];
    start();
    src[0] = pick(256, "byte");
    cork_buffer_append_hex_dump(&buf, 3, (char *) src, 1);
    dump(src, 1, 3);
    finish();
}
void W_text_dump(void)
{
    unsigned char  src[MAX];
    static const unsigned char  lengths[] = { 0, 1, 2, 15, 16, 17, 18, 31, 32, 33, 47, 48, 49 };
    size_t  i, n = lengths[pick(13, "length")], indent = 2 * pick(2, "indentation"), seed = pick(2, "content");
    start();
    for (i = 0; i < n; i++) src[i] = seed? 0x9c + 7 * i: 0x1b + 5 * i;
    cork_buffer_append_hex_dump(&buf, indent, (char *) src, n);
    dump(src, n, indent);
    finish();
}
void W_text_lines(void)
{
    static const unsigned char  some[] = { '\n', 'a', 0, 0xff, ' ' };
    unsigned char  src[4];
    size_t  i, n = pick(5, "length"), indent = pick(3, "indentation");
    start();
    for (i = 0; i < n; i++) src[i] = some[pick(i == 0? 5: 3, "byte")];
    cork_buffer_append_multiline(&buf, indent, (char *) src, n);
    lines(src, n, indent);
    finish();
}
void W_text_binary_one(void)
{
    unsigned char  src[1];
    size_t  indent = 2;
    start();
    src[0] = pick(256, "byte");
    cork_buffer_append_binary(&buf, indent, (char *) src, 1);
    binary(src, 1, indent);
    finish();
}
void W_text_binary(void)
{
    static const unsigned char  some[] = { 'a', '\n', 1, ' ', '\t' };
    unsigned char  src[3];
    size_t  i, n = pick(4, "length"), indent = pick(2, "indentation");
    start();
    for (i = 0; i < n; i++) src[i] = some[pick(5, "byte")];
    cork_buffer_append_binary(&buf, indent, (char *) src, n);
    binary(src, n, indent);
    finish();
}
