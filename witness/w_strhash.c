/* String keys: strings of any length up to 16, measured and compared byte by byte. */
#include "sa.h"
#include "ds/hash-table.c"

size_t strlen(const char *s) { size_t n = 0; while (s[n] != 0) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a != 0 && *a == *b) { a++; b++; } return (unsigned char) *a - (unsigned char) *b; }
/* equal text, equal hash, wherever the text lives */
void W_strhash(void)
{
    unsigned  i, len, v = sa_u8("len");
    char  *a, *b, other[20];
    struct cork_hash_table  *t;
    for (len = 0; len < 17 && v != len; len++);
    a = sa_object(len + 1, "a"); b = sa_object(len + 1, "b");
    for (i = 0; i < len; i++) a[i] = b[i] = other[i + 1] = (char) (0x61 + 37 * i % 159);
    a[len] = b[len] = other[len + 1] = 0;
    t = cork_string_hash_table_new(0, 0);
    sa_check(t->hash(NULL, a) == t->hash(NULL, b), "equal strings have equal hashes");
    sa_check(t->hash(NULL, a) == t->hash(NULL, other + 1), "equal strings have equal hashes, wherever they are");
    sa_check(t->equals(NULL, a, b) && t->equals(NULL, other + 1, a), "and are equal keys");
}
