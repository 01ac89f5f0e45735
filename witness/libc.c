/* Further functions of the C library, for the analysis of code that uses them:
 * linked to the program that is analysed if it calls them without defining them. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>

char *strdup(const char *s)
{
    size_t  n = strlen(s) + 1;
    char  *p = malloc(n);
    if (p != NULL) memcpy(p, s, n);
    return p;
}
char *strndup(const char *s, size_t size)
{
    size_t  n = strnlen(s, size);
    char  *p = malloc(n + 1);
    if (p != NULL) { memcpy(p, s, n); p[n] = 0; }
    return p;
}
size_t strspn(const char *s, const char *set)
{
    size_t  n, i;
    for (n = 0; s[n] != 0; n++) {
        for (i = 0; set[i] != 0 && set[i] != s[n]; i++) {}
        if (set[i] == 0) break;
    }
    return n;
}
size_t strcspn(const char *s, const char *set)
{
    size_t  n, i;
    for (n = 0; s[n] != 0; n++) {
        for (i = 0; set[i] != 0; i++) if (set[i] == s[n]) return n;
    }
    return n;
}
char *strpbrk(const char *s, const char *set)
{
    s += strcspn(s, set);
    return *s == 0? NULL: (char *) s;
}
char *strncat(char *d, const char *s, size_t size)
{
    size_t  n = strnlen(s, size), l = strlen(d);
    memcpy(d + l, s, n); d[l + n] = 0;
    return d;
}
char *strstr(const char *s, const char *t)
{
    size_t  n = strlen(t);
    for (; ; s++) {
        if (strncmp(s, t, n) == 0) return (char *) s;
        if (*s == 0) return NULL;
    }
}
void *memrchr(const void *s, int c, size_t n)
{
    const unsigned char  *p = s;
    while (n-- > 0) if (p[n] == (unsigned char) c) return (void *) (p + n);
    return NULL;
}
void *rawmemchr(const void *s, int c)
{
    const unsigned char  *p = s;
    while (*p != (unsigned char) c) p++;
    return (void *) p;
}
void *reallocarray(void *p, size_t n, size_t size)
{
    size_t  total;
    if (__builtin_mul_overflow(n, size, &total)) return NULL;
    return realloc(p, total);
}
void bzero(void *p, size_t n) { memset(p, 0, n); }
