/* The help of a set of commands whose names and descriptions are strings of any
 * length.  Printed text is followed by column: what stands where on which line. */
#include "sa.h"
#include <stdio.h>
#include <string.h>
#include <libcork/cli.h>
#include <libcork/core.h>

#define N  3
static const char  *names[N], *descs[N];
static size_t  lens[N], longest;
static struct cork_command  set, sub[N];
static struct cork_command  *subs[N + 1];

static size_t  column;
static unsigned  line, named[N], described[N];

static void
put(char c)
{
    if (c == '\n') { column = 0; line++; }
    else column++;
}
static void
put_string(const char *s, int width, int left)
{
    unsigned  i;
    size_t  len;
    for (i = 0; i < N; i++) {
        if (s == names[i]) {
            sa_check(named[i] == 0 && line == 3 + i, "every command is listed once, on a line of its own, in order");
            named[i] = 1;
            len = lens[i];
            if (width > 0 && !left && (size_t) width > len) column += (size_t) width - len;
            sa_check(column == 2, "names are indented by two");
            column += len;
            if (width > 0 && left && (size_t) width > len) column += (size_t) width - len;
            return;
        }
        if (s == descs[i]) {
            sa_check(named[i] == 1 && described[i] == 0 && line == 3 + i, "the description stands next to the name");
            described[i] = 1;
            sa_check(width == 0 && column == longest + 4, "descriptions are aligned, two columns after the longest name");
            column += strlen(s);
            return;
        }
    }
    sa_check(width == 0 || strlen(s) == 0, "only names are padded");
    for (; *s != 0; s++) put(*s);
    for (i = 0; i < (unsigned) width; i++) put(' ');
}
int printf(const char *f, ...)
{
    va_list  args;
    va_start(args, f);
    for (; *f != 0; f++) {
        int  width = 0, left = 0;
        if (*f != '%') { put(*f); continue; }
        f++;
        if (*f == '%') { put('%'); continue; }
        if (*f == '-') { left = 1; f++; }
        if (*f == '*') { width = va_arg(args, int); f++; }
        if (width < 0) { left = 1; width = -width; }
        sa_check(*f == 's', "strings are printed");
        put_string(va_arg(args, const char *), width, left);
    }
    va_end(args);
    return 0;
}
int puts(const char *s) { put_string(s, 0, 0); put('\n'); return 0; }
int putchar(int c) { put((char) c); return c; }
int fputs(const char *s, FILE *f) { put_string(s, 0, 0); return 0; }

static void
run(int argc, char **argv)
{
    sa_unreachable("nothing is run");
}
void W_help_names(void)
{
    unsigned  i;
    longest = 0;
    for (i = 0; i < N; i++) {
        names[i] = sa_cstr("name");
        lens[i] = strlen(names[i]);
        sa_assume(lens[i] < 1000000);
        if (lens[i] > longest) longest = lens[i];
        descs[i] = i == 1 && (sa_u8("none") & 1)? NULL: sa_cstr("description");
        sub[i].name = names[i]; sub[i].short_desc = descs[i]; sub[i].type = CORK_LEAF_COMMAND; sub[i].run = run;
        subs[i] = &sub[i];
    }
    subs[N] = NULL;
    set.name = "s"; set.type = CORK_COMMAND_SET; set.set = subs;
    cork_command_show_help(&set, NULL);
    for (i = 0; i < N; i++) sa_check(named[i] == 1 && described[i] == (descs[i] != NULL), "every command is listed with its description");
    sa_check(line == 3 + N && column == 0, "one line for each command");
    sa_leaks(NULL);
}
