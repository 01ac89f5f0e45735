/* Command-line dispatch: every command line of up to three words after the
 * program's name, in a tree of commands of two levels.  What is printed is
 * recorded. */
#include "sa.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <libcork/cli.h>
#include <libcork/core.h>

size_t strlen(const char *s) { size_t n = 0; while (s[n] != 0) n++; return n; }
int strcmp(const char *a, const char *b)
{
    for (; *a == *b; a++, b++) if (*a == '\0') return 0;
    return *a < *b? -1: 1;
}
static unsigned
pick(unsigned n, const char *name)
{
    unsigned  i, v = sa_u32(name);
    for (i = 0; i + 1 < n; i++) if (v == i) return i;
    return n - 1;
}
/* ---- what is printed */
static char  out[400], want[400];
static unsigned  printed, expected;
static void put(char c) { sa_check(printed < sizeof(out), "the output is not longer than it can be"); out[printed++] = c; }
static int
format(const char *f, va_list args)
{
    for (; *f != 0; f++) {
        if (*f != '%') { put(*f); continue; }
        f++;
        if (*f == '%') put('%');
        else {
            int  width = 0, left = 0;
            const char  *s;
            unsigned  n = 0, i;
            if (*f == '-') { left = 1; f++; }
            if (*f == '*') { width = va_arg(args, int); f++; }
            if (width < 0) { left = 1; width = -width; }
            sa_check(*f == 's', "strings are printed");
            s = va_arg(args, const char *);
            while (s[n] != 0) n++;
            if (!left) for (i = n; i < (unsigned) width; i++) put(' ');
            for (i = 0; i < n; i++) put(s[i]);
            if (left) for (i = n; i < (unsigned) width; i++) put(' ');
        }
    }
    return 0;
}
int printf(const char *f, ...)
{
    va_list  args;
    int  rc;
    va_start(args, f);
    rc = format(f, args);
    va_end(args);
    return rc;
}
int puts(const char *s) { for (; *s != 0; s++) put(*s); put('\n'); return 0; }
int putchar(int c) { put((char) c); return c; }
int fputs(const char *s, FILE *f) { for (; *s != 0; s++) put(*s); return 0; }

static void add(const char *s) { for (; *s != 0; s++) want[expected++] = *s; }
/* ---- the commands: r (a set) has a (a leaf), bb (a set) and d (a leaf); bb has c (a leaf) */
enum { R, CA, B, D, C, COMMANDS, NOTHING };
static int  parsed[COMMANDS], consumed[COMMANDS], ran, exited, show;
static char  *argv[5];
static int  words, at;                      /* argv[at] is the current command */
static void (*at_exit)(void);

static struct cork_command  r, a, b, d, c;
static struct cork_command *const  COMMAND[COMMANDS] = { &r, &a, &b, &d, &c };

static int
parse(unsigned which, int argc, char **args)
{
    sa_check(args == argv + at && argc == words - at, "options are looked for after the command's name");
    parsed[which]++;
    consumed[which] = 1 + (int) (sa_u8("options") & 1);
    if (consumed[which] > argc) consumed[which] = argc;
    return consumed[which];
}
static int parse_r(int n, char **args) { sa_check(!parsed[R], "options are parsed once"); at = 0; return parse(R, n, args); }
static int parse_b(int n, char **args) { at = consumed[R]; sa_check(!parsed[B], "options are parsed once"); return parse(B, n, args); }
static int parse_c(int n, char **args) { at = consumed[R] + consumed[B]; sa_check(!parsed[C], "options are parsed once"); return parse(C, n, args); }
static void
run(unsigned which, int argc, char **args)
{
    int  before = consumed[R] + (which == C? consumed[B]: 0) + consumed[which];
    sa_check(ran == -1 && !exited, "one command is run, once");
    sa_check(args == argv + before && argc == words - before, "the command gets the remaining words");
    sa_check(printed == 0, "nothing is printed before");
    ran = (int) which;
    if (show == 1) cork_command_show_help(COMMAND[which], "%m");
    if (show == 2) cork_command_show_help(COMMAND[which], NULL);
}
static void run_a(int n, char **args) { run(CA, n, args); }
static void run_d(int n, char **args) { run(D, n, args); }
static void run_c(int n, char **args) { run(C, n, args); }

static struct cork_command  *set_b[] = { &c, NULL };
static struct cork_command  *set_r[] = { &a, &b, &d, NULL };
static struct cork_command  r = cork_command_set("r", NULL, parse_r, set_r);
static struct cork_command  a = cork_leaf_command("a", "Do%d", "<%x>", "1%d%%\n", NULL, run_a);
static struct cork_command  b = cork_command_set("bb", "B", parse_b, set_b);
static struct cork_command  d = cork_leaf_command("d", NULL, NULL, NULL, NULL, run_d);
static struct cork_command  c = cork_leaf_command("c", "C", "<y>", NULL, parse_c, run_c);

/* ---- what should happen */
static unsigned  path[3], depth;
static void
crumbs(void)
{
    unsigned  i;
    for (i = 0; i < depth; i++) { add(" "); add(COMMAND[path[i]]->name); }
}
static void
help(unsigned which)
{
    add("Usage:"); crumbs();
    switch (which) {
        case R: add(" <command> [<options>]\n\nAvailable commands:\n  a   Do%d\n  bb  B\n  d \n"); break;
        case B: add(" <command> [<options>]\n\nAvailable commands:\n  c  C\n"); break;
        case CA: add(" <%x>\n\n1%d%%\n"); break;
        case C: add(" <y>\n"); break;
        default: add("\n"); break;
    }
}
static unsigned
find(unsigned set, const char *word)
{
    if (set == R) {
        if (strcmp(word, "a") == 0) return CA;
        if (strcmp(word, "bb") == 0) return B;
        if (strcmp(word, "d") == 0) return D;
    } else if (strcmp(word, "c") == 0) return C;
    return NOTHING;
}
static int
unknown(const char *word)
{
    add("Unknown command \""); add(word); add("\".\nUsage:"); crumbs(); add(" <command> [<options>]\n");
    return EXIT_FAILURE;
}
/* the expected status; wants_run says which command should have run */
static int  wants_run;
static int
expect(void)
{
    unsigned  now = R, next;
    int  i = 0;
    expected = 0; depth = 0; wants_run = -1;
    for (;;) {
        path[depth++] = now;
        if (words - i >= 2 && (strcmp(argv[i + 1], "--help") == 0 || strcmp(argv[i + 1], "-h") == 0)) { help(now); return EXIT_SUCCESS; }
        if (now == CA || now == D) sa_check(!parsed[now], "no options"); else sa_check(parsed[now] == 1, "every command's options are parsed");
        i += consumed[now];
        if (now == CA || now == C || now == D) {
            wants_run = (int) now;
            if (show == 1) add("%m\n");
            if (show) help(now);
            return EXIT_SUCCESS;
        }
        if (i == words) { add("No command given.\n"); help(now); return EXIT_FAILURE; }
        if (strcmp(argv[i], "help") == 0) {
            for (i++; i < words && (now == R || now == B); i++) {
                next = find(now, argv[i]);
                if (next == NOTHING) return unknown(argv[i]);
                path[depth++] = now = next;
            }
            help(now);
            return EXIT_SUCCESS;
        }
        next = find(now, argv[i]);
        if (next == NOTHING) return unknown(argv[i]);
        now = next;
    }
}
static void
finish(int status)
{
    unsigned  i;
    int  wanted = expect();
    sa_check(status == wanted, "the status says whether a command was found");
    sa_check(ran == wants_run, "the right command is run");
    sa_check(printed == expected, "the right text is printed");
    for (i = 0; i < expected; i++) sa_check(out[i] == want[i], "the right text is printed");
    if (at_exit != NULL) at_exit();
    sa_leaks(NULL);
}
void exit(int status)
{
    sa_check(!exited, "the program exits once");
    exited = 1;
    finish(status);
    sa_assume(0);
    for (;;) {}
}
int atexit(void (*f)(void)) { sa_check(at_exit == NULL, "the cleanup is registered once"); at_exit = f; return 0; }

#define WORDS  8                    /* and one more in short command lines */
static const char *const  WORD[WORDS + 1] = { "a", "bb", "c", "d", "help", "--help", "-h", "b", "%b" };
static void
command_line(int n, const char *first)
{
    int  i;
    words = n;
    at_exit = NULL; printed = 0; ran = -1; exited = 0; at = 0;
    for (i = 0; i < COMMANDS; i++) { parsed[i] = 0; consumed[i] = 1; }
    argv[0] = (char *) "prog";
    for (i = 1; i < words; i++) argv[i] = (char *) (i == 1 && first != NULL? first: WORD[pick(words == 2? WORDS + 1: WORDS, "word")]);
    argv[words] = NULL;
    i = cork_command_main(&r, words, argv);
    sa_check(i == EXIT_SUCCESS, "the result is success");
    finish(i);
}
void W_cli_one(void) { show = (int) pick(3, "show"); command_line(1 + (int) pick(2, "words"), NULL); }
void W_cli_two(void) { show = (int) pick(3, "show"); command_line(3, NULL); }
void W_cli_three_set(void) { show = 0; command_line(4, "bb"); }
void W_cli_three_help(void) { show = 0; command_line(4, "help"); }
void W_cli_three_leaf(void) { show = 0; command_line(4, "a"); }
