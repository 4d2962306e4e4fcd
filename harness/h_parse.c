/* Differential check of arg_parse() against the reference grammar, for every command line of up to
 * NARG arguments of up to LEN arbitrary non-NUL bytes, and several argument tables. */
#include "refparse.h"
#ifndef NARG
#define NARG 2
#endif
#ifndef LEN
#define LEN 3
#endif
#ifndef MINLEN
#define MINLEN 0
#endif
#ifndef TABLE
#define TABLE 0
#endif
#ifndef MAXERR
#define MAXERR 8
#endif

#ifndef PARG
#define PARG 2
#endif
#ifndef PLEN
#define PLEN 2
#endif

#if TABLE == 0 /* short options of every kind, positionals int then string */
static rp_ent ref[] = {{T_LIT, 0, 2, "a", NULL}, {T_LIT, 0, 1, "bB", NULL}, {T_STR, 0, 2, "s", NULL}, {T_INT, 0, 1, "i", NULL}, {T_INT, 0, 1, NULL, NULL}, {T_STR, 0, 1, NULL, NULL}};
#elif TABLE == 1 /* long options: prefixes, aliases, ambiguity */
static rp_ent ref[] = {{T_LIT, 0, 2, NULL, "ab,xy"}, {T_STR, 0, 2, "s", "ac,sx"}, {T_LIT, 0, 1, NULL, "abc"}, {T_STR, 0, 2, NULL, NULL}};
#elif TABLE == 2 /* minimum counts, remarks in the table */
static rp_ent ref[] = {{T_LIT, 1, 2, "a", NULL}, {T_REM, 0, 1, NULL, NULL}, {T_STR, 1, 1, "s", NULL}, {T_REM, 0, 1, NULL, NULL}, {T_STR, 1, 2, NULL, NULL}};
#elif TABLE == 3 /* optional values */
static rp_ent ref[] = {{T_STR, 0, 2, "o", "op", 1}, {T_INT, 0, 2, "j", "jb", 1}, {T_LIT, 0, 1, "a", NULL}, {T_STR, 0, 2, NULL, NULL}};
#elif TABLE == 4 /* no positional entry, the same letter in two entries */
static rp_ent ref[] = {{T_LIT, 0, 1, "ax", "aa"}, {T_STR, 0, 1, "xy", "aab"}, {T_INT, 0, 2, "n", "nn"}};
#elif TABLE == 5 /* three positional entries */
static rp_ent ref[] = {{T_INT, 0, 1, NULL, NULL}, {T_LIT, 0, 1, "a", NULL}, {T_STR, 0, 1, NULL, NULL}, {T_INT, 0, 2, NULL, NULL}};
#elif TABLE == 6 /* positionals only, two string entries: sequential filling */
static rp_ent ref[] = {{T_STR, 1, 2, NULL, NULL}, {T_STR, 0, 1, NULL, NULL}, {T_LIT, 0, 2, "v", "v"}};
#elif TABLE == 7 /* optional values of every kind */
static rp_ent ref[] = {{T_FILE, 0, 2, "f", "fi", 1}, {T_DBL, 0, 1, "d", NULL, 1}, {T_REX, 0, 2, "r", "rx", 1}, {T_DATE, 0, 2, "t", NULL, 1}, {T_FILE, 0, 1, NULL, NULL}};
#elif TABLE == 8 /* long names sharing prefixes with names of the same sort */
static rp_ent ref[] = {{T_LIT, 0, 2, "q", "abx,aq"}, {T_LIT, 0, 2, NULL, "aby"}, {T_STR, 0, 2, NULL, "cx"}, {T_STR, 0, 2, "k", "cy,d"}, {T_STR, 0, 2, NULL, "oxe", 1}, {T_INT, 0, 2, NULL, "oy,oxf", 1}};
#elif TABLE == 11 /* long names sharing prefixes, of one sort and of different sorts */
static rp_ent ref[] = {{T_LIT, 0, 2, "q", "abx,aq"}, {T_LIT, 0, 2, NULL, "aby"}, {T_STR, 0, 2, NULL, "sx"}, {T_STR, 0, 2, "k", "sy,abz"}, {T_STR, 0, 2, NULL, "so", 1}, {T_LIT, 0, 2, NULL, "sok"}};
#elif TABLE == 9 /* required values of every kind, positionals of every kind */
static rp_ent ref[] = {{T_FILE, 0, 2, "f", "fi"}, {T_DBL, 0, 1, "d", NULL}, {T_REX, 0, 2, "r", "rx"}, {T_DATE, 0, 2, "t", NULL}, {T_DATE, 0, 1, NULL, NULL}, {T_REX, 0, 1, NULL, NULL}, {T_DBL, 0, 1, NULL, NULL}, {T_FILE, 0, 1, NULL, NULL}};
#elif TABLE == 10 /* one entry of any kind and any limits, as option or positional, its value optional or not */
static rp_ent ref[] = {{T_LIT, 0, 2, "a", NULL}, {T_STR, 0, 2, "v", "vv"}};
#define PREPARE_REF() do { \
    static const int lim[][2] = {{0, 1}, {1, 1}, {2, 1}, {3, 2}, {1, 3}, {2, 0}, {0, 2}, {1, -1}}; \
    int w = vs_choose(8, "limits"), form = vs_choose(3, "form"), kind = vs_choose(7, "kind"); \
    vs_assume(!(form && kind == T_LIT)); /* a switch is an option without a value */ \
    ref[1].type = kind; ref[1].lo = lim[w][0]; ref[1].hi = lim[w][1]; \
    if (form == 1) ref[1].opt = 1; \
    if (form == 2) ref[1].s = ref[1].l = NULL; \
} while (0)
#endif
#define NT ((int)(sizeof(ref) / sizeof(ref[0])))
#include "parsecheck.h"

static int line(char** argv, int narg, int minlen, int len, const char* name) {
    int i, argc = 1 + vs_choose(narg + 1, "argc");
    argv[0] = dup_str("prog");
    for (i = 1; i < argc; i++) {
        argv[i] = sym_str_upto(minlen, len, name);
#ifdef ALPHABET
        restrict_to(argv[i], ALPHABET);
#endif
    }
    argv[argc] = NULL;
    return argc;
}
void vs_main(void) {
    char* argv[NARG + 2];
    struct arg_end* end;
    int argc, k, posix = 0;
#ifdef PREPARE_REF
    PREPARE_REF();
#endif
    argc = line(argv, NARG, MINLEN, LEN, "arg");
    end = make_table(MAXERR);
#ifdef PREPARSE /* the same table has parsed another command line before, under the other setting */
    {
        char* before[PARG + 2];
        int c = line(before, PARG, 0, PLEN, "before");
        int pre = vs_choose(3, "preposix");
        if (pre) setenv("POSIXLY_CORRECT", pre == 1 ? "1" : "", 1); else unsetenv("POSIXLY_CORRECT");
        if (arg_parse(c, before, table)) vs_reach("earlier parse failed"); else vs_reach("earlier parse succeeded");
#ifdef TIMES /* and again and again, then perhaps something else */
        {
            static const int times[] = {TIMES};
            int n = times[vs_choose((int)(sizeof times / sizeof *times), "times")];
            vs_limit(2000000000);
            while (n-- > 1) arg_parse(c, before, table);
            c = line(before, PARG, 0, PLEN, "between");
            arg_parse(c, before, table);
        }
#endif
    }
#endif
#if defined(POSIX) || defined(PREPARSE)
    posix = vs_choose(3, "posix");
    if (posix) setenv("POSIXLY_CORRECT", posix == 1 ? "1" : "", 1); else unsetenv("POSIXLY_CORRECT");
#endif
    parse_and_compare(argc, argv, end, MAXERR, posix);
    arg_freetable(table, NT + 1);
    for (k = 0; k <= NT; k++) vs_assert(table[k] == NULL, "freed entries are cleared");
}
