/* C27: the getopt, getopt_long and getopt_long_only the library brings along, called directly, against
 * a reference that reads the whole command line at once. MODE 0: getopt, 1: getopt_long, 2: getopt_long_only */
#define ARG_REPLACE_GETOPT 1
#include "common.h"
#include "arg_getopt.h"
#ifndef MODE
#define MODE 1
#endif
#ifndef NARG
#define NARG 2
#endif
#ifndef LEN
#define LEN 3
#endif
#ifndef STYLES
#define STYLES 6
#endif
static int f1, f2;
static const struct option longs[] = {{"abx", required_argument, NULL, 300}, {"aby", optional_argument, NULL, 301}, {"abz", no_argument, &f1, 12}, {"a", no_argument, &f1, 11}, {"cd", no_argument, NULL, 302}, {"ce", no_argument, NULL, 302},
                                      {"b", required_argument, &f2, 13}, {"bz", optional_argument, &f1, 14}, {"ce", optional_argument, NULL, 303}, {"xa", no_argument, NULL, 304}, {"da", no_argument, NULL, 305}, {"db", no_argument, NULL, 305}, {NULL, 0, NULL, 0}};
#define NL 12
#define MAXEV 32
typedef struct { int ret, opt, idx, f1, f2, err; const char* arg; } event;
static event ev[MAXEV];
static int nev, rf1, rf2;
static char* order[NARG + 2]; static int norder;  /* what has been consumed, in order */
static char* rest[NARG + 2]; static int nrest;
static void add(int ret, const char* arg, int opt, int idx, int err) { event* e = &ev[nev++]; e->ret = ret; e->arg = arg; e->opt = opt; e->idx = idx; e->err = err; e->f1 = rf1; e->f2 = rf2; }
static int letter(const char* opts, int c) { int i; for (i = 0; opts[i]; i++) if (opts[i] == c) return i; return -1; }
/* a long name, up to '=' or the end: the entry it stands for, -1: none, -2: several */
static int find(const char* t, int n, int only) {
    int i, m = -1, several = 0;
    for (i = 0; i < NL; i++) {
        if (strncmp(t, longs[i].name, (size_t)n)) continue;
        if ((int)strlen(longs[i].name) == n) return i;
        if (m < 0) m = i;
        else if (only || longs[m].has_arg != longs[i].has_arg || longs[m].flag != longs[i].flag || longs[m].val != longs[i].val) several = 1;
    }
    return several ? -2 : m;
}
static int ref_long(int i, int argc, char** argv, const char* t, int missing) {
    const char* e = strchr(t, '=');
    int n = e ? (int)(e - t) : (int)strlen(t), m = find(t, n, MODE == 2);
    const char* val = e ? e + 1 : NULL;
    order[norder++] = argv[i++];
    if (m < 0) { add('?', NULL, 0, -1, 1); return i; }
    if (longs[m].has_arg == no_argument && val) { add('?', NULL, longs[m].flag ? 0 : longs[m].val, -1, 1); return i; }
    if (longs[m].has_arg == required_argument && !val) {
        if (i >= argc) { add(missing, NULL, longs[m].flag ? 0 : longs[m].val, -1, 1); return i; }
        order[norder++] = argv[i];
        val = argv[i++];
    }
    if (longs[m].flag == &f1) rf1 = longs[m].val;
    if (longs[m].flag == &f2) rf2 = longs[m].val;
    add(longs[m].flag ? 0 : longs[m].val, val, -1, m, 0);
    return i;
}
void vs_main(void) {
    static const char* const styles[] = {"xy:z::", ":xy:z::", "+xy:z::", "+:xy:z::", "-xy:z::", "-:xy:z::"};
    char *argv[NARG + 3], *orig[NARG + 3];
    int style = vs_choose(STYLES, "style"), posix = MODE ? vs_choose(2, "posix") : 0, how = vs_choose(2, "restart"), print = vs_choose(2, "print"), argc = 1, n = vs_choose(NARG + 1, "narg"), i, k, inorder, stop, missing, errors = 0;
    const char *opts = styles[style], *o;
    argv[0] = dup_str("prog");
    for (i = 0; i < n; i++) {
        char* a = sym_str_upto(0, LEN, "arg");
#ifdef ALPHABET
        restrict_to(a, ALPHABET);
#endif
        /* a '-' inside a group of letters is not specified */
        if (a[0] == '-' && (MODE == 0 ? !(a[1] == '-' && a[2] == 0) : a[1] != '-')) for (k = 1; a[k]; k++) vs_assume(a[k] != '-' && a[k] != (char)0xff);
        argv[argc++] = a;
    }
    argv[argc] = NULL;
    for (i = 0; i <= argc; i++) orig[i] = argv[i];
#if MODE == 0
    vs_assume(style < 2);
#endif
    if (posix) setenv("POSIXLY_CORRECT", "1", 1); else unsetenv("POSIXLY_CORRECT");
#ifdef BEFORE /* another scan, given up at any point */
    {
        static char *before[] = {"p", "v", "-xx", "-y", "w", "--abx", "-z", NULL};
        int steps = vs_choose(5, "steps");
        char* b[8];
        memcpy(b, before, sizeof b);
        opterr = 0;
        optind = 1;
        if (posix != vs_choose(2, "posixbefore")) { if (posix) unsetenv("POSIXLY_CORRECT"); else setenv("POSIXLY_CORRECT", "1", 1); }
        while (steps-- > 0) getopt_long(7, b, "xy:z::", longs, NULL);
        if (posix) setenv("POSIXLY_CORRECT", "1", 1); else unsetenv("POSIXLY_CORRECT");
        f1 = f2 = 0;
    }
#endif
    /* the reference */
    inorder = opts[0] == '-'; stop = MODE == 0 || opts[0] == '+' || (posix && !inorder);
    if (opts[0] == '-' || opts[0] == '+') opts++;
    missing = opts[0] == ':' ? ':' : '?';
    o = opts + (opts[0] == ':');
    order[norder++] = argv[0];
    for (i = 1; i < argc;) {
        char* t = argv[i];
        if (t[0] != '-' || t[1] == 0) {
            if (inorder) { order[norder++] = t; add(1, t, -1, -1, 0); i++; continue; }
            if (stop) break;
            rest[nrest++] = t; i++;
            continue;
        }
        if (t[1] == '-' && t[2] == 0) { order[norder++] = t; i++; break; }
        if (MODE && t[1] == '-') { i = ref_long(i, argc, argv, t + 2, missing); vs_reach("long name"); continue; }
#if MODE == 2 /* a single dash may start a long name */
        {
            const char* e = strchr(t, '=');
            int len = e ? (int)(e - t) - 1 : (int)strlen(t) - 1, isletter = t[1] != ':' && letter(o, t[1]) >= 0, m = find(t + 1, len, 1);
            /* a letter that is an option is not an abbreviation */
            if (isletter && len == 1 && !(m >= 0 && longs[m].name[1] == 0)) m = -1;
            if (!isletter || m != -1) { i = ref_long(i, argc, argv, t + 1, missing); vs_reach("long name behind one dash"); continue; }
            vs_assume(t[2] == 0); /* groups of letters are not specified here */
        }
#endif
        order[norder++] = t; i++;
        for (k = 1; t[k]; k++) {
            int at = t[k] == ':' ? -1 : letter(o, t[k]);
            if (at < 0) { add('?', NULL, (unsigned char)t[k], -1, 1); vs_reach("unknown letter"); continue; }
            if (o[at + 1] != ':') { add(t[k], NULL, -1, -1, 0); continue; }
            if (t[k + 1]) { add(t[k], t + k + 1, -1, -1, 0); vs_reach("attached"); break; }
            if (o[at + 2] == ':') { add(t[k], NULL, -1, -1, 0); break; }
            if (i >= argc) { add(missing, NULL, t[k], -1, 1); vs_reach("missing"); break; }
            order[norder++] = argv[i];
            add(t[k], argv[i++], -1, -1, 0);
            vs_reach("separate");
            break;
        }
    }
    while (i < argc) rest[nrest++] = argv[i++];
    /* the real one */
    opterr = print;
    if (how) optind = 0; else { optind = 1; optreset = 1; }
    for (k = 0;; k++) {
        int idx = -1, r;
#if MODE == 0
        r = getopt(argc, argv, styles[style]);
#elif MODE == 1
        r = getopt_long(argc, argv, styles[style], longs, &idx);
#else
        r = getopt_long_only(argc, argv, styles[style], longs, &idx);
#endif
        vs_out("ret", r);
        if (k >= nev) { vs_assert(r == -1, "the scan ends when the options have been read"); break; }
        if (ev[k].err && r == '?' && ev[k].ret == '?' && ev[k].opt > 127 && ev[k].opt < 256) vs_assert((optopt & 0xff) == ev[k].opt, "the offending option");
        else {
            vs_assert(r == ev[k].ret, "the option found");
            if (ev[k].err) vs_assert(optopt == ev[k].opt, "the offending option");
        }
        if (!ev[k].err) {
            vs_assert(optarg == ev[k].arg, "the value of the option");
            vs_assert(idx == ev[k].idx, "the entry of the long name");
        } else errors++;
        vs_assert(f1 == ev[k].f1 && f2 == ev[k].f2, "the variable of a long option is set");
    }
    vs_assert(optind == norder, "the index of the first argument left");
    for (i = 0; i < norder; i++) vs_assert(argv[i] == order[i], "the options and their values come first, in order");
    for (i = 0; i < nrest; i++) vs_assert(argv[norder + i] == rest[i], "the other arguments follow in order");
    vs_assert(norder + nrest == argc && argv[argc] == NULL, "harness: every argument is accounted for");
    vs_assert((vs_stderr_text()[0] != 0) == (errors && print && missing == '?'), "messages are printed for errors, unless switched off");
    if (nrest) vs_reach("arguments left");
    if (errors) vs_reach("error"); else vs_reach("no error");
    (void)orig;
}
