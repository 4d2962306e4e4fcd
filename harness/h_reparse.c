/* C08: parsing is a function of the command line alone: parsing B gives the same result in a fresh
 * process with a fresh table, and after an earlier parse of any A with the same table. */
#include "table.h"
#ifndef NA
#define NA 1
#endif
#ifndef NB
#define NB 1
#endif
#ifndef LA
#define LA 3
#endif
#ifndef LB
#define LB 3
#endif
#ifndef MAXERR
#define MAXERR 3
#endif
#if TABLE == 0
static const spec sp[] = {{K_LIT, "a", "aa", 0, 2}, {K_INT, "i", "in", 0, 2}, {K_STR, "s", "st", 0, 2}, {K_FILE, NULL, NULL, 0, 2}};
#elif TABLE == 1
static const spec sp[] = {{K_DBL, "d", NULL, 0, 1}, {K_REX, "r", NULL, 0, 2, 0, "[a-c]+"}, {K_DATE, "t", NULL, 0, 2, 0, "%d"}, {K_FILE, "f", NULL, 1, 1}, {K_STR, NULL, NULL, 1, 2}};
#elif TABLE == 2
static const spec sp[] = {{K_INT, NULL, NULL, 0, 2}, {K_DATE, NULL, NULL, 0, 1, 0, "%H:%M"}, {K_STR, "o", "op", 0, 2, 1}, {K_LIT, "a", NULL, 1, 1}};
#elif TABLE == 3
static const spec sp[] = {{K_FILE, "f", "fi", 0, 2, 1}, {K_REX, "r", NULL, 0, 2, 1, "[a-c]+"}, {K_STR, "s", "st", 0, 2, 1}, {K_LIT, "a", NULL, 0, 2}};
#elif TABLE == 4
static const spec sp[] = {{K_DATE, "p", NULL, 0, 2, 0, "%p"}, {K_DATE, "t", NULL, 0, 2, 0, "%H"}, {K_DATE, NULL, NULL, 0, 2, 0, "%C"}};
#endif
#define NT ((int)(sizeof(sp) / sizeof(sp[0])))
static int build(char** argv, int n, int len, const char* name) {
    int i, argc = 1 + vs_choose(n + 1, "argc");
    argv[0] = dup_str("p");
    for (i = 1; i < argc; i++) {
        argv[i] = sym_str_upto(0, len, name);
#ifdef ALPHABET
        restrict_to(argv[i], ALPHABET);
#endif
    }
    argv[argc] = NULL;
    return argc;
}
static int parent_index(void** t, void* p) { int k; for (k = 0; k <= NT; k++) if (t[k] == p) return k; return -1; }
static void posix(int on) { if (on) setenv("POSIXLY_CORRECT", on == 1 ? "1" : "", 1); else unsetenv("POSIXLY_CORRECT"); }
void vs_main(void) {
    char *A[NA + 2], *B[NB + 2];
    void *t[NT + 1], *f[NT + 1];
    struct arg_end *te, *fe;
    int ca, cb, k, i, n, m, pa = 0, pb = 0;
    ca = build(A, NA, LA, "a");
    cb = build(B, NB, LB, "b");
#ifdef POSIX
    pa = vs_choose(2, "posixa"); pb = vs_choose(2, "posixb");
#endif
    for (k = 0; k < NT; k++) { t[k] = make_entry(&sp[k]); f[k] = make_entry(&sp[k]); }
    t[NT] = te = arg_end(MAXERR); f[NT] = fe = arg_end(MAXERR);
    posix(pb);
    m = arg_parse(cb, B, f);
    posix(pa);
    n = arg_parse(ca, A, t);
    vs_out("first", n);
    if (n) vs_reach("earlier parse failed"); else vs_reach("earlier parse succeeded");
    posix(pb);
    n = arg_parse(cb, B, t);
    vs_out("second", n);
    vs_assert(n == m, "same number of errors");
    for (k = 0; k < NT; k++) {
        int c = entry_count(sp[k].kind, t[k]);
        vs_assert(c == entry_count(sp[k].kind, f[k]), "same counts");
        if (c > 0 && entry_count(sp[k].kind, f[k]) == c) vs_reach("values present");
        for (i = 0; i < c; i++)
            switch (sp[k].kind) {
                case K_INT: vs_assert(((struct arg_int*)t[k])->ival[i] == ((struct arg_int*)f[k])->ival[i], "same integers"); break;
                case K_DBL: vs_assert(memcmp(&((struct arg_dbl*)t[k])->dval[i], &((struct arg_dbl*)f[k])->dval[i], sizeof(double)) == 0, "same doubles"); break;
                case K_DATE: {
                    const struct tm *x = &((struct arg_date*)t[k])->tmval[i], *y = &((struct arg_date*)f[k])->tmval[i];
                    vs_assert((x->tm_mday == y->tm_mday) & (x->tm_mon == y->tm_mon) & (x->tm_year == y->tm_year) & (x->tm_hour == y->tm_hour) & (x->tm_min == y->tm_min) & (x->tm_sec == y->tm_sec) & (x->tm_wday == y->tm_wday) & (x->tm_yday == y->tm_yday), "same dates");
                } break;
                case K_FILE: vs_assert(((struct arg_file*)t[k])->basename[i] == ((struct arg_file*)f[k])->basename[i] && ((struct arg_file*)t[k])->extension[i] == ((struct arg_file*)f[k])->extension[i], "same file parts"); /* fall through */
                case K_STR: case K_REX: {
                    const char *x = entry_text(sp[k].kind, t[k], i), *y = entry_text(sp[k].kind, f[k], i);
                    vs_assert(x == y || (x[0] == 0 && y[0] == 0), "same texts");
                } break;
            }
    }
    for (i = 0; i < n; i++) {
        vs_assert(te->error[i] == fe->error[i], "same error codes");
        vs_assert(te->argval[i] == fe->argval[i], "same offending arguments");
        vs_assert(parent_index(t, te->parent[i]) == parent_index(f, fe->parent[i]), "same offending entries");
    }
    arg_freetable(t, NT + 1);
    arg_freetable(f, NT + 1);
}
