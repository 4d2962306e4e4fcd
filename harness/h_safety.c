/* C01/C02: for tables holding every entry kind and every command line within the bounds, arg_parse
 * terminates, stays in bounds, leaves the caller's argv alone, leaves nothing allocated, respects
 * every entry's limits, and what it reports can be printed. */
#include "table.h"
#ifndef NARG
#define NARG 2
#endif
#ifndef LEN
#define LEN 3
#endif
#ifndef MAXERR
#define MAXERR 3
#endif
#ifndef MINLEN
#define MINLEN 0
#endif
#if TABLE == 0
static const spec sp[] = {{K_LIT, "a", "aa", 0, 2}, {K_INT, "i", "in", 0, 1}, {K_DBL, "d", "db", 0, 2}, {K_FILE, NULL, NULL, 0, 2}};
#elif TABLE == 1
static const spec sp[] = {{K_REX, "r", "rx", 0, 1, 0, "[a-c]+"}, {K_DATE, "t", "tm", 0, 1, 0, "%H:%M"}, {K_STR, "s", "st", 0, 1}, {K_REX, NULL, NULL, 0, 1, 0, "x.y"}, {K_DATE, NULL, NULL, 0, 1, 0, "%d"}};
#elif TABLE == 2
static const spec sp[] = {{K_INT, NULL, NULL, 0, 1}, {K_DBL, NULL, NULL, 0, 1}, {K_REM}, {K_DATE, NULL, NULL, 0, 1, 0, "%m/%d"}, {K_REX, NULL, NULL, 0, 1, 0, "a*b"}, {K_STR, NULL, NULL, 0, 1}, {K_FILE, NULL, NULL, 0, 1}};
#elif TABLE == 3 /* minimum counts of every kind */
static const spec sp[] = {{K_LIT, "a", NULL, 1, 2}, {K_INT, "i", NULL, 1, 1}, {K_DBL, "d", NULL, 1, 1}, {K_STR, "s", NULL, 1, 2}, {K_FILE, "f", NULL, 1, 1}, {K_DATE, "t", NULL, 1, 1, 0, "%d"}, {K_REX, "r", NULL, 1, 1, 0, "."}};
#elif TABLE == 4 /* optional values of every kind */
static const spec sp[] = {{K_INT, "i", "in", 0, 1, 1}, {K_DBL, "d", "db", 0, 1, 1}, {K_STR, "s", "st", 0, 1, 1}, {K_FILE, "f", "fi", 0, 1, 1}, {K_DATE, "t", "tm", 0, 1, 1, "%d"}, {K_REX, "r", "rx", 0, 1, 1, "a"}};
#elif TABLE == 5 /* maximum of zero, and maximum below the minimum (raised to it) */
static const spec sp[] = {{K_LIT, "a", NULL, 0, 0}, {K_INT, "i", NULL, 0, 0}, {K_DBL, "d", NULL, 0, 0}, {K_STR, "s", NULL, 2, 1}, {K_FILE, "f", NULL, 0, 0}, {K_DATE, "t", NULL, 0, 0, 0, "%d"}, {K_REX, "r", NULL, 0, 0, 0, "a"}, {K_STR, NULL, NULL, 0, 0}};
#elif TABLE == 6 /* maximum of two on every positional kind that can refuse */
static const spec sp[] = {{K_DATE, NULL, NULL, 0, 2, 0, "%d"}, {K_REX, NULL, NULL, 0, 2, 0, "a|b"}, {K_FILE, NULL, NULL, 0, 2}};
#elif TABLE == 7
static const spec sp[] = {{K_DBL, "d", NULL, 1, 1}, {K_DATE, "t", NULL, 1, 2, 0, "%d"}};
#elif TABLE == 8
static const spec sp[] = {{K_LIT, "a", NULL, 2, 2}, {K_INT, "i", NULL, 1, 1}, {K_FILE, "f", NULL, 1, 1}};
#elif TABLE == 9
static const spec sp[] = {{K_STR, "s", NULL, 2, 3}, {K_REX, NULL, NULL, 1, 1, 0, "."}};
#endif
#define NT ((int)(sizeof(sp) / sizeof(sp[0])))

void vs_main(void) {
    char* argv[NARG + 2];
    char* keep[NARG + 2];
    char* copy[NARG + 2];
    void* table[NT + 1];
    struct arg_hdr before[NT + 1];
    struct arg_end* end;
    int argc, i, k, n, hi;
    long live0 = vs_live_heap(), live;
    FILE* fp;
    argc = vs_choose(NARG + 2, "argc"); /* 0: no program name at all */
    for (i = 0; i < argc; i++) {
        if (i == 0) argv[i] = dup_str("p");
        else argv[i] = sym_str_upto(MINLEN, LEN, "arg");
#ifdef ALPHABET
        if (i) restrict_to(argv[i], ALPHABET);
#endif
    }
    argv[argc] = NULL;
    for (i = 0; i < argc; i++) { keep[i] = argv[i]; copy[i] = dup_str(argv[i]); }
    for (k = 0; k < NT; k++) table[k] = make_entry(&sp[k]);
    table[NT] = end = arg_end(MAXERR);
    vs_assert(arg_nullcheck(table) == 0, "constructors succeed");
    for (k = 0; k <= NT; k++) { memset(&before[k], 0, sizeof before[k]); before[k].flag = ((struct arg_hdr*)table[k])->flag; before[k].mincount = ((struct arg_hdr*)table[k])->mincount; before[k].maxcount = ((struct arg_hdr*)table[k])->maxcount; before[k].shortopts = ((struct arg_hdr*)table[k])->shortopts; before[k].longopts = ((struct arg_hdr*)table[k])->longopts; }
    live = vs_live_heap();

    n = arg_parse(argc, argv, table);

    vs_assert(vs_live_heap() == live, "arg_parse leaves no allocation behind");
    for (i = 0; i < argc; i++) {
        vs_assert(argv[i] == keep[i], "the caller's argv is not rearranged");
        vs_assert(same(argv[i], copy[i]), "the argument texts are not modified");
    }
    vs_assert(argv[argc] == NULL, "argv stays terminated");
    vs_assert(n == end->count, "arg_parse returns the number of recorded errors");
    vs_assert(n >= 0 && n <= MAXERR, "no more errors recorded than there is room for");
    vs_out("errors", n);
    for (k = 0; k < NT; k++) {
        int c = entry_count(sp[k].kind, table[k]);
        struct arg_hdr* h = (struct arg_hdr*)table[k];
        hi = sp[k].hi < sp[k].lo ? sp[k].lo : sp[k].hi;
        vs_out("count", c);
        vs_assert(c >= 0 && c <= hi, "no entry holds more than its maximum");
        if (n == 0) vs_assert(c >= sp[k].lo, "a clean parse satisfies every minimum");
        vs_assert(h->flag == before[k].flag && h->mincount == before[k].mincount && h->maxcount == before[k].maxcount && h->shortopts == before[k].shortopts && h->longopts == before[k].longopts, "the table's definition is not modified");
        for (i = 0; i < c; i++) {
            const char* t = entry_text(sp[k].kind, table[k], i);
            if (t) { int j, from = (t[0] == 0); for (j = 1; j < argc; j++) { size_t q, m = strlen(argv[j]); for (q = 0; q <= m; q++) from |= (t == argv[j] + q); } vs_assert(from, "every stored text points into argv"); }
        }
    }
    for (i = 0; i < n; i++) {
        int ok = (end->parent[i] == (void*)end), j;
        for (k = 0; k < NT; k++) ok |= (end->parent[i] == table[k]);
        vs_assert(ok, "every error belongs to an entry of the table");
        if (end->argval[i]) { ok = 0; for (j = 0; j < argc; j++) { size_t q, m = strlen(argv[j]); for (q = 0; q <= m; q++) ok |= (end->argval[i] == argv[j] + q); } vs_assert(ok, "every error points into argv"); }
        else ok = 1;
    }
    if (n == 0) vs_reach("accepted"); else vs_reach("rejected");
#ifndef NOPRINT
    live = vs_live_heap();
    fp = vs_file();
    live = vs_live_heap() - live;
    arg_print_errors(fp, end, "p");
    if (n == 0) vs_assert(vs_text(fp)[0] == 0, "a clean parse prints no errors");
    else vs_assert(vs_text(fp)[0] == 'p' && vs_text(fp)[1] == ':', "errors are printed with the program name");
#endif
    arg_freetable(table, NT + 1);
    for (k = 0; k <= NT; k++) vs_assert(table[k] == NULL, "freed entries are cleared");
    for (i = 0; i < argc; i++) { free(argv[i]); free(copy[i]); }
    vs_assert(vs_live_heap() == live0, "nothing stays allocated");
}
