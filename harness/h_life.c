/* C23: constructors, table checks and release.
 * MODE 0: constructors; MODE 1: arg_nullcheck / arg_freetable / arg_free; MODE 2: storage for as many values as allowed;
 * MODE 3: constructors with large limits; MODE 4: long tables */
#include "table.h"
#ifndef LOMAX
#define LOMAX 3
#endif
static const char* dflt[] = {NULL, "<int>", "<double>", "<string>", "<file>", "%H:%M", "a|b"};
static void* ctor(int k, int form, const char* s, const char* l, const char* t, int lo, int hi, const char* g, const char* fmt) {
    switch (k) {
        case K_LIT: return form == 0 ? arg_lit0(s, l, g) : form == 1 ? arg_lit1(s, l, g) : arg_litn(s, l, lo, hi, g);
        case K_INT: return form == 0 ? arg_int0(s, l, t, g) : form == 1 ? arg_int1(s, l, t, g) : arg_intn(s, l, t, lo, hi, g);
        case K_DBL: return form == 0 ? arg_dbl0(s, l, t, g) : form == 1 ? arg_dbl1(s, l, t, g) : arg_dbln(s, l, t, lo, hi, g);
        case K_STR: return form == 0 ? arg_str0(s, l, t, g) : form == 1 ? arg_str1(s, l, t, g) : arg_strn(s, l, t, lo, hi, g);
        case K_FILE: return form == 0 ? arg_file0(s, l, t, g) : form == 1 ? arg_file1(s, l, t, g) : arg_filen(s, l, t, lo, hi, g);
        case K_DATE: return form == 0 ? arg_date0(s, l, fmt, t, g) : form == 1 ? arg_date1(s, l, fmt, t, g) : arg_daten(s, l, fmt, t, lo, hi, g);
        case K_REX: return form == 0 ? arg_rex0(s, l, fmt, t, 0, g) : form == 1 ? arg_rex1(s, l, fmt, t, 0, g) : arg_rexn(s, l, fmt, t, lo, hi, 0, g);
        case K_REM: return arg_rem(t, g);
    }
    return NULL;
}
void vs_main(void) {
    long before = vs_live_heap();
#if MODE == 0
    int k = vs_choose(8, "kind"), form = k == K_REM ? 0 : vs_choose(3, "form"), i, lo = 0, hi = 0, given = vs_choose(2, "typed"), bare = vs_choose(2, "bare");
    char *s = bare ? NULL : sym_str(1, "s"), *l = bare ? NULL : sym_str(2, "l"), *t = given ? sym_str(2, "t") : NULL, *g = bare ? NULL : sym_str(1, "g");
    long mine;
    const char* fmt = k == K_DATE ? "%H:%M" : "a|b";
    struct arg_hdr* h;
    if (form == 2) { lo = vs_int("min"); hi = vs_int("max"); vs_assume(lo >= 0 && lo <= LOMAX && hi >= -1 && hi <= LOMAX + 2); }
    mine = vs_live_heap();
    h = (struct arg_hdr*)ctor(k, form, s, l, t, lo, hi, g, fmt);
    vs_assert(h != NULL, "entry made");
    if (k == K_REM) lo = hi = 1; else if (form == 0) { lo = 0; hi = 1; } else if (form == 1) { lo = hi = 1; } else if (hi < lo) { hi = lo; vs_reach("maximum raised to the minimum"); }
    vs_assert(h->mincount == lo && h->maxcount == hi, "occurrence limits as asked for");
    if (k != K_REM) { vs_assert(h->shortopts == s && h->longopts == l, "option names as given"); }
    else { vs_assert(!h->shortopts && !h->longopts, "a remark has no names"); }
    vs_assert(h->glossary == g, "description as given");
    if (k == K_LIT) vs_assert(h->datatype == NULL, "a switch has no value type");
    else if (t) vs_assert(h->datatype == t, "value type as given");
    else if (k == K_REM) vs_assert(h->datatype == NULL, "a remark has no default type");
    else vs_assert(same(h->datatype, dflt[k]), "default value type");
    vs_assert(((h->flag & ARG_HASVALUE) != 0) == (k != K_LIT && k != K_REM), "takes a value");
    vs_assert(!(h->flag & (ARG_TERMINATOR | ARG_HASOPTVALUE)), "the value is not optional, and the table does not end here");
    vs_assert(entry_count(k, h) == 0, "nothing counted yet");
    for (i = 0; i < hi && i < LOMAX + 2; i++) {
        if (k == K_STR || k == K_REX || k == K_FILE) vs_assert(same(entry_text(k, h, i), ""), "texts start empty");
        if (k == K_FILE) vs_assert(same(((struct arg_file*)h)->basename[i], "") && same(((struct arg_file*)h)->extension[i], ""), "file parts start empty");
        if (k == K_DATE) { struct tm* m = &((struct arg_date*)h)->tmval[i]; vs_assert(!m->tm_year && !m->tm_mon && !m->tm_mday && !m->tm_hour && !m->tm_min && !m->tm_sec && !m->tm_wday && !m->tm_yday, "dates start zeroed"); }
    }
    if (k == K_DATE) vs_assert(same(((struct arg_date*)h)->format, fmt), "format as given");
    { void* one[1]; one[0] = h; arg_freetable(one, 1); vs_assert(one[0] == NULL, "freed entries are cleared"); }
    vs_assert(vs_live_heap() == mine, "one entry, released in one piece");
    vs_reach("constructed");
    (void)before;
#elif MODE == 1
    /* a table of 4 entries and an end, some of them missing */
    void* t[7]; int i, n = 0, firstnull = -1, total, which, ends = 4, canary;
    unsigned char mask;
    vs_bytes(&mask, 1, "mask");
    vs_assume(mask < 64);
    which = vs_choose(3, "call");
    for (i = 0; i < 4; i++) {
        t[i] = NULL;
        if (mask & (1u << i)) { t[i] = ctor(i + 1, 0, "a", NULL, NULL, 0, 1, "g", "%d"); n++; }
        else if (firstnull < 0) firstnull = i;
    }
    t[4] = NULL; t[5] = NULL; t[6] = &canary;
    if (mask & 16) { t[4] = arg_end(2); n++; } else if (firstnull < 0) firstnull = 4;
    if (mask & 32) { t[5] = arg_lit0("z", NULL, "g"); n++; }
    total = (int)(vs_live_heap() - before);
    vs_assert(total == n, "one allocation per entry");
    if (which == 0) {
        vs_assert(arg_nullcheck(NULL) != 0, "no table at all is reported");
        vs_assert((arg_nullcheck(t) != 0) == (firstnull >= 0), "nullcheck reports a missing entry, and only then");
        vs_reach(firstnull >= 0 ? "missing" : "complete");
        vs_out("null", arg_nullcheck(t));
    } else if (which == 1) {
        size_t upto = (size_t)vs_choose(7, "n");
        long left = 0;
        for (i = 0; i < 6; i++) if ((size_t)i >= upto && t[i]) left++;
        arg_freetable(t, upto);
        for (i = 0; i < 6; i++) if ((size_t)i < upto) vs_assert(t[i] == NULL, "freed entries are cleared"); else vs_assert((t[i] != NULL) == ((mask >> i) & 1), "entries behind are left alone");
        vs_assert(t[6] == &canary, "nothing behind the table is touched");
        vs_assert(vs_live_heap() == before + left, "every entry present is freed, once");
        arg_freetable(t, upto); /* freeing again is harmless */
        vs_assert(vs_live_heap() == before + left, "freeing again does nothing");
        vs_reach("freetable");
    } else { /* the deprecated call stops at the first missing entry or at the end of the table */
        long left = 0;
        int stop = firstnull >= 0 ? firstnull : 4;
        if (firstnull < 0) stop = ends + 1;
        for (i = 0; i < 6; i++) if (i >= stop && t[i]) left++;
        arg_free(t);
        for (i = 0; i < stop && i < 6; i++) vs_assert(t[i] == NULL, "freed entries are cleared");
        vs_assert(vs_live_heap() == before + left, "entries up to the first gap are freed");
        vs_reach("arg_free");
    }
#elif MODE == 2
    /* exactly maxcount values are stored, each in its own place */
    static char* vals[] = {"", "11", "12", "13", "14", "15", "16"};
    int k = 1 + vs_choose(6, "kind"), hi = 1 + vs_choose(6, "max"), n = vs_choose(hi + 1, "given"), i, errs, opt = vs_choose(2, "option"), argc = 1;
    char* argv[16]; void* t[4];
    struct arg_lit* guard = arg_lit0("g", NULL, "g");
    t[0] = arg_lit0("q", NULL, "g");
    t[1] = ctor(k, 2, opt ? "v" : NULL, NULL, NULL, 0, hi, "g", k == K_DATE ? "%d" : "[0-9]+");
    t[2] = guard;
    t[3] = arg_end(2);
    argv[0] = "p";
    for (i = 0; i < n; i++) { char* p = (char*)malloc(4); if (opt) { argv[argc++] = "-v"; } strcpy(p, "1x"); vs_bytes(p + 1, 1, "digit"); vs_assume(p[1] >= '0' && p[1] <= '9'); if (i < n - 1) vs_assume(p[1] == '1' + i); if (k == K_DATE || k == K_INT || k == K_DBL) { p[1] = (char)vs_concrete(p[1]); } argv[argc++] = p; vals[i + 1] = p; }
    argv[argc] = NULL;
    errs = arg_parse(argc, argv, t);
    vs_assert(errs == 0, "as many values as allowed are accepted");
    vs_assert(entry_count(k, t[1]) == n, "all counted");
    vs_assert(guard->count == 0 && ((struct arg_lit*)t[0])->count == 0, "and nothing else");
    for (i = 0; i < n; i++) {
        int v = 10 + vals[i + 1][1] - '0';
        if (k == K_INT) vs_assert(((struct arg_int*)t[1])->ival[i] == v, "integers in order");
        if (k == K_DBL) vs_assert(((struct arg_dbl*)t[1])->dval[i] == (double)v, "numbers in order");
        if (k == K_DATE) vs_assert(((struct arg_date*)t[1])->tmval[i].tm_mday == v, "dates in order");
        if (k == K_STR || k == K_REX || k == K_FILE) vs_assert(entry_text(k, t[1], i) == vals[i + 1], "texts in order, not copied");
    }
    for (i = 0; i < n; i++) free(vals[i + 1]);
    arg_freetable(t, 4);
    vs_assert(vs_live_heap() == before, "everything is released");
    if (n == hi) vs_reach("full");
#elif MODE == 3
    /* every slot of an entry with room for many values is there and starts empty */
    static const int sizes[] = {SIZES};
    int k = vs_choose(8, "kind"), n = sizes[vs_choose((int)(sizeof sizes / sizeof *sizes), "max")], lo = vs_choose(4, "min"), i, hi = n;
    struct arg_hdr* h;
    vs_limit(20000000);
    lo = lo == 0 ? 0 : lo == 1 ? 1 : lo == 2 ? n : n + 1;
    if (k == K_REM) { /* the end of the table */
        struct arg_end* e = arg_end(n);
        vs_assert(e && e->count == 0 && (e->hdr.flag & ARG_TERMINATOR), "an empty end of the table");
        vs_assert(!e->hdr.shortopts && !e->hdr.longopts, "the end has no names");
        for (i = 0; i < n; i++) { e->error[i] = i; e->parent[i] = e; e->argval[i] = "x"; }
        for (i = 0; i < n; i++) vs_assert(e->error[i] == i && e->parent[i] == (void*)e && same(e->argval[i], "x"), "room for as many errors");
        h = (struct arg_hdr*)e;
    } else {
        h = (struct arg_hdr*)ctor(k, 2, "s", "long", "T", lo, n, "g", k == K_DATE ? "%H:%M" : "a|b");
        if (hi < lo) hi = lo;
        vs_assert(h && h->mincount == lo && h->maxcount == hi, "occurrence limits as asked for");
        vs_assert(entry_count(k, h) == 0, "nothing counted yet");
        for (i = 0; i < hi; i++) {
            if (k == K_STR || k == K_REX || k == K_FILE) vs_assert(same(entry_text(k, h, i), ""), "texts start empty");
            if (k == K_FILE) vs_assert(same(((struct arg_file*)h)->basename[i], "") && same(((struct arg_file*)h)->extension[i], ""), "file parts start empty");
            if (k == K_INT) ((struct arg_int*)h)->ival[i] = i;
            if (k == K_DBL) ((struct arg_dbl*)h)->dval[i] = 1.0;
            if (k == K_DATE) { struct tm* m = &((struct arg_date*)h)->tmval[i]; vs_assert(!m->tm_year && !m->tm_mon && !m->tm_mday && !m->tm_hour && !m->tm_min && !m->tm_sec && !m->tm_wday && !m->tm_yday, "dates start zeroed"); }
        }
        if (k == K_INT) for (i = 0; i < hi; i++) vs_assert(((struct arg_int*)h)->ival[i] == i, "a place for every value");
        vs_assert(same(h->shortopts, "s") && same(h->longopts, "long") && same(h->glossary, "g") && h->mincount == lo && h->maxcount == hi, "the values have places of their own");
    }
    { void* one[1]; one[0] = h; arg_freetable(one, 1); vs_assert(one[0] == NULL, "freed entries are cleared"); }
    vs_assert(vs_live_heap() == before, "released");
    vs_reach("constructed");
#elif MODE == 4
    /* a table of any length, complete or with one entry missing anywhere */
    static const int sizes[] = {SIZES};
    int n = sizes[vs_choose((int)(sizeof sizes / sizeof *sizes), "n")], gone = vs_choose(4, "gone"), i, which = vs_choose(3, "call"), canary;
    void** t = (void**)malloc(sizeof(void*) * (size_t)(n + 2));
    long mine = vs_live_heap();
    vs_limit(20000000);
    gone = gone == 0 ? -1 : gone == 1 ? 0 : gone == 2 ? n / 2 : n - 1;
    if (n == 0) gone = -1;
    for (i = 0; i < n; i++) t[i] = i == gone ? NULL : ctor(i % 8, 0, i % 3 ? "a" : NULL, i % 3 == 1 ? NULL : "long", NULL, 0, 1, "g", "%d");
    t[n] = arg_end(2); t[n + 1] = &canary;
    if (which == 0) {
        vs_assert((arg_nullcheck(t) != 0) == (gone >= 0), "nullcheck reports a missing entry, and only then");
        vs_reach(gone >= 0 ? "missing" : "complete");
        which = 1;
    }
    if (which == 1) {
        arg_freetable(t, (size_t)n + 1);
        for (i = 0; i <= n; i++) vs_assert(t[i] == NULL, "freed entries are cleared");
        vs_assert(vs_live_heap() == mine, "every entry present is freed, once");
        vs_reach("freetable");
    } else {
        int stop = gone >= 0 ? gone : n + 1;
        arg_free(t);
        for (i = 0; i < stop; i++) vs_assert(t[i] == NULL, "freed entries are cleared");
        vs_assert(vs_live_heap() == mine + (gone >= 0 ? n - gone : 0), "entries up to the first gap are freed");
        vs_reach("arg_free");
    }
    vs_assert(t[n + 1] == &canary, "nothing behind the table is touched");
#endif
}
