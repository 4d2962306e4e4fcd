/* C16/C17: usage syntax and glossary show every entry of the table, in its documented notation.
 * MODE 0: arg_print_syntax / arg_print_syntaxv; MODE 1: arg_print_option around the internal buffer size;
 * MODE 2: arg_print_glossary; MODE 3: arg_print_glossary_gnu; MODE 4: MODE 0 with texts around the buffer size */
#ifdef BIG
#define RS_MAX 40000
#endif
#include "table.h"
#include "refsyntax.h"
#ifndef N
#define N 2
#endif
#ifndef WIDE
#define WIDE 0
#endif
#ifndef FEW
#define FEW 0
#endif
#ifndef GLEN
#define GLEN 3
#endif
static const char* dflt[] = {NULL, "<int>", "<double>", "<string>", "<file>", "%d", "[a-c]", NULL};
typedef struct { int kind, lo, hi, opt; const char *s, *l, *dt, *g; void* e; } ent;
static ent E[N + 1];
static void* table[N + 1];
static rs want;
static const char* letters(int n, const char* name) {
    char* p = sym_str(n, name);
    int i;
    for (i = 0; i < n; i++) vs_assume(p[i] != ',' && p[i] != '\n');
    return p;
}
static char* filled(int n, const char* name) {
    char* p = (char*)malloc((size_t)n + 1);
    int i;
    for (i = 0; i < n; i++) p[i] = (char)('a' + i % 26);
    if (n) { vs_bytes(p + n - 1, 1, name); vs_assume(p[n - 1] != 0 && p[n - 1] != ',' && p[n - 1] != '\n'); }
    p[n] = 0;
    return p;
}
static void build(ent* x, int k, int st, int lo, int hi, int dt) {
    static const char* longs[] = {"ab", "b,cde", "cd,e,f"};
    x->kind = k; x->lo = lo; x->hi = hi; x->s = x->l = NULL;
    switch (st) {
        case 0: x->s = letters(1, "s"); break;
        case 1: x->s = letters(2, "s"); x->l = longs[0]; break;
        case 2: x->l = letters(2, "l"); break;
        case 3: x->l = longs[1]; break;
        case 4: break;
        case 5: x->s = letters(1, "s"); x->l = longs[2]; break;
    }
    x->dt = dt == 0 ? NULL : dt == 1 ? letters(2, "type") : "";
    x->opt = 0;
    if (k == K_REM) x->s = x->l = NULL;
}
static void construct(ent* x) {
    const char *s = x->s, *l = x->l, *t = x->dt, *g = x->g;
    int lo = x->lo, hi = x->hi;
    switch (x->kind) {
        case K_LIT: x->e = arg_litn(s, l, lo, hi, g); break;
        case K_INT: x->e = arg_intn(s, l, t, lo, hi, g); break;
        case K_DBL: x->e = arg_dbln(s, l, t, lo, hi, g); break;
        case K_STR: x->e = arg_strn(s, l, t, lo, hi, g); break;
        case K_FILE: x->e = arg_filen(s, l, t, lo, hi, g); break;
        case K_DATE: x->e = arg_daten(s, l, "%d", t, lo, hi, g); break;
        case K_REX: x->e = arg_rexn(s, l, "[a-c]", t, lo, hi, 0, g); break;
        case K_REM: x->e = arg_rem(t, g); x->lo = x->hi = 1; break;
    }
    if (x->opt) ((struct arg_hdr*)x->e)->flag |= ARG_HASOPTVALUE;
    if (x->hi < x->lo) x->hi = x->lo;
    if (!x->dt && x->kind != K_REM) x->dt = dflt[x->kind];
    if (x->kind == K_LIT) x->dt = NULL;
}
static void compare(FILE* fp, arg_dstr_t ds, const char* msg) {
    vs_outs(msg, vs_text(fp));
    vs_assert(same(vs_text(fp), want.b), msg);
    vs_assert(same(arg_dstr_cstr(ds), want.b), "the text in the dynamic string is the same");
    arg_dstr_destroy(ds);
}
/* what arg_print_syntax() has to say */
static void ref_syntax(const char* suffix) {
    int i, any = 0, opt = 0;
    for (i = 0; i < N; i++) if (E[i].kind == K_LIT && E[i].s && E[i].lo > 0) { if (!any) rs_s(&want, " -"); rs_c(&want, E[i].s[0]); any = 1; }
    for (i = 0; i < N; i++) if (E[i].kind == K_LIT && E[i].s && E[i].lo < 1) { if (!opt) rs_s(&want, any ? "[" : " [-"); rs_c(&want, E[i].s[0]); opt = 1; }
    if (opt) { rs_c(&want, ']'); vs_reach("optional switches"); }
    if (any) vs_reach("mandatory switches");
    for (i = 0; i < N; i++) {
        static rs one;
        if (E[i].kind == K_LIT && E[i].s) continue;
        one.n = 0; one.b[0] = 0;
        rs_one(&one, E[i].s, E[i].l, E[i].dt, E[i].opt);
        if (one.n) rs_times(&want, one.b, E[i].lo, E[i].hi);
    }
    if (suffix) rs_s(&want, suffix);
}
static void ref_syntaxv(const char* suffix) {
    int i;
    for (i = 0; i < N; i++) {
        static rs one;
        one.n = 0; one.b[0] = 0;
        rs_allt(&one, E[i].s, E[i].l, E[i].dt, E[i].opt, "|");
        rs_times(&want, one.b, E[i].lo, E[i].hi);
    }
    if (suffix) rs_s(&want, suffix);
}
static int isblankc(char c) { return (c == 32) | (c == 9) | (c == 11) | (c == 12) | (c == 13); }
static void ref_gnu(void) {
    int i;
    for (i = 0; i < N; i++) {
        static rs one;
        const char* g = E[i].g;
        int p = 0, n, j;
        if (!g) continue;
        n = (int)strlen(g);
        one.n = 0; one.b[0] = 0;
        if (!E[i].s && E[i].l) rs_s(&one, "    ");
        rs_allt(&one, E[i].s, E[i].l, E[i].dt, E[i].opt, ", ");
        rs_s(&want, "  ");
        rs_pad(&want, one.b, 25);
        if (one.n > 25) { vs_reach("names on a line of their own"); rs_s(&want, " \n  "); rs_pad(&want, "", 25); }
        rs_c(&want, ' ');
        do { /* the description, wrapped to columns 28..79 */
            int e, nl = -1, last = -1;
            if (p > 0) for (j = 0; j < 28; j++) rs_c(&want, ' ');
            while (p < n && isblankc(g[p])) p++;
            for (j = p; j < n && j <= p + 52; j++) { if (g[j] == '\n') { nl = j; break; } if (j > p && isblankc(g[j])) last = j; }
            if (nl >= 0) e = nl; else if (n - p <= 52) e = n; else if (last > p) { for (e = last; isblankc(g[e]); e--) {} e++; } else e = p + 52;
            while (p < e) rs_c(&want, g[p++]);
            if (nl >= 0) p++;
            rs_c(&want, '\n');
        } while (p < n);
    }
    rs_c(&want, '\n');
}
static int visible(const char* a, const char* full) { /* a is full, or the first 198 or more characters of it */
    size_t n = strlen(a), f = strlen(full);
    return n <= f && strncmp(a, full, n) == 0 && (n == f || n >= 198);
}
void vs_main(void) {
    int i;
    FILE* fp = vs_file();
    arg_dstr_t ds = arg_dstr_create();
#if MODE == 0
    static const char* suffixes[] = {NULL, "\n", " and more"};
    const char* suffix = suffixes[FEW ? 1 : vs_choose(3, "suffix")];
    int nameless = 0;
    for (i = 0; i < N; i++) {
        static const int some[] = {K_LIT, K_STR, K_REM};
        int k = WIDE ? vs_choose(8, "kind") : some[vs_choose(3, "kind")], st, lo, hi;
        st = vs_choose(k == K_REM ? 1 : WIDE ? 6 : FEW ? 3 : 5, "style");
        lo = vs_choose(WIDE ? 4 : 2, "min"); hi = lo - WIDE + vs_choose(WIDE ? 6 : 2, "more");
        if (hi < 0) hi = 0;
        if (k == K_LIT && st == 4) { vs_assume(0); return; }
        build(&E[i], k, st, lo, hi, k == K_LIT ? 0 : k == K_REM || WIDE ? vs_choose(2, "type") : 0);
        if (k == K_REM) { E[i].s = NULL; if (!E[i].dt) nameless = 1; }
        if (k != K_LIT && k != K_REM) E[i].opt = vs_choose(2, "opt");
        E[i].g = "g";
        construct(&E[i]);
        table[i] = E[i].e;
    }
    table[N] = arg_end(3);
    if (vs_choose(2, "verbose")) {
        vs_assume(!nameless);
        KEEPS(arg_print_syntaxv(fp, table, suffix));
        arg_print_syntaxv_ds(ds, table, suffix);
        ref_syntaxv(suffix);
        compare(fp, ds, "every name of every entry with its value type and repetitions");
    } else {
        KEEPS(arg_print_syntax(fp, table, suffix));
        arg_print_syntax_ds(ds, table, suffix);
        ref_syntax(suffix);
        compare(fp, ds, "switches first, then each entry with its value type and repetitions");
    }
#elif MODE == 7 /* limits of every size */
    {
        static const int los[] = {LOS}, more[] = {0, 1, 2, 3, 4, 5, 9, 10, 99, 100, 127, 128, 255, 256, 999, 1000};
        int k = vs_choose(2, "kind"), st = vs_choose(3, "style"), verbose;
        vs_limit(200000000);
        E[0].kind = k ? K_FILE : K_LIT;
        E[0].lo = los[vs_choose((int)(sizeof los / sizeof *los), "least")];
        E[0].hi = E[0].lo + more[E[0].lo > 2 ? E[0].lo % 4 : vs_choose((int)(sizeof more / sizeof *more), "more")];
        E[0].s = st == 0 ? E[0].lo > 2 ? "x" : letters(1, "s") : NULL; E[0].l = st == 1 ? "long,other" : NULL;
        E[0].opt = k && st;
        if (k == 0 && st == 2) { vs_assume(0); return; }
        construct(&E[0]);
        table[0] = E[0].e; table[1] = arg_end(3);
        verbose = vs_choose(2, "verbose");
        if (verbose) { KEEPS(arg_print_syntaxv(fp, table, "\n")); arg_print_syntaxv_ds(ds, table, "\n"); ref_syntaxv("\n"); }
        else { KEEPS(arg_print_syntax(fp, table, "\n")); arg_print_syntax_ds(ds, table, "\n"); ref_syntax("\n"); }
        compare(fp, ds, "as many required and optional occurrences as the limits say");
    }
#elif MODE == 5 /* long tables */
    int any = vs_choose(3, "which") * (N - 1) / 2, gnu = 0;
    vs_limit(200000000);
    for (i = 0; i < N; i++) {
        static const char* names[] = {"one", "two,deux", "three"};
        static const char* texts[] = {"short", NULL, "", "a description of this entry that does not fit into one line of the column"};
        int k = i % 8;
        if (i == any) build(&E[i], K_STR, vs_choose(6, "style"), 1, 2, 1);
        else {
            E[i].kind = k; E[i].lo = i % 9 == 8 ? 12 : i % 3; E[i].hi = E[i].lo + (i % 7 == 6 ? 100 : i % 7 == 5 ? 5 : i % 4);
            E[i].s = i % 5 == 1 ? "xy" : i % 5 == 2 ? "z" : NULL; E[i].l = i % 3 ? names[i % 3] : NULL; E[i].dt = i % 2 ? NULL : "TYPE";
            if (k == K_LIT && !E[i].l) E[i].s = "w";
            if (k == K_REM) { E[i].s = E[i].l = NULL; E[i].dt = "REM"; }
            if (k != K_LIT && k != K_REM) E[i].opt = i % 4 == 3;
        }
        E[i].g = i == any ? sym_str(2, "g") : texts[i % 4];
        construct(&E[i]);
        table[i] = E[i].e;
    }
    table[N] = arg_end(3);
    switch (vs_choose(4, "printer")) {
        case 0: KEEPS(arg_print_syntax(fp, table, ";")); KEEPS_DS(arg_print_syntax_ds(D, table, ";")); arg_print_syntax_ds(ds, table, ";"); ref_syntax(";"); break;
        case 1: KEEPS(arg_print_syntaxv(fp, table, ";")); KEEPS_DS(arg_print_syntaxv_ds(D, table, ";")); arg_print_syntaxv_ds(ds, table, ";"); ref_syntaxv(";"); break;
        case 2: KEEPS(arg_print_glossary(fp, table, NULL)); KEEPS_DS(arg_print_glossary_ds(D, table, NULL)); arg_print_glossary_ds(ds, table, NULL);
            for (i = 0; i < N; i++) { static rs one; if (!E[i].g) continue; one.n = 0; one.b[0] = 0; rs_allt(&one, E[i].s, E[i].l, E[i].dt, E[i].opt, ", "); rs_s(&want, "  "); rs_pad(&want, one.b, 20); rs_c(&want, ' '); rs_s(&want, E[i].g); rs_c(&want, '\n'); }
            break;
        default: KEEPS(arg_print_glossary_gnu(fp, table)); KEEPS_DS(arg_print_glossary_gnu_ds(D, table)); arg_print_glossary_gnu_ds(ds, table); ref_gnu(); gnu = 1; break;
    }
    (void)gnu;
    compare(fp, ds, "every entry of a long table, in order");
    KEEPS_DS(arg_print_option_ds(D, "a", "b", "c", "d"));
#elif MODE == 1 || MODE == 4
    {
        /* lengths of the pieces are chosen around the 200 bytes the library sets aside */
#ifdef EVERY
        static const int lens[] = {EVERY}, lens2[] = {1, 30};
#define NSECOND(st) 2
#else
        static const int lens[] = {0, 1, 2, 60, 185, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 240}, *lens2 = lens;
#define NSECOND(st) (st == 4 ? 19 : 5)
#endif
        int st = vs_choose(7, "style"), n1 = lens[vs_choose((int)(sizeof lens / sizeof *lens), "n1")], n2 = st == 2 || st == 4 ? lens2[vs_choose(NSECOND(st), "n2")] : 0, k = vs_choose(2, "typed");
        const char *s = NULL, *l = NULL, *dt = NULL;
        static rs full;
        if (n1 == 0) n1 = 1;
        if (st == 0) { s = letters(1, "s"); dt = filled(n1, "t"); }
        else if (st == 1) { l = filled(n1, "l"); dt = k ? "TY" : NULL; }
        else if (st == 2) { char* p; char* q = filled(n1, "l"); char* r = filled(n2 ? n2 : 1, "m"); p = (char*)malloc(strlen(q) + strlen(r) + 2); strcpy(p, q); strcat(p, ","); strcat(p, r); l = p; s = k ? "xy" : NULL; dt = "T"; }
        else if (st == 3) { dt = filled(n1, "t"); }
        else if (st == 5) { s = filled(n1, "s"); l = k ? "long" : NULL; dt = "T"; } /* many letters */
        else if (st == 6) { char* p = (char*)malloc((size_t)n1 * 3 + 1); int j; for (j = 0; j < n1; j++) { p[3 * j] = (char)('a' + j % 26); p[3 * j + 1] = (char)('a' + j / 26); p[3 * j + 2] = ','; } p[3 * n1 - 1] = 0; l = p; s = k ? "xy" : NULL; dt = "T"; } /* many long names */
        else { l = filled(n1, "l"); s = k ? "q" : NULL; dt = filled(n2 ? n2 : 1, "t"); }
#if MODE == 1
        KEEPS(arg_print_option(fp, s, l, dt, "!"));
        arg_print_option_ds(ds, s, l, dt, NULL);
        rs_allt(&full, s, l, dt, 0, "|");
        vs_outs("text", arg_dstr_cstr(ds));
        vs_assert(visible(arg_dstr_cstr(ds), full.b), "the option is shown in full, or cut after 198 characters or more");
        { size_t n = strlen(arg_dstr_cstr(ds)); const char* t = vs_text(fp); vs_assert(strncmp(t, arg_dstr_cstr(ds), n) == 0 && same(t + n, "!"), "the suffix follows"); }
        if (strlen(full.b) > 198) vs_reach("cut"); else vs_reach("in full");
        arg_dstr_destroy(ds);
#else
        {
            /* every printer, one entry with long texts */
            void* t[2];
            int which = vs_choose(4, "printer"), opt = vs_choose(2, "opt");
            struct arg_str* e = arg_str1(s, l, dt, "G");
            if (!dt) dt = "<string>";
            if (opt) e->hdr.flag |= ARG_HASOPTVALUE;
            t[0] = e; t[1] = arg_end(1);
            full.n = 0; full.b[0] = 0;
            if (which == 0) { arg_print_syntax_ds(ds, t, NULL); rs_one(&full, s, l, dt, opt); vs_assert(arg_dstr_cstr(ds)[0] == ' ' && visible(arg_dstr_cstr(ds) + 1, full.b), "syntax"); }
            else if (which == 1) { arg_print_syntaxv_ds(ds, t, NULL); rs_allt(&full, s, l, dt, opt, "|"); vs_assert(arg_dstr_cstr(ds)[0] == ' ' && visible(arg_dstr_cstr(ds) + 1, full.b), "verbose syntax"); }
            else {
                char* o; size_t n;
                if (which == 2) arg_print_glossary_ds(ds, t, "%s\t%s\n"); else arg_print_glossary_gnu_ds(ds, t);
                if (which == 3 && !s && l) rs_s(&full, "    ");
                rs_allt(&full, s, l, dt, opt, ", ");
                o = arg_dstr_cstr(ds);
                vs_outs("text", o);
                if (which == 2) { n = strlen(o); vs_assert(n >= 3 && same(o + n - 3, "\tG\n"), "glossary text"); o[n - 3] = 0; vs_assert(visible(o, full.b), "glossary"); }
                else { vs_assert(o[0] == ' ' && o[1] == ' ', "indented"); if (full.n > 25) { char* nl = strchr(o, '\n'); size_t c; vs_assert(nl && nl[-1] == ' ', "names on a line of their own"); c = (size_t)(nl - o) - 1; o[c] = 0; vs_assert(visible(o + 2, full.b), "GNU glossary"); vs_assert(same(nl + 1, "                            G\n\n"), "GNU glossary text"); vs_reach("own line"); } }
            }
            vs_reach("printed");
            arg_dstr_destroy(ds);
            arg_freetable(t, 2);
        }
#endif
        (void)k; (void)i;
        return;
    }
#elif MODE == 6 /* long descriptions, long suffixes */
    {
        static const int lens[] = {EVERY};
        int n = lens[vs_choose((int)(sizeof lens / sizeof *lens), "n")], word = vs_choose(3, "word");
        char* g = filled(n, "g");
        vs_limit(200000000);
        for (i = 0; i < n - 1; i++) if (word && i % (word == 1 ? 6 : 40) == 5) g[i] = ' ';
        for (i = 0; i < N; i++) { E[i].kind = i ? K_LIT : K_STR; E[i].s = i ? "b" : "a"; E[i].l = i ? NULL : "long"; E[i].lo = 0; E[i].hi = 1; E[i].g = i ? "second" : g; construct(&E[i]); table[i] = E[i].e; }
        table[N] = arg_end(3);
        switch (vs_choose(4, "printer")) {
            case 0: arg_print_syntax(fp, table, g); KEEPS_DS(arg_print_syntax_ds(D, table, g)); arg_print_syntax_ds(ds, table, g); ref_syntax(g); break;
            case 1: arg_print_syntaxv(fp, table, g); KEEPS_DS(arg_print_syntaxv_ds(D, table, g)); arg_print_syntaxv_ds(ds, table, g); ref_syntaxv(g); break;
            case 2: arg_print_glossary(fp, table, NULL); KEEPS_DS(arg_print_glossary_ds(D, table, NULL)); arg_print_glossary_ds(ds, table, NULL);
                for (i = 0; i < N; i++) { static rs one; one.n = 0; one.b[0] = 0; rs_allt(&one, E[i].s, E[i].l, E[i].dt, E[i].opt, ", "); rs_s(&want, "  "); rs_pad(&want, one.b, 20); rs_c(&want, ' '); rs_s(&want, E[i].g); rs_c(&want, '\n'); }
                break;
            default: arg_print_glossary_gnu(fp, table); KEEPS_DS(arg_print_glossary_gnu_ds(D, table)); arg_print_glossary_gnu_ds(ds, table); ref_gnu(); break;
        }
        compare(fp, ds, "descriptions and suffixes in full");
        free(g);
    }
#elif MODE == 2
    static const char* formats[] = {NULL, "  %-25s %s\n", "%s|%s;", "[%5s] %.2s\n"};
    int f = vs_choose(4, "format"), none = 0;
    for (i = 0; i < N; i++) {
        int k = i == 0 ? vs_choose(8, "kind") : vs_choose(2, "kind") * 7;
        build(&E[i], k, vs_choose(k == K_REM ? 1 : 6, "style"), 0, 1, vs_choose(2, "type"));
        if (k != K_LIT && k != K_REM) E[i].opt = vs_choose(2, "opt");
        switch (vs_choose(3, "gl")) { case 0: E[i].g = NULL; none = 1; break; case 1: E[i].g = ""; break; default: E[i].g = sym_str(GLEN, "g"); }
        construct(&E[i]);
        table[i] = E[i].e;
    }
    table[N] = arg_end(3);
    KEEPS(arg_print_glossary(fp, table, formats[f]));
    arg_print_glossary_ds(ds, table, formats[f]);
    for (i = 0; i < N; i++) {
        static rs one;
        if (!E[i].g) { vs_reach("entry without description left out"); continue; }
        one.n = 0; one.b[0] = 0;
        rs_allt(&one, E[i].s, E[i].l, E[i].dt, E[i].opt, ", ");
        switch (f) {
            case 0: rs_s(&want, "  "); rs_pad(&want, one.b, 20); rs_c(&want, ' '); rs_s(&want, E[i].g); rs_c(&want, '\n'); break;
            case 1: rs_s(&want, "  "); rs_pad(&want, one.b, 25); rs_c(&want, ' '); rs_s(&want, E[i].g); rs_c(&want, '\n'); break;
            case 2: rs_s(&want, one.b); rs_c(&want, '|'); rs_s(&want, E[i].g); rs_c(&want, ';'); break;
            case 3: { int j; rs_c(&want, '['); for (j = one.n; j < 5; j++) rs_c(&want, ' '); rs_s(&want, one.b); rs_s(&want, "] "); for (j = 0; j < 2 && E[i].g[j]; j++) rs_c(&want, E[i].g[j]); rs_c(&want, '\n'); break; }
        }
        vs_reach("entry listed");
    }
    compare(fp, ds, "one formatted line per described entry, in table order");
    (void)none;
#elif MODE == 3
    for (i = 0; i < N; i++) {
        static const char* texts[] = {NULL, "", "short", "a description that is long enough to be wrapped at the right margin, twice even when it is this long", "first\nsecond line\n\nthird",
            "1234567890123456789012345678901234567890123456789012 next", "123456789012345678901234567890123456789012345678901\nnext", "12345678901234567890123456789012345678901234567890123456789012345678901234567890"};
        int k = WIDE ? vs_choose(8, "kind") : vs_choose(2, "kind") * (i == 0 ? 3 : 7), t;
        build(&E[i], k, vs_choose(k == K_REM ? 1 : 6, "style"), 0, 1, vs_choose(2, "type"));
        if (WIDE && k == K_STR && vs_choose(2, "wide")) { int n = 18 + vs_choose(5, "width"); E[i].s = letters(1, "s"); E[i].l = NULL; E[i].dt = filled(n, "t"); }
        t = FEW ? 2 * vs_choose(2, "text") : vs_choose(WIDE || i == N - 1 ? 8 : 4, "text");
        E[i].g = texts[t];
        if (t == 2) E[i].g = sym_str(GLEN, "g");
        construct(&E[i]);
        table[i] = E[i].e;
    }
    table[N] = arg_end(3);
    KEEPS(arg_print_glossary_gnu(fp, table));
    arg_print_glossary_gnu_ds(ds, table);
    ref_gnu();
    compare(fp, ds, "the GNU layout of every described entry, in table order");
#endif
    arg_freetable(table, N + 1);
    vs_reach("checked");
}
