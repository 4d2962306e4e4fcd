/* C12: arg_date accepts exactly the texts its format describes and stores the fields they name. */
#include "common.h"
#include <time.h>
#ifndef LEN
#define LEN 6
#endif
#ifndef MINLEN
#define MINLEN 0
#endif
char* arg_strptime(const char* buf, const char* fmt, struct tm* tm);
static const char* r_day[7] = {"sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday"};
static const char* r_mon[12] = {"january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"};
static int r_low(int c) { return c + 32 * ((c >= 'A') & (c <= 'Z')); }
static int r_ws(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
/* a number of at most as many digits as the limit has, stopping when another digit could not fit */
static int r_num(const char** p, int lo, int hi, int* out) {
    int v = 0, room = hi, n = 0;
    while (room > 0 && **p >= '0' && **p <= '9' && (n == 0 || v * 10 <= hi)) { v = v * 10 + (**p - '0'); (*p)++; room /= 10; n++; }
    if (n == 0 || v < lo || v > hi) return 0;
    *out = v;
    return 1;
}
/* the full name or its first three letters */
static int r_name(const char** p, const char** names, int n, int* out) {
    int i, j;
    for (i = 0; i < n; i++) {
        for (j = 0; names[i][j] && r_low((*p)[j]) == names[i][j]; j++) {}
        if (!names[i][j]) { *p += j; *out = i; return 1; }
        if (j >= 3) { *p += 3; *out = i; return 1; }
    }
    return 0;
}
static int r_ci(const char* p, const char* w) { int i; for (i = 0; w[i]; i++) if (r_low(p[i]) != w[i]) return 0; return 1; }
static int r_parse(const char** p, const char* f, struct tm* t) {
    int v, cent = -1, yy = -1;
    for (; *f; f++) {
        if (r_ws(*f)) { while (r_ws(**p)) (*p)++; continue; }
        if (*f != '%') { if (**p != *f) return 0; (*p)++; continue; }
        f++;
        if ((*f == 'E' || *f == 'O') && f[1] == '%') vs_assume(0); /* not specified */
        if (*f == 'E') { f++; if (!strchr("cCxXYy", *f) || !*f) return 0; }
        else if (*f == 'O') { f++; if (!strchr("deHImMSUWwy", *f) || !*f) return 0; }
        switch (*f) {
            case '%': if (**p != '%') return 0; (*p)++; break;
            case 'n': case 't': while (r_ws(**p)) (*p)++; break;
            case 'Y': if (!r_num(p, 0, 9999, &v)) return 0; t->tm_year = v - 1900; break;
            case 'y': if (!r_num(p, 0, 99, &v)) return 0; yy = v; t->tm_year = cent >= 0 ? cent * 100 + v - 1900 : v <= 68 ? v + 100 : v; break;
            case 'C': if (!r_num(p, 0, 99, &v)) return 0; cent = v; t->tm_year = v * 100 + (yy >= 0 ? yy : 0) - 1900; break;
            case 'm': if (!r_num(p, 1, 12, &v)) return 0; t->tm_mon = v - 1; break;
            case 'd': case 'e': if (!r_num(p, 1, 31, &v)) return 0; t->tm_mday = v; break;
            case 'H': case 'k': if (!r_num(p, 0, 23, &v)) return 0; t->tm_hour = v; break;
            case 'I': case 'l': if (!r_num(p, 1, 12, &v)) return 0; t->tm_hour = v % 12; break;
            case 'M': if (!r_num(p, 0, 59, &v)) return 0; t->tm_min = v; break;
            case 'S': if (!r_num(p, 0, 61, &v)) return 0; t->tm_sec = v; break;
            case 'j': if (!r_num(p, 1, 366, &v)) return 0; t->tm_yday = v - 1; break;
            case 'w': if (!r_num(p, 0, 6, &v)) return 0; t->tm_wday = v; break;
            case 'U': case 'W': if (!r_num(p, 0, 53, &v)) return 0; break;
            case 'a': case 'A': if (!r_name(p, r_day, 7, &v)) return 0; t->tm_wday = v; break;
            case 'b': case 'B': case 'h': if (!r_name(p, r_mon, 12, &v)) return 0; t->tm_mon = v; break;
            case 'p': /* applies to an hour below 12 that precedes it */
                if (t->tm_hour > 11) return 0;
                if (r_ci(*p, "am")) v = 0; else if (r_ci(*p, "pm")) v = 12; else return 0;
                t->tm_hour += v; *p += 2; break;
            case 'D': case 'x': if (!r_parse(p, "%m/%d/%y", t)) return 0; break;
            case 'R': if (!r_parse(p, "%H:%M", t)) return 0; break;
            case 'T': case 'X': if (!r_parse(p, "%H:%M:%S", t)) return 0; break;
            case 'r': if (!r_parse(p, "%I:%M:%S %p", t)) return 0; break;
            case 'c': if (!r_parse(p, "%x %X", t)) return 0; break;
            default: return 0;
        }
    }
    return 1;
}
static int same_tm(const struct tm* a, const struct tm* b) {
    return a->tm_year == b->tm_year && a->tm_mon == b->tm_mon && a->tm_mday == b->tm_mday && a->tm_hour == b->tm_hour && a->tm_min == b->tm_min && a->tm_sec == b->tm_sec && a->tm_wday == b->tm_wday && a->tm_yday == b->tm_yday;
}
#ifdef FORMATS
static const char* fmts[] = { FORMATS };
#endif
#define NF ((int)(sizeof(fmts) / sizeof(fmts[0])))
#ifdef PAIR /* two entries and two values, twice */
static struct arg_date* R[2];
static const char* form[2];
static int reads(int e, const char* v, struct tm* t) { const char* p = v; memset(t, 0, sizeof *t); return r_parse(&p, form[e], t) && *p == 0; }
static int accepts(int e, const char* v) { struct tm t; return reads(e, v, &t); }
static int stored(int e, int i, const char* v) { struct tm t; return reads(e, v, &t) && same_tm(&t, &R[e]->tmval[i]); }
#define ACCEPTS(e, v) accepts(e, v)
#define STORED(e, i, v) stored(e, i, v)
#define COUNT(e) R[e]->count
#include "pair.h"
void vs_main(void) {
    void* table[3];
    long live0 = vs_live_heap();
    int e;
    for (e = 0; e < 2; e++) { form[e] = fmts[vs_choose(NF, "format")]; table[e] = R[e] = arg_daten(NULL, NULL, form[e], NULL, 0, 2, "g"); }
    table[2] = arg_end(3);
    pair_run(table, (struct arg_end*)table[2]);
    arg_freetable(table, 3);
    vs_assert(vs_live_heap() == live0, "nothing stays allocated");
}
#else
void vs_main(void) {
    char *text, *argv[5];
#ifdef PADS
    const char *fmt, *p;
#elif defined(FORMATS)
    const char *fmt = fmts[vs_choose(NF, "format")], *p;
#else /* any format */
    const char *fmt = sym_str_upto(1, FLEN, "format"), *p;
#endif
    void* table[3];
    struct arg_date* d;
    struct arg_str* rest;
    struct arg_end* end;
    struct tm want;
    int n, ok;
#ifdef PADS /* long formats and texts: literal runs (or blanks) around a conversion */
    {
        static const int pads[] = {PADS};
        static const char* convs[] = {"%d", "%Y", "%H", "%b", "%p"};
        int np = (int)(sizeof pads / sizeof *pads), n1 = pads[vs_choose(np, "pad")], sh = vs_choose(4, "shape"), two = vs_choose(2, "two");
        const char *c = convs[vs_choose(5, "conversion")];
        char *f = (char*)malloc((size_t)n1 * 2 + 8), x = sh == 1 ? ' ' : 'x';
        char *t;
        int k = 2;
        vs_limit(50000000);
        memset(f, x, (size_t)n1); strcpy(f + n1, c);
        memset(f + n1 + 2, x, (size_t)n1); f[2 * n1 + 2] = 0;
        if (two) strcat(f, "%m");
        fmt = f;
        if (sh == 2) { strcpy(f, "%H%n%m"); n1 *= 2; } /* only the text is long */
        if (sh == 3) x = ' ';
        t = (char*)malloc((size_t)n1 * 2 + 8);
        if (sh == 2) { vs_bytes(t, 1, "text"); memset(t + 1, ' ', (size_t)n1); vs_bytes(t + 1 + n1, 1, "text"); vs_assume(t[0] != 0 && t[n1 + 1] != 0); t[n1 + 2] = 0; }
        else {
            memset(t, sh == 3 ? 'x' : x, (size_t)n1); vs_bytes(t + n1, (size_t)k, "text"); vs_assume(t[n1] != 0 && t[n1 + 1] != 0);
            memset(t + n1 + k, sh == 3 ? 'x' : x, (size_t)n1); t[2 * n1 + k] = 0;
            if (two) strcat(t, "7");
        }
        text = dup_str(t);
    }
#else
    text = sym_str_upto(MINLEN, LEN, "text");
#endif
#ifdef ALPHABET
    restrict_to(text, ALPHABET);
#endif
    memset(&want, 0, sizeof want);
    p = text;
    ok = r_parse(&p, fmt, &want) && *p == 0;
    table[0] = d = arg_daten(NULL, NULL, fmt, NULL, 0, 2, "g");
    table[1] = rest = arg_strn(NULL, NULL, NULL, 0, 1, "g");
    table[2] = end = arg_end(2);
    argv[0] = "p"; argv[1] = "--"; argv[2] = text; argv[3] = NULL;
    n = arg_parse(3, argv, table);
    vs_out("count", d->count);
    vs_assert(n == 0 && d->count + rest->count == 1, "the value goes to the first entry that accepts it");
    vs_assert(d->count == ok, "accepted exactly when the whole text has the format");
    if (ok) {
        vs_out("year", d->tmval[0].tm_year); vs_out("mon", d->tmval[0].tm_mon); vs_out("mday", d->tmval[0].tm_mday); vs_out("hour", d->tmval[0].tm_hour);
        vs_assert(same_tm(&d->tmval[0], &want), "the stored fields are the ones written");
        vs_reach("accepted");
    } else {
        struct tm z;
        memset(&z, 0, sizeof z);
        vs_assert(same_tm(&d->tmval[0], &z), "a refused text stores nothing");
        vs_reach("refused");
    }
    arg_freetable(table, 3);
    table[0] = d = arg_date0("t", "tm", fmt, NULL, "g");
    table[1] = end = arg_end(2);
    argv[1] = "-t";
    n = arg_parse(3, argv, table);
    vs_assert((n == 0) == ok && d->count == ok, "an option value is judged like a positional one");
    if (ok) vs_assert(same_tm(&d->tmval[0], &want), "an option value is stored like a positional one");
    else vs_assert(end->parent[0] == (void*)d && end->argval[0] == text, "the error names entry and argument");
    arg_freetable(table, 2);
}
#endif
