/* C13/C14: arg_rex against the reference matcher. */
#include "refrex.h"
#ifndef TLEN
#define TLEN 4
#endif
#if MODE == 0 /* fixed well-formed patterns in which no repetition competes with what follows it: exact agreement */
static const char* pats[] = { PATTERNS };
#define NP ((int)(sizeof(pats) / sizeof(pats[0])))
#elif MODE == 2 /* repetitions that could also take what follows them: values with that character once, behind at least one repetition */
static const struct { const char* p; char stop; int least; } comp[] = { COMPETING };
#define NP ((int)(sizeof(comp) / sizeof(comp[0])))
#elif MODE == 3 /* malformed patterns: no value is accepted */
static const char* pats[] = { PATTERNS };
#define NP ((int)(sizeof(pats) / sizeof(pats[0])))
#endif
#if MODE == 4 /* two entries and two values, twice */
static const char* pats[] = { PATTERNS };
#define NP ((int)(sizeof(pats) / sizeof(pats[0])))
#ifndef LEN
#define LEN 2
#endif
static struct arg_rex* R[2];
static int which[2], icase[2];
#define ACCEPTS(e, v) rx_match(pats[which[e]], v, icase[e])
#define STORED(e, i, v) (R[e]->sval[i] == (v))
#define COUNT(e) R[e]->count
#include "pair.h"
void vs_main(void) {
    void* table[3];
    long live0 = vs_live_heap();
    int e;
    for (e = 0; e < 2; e++) { which[e] = vs_choose(NP, "pattern"); icase[e] = vs_choose(2, "icase"); table[e] = R[e] = arg_rexn(NULL, NULL, pats[which[e]], NULL, 0, 2, icase[e] ? ARG_REX_ICASE : 0, "g"); }
    table[2] = arg_end(3);
    pair_run(table, (struct arg_end*)table[2]);
    arg_freetable(table, 3);
    vs_assert(vs_live_heap() == live0, "nothing stays allocated");
}
#else
void vs_main(void) {
    char *pat, *text, *argv[4];
    void* table[2];
    struct arg_rex* rx;
    struct arg_end* end;
    int flags, n, want;
    long live0 = vs_live_heap();
#if MODE == 0 || MODE == 3
    pat = dup_str(pats[vs_choose(NP, "pattern")]);
#elif MODE == 2
    int which = vs_choose(NP, "pattern");
    pat = dup_str(comp[which].p);
#else
    pat = sym_str_upto(PMIN, PLEN, "pattern");
#ifdef ALPHABET
    restrict_to(pat, ALPHABET);
#endif
#ifdef PPREFIX
    { const char* q; int j; for (q = PPREFIX, j = 0; *q; q++, j++) vs_assume(pat[j] == *q); }
#endif
#endif
#ifdef FLAGS
    flags = FLAGS;
#else
    flags = vs_choose(2, "icase");
#endif
    text = sym_str_upto(0, TLEN, "text");
#ifdef TALPHABET
    restrict_to(text, TALPHABET);
#endif
#if MODE == 2
    { int j, k = 0; for (j = 0; text[j]; j++) { k += text[j] == comp[which].stop; vs_assume(j >= comp[which].least || text[j] != comp[which].stop); } vs_assume(k == 1); }
#endif
    table[0] = rx = arg_rexn(NULL, NULL, pat, NULL, 0, 2, flags, "g");
    table[1] = end = arg_end(2);
    vs_assert(rx != NULL, "constructor succeeds");
    argv[0] = "p"; argv[1] = "--"; argv[2] = text; argv[3] = NULL;
    n = arg_parse(3, argv, table);
    vs_out("errors", n);
    vs_out("count", rx->count);
    vs_assert((n == 0 && rx->count == 1) || (n == 1 && rx->count == 0), "the value is either stored or refused");
    if (n == 0) vs_assert(rx->sval[0] == text, "the stored value is the argument");
    else vs_assert(end->parent[0] == (void*)rx && end->argval[0] == text, "the error names entry and argument");
    want = rx_match(pat, text, flags & ARG_REX_ICASE);
#if MODE == 0 || MODE == 2
    vs_assert(!rx_odd, "harness: well-formed pattern");
    vs_assert(want == (n == 0), "accepted exactly when the whole value matches the pattern");
    if (n == 0) vs_reach("match");
    else vs_reach("no match");
#elif MODE == 3
    vs_assert(rx_odd, "harness: malformed pattern");
    vs_assert(n == 1, "a pattern that does not compile accepts nothing");
    vs_reach("malformed pattern");
#else
    if (!rx_odd) {
        if (n == 0) vs_assert(want, "a value that does not match the pattern is never accepted");
        vs_reach("well-formed pattern");
    } else vs_reach("malformed pattern");
#endif
    arg_freetable(table, 2);
    free(pat); free(text);
    vs_assert(vs_live_heap() == live0, "nothing stays allocated");
}
#endif
