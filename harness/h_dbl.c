/* C10: arg_dbl accepts exactly the texts strtod() accepts as a whole and stores strtod()'s value. */
#include "common.h"
#include <errno.h>
#ifndef LEN
#define LEN 4
#endif
#ifndef MINLEN
#define MINLEN 0
#endif
static const char* known[] = {"0.1", "-2.5", "1e300", "1e-300", "3.141592653589793", "16777217", "0x1.8p1", "inf", "-inf", "-0", "123456789.123456789", "4.9e-324", "1e999", "9007199254740993", " 7.25", "+.5", "5.", "1.5x", "1,5", "--1", "1e", "0x", "1 ", "e5", "1e-999", "-1e999", "2e-310", "nan", "-INFINITY", "0e999", "000.000e-5"};
#define NK ((int)(sizeof(known) / sizeof(known[0])))
static int samebits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
void vs_main(void) {
    char *text, *second, *argv[5], *e;
    void* table[3];
    struct arg_dbl* d;
    struct arg_str* rest;
    struct arg_end* end;
    int n, ok;
    double want;
#ifdef KNOWN
    text = dup_str(known[vs_choose(NK, "which")]);
#elif defined(PADS) /* long texts */
    static const int pads[] = {PADS};
    int np = (int)(sizeof pads / sizeof *pads), sh = vs_choose(6, "shape"), n1 = pads[vs_choose(np, "pad")];
    vs_limit(50000000);
    text = padded(sh == 0 || sh == 3 ? n1 : 0, ' ', sh == 1 || sh >= 3 ? n1 : 0, sh == 5 ? '0' : '7', sh == 2 || sh >= 3 ? n1 : 0, sh == 4 ? ' ' : '3', 1, "text");
#else
    text = sym_str_upto(MINLEN, LEN, "text");
#ifdef ALPHABET
    restrict_to(text, ALPHABET);
#endif
#endif
    second = dup_str("2.5");
    want = strtod(text, &e);
    ok = e != text && *e == 0;
    errno = ERANGE; /* whatever went before */
    table[0] = d = arg_dbln(NULL, NULL, NULL, 0, 2, "g");
    table[1] = rest = arg_strn(NULL, NULL, NULL, 0, 2, "g");
    table[2] = end = arg_end(2);
    argv[0] = "p"; argv[1] = "--"; argv[2] = text; argv[3] = second; argv[4] = NULL;
    n = arg_parse(4, argv, table);
    vs_out("count", d->count);
    vs_assert(n == 0 && d->count + rest->count == 2, "the value goes to the first entry that accepts it");
    if (ok) {
        vs_assert(d->count == 2, "every floating-point text is accepted");
        vs_assert(samebits(d->dval[0], want), "the stored value is strtod's");
        vs_assert(samebits(d->dval[1], 2.5), "values are stored in order");
        vs_reach("accepted");
    } else {
        vs_assert(d->count == 0, "only a complete floating-point text is accepted");
        vs_reach("refused");
    }
    arg_freetable(table, 3);
    table[0] = d = arg_dbl0("d", "db", NULL, "g");
    table[1] = end = arg_end(2);
    argv[1] = "-d"; argv[3] = NULL;
    n = arg_parse(3, argv, table);
    vs_assert((n == 0) == ok, "an option value is judged like a positional one");
    vs_assert(d->count == ok, "a refused value is not counted");
    if (ok) vs_assert(samebits(d->dval[0], want), "an option value is stored like a positional one");
    else vs_assert(end->parent[0] == (void*)d && end->argval[0] == text, "the error names entry and argument");
    arg_freetable(table, 2);
}
