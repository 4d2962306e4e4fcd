/* C09: arg_int accepts exactly the documented integer texts and stores exactly their value. */
#include "common.h"
#include <errno.h>
#include "refint.h"
#ifndef LEN
#define LEN 4
#endif
#ifndef MINLEN
#define MINLEN 0
#endif
void vs_main(void) {
    char *text, *argv[4], buf[1200];
    void* table[3];
    struct arg_int* e;
    struct arg_str* rest;
    struct arg_end* end;
    int n, want = 0, err;
#ifdef SHAPE /* sign, base prefix, digits, suffix */
    static const char* pre[] = {"", "-", "+", " \t-"};
    static const char* suf[] = {"", "KB", "Mb", "gB", " ", "KB ", "K"};
    int nd = ND_MIN + (ND_MAX > ND_MIN ? vs_choose(ND_MAX - ND_MIN + 1, "digits") : 0), i, k;
    strcpy(buf, pre[vs_choose(4, "sign")]);
    strcat(buf, BASE);
    k = (int)strlen(buf);
    vs_bytes(buf + k, (size_t)nd, "digit");
    buf[k + nd] = 0;
    for (i = 0; i < nd; i++) vs_assume(buf[k + i] != 0);
    restrict_to(buf + k, DIGITS);
    strcat(buf + k, suf[vs_choose(7, "suffix")]);
    text = dup_str(buf);
#elif defined(PADS) /* long texts: blanks, zeros and digits in quantity around arbitrary characters */
    static const int pads[] = {PADS};
    static const char* bp[] = {"", "0x", "0B", "0o"};
    int np = (int)(sizeof pads / sizeof *pads), sh = vs_choose(5, "shape"), n1 = pads[vs_choose(np, "pad")], bi = vs_choose(4, "base"), k;
    char* b = buf;
    if (sh == 0 || sh == 3) { memset(b, ' ', (size_t)n1); b += n1; }
    if (vs_choose(2, "minus")) *b++ = '-';
    strcpy(b, bp[bi]); b += strlen(b);
    if (sh == 1 || sh == 3) { memset(b, '0', (size_t)n1); b += n1; }
    if (sh == 4) { memset(b, '1', (size_t)n1); b += n1; }
    vs_bytes(b, 2, "digit"); vs_assume(b[0] != 0 && b[1] != 0); b += 2;
    *b = 0;
    k = vs_choose(3, "suffix"); strcpy(b, k == 0 ? "" : k == 1 ? "kB" : "GB"); b += strlen(b);
    if (sh == 2 || sh == 3) { memset(b, ' ', (size_t)n1); b += n1; }
    *b = 0;
    text = dup_str(buf);
#else
    text = sym_str_upto(MINLEN, LEN, "text");
#ifdef ALPHABET
    restrict_to(text, ALPHABET);
#endif
    (void)buf;
#endif
    errno = ERANGE; /* whatever went before */
    table[0] = e = arg_intn(NULL, NULL, NULL, 0, 2, "g");
    table[1] = rest = arg_strn(NULL, NULL, NULL, 0, 1, "g");
    table[2] = end = arg_end(2);
    argv[0] = "p"; argv[1] = "--"; argv[2] = text; argv[3] = NULL;
    n = arg_parse(3, argv, table);
    err = ref_int(text, &want);
    vs_out("count", e->count);
    vs_assert(n == 0 && e->count + rest->count == 1, "the value goes to the first entry that accepts it");
    if (e->count) {
        vs_out("value", e->ival[0]);
        vs_assert(!err, "only an integer text is accepted");
        vs_assert(e->ival[0] == want, "the stored value is the one written");
        vs_reach("accepted");
    } else {
        vs_assert(err, "every integer text that fits is accepted");
        vs_reach("refused");
    }
    arg_freetable(table, 3);
    /* and as an option value */
    table[0] = e = arg_int0("i", "in", NULL, "g");
    table[1] = end = arg_end(2);
    argv[1] = "-i"; argv[2] = text;
    n = arg_parse(3, argv, table);
    vs_assert((n == 0) == !err, "an option value is judged like a positional one");
    vs_assert(e->count == !err, "a refused value is not counted");
    if (!err) vs_assert(e->ival[0] == want, "an option value is stored like a positional one");
    else vs_assert(end->parent[0] == (void*)e && end->argval[0] == text, "the error names entry and argument");
    arg_freetable(table, 2);
}
