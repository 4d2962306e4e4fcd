/* C13/C14: long patterns and values. Each shape has one arbitrary character in the value, and an
 * expected verdict that follows from the shape alone. */
#include "common.h"
static const int sizes[] = {SIZES};
#define NS ((int)(sizeof sizes / sizeof *sizes))
#ifdef REPEATS /* only repetitions of short parts */
static const int shapes[] = {3, 4, 5, 6, 7, 14, 15, 16};
#define SHAPE shapes[vs_choose(8, "shape")]
#else
#define SHAPE vs_choose(18, "shape")
#endif
static char pat[8000], text[8000];
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int eq(int a, int b, int ic) { return ic ? up(a) == up(b) : a == b; }
static void many(char* to, const char* unit, int n) { *to = 0; for (; n > 0; n--) { strcpy(to, unit); to += strlen(to); } }
void vs_main(void) {
    void* table[2];
    struct arg_rex* rx;
    struct arg_end* end;
    char* argv[4];
    int n = sizes[vs_choose(NS, "size")], sh = SHAPE, ic = vs_choose(2, "icase"), i, want = 0, at, len, c, err;
    long live0 = vs_live_heap();
    char *p, *v;
    vs_limit(500000000);
    /* the value, before one character of it is made arbitrary */
    switch (sh) {
        case 0: case 1: case 2: for (i = 0; i < n; i++) { pat[i] = (char)((i & 1 ? 'A' : 'a') + i % 26); text[i] = pat[i]; } text[n + (sh == 1) - (sh == 2)] = 0; if (sh == 1) text[n] = 'q'; break;
        case 3: sprintf(pat, "[a-c]{%d}", n); many(text, "b", n); break;
        case 4: sprintf(pat, "[a-c]{%d}", n); many(text, "b", n + 1); break;
        case 5: sprintf(pat, "[a-c]{%d}", n + 1); many(text, "b", n); break;
        case 6: sprintf(pat, "(xy){%d,}", n); many(text, "xy", n + 1); break;
        case 7: sprintf(pat, "[a-c]{1,%d}", n); many(text, "b", n); break;
        case 8: case 9: /* alternatives */
            for (p = pat, i = 0; i < n; i++, p += strlen(p)) sprintf(p, "%sw%03d", i ? "|" : "", i * 2);
            sprintf(text, "w%03d", sh == 8 ? (n - 1) * 2 : n / 2 * 2);
            break;
        case 10: many(pat, sh & 1 ? "(?:" : "(", n); strcat(pat, "[a-m]"); many(pat + strlen(pat), ")", n); strcpy(text, "b"); break;
        case 11: many(pat, "(a)", n); many(text, "a", n); break;
        case 12: many(pat, "[x-z]\\d", n); many(text, "y5", n); break;
        case 13: strcpy(pat, "[^"); for (p = pat + 2, i = 0; i < n; i++) *p++ = (char)('a' + i % 26); strcpy(p, "]+"); many(text, "_", n); break;
        case 14: strcpy(pat, "(ab)*"); many(text, "ab", n); break;
        case 15: strcpy(pat, "\\w+-\\d+"); many(text, "k", n); strcat(text, "-"); many(text + strlen(text), "4", n); break;
        case 16: strcpy(pat, "(.*)\\.c"); many(text, "k", n); strcat(text, ".c"); break;
        default: many(pat, "a?", n); many(text, "a", n / 2 + 1); break;
    }
    len = (int)strlen(text);
    if (len == 0) { vs_assume(0); return; }
    at = vs_choose(3, "where");
    at = at == 0 ? 0 : at == 1 ? len - 1 : len / 2;
    i = text[at];
    v = dup_str(text); p = dup_str(pat);
    vs_bytes(v + at, 1, "char");
    vs_assume(v[at] != 0);
    c = (unsigned char)v[at];
    switch (sh) {
        case 0: want = eq(c, i, ic); break;
        case 1: case 2: case 4: case 5: want = 0; break;
        case 3: case 7: want = (c >= 'a' && c <= 'c') || (ic && c >= 'A' && c <= 'C'); break;
        case 6: case 11: case 14: want = eq(c, i, ic); break;
        case 8: case 9:
            if (at == 0) want = eq(c, 'w', ic);
            else { int k = 0, j; char b[8]; strcpy(b, v); for (j = 1; j < 4; j++) if (b[j] < '0' || b[j] > '9') k = -1; else if (k >= 0) k = k * 10 + (b[j] - '0'); want = k >= 0 && k % 2 == 0 && k / 2 < n; }
            break;
        case 10: want = (c >= 'a' && c <= 'm') || (ic && c >= 'A' && c <= 'M'); break;
        case 12: want = i == '5' ? (c >= '0' && c <= '9') : (c >= 'x' && c <= 'z') || (ic && c >= 'X' && c <= 'Z'); break;
        case 13: want = !((c >= 'a' && c < 'a' + (n > 26 ? 26 : n)) || (ic && c >= 'A' && c < 'A' + (n > 26 ? 26 : n))); break;
        case 15: /* an arbitrary character in the first, last or middle place ('-') */
            if (at == 0) want = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_';
            else if (at == len - 1) want = c >= '0' && c <= '9';
            else want = c == '-';
            break;
        case 16: /* the character behind a repetition that could take it as well, once */
            if (i == 'k') { vs_assume(c != '.'); want = 1; } else want = eq(c, i, ic);
            break;
        default: want = eq(c, 'a', ic); break;
    }
    table[0] = rx = arg_rexn(NULL, NULL, p, NULL, 0, 2, ic ? ARG_REX_ICASE : 0, "g");
    table[1] = end = arg_end(2);
    argv[0] = "p"; argv[1] = "--"; argv[2] = v; argv[3] = NULL;
    err = arg_parse(3, argv, table);
    vs_out("errors", err);
    vs_assert((err == 0 && rx->count == 1) || (err == 1 && rx->count == 0), "the value is either stored or refused");
    vs_assert(want == (err == 0), "accepted exactly when the whole value matches the pattern");
    if (err == 0) { vs_assert(rx->sval[0] == v, "the stored value is the argument"); vs_reach("match"); }
    else { vs_assert(end->parent[0] == (void*)rx && end->argval[0] == v, "the error names entry and argument"); vs_reach("no match"); }
    arg_freetable(table, 2);
    free(v); free(p);
    vs_assert(vs_live_heap() == live0, "nothing stays allocated");
}
