/* C18: arg_print_formatted() lays any text out in its column. */
#include "refsyntax.h"
#ifndef MINLEN
#define MINLEN 0
#endif
#ifndef WMIN
#define WMIN 1
#endif
#ifndef WMAX
#define WMAX 4
#endif
#ifndef LMAX
#define LMAX 2
#endif
static rs want;
static int blank(char c) { return (c == ' ') | (c == '\t') | (c == '\v') | (c == '\f') | (c == '\r'); }
void vs_main(void) {
#ifdef WIDTHS /* long texts: words of one length, with arbitrary characters at the end of a line */
    static const int widths[] = {WIDTHS}, words[] = {1, 4, 9, 25, 1000};
    int w = widths[vs_choose((int)(sizeof widths / sizeof *widths), "width")], left = 12 * vs_choose(LMAX + 1, "left"), size = words[vs_choose(5, "word")], at = vs_choose(4, "at"), line = 1 + vs_choose(2, "line");
#ifdef TOTALS /* every length of text */
    static const int totals[] = {TOTALS};
    int total = totals[vs_choose((int)(sizeof totals / sizeof *totals), "total")];
#else
    int total = line * w + 30 + 100 * vs_choose(3, "rest");
#endif
    char* t = (char*)malloc((size_t)total + 1);
    int n = total, p = 0, i, lines = 0, nonblank = 0, broken = 0;
#else
    char* t = sym_str_upto(MINLEN, LEN, "text");
    int w = WMIN + vs_choose(WMAX - WMIN + 1, "width"), left = vs_choose(LMAX + 1, "left"), n = (int)strlen(t), p = 0, i, lines = 0, nonblank = 0, broken = 0;
#endif
    FILE* fp = vs_file();
    const char *o, *q;
#ifdef ALPHABET
    restrict_to(t, ALPHABET);
#endif
#ifdef WIDTHS
    for (i = 0; i < n; i++) t[i] = (char)(i % (size + 1) == size ? ' ' : 'a' + i % 26);
#ifdef TOTALS
    vs_assume(at == 0 && line == 1);
    vs_bytes(t + n - 1, 1, "text");
    vs_assume(t[n - 1] != 0);
#else
    vs_bytes(t + line * w - 2 + at, 2, "text");
    vs_assume(t[line * w - 2 + at] != 0 && t[line * w - 1 + at] != 0);
#endif
    t[n] = 0;
    vs_limit(100000000);
#else
    vs_limit(3000000);
#endif
    KEEPS(arg_print_formatted(fp, (unsigned)left, (unsigned)(left + w - 1), t));
    o = vs_text(fp);
    vs_outs("text", o);
    /* what the documentation asks for, line by line */
    do {
        int e, nl = -1, last = -1;
        if (p > 0) for (i = 0; i < left; i++) rs_c(&want, ' ');
        while (p < n && blank(t[p])) p++;
        for (i = p; i < n && i <= p + w; i++) {
            if (t[i] == '\n') { nl = i; break; }
            if (i > p && blank(t[i])) last = i;
        }
        if (nl >= 0) { e = nl; vs_reach("line ended by the text"); }
        else if (n - p <= w) e = n;
        else if (last > p) { for (e = last; blank(t[e]); e--) {} e++; vs_reach("wrapped at white space"); }
        else { e = p + w; broken = 1; vs_reach("word broken"); }
        while (p < e) rs_c(&want, t[p++]);
        if (nl >= 0) p++;
        rs_c(&want, '\n');
        lines++;
    } while (p < n);
    vs_assert(same(o, want.b), "the text is laid out as documented");
    /* and the guarantees a reader relies on, on the output itself */
    for (q = o, i = 0; *q; q++) {
        if (*q == '\n') { i = 0; continue; }
        i++;
        vs_assert(i <= left + w, "no line is wider than the right margin");
    }
    for (q = o, i = 0; ; q++) {
        while (*q && (blank(*q) || *q == '\n')) q++;
        while (i < n && (blank(t[i]) || t[i] == '\n')) i++;
        if (!*q) break;
        nonblank++;
        vs_assert(i < n && t[i] == *q, "every character of every word appears, in order");
        i++;
    }
    vs_assert(i >= n, "no word is lost");
    if (lines > 2) vs_reach("several lines");
    if (nonblank == 0) vs_reach("blank text");
    (void)broken;
}
