/* Reference matcher for the regular-expression language of arg_rex: the whole text must match.
 * Set-of-positions (NFA) semantics over the pattern text: bit i of a mask says that the first i
 * characters of the text can be consumed. No backtracking, no branching on the text. */
#ifndef REFREX_H
#define REFREX_H
#include "common.h"
static const char* rx_p;    /* position in the pattern */
static const char* rx_text;
static int rx_len, rx_icase;
static int rx_odd;          /* the pattern is malformed or relies on an unspecified construct */

static int rx_lower(int c) { return c + 32 * ((c >= 'A') & (c <= 'Z')); }
static int rx_upper(int c) { return c - 32 * ((c >= 'a') & (c <= 'z')); }
static int rx_in(int c, int a, int b) { return (c >= a) & (c <= b); }
static int rx_cclass(int k, int c) {
    int up = rx_in(c, 'A', 'Z'), lo = rx_in(c, 'a', 'z'), dg = rx_in(c, '0', '9'), gr = rx_in(c, 33, 126);
    switch (k) {
        case 'a': return up | lo;
        case 'A': return 1 ^ (up | lo);
        case 'w': return up | lo | dg | (c == '_');
        case 'W': return 1 ^ (up | lo | dg | (c == '_'));
        case 's': return (c == ' ') | rx_in(c, 9, 13);
        case 'S': return 1 ^ ((c == ' ') | rx_in(c, 9, 13));
        case 'd': return dg;
        case 'D': return 1 ^ dg;
        case 'x': return dg | rx_in(c, 'a', 'f') | rx_in(c, 'A', 'F');
        case 'X': return 1 ^ (dg | rx_in(c, 'a', 'f') | rx_in(c, 'A', 'F'));
        case 'c': return rx_in(c, 1, 31) | (c == 127);
        case 'C': return 1 ^ (rx_in(c, 1, 31) | (c == 127));
        case 'p': return gr & (1 ^ (up | lo | dg));
        case 'P': return 1 ^ (gr & (1 ^ (up | lo | dg)));
        case 'l': return lo;
        case 'u': return up;
    }
    return 0;
}
static int rx_same(int c, int k) { return rx_icase ? (c == rx_lower(k)) | (c == rx_upper(k)) : c == k; }
static int rx_range(int c, int a, int b) { return rx_icase ? rx_in(c, rx_lower(a), rx_lower(b)) | rx_in(c, rx_upper(a), rx_upper(b)) : rx_in(c, a, b); }
static int rx_special(int e) { const char* q = "aAwWsSdDxXcCpPlu"; for (; *q; q++) if (*q == e) return 1; return 0; }
static int rx_escape(int e) { switch (e) { case 'n': return '\n'; case 't': return '\t'; case 'r': return '\r'; case 'f': return '\f'; case 'v': return '\v'; } return e; }
static int rx_printable(int c) { return c >= 32 && c <= 126; }

/* one-character test at rx_p: kind of test plus its text; returns the mask of characters accepted at each position */
static int rx_class_body(const char* q, int neg, int c, const char** endq) {
    int hit = 0;
    if (*q == ']' || *q == 0) { rx_odd = 1; *endq = q; return 0; }
    while (*q && *q != ']') {
        int lo, cls = 0;
        if (*q == '-') { rx_odd = 1; *endq = q; return 0; } /* '-' only between two characters */
        if (*q == '\\') { q++; if (!*q) { rx_odd = 1; break; } cls = rx_special(*q) ? *q : 0; if (*q == 'b' || *q == 'B') rx_odd = 1; lo = rx_escape(*q); q++; }
        else { if (!rx_printable(*q)) { rx_odd = 1; break; } lo = *q++; }
        if (*q == '-') {
            int hi;
            q++;
            if (cls || *q == 0 || *q == ']') { rx_odd = 1; break; }
            if (*q == '\\') { q++; if (!*q || rx_special(*q) || *q == 'b' || *q == 'B') { rx_odd = 1; break; } hi = rx_escape(*q); q++; }
            else { if (!rx_printable(*q)) { rx_odd = 1; break; } hi = *q++; }
            if (lo > hi) { rx_odd = 1; break; }
            hit |= rx_range(c, lo, hi);
        } else if (cls) hit |= rx_cclass(cls, c);
        else hit |= rx_same(c, lo);
    }
    if (*q != ']') rx_odd = 1;
    *endq = q;
    return neg ? 1 ^ hit : hit;
}
static int rx_list(int m);
static int rx_step(int m, int i, int t) { return (((m >> i) & 1) & t) << (i + 1); }
static int rx_wordc(int i) { return i < 0 || i >= rx_len ? 0 : rx_cclass('S', rx_text[i]); }
/* applies the atom at rx_p to the mask; leaves rx_p after it */
static int rx_atom(int m) {
    const char* q = rx_p;
    int i, r = 0;
    switch (*q) {
        case '(':
            q++;
            if (*q == '?') { if (q[1] != ':') { rx_odd = 1; return 0; } q += 2; }
            rx_p = q;
            r = rx_list(m);
            if (rx_odd) return 0;
            if (*rx_p != ')') { rx_odd = 1; return 0; }
            rx_p++;
            return r;
        case '[': {
            int neg = q[1] == '^';
            const char* e = q;
            for (i = 0; i < rx_len; i++) { r |= rx_step(m, i, rx_class_body(q + 1 + neg, neg, rx_text[i], &e)); if (rx_odd) return 0; }
            if (rx_len == 0) { rx_class_body(q + 1 + neg, neg, 0, &e); if (rx_odd) return 0; }
            rx_p = e + 1;
            return r;
        }
        case '$': rx_p++; return m & (1 << rx_len);
        case '.':
            rx_p++;
            for (i = 0; i < rx_len; i++) r |= rx_step(m, i, 1);
            return r;
        case '\\':
            q++;
            if (!*q || !rx_printable(*q)) { rx_odd = 1; return 0; }
            rx_p = q + 1;
            if (*q == 'b' || *q == 'B') { /* the edges of words, which are separated by white space */
                for (i = 0; i <= rx_len; i++) r |= (rx_wordc(i - 1) ^ rx_wordc(i) ^ (*q == 'B')) << i;
                return m & r;
            }
            for (i = 0; i < rx_len; i++) r |= rx_step(m, i, rx_special(*q) ? rx_cclass(*q, rx_text[i]) : rx_same(rx_text[i], rx_escape(*q)));
            return r;
        case 0: case ')': case '|': case '*': case '+': case '?': case '{': case '}': case ']': case '^':
            rx_odd = 1;
            return 0;
        default:
            if (!rx_printable(*q)) { rx_odd = 1; return 0; }
            rx_p++;
            for (i = 0; i < rx_len; i++) r |= rx_step(m, i, rx_same(rx_text[i], *q));
            return r;
    }
}
static int rx_number(void) { int v = 0, n = 0; while (*rx_p >= '0' && *rx_p <= '9') { v = v * 10 + (*rx_p++ - '0'); if (++n > 4) { rx_odd = 1; return 0; } } return v; }
/* atom with an optional quantifier */
static int rx_piece(int m) {
    const char* at = rx_p;
    const char* after;
    int lo = 1, hi = 1, i, r, acc;
    r = rx_atom(m);
    if (rx_odd) return 0;
    switch (*rx_p) {
        case '*': lo = 0; hi = -1; rx_p++; break;
        case '+': lo = 1; hi = -1; rx_p++; break;
        case '?': lo = 0; hi = 1; rx_p++; break;
        case '{':
            rx_p++;
            if (*rx_p < '0' || *rx_p > '9') { rx_odd = 1; return 0; }
            lo = rx_number(); hi = lo;
            if (*rx_p == ',') { rx_p++; hi = -1; if (*rx_p >= '0' && *rx_p <= '9') hi = rx_number(); }
            if (*rx_p != '}' || rx_odd || (hi >= 0 && hi < lo)) { rx_odd = 1; return 0; }
            rx_p++;
            break;
        default: return r;
    }
    if (*rx_p == '*' || *rx_p == '+' || *rx_p == '?' || *rx_p == '{') { rx_odd = 1; return 0; }
    after = rx_p;
    acc = lo == 0 ? m : 0;
    for (i = 1; hi < 0 ? (i <= lo || i <= lo + rx_len) : i <= hi; i++) {
        if (i > 1) { rx_p = at; r = rx_atom(r); }
        if (i >= lo) acc |= r;
        if (i > lo + rx_len + 1) break; /* nothing new can be reached */
    }
    rx_p = after;
    return acc;
}
static int rx_seq(int m) {
    int n = 0;
    if (*rx_p == '^') { rx_p++; m &= 1; }
    while (*rx_p && *rx_p != '|' && *rx_p != ')') { m = rx_piece(m); if (rx_odd) return 0; n++; }
    if (n == 0) rx_odd = 1;
    return m;
}
static int rx_list(int m) {
    int r = rx_seq(m);
    while (!rx_odd && *rx_p == '|') { rx_p++; r |= rx_seq(m); }
    return rx_odd ? 0 : r;
}
static int rx_match(const char* pattern, const char* text, int icase) {
    int r;
    rx_p = pattern; rx_text = text; rx_len = (int)strlen(text); rx_icase = icase; rx_odd = 0;
    r = rx_list(1);
    if (!rx_odd && *rx_p) rx_odd = 1;
    return rx_odd ? 0 : (r >> rx_len) & 1;
}
#endif
