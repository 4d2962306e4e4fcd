/* Reference grammar of integer arguments:
 *   ws* [+-] ( 0x HEX+ | 0o OCT+ | 0b BIN+ | DEC+ ) [KB|MB|GB] ws*      (letters in either case)
 * returns 0 and the value, 1 for a malformed text, 2 when the value does not fit an int */
#ifndef REFINT_H
#define REFINT_H
static int ri_ws(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static int ri_digit(char c, int base) { /* -1 if not a digit */
    int d = c - '0', lc = c | 32, h = lc - 'a' + 10;
    if (base == 16) return vs_ite((c >= '0') & (c <= '9'), d, vs_ite((lc >= 'a') & (lc <= 'f'), h, -1));
    return vs_ite((d >= 0) & (d < base), d, -1);
}
static int ri_up(char c, char u) { return (c == u) | (c == u + 32); }
static int ref_int(const char* s, int* out) {
    int neg = 0, base = 10, nd = 0, big = 0;
    long v = 0, lim = 1L << 40, mul = 1;
    while (ri_ws(*s)) s++;
    if ((*s == '+') | (*s == '-')) { neg = *s == '-'; s++; }
    if (*s == '0') {
        if (ri_up(s[1], 'X')) base = 16; else if (ri_up(s[1], 'O')) base = 8; else if (ri_up(s[1], 'B')) base = 2;
        if (base != 10) s += 2;
    }
    for (; ri_digit(*s, base) >= 0; s++) {
        nd++;
        v = v * base + (ri_digit(*s, base) & 15);
        if (v >= lim) { big = 1; v = lim; }
    }
    if (!nd) return 1;
    if (ri_up(s[0], 'K') && ri_up(s[1], 'B')) { mul = 1024; s += 2; }
    else if (ri_up(s[0], 'M') && ri_up(s[1], 'B')) { mul = 1024 * 1024; s += 2; }
    else if (ri_up(s[0], 'G') && ri_up(s[1], 'B')) { mul = 1024L * 1024 * 1024; s += 2; }
    while (ri_ws(*s)) s++;
    if (*s) return 1;
    if (big) return 2;
    if (neg ? v > 2147483648L / mul : v > 2147483647L / mul) return 2;
    *out = (int)(neg ? -v * mul : v * mul);
    return 0;
}
#endif
