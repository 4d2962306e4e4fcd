/* Reference rendering of option syntax, written from the documented output formats. */
#ifndef REFSYNTAX_H
#define REFSYNTAX_H
#include "common.h"
#ifndef RS_MAX
#define RS_MAX 6000
#endif
typedef struct { char b[RS_MAX]; int n; } rs;
static void rs_c(rs* r, char c) { r->b[r->n++] = c; r->b[r->n] = 0; }
static void rs_s(rs* r, const char* s) { while (*s) rs_c(r, *s++); }
static void rs_pad(rs* r, const char* s, int w) { int n = (int)strlen(s); rs_s(r, s); for (; n < w; n++) rs_c(r, ' '); }
static void rs_type(rs* r, const char* lead, const char* dt, int opt) { if (!dt) return; rs_s(r, lead); if (opt) rs_c(r, '['); rs_s(r, dt); if (opt) rs_c(r, ']'); }
/* every name: "-a|-b|--long|--other=<type>" */
static void rs_all(rs* r, const char* s, const char* l, const char* dt, int opt, const char* sep) {
    int first = 1;
    for (; s && *s; s++) { if (!first) rs_s(r, sep); rs_c(r, '-'); rs_c(r, *s); first = 0; }
    while (l && *l) {
        if (!first) rs_s(r, sep);
        rs_s(r, "--");
        while (*l && *l != ',') rs_c(r, *l++);
        if (*l) l++;
        first = 0;
    }
    (void)0;
}
static void rs_allt(rs* r, const char* s, const char* l, const char* dt, int opt, const char* sep) {
    rs_all(r, s, l, dt, opt, sep);
    rs_type(r, l ? "=" : s ? " " : "", dt, opt);
}
/* the first name only: "-a <type>" or "--long=<type>" */
static void rs_one(rs* r, const char* s, const char* l, const char* dt, int opt) {
    if (s) { rs_c(r, '-'); rs_c(r, s[0]); }
    else if (l) { rs_s(r, "--"); while (*l && *l != ',') rs_c(r, *l++); }
    rs_type(r, s ? " " : l ? "=" : "", dt, opt);
}
static void rs_times(rs* r, const char* syn, int lo, int hi) {
    int i;
    for (i = 0; i < lo; i++) { rs_c(r, ' '); rs_s(r, syn); }
    if (hi - lo == 1 || hi - lo == 2) for (i = 0; i < hi - lo; i++) { rs_s(r, " ["); rs_s(r, syn); rs_c(r, ']'); }
    else if (hi > lo) { rs_s(r, " ["); rs_s(r, syn); rs_s(r, "]..."); }
}
#endif
