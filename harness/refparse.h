/* Reference model of the command-line grammar, written from the documented behaviour:
 *  -x, -xVALUE, -x VALUE, clusters -xyz, --name, --name=VALUE, --name VALUE, unique abbreviations,
 *  "--" ends the options, "-" and everything else is positional, options and positionals may be
 *  interleaved, positionals are handed to the untagged entries in table order (an entry keeps
 *  taking arguments until it refuses one; a refused argument is offered to the next entries).
 * Works on token texts only; fills in, for each entry, the list of values it must have received
 * and the list of errors that must be reported. */
#ifndef REFPARSE_H
#define REFPARSE_H
#include "common.h"
#include "refint.h"
#ifndef RP_MAXV
#define RP_MAXV 8
#endif
#ifndef RP_MAXP
#define RP_MAXP 40
#endif
#define RP_MAXE (RP_MAXP + 40)
/* T_DBL: what strtod() accepts as a whole; T_REX: the pattern [a-c]+; T_DATE: the format %H */
enum { T_LIT, T_STR, T_INT, T_FILE, T_DBL, T_REX, T_DATE, T_REM, T_END };
typedef struct { int type; int lo, hi; const char* s; const char* l; int opt; int n; const char* v[RP_MAXV]; int iv[RP_MAXV]; } rp_ent;
typedef struct { int code; int ent; const char* arg; } rp_err; /* ent -1: the end entry; code only meaningful then */
static rp_ent* rp_t;
static int rp_nt;
static rp_err rp_e[RP_MAXE];
static int rp_ne;
static int rp_funny; /* the command line has a '-' inside a short-option cluster: not specified here */

static void rp_error(int code, int ent, const char* arg) {
    rp_e[rp_ne].code = code;
    rp_e[rp_ne].ent = ent;
    rp_e[rp_ne].arg = arg;
    rp_ne++;
}
/* value accepted by an entry? 0 yes, else refused */
static int rp_give(int k, const char* v) {
    rp_ent* e = &rp_t[k];
    if (e->n >= e->hi && e->n >= e->lo) return 1; /* a maximum below the minimum counts as the minimum */
    if (e->type == T_INT && v && ref_int(v, &e->iv[e->n])) return 2;
    if (e->type == T_DBL && v) { char* x; strtod(v, &x); if (x == v || *x) return 2; }
    if (e->type == T_REX && v) { const char* q; for (q = v; (*q >= 'a') & (*q <= 'c'); q++) {} if (q == v || *q) return 2; }
    if (e->type == T_DATE && v) { /* one or two digits, up to 23; no second digit where it cannot belong */
        if (!((v[0] >= '0') & (v[0] <= '9'))) return 2;
        e->iv[e->n] = v[0] - '0';
        if ((v[0] <= '2') & (v[1] >= '0') & (v[1] <= '9')) { e->iv[e->n] = (v[0] - '0') * 10 + v[1] - '0'; if (v[2] || e->iv[e->n] > 23) return 2; }
        else if (v[1]) return 2;
    }
    e->v[e->n++] = v;
    return 0;
}
static int rp_has_value(rp_ent* e) { return e->type != T_LIT && e->type != T_REM; }
static void rp_option(int k, const char* v) {
    if (rp_give(k, v)) rp_error(0, k, v);
}
/* iterate over the comma separated long names of an entry */
static int rp_name(const char* l, int idx, const char** s, int* n) {
    int i;
    for (;; l++) {
        for (i = 0; l[i] && l[i] != ','; i++) {}
        if (idx == 0) { *s = l; *n = i; return 1; }
        if (!l[i]) return 0;
        idx--;
        l += i;
    }
}
static void rp_long(int argc, char** argv, int* i) {
    const char* a = argv[*i];
    const char* name = a + 2;
    const char* eq = strchr(name, '=');
    int len = eq ? (int)(eq - name) : (int)strlen(name);
    int k, j, nn, hit = -1, exact = 0, ambiguous = 0;
    const char* s;
    for (k = 0; k < rp_nt && !exact; k++) {
        if (!rp_t[k].l) continue;
        for (j = 0; rp_name(rp_t[k].l, j, &s, &nn); j++) {
            if (len > nn || strncmp(s, name, (size_t)len) != 0) continue;
            if (len == nn) { exact = 1; hit = k; break; }
            if (hit < 0) hit = k;
            else if (hit != k) ambiguous = 1;
        }
    }
    (*i)++;
    if (hit < 0 || (!exact && ambiguous)) { rp_error(ARG_ELONGOPT, -1, a); return; }
    if (!rp_has_value(&rp_t[hit])) {
        if (eq) rp_error(ARG_ELONGOPT, -1, a); else rp_option(hit, NULL);
        return;
    }
    if (eq) {
        if (eq[1] == 0) rp_error(ARG_EMISSARG, -1, a);
        rp_option(hit, eq + 1);
        return;
    }
    if (rp_t[hit].opt) { rp_option(hit, NULL); return; }
    if (*i >= argc) { rp_error(ARG_EMISSARG, -1, a); return; }
    s = argv[(*i)++];
    if (s[0] == 0) rp_error(ARG_EMISSARG, -1, s);
    rp_option(hit, s);
}
static void rp_cluster(int argc, char** argv, int* i) {
    const char* p = argv[*i] + 1;
    (*i)++;
    for (; *p; p++) {
        int k;
        if (*p == '-') { rp_funny = 1; return; }
        for (k = 0; k < rp_nt; k++)
            if (rp_t[k].s && strchr(rp_t[k].s, *p)) break;
        if (k == rp_nt) { rp_error(*p, -1, NULL); continue; }
        if (!rp_has_value(&rp_t[k])) { rp_option(k, NULL); continue; }
        if (p[1]) { rp_option(k, p + 1); return; }
        if (rp_t[k].opt) { rp_option(k, NULL); return; }
        if (*i >= argc) { rp_error(ARG_EMISSARG, -1, argv[argc - 1]); return; }
        rp_option(k, argv[(*i)++]);
        return;
    }
}
static void rp_parse(int argc, char** argv, rp_ent* t, int nt, int posix) {
    const char* pos[RP_MAXP];
    int np = 0, i = 1, k, p;
    rp_t = t; rp_nt = nt; rp_ne = 0; rp_funny = 0;
    for (k = 0; k < nt; k++) t[k].n = 0;
    while (i < argc) {
        const char* a = argv[i];
        if (a[0] == '-' && a[1] == '-' && a[2] == 0) { i++; break; }
        if (a[0] != '-' || a[1] == 0) { if (posix) break; pos[np++] = a; i++; continue; }
        if (a[1] == '-') rp_long(argc, argv, &i); else rp_cluster(argc, argv, &i);
    }
    for (; i < argc; i++) pos[np++] = argv[i];
    p = 0; k = 0;
    {
        int last = -1;
        while (k < nt && p < np) {
            if (t[k].s || t[k].l || t[k].type == T_REM) { k++; continue; }
            if (rp_give(k, pos[p]) == 0) { p++; last = -1; } else { last = k; k++; }
        }
        if (last >= 0 && p < np) { rp_error(0, last, pos[p]); p++; }
        for (; p < np; p++) rp_error(ARG_ENOMATCH, -1, pos[p]);
    }
    if (rp_ne == 0)
        for (k = 0; k < nt; k++)
            if (t[k].type != T_REM && t[k].n < t[k].lo) rp_error(0, k, NULL);
}
#endif
