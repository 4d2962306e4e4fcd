/* C24: entries written by the application: their callbacks are called exactly as documented, whatever they return. */
#include "refsyntax.h"
#ifndef NARG
#define NARG 3
#endif
#ifndef ROOM
#define ROOM 3
#endif
typedef struct { struct arg_hdr hdr; int id; } ent;
enum { RESET, SCAN, CHECK, ERROR };
static struct { int what, id, code; const char* val; } got[40], want[40];
static int ngot, nwant;
static int code[40];   /* what the n-th scan or check returns */
static int ncode;
static void note(int what, void* e, const char* v, int c) { got[ngot].what = what; got[ngot].id = ((ent*)e)->id; got[ngot].val = v; got[ngot].code = c; ngot++; }
static void expect(int what, int id, const char* v, int c) { want[nwant].what = what; want[nwant].id = id; want[nwant].val = v; want[nwant].code = c; nwant++; }
static void on_reset(void* e) { note(RESET, e, NULL, 0); }
static int on_scan(void* e, const char* v) { note(SCAN, e, v, 0); return code[ncode++]; }
static int on_check(void* e) { note(CHECK, e, NULL, 0); return code[ncode++]; }
static void on_error(void* e, arg_dstr_t ds, int c, const char* v, const char* prog) { note(ERROR, e, v, c); vs_assert(same(prog, "prog"), "the program name is passed on"); arg_dstr_cat(ds, "E"); }
static ent X, Y, P, Q;
#ifdef MORE /* a second positional entry, and headers in the table that stand for entries elsewhere */
#define NE 4
#define REACH_ON() do { if (e < NE) vs_reach("offered on"); } while (0)
#define NFORMS 6
#else
#define NE 3
#define REACH_ON() (void)0
#define NFORMS 5
#endif
static void init(ent* e, int id, const char* s, const char* l, int flag, int nullfns) {
    memset(e, 0, sizeof *e);
    e->id = id;
    e->hdr.flag = (char)flag; e->hdr.shortopts = s; e->hdr.longopts = l; e->hdr.mincount = 0; e->hdr.maxcount = 9; e->hdr.parent = e;
    e->hdr.resetfn = on_reset; e->hdr.scanfn = on_scan; e->hdr.checkfn = on_check; e->hdr.errorfn = on_error;
    if (nullfns & 1) e->hdr.resetfn = NULL;
    if (nullfns & 2) e->hdr.scanfn = NULL;
    if (nullfns & 4) e->hdr.checkfn = NULL;
    if (nullfns & 8) e->hdr.errorfn = NULL;
}
static struct { int id, code; const char* val; } err[40];
static int nerr;
static void fail(int id, int c, const char* v) { err[nerr].id = id; err[nerr].code = c; err[nerr].val = v; nerr++; }
void vs_main(void) {
    void* t[7]; char* argv[NARG + 2]; ent* es[4];
    struct arg_end* end = arg_end(ROOM);
    int argc = 1, i, n, c = 0, nf, left, remark = vs_choose(2, "remark"), total;
    const char* pos[NARG + 1]; int npos = 0;
    arg_dstr_t ds = arg_dstr_create();
    nf = vs_choose(5, "absent"); nf = nf ? 1 << (nf - 1) : 0; /* which callback of X and P is absent */
    init(&X, 1, "x", "xx", ARG_HASVALUE, nf); init(&Y, 2, "y", "yy", NFORMS == 6 && vs_choose(2, "optional") ? ARG_HASVALUE | ARG_HASOPTVALUE : 0, 0); init(&P, 3, NULL, NULL, ARG_HASVALUE, nf);
    init(&Q, 4, NULL, NULL, ARG_HASVALUE, 0);
    n = 0;
    t[n++] = &X; if (remark) t[n++] = arg_rem("remark", "glossary"); t[n++] = &Y; t[n++] = &P;
#ifdef MORE
    t[n++] = &Q;
    if (vs_choose(2, "proxies")) {
        static struct arg_hdr proxy[4];
        proxy[0] = X.hdr; proxy[1] = Y.hdr; proxy[2] = P.hdr; proxy[3] = Q.hdr;
        t[0] = &proxy[0]; t[n - 3] = &proxy[1]; t[n - 2] = &proxy[2]; t[n - 1] = &proxy[3];
        vs_reach("proxies");
    }
#endif
    t[n++] = end;
    es[0] = &X; es[1] = &Y; es[2] = &P; es[3] = &Q;
    argv[0] = "prog";
    for (i = 0; i < NE; i++) if (es[i]->hdr.resetfn) expect(RESET, es[i]->id, NULL, 0);
    left = vs_choose(NARG + 1, "args");
    for (i = 0; i < left; i++) {
        char *v = NULL, *w = NULL;
        switch (vs_choose(NFORMS, "arg")) {
            case 0: v = (char*)malloc(4); v[0] = '-'; v[1] = 'x'; vs_bytes(v + 2, 1, "v"); vs_assume(v[2] != 0); v[3] = 0; argv[argc++] = v; v += 2; break;
            case 1: v = dup_str("--xx=val"); argv[argc++] = v; v += 5; break;
            case 2: argv[argc++] = "-y"; break;
            case 3: argv[argc++] = "--yy"; break;
            case 5: vs_assume(Y.hdr.flag); w = dup_str(vs_choose(2, "form") ? "-yv" : "--yy=v"); argv[argc++] = w; w = strchr(w, 'v'); break;
            case 4: v = sym_str_upto(0, 1, "pos"); vs_assume(v[0] != '-'); argv[argc++] = v; pos[npos++] = v; continue;
        }
        code[c] = vs_int("scan");
        if (v) { if (X.hdr.scanfn) { expect(SCAN, 1, v, 0); if (code[c]) fail(1, code[c], v); c++; } }
        else { expect(SCAN, 2, w, 0); if (code[c]) fail(2, code[c], w); c++; }
    }
    argv[argc] = NULL;
    /* positionals: an entry takes them until it refuses one; that is offered to the next entry, the last refusal reported, the rest not wanted */
    {
        int e = 2, last = 0, lastid = 0;
        for (i = 0; i < npos; ) {
            while (e < NE && !es[e]->hdr.scanfn) e++;
            if (e == NE) {
                if (last) { fail(lastid, last, pos[i++]); last = 0; }
                for (; i < npos; i++) fail(9, ARG_ENOMATCH, pos[i]);
                break;
            }
            code[c] = vs_int("scan");
            expect(SCAN, es[e]->id, pos[i], 0);
            if (code[c]) { last = code[c]; lastid = es[e]->id; e++; REACH_ON(); } else { last = 0; i++; }
            c++;
        }
    }
    if (nerr == 0) {
        for (i = 0; i < NE; i++) if (es[i]->hdr.checkfn) { code[c] = vs_int("check"); expect(CHECK, es[i]->id, NULL, 0); if (code[c]) fail(es[i]->id, code[c], NULL); c++; }
        vs_reach("checked");
    } else vs_reach("not checked");
    total = arg_parse(argc, argv, t);
    vs_assert(ngot == nwant, "no callback more or less than due");
    for (i = 0; i < nwant; i++) vs_assert(got[i].what == want[i].what && got[i].id == want[i].id && got[i].val == want[i].val, "callbacks in order, with their entry and the value itself");
    vs_assert(total == (nerr < ROOM ? nerr : ROOM) && end->count == total, "every refusal is an error");
    for (i = 0; i < total; i++) {
        if (i == ROOM - 1 && nerr > ROOM) { vs_assert(end->error[i] == ARG_ELIMIT && end->parent[i] == end, "the last one tells that there are more"); vs_reach("limit"); }
        else vs_assert(end->error[i] == err[i].code && end->argval[i] == err[i].val && end->parent[i] == (err[i].id == 9 ? (void*)end : (void*)es[err[i].id - 1]), "errors in order, with code, value and entry");
    }
    vs_out("errors", total);
    ngot = nwant = 0;
    arg_print_errors_ds(ds, end, "prog");
    for (i = 0; i < total; i++) if (!(i == ROOM - 1 && nerr > ROOM) && err[i].id != 9 && es[err[i].id - 1]->hdr.errorfn) expect(ERROR, err[i].id, err[i].val, err[i].code);
    vs_assert(ngot == nwant, "each error is reported by its own entry");
    for (i = 0; i < nwant; i++) vs_assert(got[i].what == ERROR && got[i].id == want[i].id && got[i].val == want[i].val && got[i].code == want[i].code, "error callbacks in order, with code and value");
    if (total > 1) vs_reach("several errors");
    arg_dstr_destroy(ds);
}
