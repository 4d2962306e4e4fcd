/* C19: a dynamic string always holds exactly the text that was put into it, whatever the sequence of operations.
 * MODE 0: OPS operations on texts whose lengths sit around the internal sizes; MODE 1: short symbolic texts; MODE 2: arg_dstr_catf */
#include "refsyntax.h"
#ifndef OPS
#define OPS 3
#endif
static rs m;          /* what the string has to hold */
static int freed;     /* calls of the release function */
static char* freed_p;
static void release(char* p) { freed++; freed_p = p; }
static int nth;
static char* text(void) {
#if MODE == 0
    static const int lens[] = {LENS};
    int n = lens[vs_choose((int)(sizeof lens / sizeof *lens), "n")], i;
    char* p = (char*)malloc((size_t)n + 1);
    for (i = 0; i < n; i++) p[i] = (char)('a' + (i + nth) % 26);
    if (n) { vs_bytes(p + n - 1, 1, "c"); vs_assume(p[n - 1] != 0); }
    p[n] = 0;
#else
    char* p = sym_str_upto(0, 2, "t");
#endif
    nth++;
    return p;
}
void vs_main(void) {
    long before = vs_live_heap();
#ifdef LIMIT
    int limited = (vs_limit(LIMIT), 1);
#endif
    arg_dstr_t ds = arg_dstr_create();
    int i, mine = 0;          /* texts allocated by the harness and not handed over */
    char* owned = NULL;       /* text that has to be released by `release` */
    char* dyn = NULL;         /* text handed over for good that the string still holds */
    vs_assert(same(arg_dstr_cstr(ds), ""), "a new string is empty");
#if MODE == 2
#ifndef FLENS
#define FLENS 0, 1, 7, 8, 14, 15, 16, 17, 30, 31, 32, 33, 64, 130, 199, 200, 201, 420
#endif
    static const int lens[] = {FLENS};
    static const int vals[] = {0, -1, 12345, -2147483647 - 1};
    int n = lens[vs_choose((int)(sizeof lens / sizeof *lens), "n")], v = vals[vs_choose(4, "v")], f = vs_choose(5, "f"), k = vs_choose(3, "pre");
    char num[16];
    char* t = (char*)malloc((size_t)n + 1);
    for (i = 0; i < n; i++) t[i] = (char)('a' + i % 26);
    if (n) { vs_bytes(t + n - 1, 1, "c"); vs_assume(t[n - 1] != 0 && t[n - 1] != '%'); }
    t[n] = 0;
    if (k) { arg_dstr_cat(ds, "pre"); rs_s(&m, "pre"); }
    if (k == 2) { arg_dstr_set(ds, "fix", ARG_DSTR_STATIC); m.n = 0; rs_s(&m, "fix"); }
    sprintf(num, "%d", v);
    switch (f) {
        case 0: arg_dstr_catf(ds, "%s", t); rs_s(&m, t); break;
        case 1: arg_dstr_catf(ds, "[%d] %s;", v, t); rs_c(&m, '['); rs_s(&m, num); rs_s(&m, "] "); rs_s(&m, t); rs_c(&m, ';'); break;
        case 2: arg_dstr_catf(ds, t); rs_s(&m, t); break;
        case 3: arg_dstr_catf(ds, "%-20s|%5.2s%%", t, "xyz"); { rs_pad(&m, t, 20); } rs_s(&m, "|   xy%"); break;
        case 4: arg_dstr_catf(ds, NULL); arg_dstr_catf(ds, "%c%c", 'q', t[0] ? t[0] : 'z'); rs_c(&m, 'q'); rs_c(&m, t[0] ? t[0] : 'z'); break;
    }
    vs_outs("text", arg_dstr_cstr(ds));
    vs_assert(same(arg_dstr_cstr(ds), m.b), "formatted text is appended in full");
    arg_dstr_catc(ds, '.'); rs_c(&m, '.');
    vs_assert(same(arg_dstr_cstr(ds), m.b), "and more can follow");
    free(t);
    vs_reach("formatted");
#elif MODE == 3 /* many appends of one size */
    static const int chunk[] = {1, 2, 7, 15, 16, 49, 50, 99, 100, 101, 199, 200, 201};
    int n = chunk[vs_choose(13, "chunk")], how = vs_choose(3, "how"), k;
    char* t = (char*)malloc((size_t)n + 1);
    for (i = 0; i < n; i++) t[i] = (char)('a' + i % 26);
    t[n] = 0;
    vs_bytes(t + n - 1, 1, "c"); vs_assume(t[n - 1] != 0);
    if (vs_choose(2, "pre")) { arg_dstr_set(ds, "fix", ARG_DSTR_STATIC); rs_s(&m, "fix"); }
    for (k = 0; m.n < TOTAL; k++) {
        if (how == 0) arg_dstr_cat(ds, t);
        else if (how == 1) arg_dstr_catf(ds, "%s", t);
        else for (i = 0; i < n; i++) arg_dstr_catc(ds, t[i]);
        rs_s(&m, t);
        if (k % 8 == 0 || m.n < 20 || m.n >= TOTAL) vs_assert(same(arg_dstr_cstr(ds), m.b), "every append adds its text");
    }
    free(t);
    vs_reach("appended");
#else
    for (i = 0; i < OPS; i++) {
        int op = vs_choose(13, "op"), was = freed;
        char *t = NULL, *old = owned, *olddyn = dyn, c;
        dyn = NULL;
        switch (op) {
            case 0: t = text(); arg_dstr_cat(ds, t); rs_s(&m, t); free(t); t = NULL; owned = NULL; break;
            case 1: vs_bytes(&c, 1, "c"); arg_dstr_catc(ds, c); if (c) rs_c(&m, c); owned = NULL; break;
            case 2: t = text(); arg_dstr_catf(ds, "<%s>", t); rs_c(&m, '<'); rs_s(&m, t); rs_c(&m, '>'); free(t); owned = NULL; break;
            case 3: t = text(); arg_dstr_set(ds, t, ARG_DSTR_VOLATILE); m.n = 0; m.b[0] = 0; rs_s(&m, t); memset(t, '#', strlen(t)); free(t); owned = NULL; vs_reach("volatile text"); break;
            case 4: t = text(); arg_dstr_set(ds, t, ARG_DSTR_DYNAMIC); m.n = 0; m.b[0] = 0; rs_s(&m, t); owned = NULL; dyn = t; vs_reach("text handed over"); break;
            case 5: t = text(); arg_dstr_set(ds, t, ARG_DSTR_STATIC); m.n = 0; m.b[0] = 0; rs_s(&m, t); owned = NULL; mine++; break;
            case 6: t = text(); arg_dstr_set(ds, t, release); m.n = 0; m.b[0] = 0; rs_s(&m, t); owned = t; mine++; vs_reach("text with a release function"); break;
            case 7: arg_dstr_set(ds, NULL, ARG_DSTR_STATIC); m.n = 0; m.b[0] = 0; owned = NULL; break;
            case 8: arg_dstr_reset(ds); m.n = 0; m.b[0] = 0; owned = NULL; break;
            case 9: /* part of its own text */
                { int k = m.n ? vs_choose(3, "part") : 0; rs keep; k = k == 2 ? m.n : k; keep.n = 0; keep.b[0] = 0; rs_s(&keep, m.b + k); if (vs_choose(2, "append")) arg_dstr_cat(ds, arg_dstr_cstr(ds) + k); else { arg_dstr_set(ds, arg_dstr_cstr(ds) + k, ARG_DSTR_VOLATILE); m.n = 0; m.b[0] = 0; } rs_s(&m, keep.b); owned = NULL; vs_reach("part of itself"); }
                break;
            case 10: /* the caller shortens the text in place */
                if (m.n && !owned) { int k = vs_choose(2, "cut") ? m.n - 1 : 0; arg_dstr_cstr(ds)[k] = 0; m.n = k; m.b[k] = 0; vs_reach("shortened"); }
                dyn = olddyn;
                break;
            case 11: arg_dstr_cat(ds, ""); owned = NULL; break;
            case 12: /* the very text it holds, once more: held as before, not released in between */
                if (owned) {
                    vs_assert(arg_dstr_cstr(ds) == owned, "a text with a release function is held, not copied");
                    if (vs_choose(2, "keep")) arg_dstr_set(ds, owned, release);
                    else { arg_dstr_set(ds, owned, ARG_DSTR_STATIC); old = owned = NULL; } /* it is the caller's again */
                    vs_reach("same text again");
                } else if (olddyn) {
                    vs_assert(arg_dstr_cstr(ds) == olddyn, "a text handed over is held, not copied");
                    arg_dstr_set(ds, olddyn, ARG_DSTR_DYNAMIC); dyn = olddyn;
                }
                break;
        }
        vs_assert(same(arg_dstr_cstr(ds), m.b), "the string holds what was put into it");
        if (old && owned != old) vs_assert(freed == was + 1 && freed_p == old, "a text is released once, when it is replaced");
        else vs_assert(freed == was, "nothing else is released");
    }
    vs_out("len", m.n);
#endif
    {
        int was = freed;
        arg_dstr_destroy(ds);
        vs_assert(freed == was + (owned ? 1 : 0), "the last text is released with the string");
    }
    vs_assert(vs_live_heap() == before + mine, "no memory is kept");
    arg_dstr_destroy(NULL);
}
