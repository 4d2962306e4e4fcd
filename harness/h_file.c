/* C11: arg_file splits every path into file name, base name and extension; arg_str keeps texts verbatim. */
#include "common.h"
#ifndef LEN
#define LEN 5
#endif
#ifndef MINLEN
#define MINLEN 0
#endif
static int at_end(const char* s, int p) { return s[p] == 0; }
static int base_of(const char* t) {
    int i, base = 0, len = (int)strlen(t);
    for (i = 0; i < len; i++) if (t[i] == '/') base = i + 1;
    if (t[base] == '.' && (at_end(t, base + 1) || (t[base + 1] == '.' && at_end(t, base + 2)))) base = len;
    return base;
}
static int ext_of(const char* t) {
    int i, base = base_of(t), dot = -1, len = (int)strlen(t);
    for (i = base; i < len; i++) if (t[i] == '.') dot = i;
    return (dot > base && dot != len - 1) ? dot : len;
}
#ifdef SEVERAL /* several paths, some of them options, twice */
void vs_main(void) {
    char *argv[12], *v[SEVERAL];
    void* table[4];
    struct arg_file *f[2];
    struct arg_str* s;
    int i, k, round, argc, nf[2], opt[SEVERAL];
    const char* want[2][SEVERAL];
    for (i = 0; i < SEVERAL; i++) {
        v[i] = sym_str_upto(i == 0 ? 0 : 1, LEN, "path");
#ifdef ALPHABET
        restrict_to(v[i], ALPHABET);
#endif
        opt[i] = vs_choose(2, "option");
    }
    table[0] = f[0] = arg_filen("f", NULL, NULL, 0, SEVERAL, "g");
    table[1] = f[1] = arg_filen(NULL, NULL, NULL, 0, SEVERAL - 1, "g");
    table[2] = s = arg_strn(NULL, NULL, NULL, 0, SEVERAL, "g");
    table[3] = arg_end(2);
    for (round = 0; round < 2; round++) {
        int first = round ? SEVERAL - 1 : 0, step = round ? -1 : 1, n;
        argv[0] = "p"; argc = 1; nf[0] = nf[1] = 0;
        for (i = 0; i < SEVERAL; i++) {
            char* t = v[first + i * step];
            if (opt[first + i * step]) argv[argc++] = "-f"; else vs_assume(t[0] != '-');
            argv[argc++] = t;
            want[!opt[first + i * step]][nf[!opt[first + i * step]]++] = t;
        }
        argv[argc] = NULL;
        n = arg_parse(argc, argv, table);
        vs_assert(n == 0, "every path is accepted");
        if (nf[1] == SEVERAL) { vs_assert(s->count == 1 && s->sval[0] == want[1][SEVERAL - 1], "what a full entry refuses goes to the next one"); nf[1]--; vs_reach("full"); }
        else vs_assert(s->count == 0, "paths go to the first entry");
        for (k = 0; k < 2; k++) {
            vs_assert(f[k]->count == nf[k], "number of paths");
            for (i = 0; i < nf[k]; i++) {
                vs_assert(f[k]->filename[i] == want[k][i], "the file name is the argument itself");
                vs_assert(f[k]->basename[i] == want[k][i] + base_of(want[k][i]), "the base name is what follows the last separator");
                vs_assert(f[k]->extension[i] == want[k][i] + ext_of(want[k][i]), "the extension is the base name's last dot suffix");
            }
        }
        vs_out("paths", f[0]->count);
    }
    vs_reach("several");
    arg_freetable(table, 4);
}
#else
void vs_main(void) {
    char *a, *b, *argv[6];
    void* table[3];
    struct arg_file* f;
    struct arg_str* s;
    struct arg_end* end;
    int n, base, ext, len;
    const char* text;
#ifdef PADS /* long directories, names and extensions around arbitrary characters */
    static const int pads[] = {PADS};
    int np = (int)(sizeof pads / sizeof *pads), sh = vs_choose(7, "shape"), n1 = pads[vs_choose(np, "pad")];
    vs_limit(50000000);
    a = padded(sh == 0 || sh > 2 ? n1 : 0, sh == 5 ? '.' : 'd', sh == 1 || sh > 2 ? n1 : 1, sh == 6 ? '/' : 'e', sh == 2 || sh == 4 ? n1 : 0, 'f', 2, "path");
#else
    a = sym_str_upto(MINLEN, LEN, "path");
#endif
#ifdef ALPHABET
    restrict_to(a, ALPHABET);
#endif
    b = sym_str_upto(0, 1, "other");
    table[0] = f = arg_filen("f", NULL, NULL, 0, 2, "g");
    table[1] = s = arg_strn(NULL, NULL, NULL, 0, 2, "g");
    table[2] = end = arg_end(2);
    argv[0] = "p"; argv[1] = "-f"; argv[2] = a; argv[3] = "--"; argv[4] = b; argv[5] = NULL;
    n = arg_parse(5, argv, table);
    vs_assert(n == 0 && f->count == 1 && s->count == 1, "accepted");
    vs_assert(f->filename[0] == a, "the file name is the argument itself");
    vs_assert(s->sval[0] == b, "the string is the argument itself");
    /* the base name follows the last '/'; "." and ".." are not base names. The extension starts at the last '.' of the
       base name unless that is its first or last character */
    text = a;
    len = (int)strlen(text);
    base = base_of(text);
    ext = ext_of(text);
    vs_out("base", f->basename[0] - a);
    vs_out("ext", f->extension[0] - a);
    vs_assert(f->basename[0] == a + base, "the base name is what follows the last separator");
    vs_assert(f->extension[0] == a + ext, "the extension is the base name's last dot suffix");
    if (ext < len) vs_reach("extension"); else vs_reach("no extension");
    if (base > 0 && base < len) vs_reach("directory");
    arg_freetable(table, 3);
}
#endif
