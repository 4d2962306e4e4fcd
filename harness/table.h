/* Argument tables holding every entry kind, and uniform access to their observable state. */
#ifndef TABLE_H
#define TABLE_H
#include "common.h"
#include <time.h>
#define MAXT 12
enum { K_LIT, K_INT, K_DBL, K_STR, K_FILE, K_DATE, K_REX, K_REM };
typedef struct { int kind; const char* s; const char* l; int lo, hi; int opt; const char* fmt; } spec;
static void* make_entry(const spec* p) {
    void* e = NULL;
    switch (p->kind) {
        case K_LIT: e = arg_litn(p->s, p->l, p->lo, p->hi, "lit"); break;
        case K_INT: e = arg_intn(p->s, p->l, NULL, p->lo, p->hi, "int"); break;
        case K_DBL: e = arg_dbln(p->s, p->l, NULL, p->lo, p->hi, "dbl"); break;
        case K_STR: e = arg_strn(p->s, p->l, NULL, p->lo, p->hi, "str"); break;
        case K_FILE: e = arg_filen(p->s, p->l, NULL, p->lo, p->hi, "file"); break;
        case K_DATE: e = arg_daten(p->s, p->l, p->fmt, NULL, p->lo, p->hi, "date"); break;
        case K_REX: e = arg_rexn(p->s, p->l, p->fmt, NULL, p->lo, p->hi, 0, "rex"); break;
        case K_REM: e = arg_rem("x", "rem"); break;
    }
    if (e && p->opt) ((struct arg_hdr*)e)->flag |= ARG_HASOPTVALUE;
    return e;
}
static int entry_count(int kind, void* e) {
    switch (kind) {
        case K_LIT: return ((struct arg_lit*)e)->count;
        case K_INT: return ((struct arg_int*)e)->count;
        case K_DBL: return ((struct arg_dbl*)e)->count;
        case K_STR: return ((struct arg_str*)e)->count;
        case K_FILE: return ((struct arg_file*)e)->count;
        case K_DATE: return ((struct arg_date*)e)->count;
        case K_REX: return ((struct arg_rex*)e)->count;
    }
    return 0;
}
static const char* entry_text(int kind, void* e, int i) {
    switch (kind) {
        case K_STR: return ((struct arg_str*)e)->sval[i];
        case K_REX: return ((struct arg_rex*)e)->sval[i];
        case K_FILE: return ((struct arg_file*)e)->filename[i];
    }
    return NULL;
}
#endif
