/* The same comparison with the reference grammar at scale: many arguments, many entries, many values, many errors, long names and texts.
 * MODE 0: blocks of positionals and options; 1: as many values as allowed and one around it; 2: many entries;
 * 3: long names; 4: long clusters and values; 5: many errors; 6: every number of arguments; 7: many letters and aliases of one entry */
#define RP_MAXV 320
#define RP_MAXP 700
#include "refparse.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef BLOCK
#define BLOCK 8
#endif
#ifndef SIZES
#define SIZES 15,16,17,31,32,33,63,64,65,127,128,129,255,256,257,300
#endif
static const int sizes[] = {SIZES};
#define NSIZES ((int)(sizeof sizes / sizeof *sizes))
#if MODE == 0
static rp_ent ref[] = {{T_LIT, 0, 30, "a", "all"}, {T_STR, 0, 30, "s", "str"}, {T_STR, 0, 30, NULL, NULL}, {T_STR, 0, 60, NULL, NULL}};
#define NT 4
#elif MODE == 1
static rp_ent ref[] = {{T_LIT, 0, 1, "a", NULL}, {T_STR, 0, 1, "v", "value"}, {T_LIT, 0, 1, "b", NULL}};
#define NT 3
#elif MODE == 2
#ifndef ENTRIES
#define ENTRIES 62
#endif
static rp_ent ref[ENTRIES + 1];
#define NT (ENTRIES + 1)
#elif MODE == 3
static rp_ent ref[4] = {{T_LIT, 0, 2, NULL, NULL}, {T_STR, 0, 2, NULL, NULL}, {T_LIT, 0, 2, NULL, NULL}, {T_STR, 0, 2, NULL, NULL}};
#define NT 4
#elif MODE == 4
static rp_ent ref[] = {{T_LIT, 0, 310, "a", NULL}, {T_STR, 0, 2, "s", "str"}, {T_LIT, 0, 310, "b", NULL}, {T_FILE, 0, 2, "f", "file"}, {T_REX, 0, 1, "r", NULL}, {T_REX, 0, 1, NULL, NULL}, {T_STR, 0, 1, NULL, NULL}};
#define NT 7
#elif MODE == 7
static rp_ent ref[] = {{T_LIT, 0, 4, "!", "first"}, {T_STR, 0, 2, NULL, NULL}, {T_LIT, 0, 4, "_", "last"}, {T_STR, 0, 1, NULL, NULL}};
#define NT 4
#elif MODE == 6
static rp_ent ref[] = {{T_LIT, 0, 310, "a", "all"}, {T_STR, 0, 310, NULL, NULL}};
#define NT 2
#elif MODE == 5
static rp_ent ref[] = {{T_LIT, 0, 1, "a", "all"}, {T_INT, 0, 2, "i", "int"}, {T_INT, 0, 1, NULL, NULL}};
#define NT 3
#endif
#include "parsecheck.h"
static char* argv[RP_MAXP + 10];
static int argc;
static void arg(char* s) { argv[argc++] = s; argv[argc] = NULL; }
static char* word(char tag) { char* p = (char*)malloc(3); p[0] = tag; vs_bytes(p + 1, 1, "w"); vs_assume(p[1] != 0); p[2] = 0; return p; }
static char* rep(char c, int n, const char* tail) { char* p = (char*)malloc((size_t)n + strlen(tail) + 1); memset(p, c, (size_t)n); strcpy(p + n, tail); return p; }
void vs_main(void) {
    struct arg_end* end;
    int i, k, room = 5, posix = 0;
    (void)posix;
    arg(dup_str("p"));
#if MODE == 0
    {
        int p1 = vs_choose(BLOCK + 1, "p1"), o1 = vs_choose(BLOCK + 1, "o1"), p2 = vs_choose(4, "p2"), o2 = vs_choose(4, "o2"), p3 = vs_choose(2, "p3");
        unsigned char sty;
        for (i = 0; i < p1; i++) arg(word('x'));
        for (i = 0; i < o1; i++) switch ((i + p1) % 4) {
            case 0: arg(dup_str("-a")); break;
            case 1: arg(dup_str("--str")); arg(word('-')); break;
            case 2: arg(dup_str("--all")); break;
            case 3: arg(dup_str("-s")); arg(word('y')); break;
        }
        for (i = 0; i < p2; i++) arg(word('z'));
        for (i = 0; i < o2; i++) switch (i) {
            case 0: arg(dup_str("-as")); arg(word('q')); break;
            case 1: arg(dup_str("--st=v")); break;
            case 2: arg(dup_str("-aa")); break;
        }
        vs_bytes(&sty, 1, "dashes");
        if (sty & 1) { arg(dup_str("--")); vs_reach("options ended"); }
        for (i = 0; i < p3; i++) arg(word('-'));
        vs_assume(!(p3 && !(sty & 1) && argv[argc - 1][1] == '-'));
    }
#elif MODE == 1
    {
        int m = sizes[vs_choose(NSIZES, "max")], n = m - 1 + vs_choose(3, "given"), form = vs_choose(3, "form"), at = vs_choose(2, "last") ? n - 1 : n / 2;
        ref[1].type = vs_choose(7, "kind"); ref[1].lo = m - 2; ref[1].hi = m;
        vs_assume(!(form && ref[1].type == T_LIT));
        if (form == 1) ref[1].s = ref[1].l = NULL;
        if (form == 2) ref[1].opt = 1;
        for (i = 0; i < n; i++) {
            char* v = (char*)malloc(4);
            v[0] = ref[1].type == T_REX ? 'a' : '1'; v[1] = 0; v[2] = 0;
            if (i == at) vs_bytes(v + 1, 1, "v");
            if (i == at && ref[1].type == T_DBL) v[1] = (char)vs_concrete(v[1]);
            if (ref[1].type == T_LIT) arg(dup_str(i % 2 ? "-v" : "--value"));
            else if (form == 1) arg(v);
            else if (form == 2) { char* p = (char*)malloc(8); strcpy(p, i % 3 == 2 ? "-v" : "-v"); if (i % 3 != 2 || i == at) strcat(p, v); arg(p); }
            else { arg(dup_str(i % 2 ? "-v" : "--value")); arg(v); }
        }
        room = m;
    }
#elif MODE == 2
    {
        static const char letters[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
        char *v, *w;
        for (i = 0; i < ENTRIES; i++) {
            char* l = (char*)malloc(8);
            l[0] = 'n'; l[1] = (char)('0' + i / 100); l[2] = (char)('0' + i / 10 % 10); l[3] = (char)('0' + i % 10); l[4] = 0;
            ref[i].type = i % 3 == 1 ? T_STR : T_LIT; ref[i].hi = 1; ref[i].l = l;
#ifdef ALLLETTERS /* nearly every character is an option letter, most take a value or may take one */
            {
                char* q = (char*)malloc(8); int j, n = 0;
                for (j = 0; j < 4; j++) { int c = 1 + 4 * i + j; if (c < 255 && c != '-' && c != '?' && c != ':' && c != ';') q[n++] = (char)c; }
                q[n] = 0;
                if (n) ref[i].s = q;
                if (i % 3 != 2) ref[i].type = T_STR;
                if (i % 3 == 0) ref[i].opt = 1;
            }
#else
            if (i < 62) { char* q = (char*)malloc(2); q[0] = letters[i]; q[1] = 0; ref[i].s = q; }
#endif
        }
        ref[ENTRIES].type = T_STR; ref[ENTRIES].hi = 2;
        v = (char*)malloc(4); v[0] = '-'; vs_bytes(v + 1, 1, "opt"); v[2] = 0; vs_assume(v[1] != '-' && v[1] != 0 && v[1] != '?' && v[1] != ':');
        w = (char*)malloc(8); strcpy(w, "--n"); k = 1 + vs_choose(4, "len"); vs_bytes(w + 3, (size_t)k, "name"); w[3 + k] = 0;
        for (i = 0; i < k; i++) vs_assume(((w[3 + i] >= '0') & (w[3 + i] <= '9')) | (w[3 + i] == '='));
        if (vs_choose(2, "which")) { arg(v); arg(dup_str("val")); } else { arg(w); arg(dup_str("val")); }
        ref[ENTRIES].hi = 1;
    }
#elif MODE == 3
    {
        int n = sizes[vs_choose(NSIZES, "n")], cut = vs_choose(4, "cut"), tail = vs_choose(3, "tail");
        char* a = rep('n', n - 1, cut == 3 ? "??" : cut == 2 ? "?" : "");
        ref[0].l = rep('n', n - 1, "x"); ref[1].l = rep('n', n - 1, "y"); ref[2].l = rep('n', n - 1, "xz"); ref[3].l = rep('n', n - 1, "w,other");
        if (vs_choose(2, "alone")) { ref[2].l = "elsewhere"; ref[3].l = "nowhere"; ref[1].l = rep('m', n, ""); }
        if (cut == 0) a[n - 2] = 0;
        if (cut == 2) vs_bytes(a + n - 1, 1, "c");
        if (cut == 3) vs_bytes(a + n - 1, 2, "c");
        { char* p = (char*)malloc(strlen(a) + 10); strcpy(p, "--"); strcat(p, a); if (tail) strcat(p, tail == 1 ? "=v" : "="); arg(p); }
        arg(dup_str("val"));
        vs_reach("long name");
    }
#elif MODE == 4
    {
        int n = sizes[vs_choose(NSIZES, "n")], how = vs_choose(8, "how");
        char *a, *p;
        unsigned char c;
        vs_bytes(&c, 1, "c"); vs_assume(c != 0);
        a = (char*)malloc((size_t)n + 16);
        switch (how) {
            case 0: case 1: case 2: /* a long cluster; the last letter is any */
                a[0] = '-'; memset(a + 1, how == 1 ? 'b' : 'a', (size_t)n); a[n + 1] = (char)c; a[n + 2] = 0; if (how == 2) strcat(a, "s"); arg(a); arg(dup_str("val")); break;
            case 3: strcpy(a, "-s"); p = a + 2; goto value;
            case 4: strcpy(a, "--str="); p = a + 6; goto value;
            case 5: arg(dup_str("-f")); p = a; goto value;
            case 6: arg(dup_str("-r")); p = a; goto value;
            default: p = a;
            value: memset(p, 'b', (size_t)n); p[n - 1] = (char)c; p[n] = 0; arg(a); vs_reach("long value"); break;
        }
    }
#elif MODE == 7
    {
        static const char letters[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
        int n = sizes[vs_choose(NSIZES, "n")], form = FORM + vs_choose(2, "form"), kind = vs_choose(3, "kind");
        char *v = (char*)malloc(16), *l = (char*)malloc((size_t)n * 5 + 1);
        vs_limit(50000000);
        if (kind == 0) ref[1].type = T_LIT; else ref[1].opt = kind == 2;
        if (form < 2) { /* n letters */
            int m = n > 62 ? 62 : n;
            char* q = (char*)malloc((size_t)m + 1);
            memcpy(q, letters, (size_t)m); q[m] = 0;
            ref[1].s = q;
            v[0] = '-'; vs_bytes(v + 1, 2, "opt"); v[3] = 0;
            vs_assume(v[1] > 32 && v[1] < 127 && v[1] != '-' && v[1] != '?' && v[1] != ':' && v[2] != '-' && v[2] != '?' && v[2] != ':');
            if (form == 1) vs_assume(v[1] == '!');
        } else { /* n aliases */
            for (i = 0; i < n; i++) { char* q = l + 5 * i; q[0] = 'n'; q[1] = (char)('0' + i / 100); q[2] = (char)('0' + i / 10 % 10); q[3] = (char)('0' + i % 10); q[4] = i == n - 1 ? 0 : ','; }
            ref[1].l = l;
            strcpy(v, "--n");
            k = form == 2 ? 3 : 1 + vs_choose(2, "len");
            vs_bytes(v + 3, (size_t)k, "name"); v[3 + k] = 0;
            for (i = 0; i < k; i++) vs_assume((v[3 + i] >= '0') & (v[3 + i] <= '9'));
            if (vs_choose(2, "attached")) strcat(v, "=x");
        }
        arg(v); arg(dup_str("val")); arg(dup_str("-_"));
        vs_reach("many names");
    }
#elif MODE == 6
    {
        int n = sizes[vs_choose(NSIZES, "n")], how;
        vs_limit(50000000);
#ifdef BLOCKS /* blocks of n positionals and about n options */
        static const int more[] = {-1, 0, 1};
        int m = n + more[vs_choose(3, "more")], j, b = 2 + vs_choose(2, "blocks");
        for (j = 0; j < b; j++) {
            for (i = 0; i < n; i++) arg(i == n / 2 && j == 0 ? word('y') : dup_str("x"));
            for (i = 0; i < m; i++) arg(dup_str(i % 3 ? "-a" : "--all"));
        }
        if (vs_choose(2, "last")) arg(word('z'));
        n = 0;
        (void)more;
#endif
        how = vs_choose(n ? 3 : 1, "how");
        for (i = 0; i < n; i++) arg(i == n - 1 && how < 2 ? word('y') : dup_str(how == 0 || (how == 2 && i % 2) ? "x" : "-a"));
        vs_reach("many arguments");
    }
#else
    {
        int m = 0;
        room = sizes[vs_choose(NSIZES, "room")];
        k = room - 1 + vs_choose(3, "errors");
        ref[1].hi = 0; ref[2].hi = 0;
        for (i = 0; i < k; i++) switch ((i + k) % 5) {
            case 0: { char* p = word('-'); vs_assume(p[1] > 32 && p[1] != 'a' && p[1] != 'i' && p[1] != '-' && p[1] != '?' && p[1] != ':'); arg(p); } break;
            case 1: arg(dup_str("--none")); break;
            case 2: arg(dup_str("--all=x")); break;
            case 3: arg(dup_str("-i")); arg(dup_str("q")); break;
            case 4: arg(word('x')); break;
        }
        (void)m;
    }
#endif
    end = make_table(room);
    parse_and_compare(argc, argv, end, room, 0);
    arg_freetable(table, NT + 1);
    (void)i; (void)k;
}
