/* C15: the error report says, for every error and in order, what was wrong with which option and value. */
#include "table.h"
#include "refsyntax.h"
#ifndef VLEN
#define VLEN 3
#endif
/* how the entry is named on the command line */
static const char* shorts[] = {"q", NULL, "qr", NULL, "q"};
static const char* longs[] = {NULL, "qq", "qq,rr", NULL, "qq"};
#define NSTYLE 5
static rs want;
static const char* progs[] = {"p", "my prog", ""};
static void check_report(struct arg_end* end, const char* prog, int n) {
    FILE* fp = vs_file();
    long live = vs_live_heap();
    arg_dstr_t ds = arg_dstr_create();
    arg_print_errors(fp, end, prog);
    arg_print_errors_ds(ds, end, prog);
    vs_outs("text", vs_text(fp));
    vs_assert(same(vs_text(fp), want.b), "the report is as specified");
    vs_assert(same(arg_dstr_cstr(ds), want.b), "the report to a dynamic string is the same");
    arg_dstr_destroy(ds);
    vs_assert(vs_live_heap() == live, "reporting keeps no memory");
    (void)n;
}
static int bad_int(const char* v) { char* e; (void)strtol(v, &e, 10); return e == v; }
void vs_main(void) {
    const char* prog = progs[vs_choose(3, "prog")];
    void* table[3];
    struct arg_end* end;
    char* argv[8];
    char* v;
    int argc = 1, n, st, k;
    argv[0] = "x";
#if SCENE == 0 /* an entry occurring too few or too many times */
    {
        static const char* dflt[] = {NULL, "<int>", "<double>", "<string>", "<file>", "%d", "[a-c]"};
        spec sp = {0, NULL, NULL, 1, 1, 0, NULL};
        const char *s, *l;
        k = vs_choose(7, "kind");
        st = vs_choose(NSTYLE, "style");
        s = shorts[st]; l = longs[st];
        if (k == K_LIT && st == 3) { vs_assume(0); return; }
        sp.kind = k; sp.s = s; sp.l = l;
        if (k == K_DATE) sp.fmt = "%d";
        if (k == K_REX) sp.fmt = "[a-c]";
        table[0] = make_entry(&sp);
        table[1] = end = arg_end(4);
        if (vs_choose(2, "many")) {
            static const char* good[] = {NULL, "1", "2.5", NULL, NULL, "07", "b"};
            int i;
            v = sym_str_upto(st == 1 ? 1 : 0, VLEN, "value"); /* an empty value of a long option is another error */
            if (st == 3) vs_assume(v[0] != '-');
            for (i = 0; i < 2; i++) {
                if (s) argv[argc++] = "-q";
                else if (l) argv[argc++] = "--qq";
                if (k != K_LIT) argv[argc++] = i == 0 ? (good[k] ? (char*)good[k] : "abc") : v;
            }
            argv[argc] = NULL;
            n = arg_parse(argc, argv, table);
            rs_s(&want, prog);
            rs_s(&want, k == K_LIT ? ": extraneous option " : ": excess option ");
            rs_allt(&want, s, l, k == K_LIT ? NULL : v, 0, "|");
            rs_c(&want, '\n');
            vs_reach("too many");
        } else {
            argv[argc] = NULL;
            n = arg_parse(argc, argv, table);
            rs_s(&want, prog);
            rs_s(&want, ": missing option ");
            rs_allt(&want, s, l, dflt[k], 0, "|");
            rs_s(&want, k == K_LIT ? "\n\n" : "\n");
            vs_reach("missing");
        }
        vs_assert(n == 1, "one error");
        check_report(end, prog, n);
        arg_freetable(table, 2);
    }
#elif SCENE == 1 /* values refused by their type */
    {
        static const int kinds[] = {K_INT, K_DBL, K_DATE, K_REX, K_INT};
        int which = vs_choose(5, "kind");
        spec sp = {0, NULL, NULL, 0, 1, 0, NULL};
        k = kinds[which];
        st = vs_choose(NSTYLE, "style");
        sp.kind = k; sp.s = shorts[st]; sp.l = longs[st];
        if (k == K_DATE) sp.fmt = "%Y-%m-%d %H:%M:%S";
        if (k == K_REX) sp.fmt = "[a-c]+";
        table[0] = make_entry(&sp);
        table[1] = end = arg_end(4);
        if (which == 4) { char buf[16]; strcpy(buf, "2147483648"); buf[8] = (char)('5' + vs_choose(5, "d")); v = dup_str(buf); }
        else {
            v = sym_str_upto(st == 1 ? 1 : 0, VLEN, "value");
            if (st == 3) vs_assume(v[0] != '-');
            if (k == K_INT) vs_assume(bad_int(v));
            if (k == K_DBL) vs_assume((v[0] < '0' || v[0] > '9') && v[0] != '.' && v[0] != '+' && v[0] != '-' && v[0] != ' ' && (v[0] < 9 || v[0] > 13) && (v[0] | 32) != 'i' && (v[0] | 32) != 'n');
            if (k == K_REX) vs_assume(v[0] < 'a' || v[0] > 'c');
        }
        if (sp.s) argv[argc++] = "-q"; else if (sp.l) argv[argc++] = "--qq";
        argv[argc++] = v; argv[argc] = NULL;
        n = arg_parse(argc, argv, table);
        vs_assert(n == 1, "one error");
        rs_s(&want, prog); rs_s(&want, ": ");
        if (which == 4) { rs_s(&want, "integer overflow at option "); rs_allt(&want, sp.s, sp.l, "<int>", 0, "|"); rs_s(&want, " ("); rs_s(&want, v); rs_s(&want, " is too large)\n"); vs_reach("overflow"); }
        else if (k == K_DATE) { rs_s(&want, "illegal timestamp format \""); rs_s(&want, v); rs_s(&want, "\"\ncorrect format is \"1999-12-31 23:59:59\"\n"); vs_reach("date"); }
        else if (k == K_REX) { rs_s(&want, "illegal value  "); rs_allt(&want, sp.s, sp.l, v, 0, "|"); rs_c(&want, '\n'); vs_reach("rex"); }
        else { rs_s(&want, "invalid argument \""); rs_s(&want, v); rs_s(&want, "\" to option "); rs_allt(&want, sp.s, sp.l, k == K_INT ? "<int>" : "<double>", 0, "|"); rs_c(&want, '\n'); vs_reach("number"); }
        check_report(end, prog, n);
        arg_freetable(table, 2);
    }
#elif SCENE == 2 /* command-line errors, several of them, and the limit */
    {
        int i, room = 1 + vs_choose(4, "room"), total, done = 0;
        static rs line[4];
        table[0] = arg_lit0("a", "alpha", "g");
        table[1] = arg_str0("s", "str", NULL, "g");
        table[2] = end = arg_end(room);
        total = 1 + vs_choose(3, "errors");
        for (i = 0; i < total; i++) {
            int kind = vs_choose(i == total - 1 ? 5 : 4, "what");
            line[i].n = 0; line[i].b[0] = 0;
            switch (kind) {
                case 0: /* unknown short option */
                    v = (char*)malloc(3); v[0] = '-'; vs_bytes(v + 1, 1, "opt"); v[2] = 0;
                    vs_assume(v[1] > 32 && v[1] < 127 && v[1] != 'a' && v[1] != 's' && v[1] != '-');
                    argv[argc++] = v;
                    rs_s(&line[i], prog); rs_s(&line[i], ": invalid option \"-"); rs_c(&line[i], v[1]); rs_s(&line[i], "\"\n");
                    vs_reach("unknown short option");
                    break;
                case 1: /* unknown long option */
                    v = (char*)malloc(VLEN + 4); v[0] = v[1] = '-'; vs_bytes(v + 2, VLEN, "name"); v[VLEN + 2] = 0;
                    { int j; for (j = 0; j < VLEN; j++) vs_assume(v[2 + j] != 0); }
                    vs_assume(v[2] != 'a' && v[2] != 's' && v[2] != '=');
                    argv[argc++] = v;
                    rs_s(&line[i], prog); rs_s(&line[i], ": invalid option \""); rs_s(&line[i], v); rs_s(&line[i], "\"\n");
                    vs_reach("unknown long option");
                    break;
                case 2: /* value given to an option that takes none */
                    v = dup_str("--alpha=x");
                    argv[argc++] = v;
                    rs_s(&line[i], prog); rs_s(&line[i], ": invalid option \"--alpha=x\"\n");
                    break;
                case 3: /* an empty value */
                    argv[argc++] = "--str=";
                    rs_s(&line[i], prog); rs_s(&line[i], ": option \"--str=\" requires an argument\n");
                    if (i > 0) vs_assume(!strstr(line[i - 1].b, "str")); /* a second --str= is also an excess option */
                    if (i > 1) vs_assume(!strstr(line[i - 2].b, "str"));
                    break;
                case 4: /* missing value, at the end */
                    argv[argc++] = "-s";
                    rs_s(&line[i], prog); rs_s(&line[i], ": option \"-s\" requires an argument\n");
                    vs_reach("missing value");
                    break;
            }
        }
        if (vs_choose(2, "extra")) { /* and an argument nobody wants; it is reported last */
            v = sym_str_upto(1, VLEN, "extra");
            vs_assume(v[0] != '-');
            { int last = 0; (void)last; if (argv[argc - 1][0] == '-' && argv[argc - 1][1] == 's') { vs_assume(0); } }
            argv[argc++] = v;
            line[total].n = 0; line[total].b[0] = 0;
            rs_s(&line[total], prog); rs_s(&line[total], ": unexpected argument \""); rs_s(&line[total], v); rs_s(&line[total], "\"\n");
            total++;
            vs_reach("unexpected argument");
        }
        argv[argc] = NULL;
        n = arg_parse(argc, argv, table);
        vs_assert(n == (total < room ? total : room), "as many errors as fit");
        for (i = 0; i < total && i < room; i++) {
            if (i == room - 1 && total > room) { rs_s(&want, prog); rs_s(&want, ": too many errors to display\n"); vs_reach("limit"); }
            else rs_s(&want, line[i].b);
            done++;
        }
        check_report(end, prog, n);
        arg_freetable(table, 3);
    }
#elif SCENE == 3 /* long values, names and program names */
    {
        static const int lens[] = {LENS};
        int n1 = lens[vs_choose((int)(sizeof lens / sizeof *lens), "size")], which = vs_choose(7, "what"), w = vs_choose(2, "proglong");
        vs_limit(50000000);
        if (w) { char* q = (char*)malloc((size_t)n1 + 1); memset(q, 'P', (size_t)n1); vs_bytes(q + n1 - 1, 1, "progchar"); vs_assume(q[n1 - 1] != 0); q[n1] = 0; prog = q; }
        v = (char*)malloc((size_t)n1 + 8);
        memset(v, 'v', (size_t)n1); v[n1] = 0;
        vs_bytes(v + n1 - 1, 1, "value"); vs_assume(v[n1 - 1] != 0);
        if (n1 == 1) vs_assume(v[0] != '-' && v[0] != ' ' && (v[0] < '0' || v[0] > '9') && (v[0] < 9 || v[0] > 13));
        rs_s(&want, prog); rs_s(&want, ": ");
        table[0] = which == 0 ? (void*)arg_int0("i", NULL, NULL, "g") : which == 1 ? (void*)arg_dbl0("i", NULL, NULL, "g") : which == 2 ? (void*)arg_rex0("i", NULL, "[0-9]z", NULL, 0, "g") : (void*)arg_date0("i", NULL, "%H:%M", NULL, "g");
        if (which == 5) { char* q = dup_str(v); int i; for (i = 0; q[i]; i++) vs_assume(q[i] != ','); table[0] = arg_lit0(NULL, q, "g"); if (n1 == 1) vs_assume(v[0] != '='); vs_assume(v[n1 - 1] != '='); }
        if (which == 4) vs_assume(v[0] != '=');
        table[1] = end = arg_end(4);
        argv[1] = "-i"; argv[2] = v; argv[3] = NULL; argc = 3;
        switch (which) {
            case 0: case 1: rs_s(&want, "invalid argument \""); rs_s(&want, v); rs_s(&want, which ? "\" to option -i <double>\n" : "\" to option -i <int>\n"); break;
            case 2: vs_assume(n1 <= 190); rs_s(&want, "illegal value  -i "); rs_s(&want, v); rs_c(&want, '\n'); break;
            case 3: rs_s(&want, "illegal timestamp format \""); rs_s(&want, v); rs_s(&want, "\"\ncorrect format is \"23:59\"\n"); break;
            case 4: { char* q = (char*)malloc((size_t)n1 + 8); strcpy(q, "--"); strcat(q, v); argv[1] = q; argv[2] = NULL; argc = 2; rs_s(&want, "invalid option \""); rs_s(&want, q); rs_s(&want, "\"\n"); break; }
            case 5: { char* q = (char*)malloc((size_t)n1 + 8); strcpy(q, "--"); strcat(q, v); strcat(q, "=x"); argv[1] = q; argv[2] = NULL; argc = 2; rs_s(&want, "invalid option \""); rs_s(&want, q); rs_s(&want, "\"\n"); break; }
            default: argv[1] = v; argv[2] = NULL; argc = 2; rs_s(&want, "unexpected argument \""); rs_s(&want, v); rs_s(&want, "\"\n"); break;
        }
        n = arg_parse(argc, argv, table);
        vs_assert(n == 1, "one error");
        check_report(end, prog, n);
        vs_reach("long");
        arg_freetable(table, 2);
    }
#elif SCENE == 4 /* many errors */
    {
        static char tok[COUNT + 1][12];
        static char* av[COUNT + 2];
        int i, room = vs_choose(3, "room"), odd = vs_choose(COUNT, "odd");
        vs_limit(200000000);
        room = room == 0 ? COUNT / 2 : room == 1 ? COUNT : COUNT + 1;
        table[0] = arg_int0("i", "num", NULL, "g");
        table[1] = end = arg_end(room);
        av[0] = "x";
        for (i = 0; i < COUNT; i++) {
            sprintf(tok[i], "--u%d", i);
            if (i == odd) { vs_bytes(tok[i] + 3, 1, "char"); vs_assume(tok[i][3] != 0); }
            av[i + 1] = tok[i];
            if (i == room - 1 && room < COUNT) { rs_s(&want, prog); rs_s(&want, ": too many errors to display\n"); vs_reach("limit"); }
            else if (i < room) { rs_s(&want, prog); rs_s(&want, ": invalid option \""); rs_s(&want, tok[i]); rs_s(&want, "\"\n"); }
        }
        av[COUNT + 1] = NULL;
        n = arg_parse(COUNT + 1, av, table);
        vs_assert(n == (COUNT < room ? COUNT : room), "as many errors as fit");
        check_report(end, prog, n);
        arg_freetable(table, 2);
    }
#endif
    (void)k; (void)st; (void)v; (void)argc; (void)argv;
}
