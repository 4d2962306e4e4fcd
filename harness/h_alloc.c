/* C22: when memory runs out the program is stopped through the panic function, once, before any damage.
 * HANDLER 0: the default (message on stderr, exit or core dump); 1: one installed by the application. */
#include "table.h"
#include "argtable3_private.h"
#include <stdarg.h>
static int panics, dump, started;
static void finish(void) {
    vs_assert(vs_malloc_may_fail(0) == 0, "an allocation did fail");
    vs_reach("stopped");
    vs_out("stopped", 1);
    vs_done();
}
static void on_exit_(int code) {
    vs_assert(started, "only when memory ran out");
    vs_assert(code == (dump ? 134 : EXIT_FAILURE), dump ? "the program dumps core" : "the program exits with a failure code");
    vs_assert(same(vs_stderr_text(), "Out of memory!\n"), "the reason is reported");
    finish();
}
static void my_panic(const char* fmt, ...) {
    char b[64]; va_list ap;
    va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    panics++;
    vs_assert(panics == 1, "once");
    vs_assert(same(b, "Out of memory!\n"), "the handler is told");
    finish();
}
static int cmp(const void* a, const void* b) { return *(const int*)a - *(const int*)b; }
static unsigned hs(const void* k) { return (unsigned)*(const int*)k; }
static int eq(const void* a, const void* b) { return *(const int*)a == *(const int*)b; }
static int proc(int argc, char** argv, arg_dstr_t res, void* ctx) { (void)argc; (void)argv; (void)res; (void)ctx; return 0; }
#ifndef LEN
#define LEN 3
#endif
static char* sym_long(void) { static char p[LEN + 3]; int i; p[0] = p[1] = '-'; vs_bytes(p + 2, LEN, "long"); for (i = 0; i < LEN; i++) vs_assume(p[2 + i] != 0); p[2 + LEN] = 0; return p; }
static char* sym_short(void) { static char p[LEN + 1]; int i, n = vs_choose(LEN + 1, "len"); vs_bytes(p, (size_t)n, "arg"); for (i = 0; i < n; i++) vs_assume(p[i] != 0); p[n] = 0; return p; }
#define RUN 14
void vs_main(void) {
    FILE* fp = vs_file();
    int what = vs_choose(RUN, "what");
#if HANDLER == 0
    {
        int e = vs_choose(3, "env");
        if (e == 1) setenv("EF_DUMPCORE", "", 1);
        if (e == 2) { setenv("EF_DUMPCORE", "1", 1); dump = 1; }
        vs_exit_hook = on_exit_;
    }
#else
    arg_set_panic(my_panic);
#endif
    started = 1;
    vs_malloc_may_fail(1);
    switch (what) {
        case 0: { /* constructors */
            static const spec sp[] = {{K_LIT, "a", "aa", 0, 2, 0, NULL}, {K_INT, "b", NULL, 0, 2, 0, NULL}, {K_DBL, "c", NULL, 0, 3, 0, NULL}, {K_STR, "d", NULL, 0, 2, 0, NULL}, {K_FILE, "e", NULL, 0, 2, 0, NULL}, {K_DATE, "f", NULL, 0, 1, 0, "%Y"}, {K_REX, "g", NULL, 0, 2, 0, "a+(b|[c-d])"}, {K_REM, NULL, NULL, 0, 0, 0, NULL}};
            void* t[9]; int i;
            for (i = 0; i < 8; i++) { t[i] = make_entry(&sp[i]); vs_assert(t[i] != NULL, "entry made"); }
            t[8] = arg_end(3);
            vs_assert(arg_nullcheck(t) == 0, "table complete");
            arg_freetable(t, 9);
            break;
        }
        case 1: { /* parsing and reporting */
            void* t[6]; char* argv[8]; int n;
            t[0] = arg_lit0("a", "alpha", "g"); t[1] = arg_str0("s", "str", NULL, "g"); t[2] = arg_rex0("r", "rex", "a+(b|[c-d]{1,2})*", NULL, 0, "g"); t[3] = arg_int0("i", "int", NULL, "g"); t[4] = arg_file0(NULL, NULL, NULL, "g"); t[5] = arg_end(4);
            argv[0] = "p"; argv[1] = "-a"; argv[2] = "--rex=aabcd"; argv[3] = "-i"; argv[4] = "0x1F"; argv[5] = "--bad"; argv[6] = "file"; argv[7] = NULL;
            n = arg_parse(7, argv, t);
            vs_assert(n == 1, "parsed");
            arg_print_errors(fp, (struct arg_end*)t[5], "p");
            arg_print_syntax(fp, t, "\n");
            arg_freetable(t, 6);
            break;
        }
        case 2: { /* printing */
            void* t[3];
            t[0] = arg_str0("s", "str", NULL, "a description"); t[1] = arg_lit1("l", NULL, "g"); t[2] = arg_end(1);
            arg_print_syntaxv(fp, t, "\n"); arg_print_glossary(fp, t, NULL); arg_print_glossary_gnu(fp, t); arg_print_option(fp, "a", "b", "c", "d"); arg_print_formatted(fp, 0, 4, "some text");
            arg_freetable(t, 3);
            break;
        }
        case 3: { /* dynamic strings */
            char big[300]; arg_dstr_t d = arg_dstr_create();
            memset(big, 'x', 299); big[299] = 0;
            arg_dstr_set(d, big, ARG_DSTR_VOLATILE); arg_dstr_cat(d, big); arg_dstr_catc(d, 'c'); arg_dstr_catf(d, "%s-%s", big, big);
            vs_assert(strlen(arg_dstr_cstr(d)) == 299 * 4 + 2, "text complete");
            arg_dstr_destroy(d);
            break;
        }
        case 4: { /* sub-commands */
            arg_cmd_itr_t it; arg_dstr_t d; void* t[2];
            t[0] = arg_lit0("h", "help", "g"); t[1] = arg_end(1);
            arg_set_module_name("m"); arg_set_module_version(1, 2, 3, "t");
            arg_cmd_init(); arg_cmd_register("x", proc, "dx", NULL); arg_cmd_register("x", proc, "dy", NULL);
            it = arg_cmd_itr_create(); arg_cmd_itr_destroy(it);
            d = arg_dstr_create(); arg_make_get_help_msg(d); arg_make_help_msg(d, "x", t); arg_dstr_destroy(d);
            vs_assert(arg_cmd_count() == 1, "registered");
            arg_cmd_uninit(); arg_freetable(t, 2);
            break;
        }
        case 7: { /* any command line */
            void* t[5]; char* argv[4];
            argv[0] = "p"; argv[1] = vs_choose(2, "dashes") ? sym_long() : sym_short(); argv[2] = NULL;
            t[0] = arg_lit0("a", "al", "g"); t[1] = arg_str0("s", "st", NULL, "g"); t[2] = arg_rex0(NULL, "rx", "a*b", NULL, 0, "g"); t[3] = arg_int0(NULL, NULL, NULL, "g"); t[4] = arg_end(2);
            arg_parse(2, argv, t);
            arg_print_errors(fp, (struct arg_end*)t[4], "p");
            arg_freetable(t, 5);
            vs_reach("any command line");
            break;
        }
        case 8: { /* every value kind, several values each, and a second parse */
            void* t[8]; char *argv[16], *bad[3]; int k;
            t[0] = arg_intn("i", NULL, NULL, 0, 2, "g"); t[1] = arg_dbln("d", NULL, NULL, 0, 2, "g"); t[2] = arg_strn("s", NULL, NULL, 0, 2, "g"); t[3] = arg_filen("f", NULL, NULL, 0, 2, "g"); t[4] = arg_daten("t", NULL, "%H:%M", NULL, 0, 2, "g"); t[5] = arg_rexn("r", NULL, "[a-z]+|\\d{2,3}", NULL, 0, 2, ARG_REX_ICASE, "g"); t[6] = arg_litn("l", "long,lang", 1, 3, "g"); t[7] = arg_end(8);
            argv[0] = "p"; argv[1] = "-i1"; argv[2] = "-d2.5"; argv[3] = "-sx"; argv[4] = "-fa/b.c"; argv[5] = "-t10:20"; argv[6] = "-rABC"; argv[7] = "-ll"; argv[8] = "-r12"; argv[9] = "--la"; argv[10] = NULL;
            for (k = 0; k < 2; k++) vs_assert(arg_parse(10, argv, t) == 0, "parsed");
            bad[0] = "p"; bad[1] = "-i"; bad[2] = NULL;
            vs_assert(arg_parse(2, bad, t) == 1, "parsed");
            arg_print_errors(fp, (struct arg_end*)t[7], "p");
            arg_freetable(t, 8);
            break;
        }
        case 9: { /* messages */
            void* t[4]; arg_dstr_t d = arg_dstr_create(); char* argv[2]; int code = 0;
            t[0] = arg_lit0("h", "help", "g"); t[1] = arg_int1("n", "num", "N", "a number that is described at some length, so that the line is wrapped"); t[2] = arg_date1(NULL, NULL, "%Y", NULL, "g"); t[3] = arg_end(3);
            argv[0] = "p"; argv[1] = NULL;
            arg_cmd_init();
            arg_set_module_name("first"); arg_set_module_name("second"); arg_set_module_version(1, 2, 3, "a"); arg_set_module_version(4, 5, 6, "b");
            vs_assert(arg_parse(1, argv, t) == 2, "errors");
            vs_assert(arg_make_syntax_err_help_msg(d, "x", 0, 2, t, (struct arg_end*)t[3], &code) == 1 && code == EXIT_FAILURE, "message made");
            arg_make_syntax_err_msg(d, t, (struct arg_end*)t[3]);
            arg_print_glossary_gnu_ds(d, t); arg_print_syntax_ds(d, t, ";"); arg_print_errors_ds(d, (struct arg_end*)t[3], "p"); arg_print_option_ds(d, "a", "b", "c", "d");
            arg_dstr_destroy(d); arg_cmd_uninit(); arg_freetable(t, 4);
            break;
        }
        case 10: { /* every constructor */
            int k = vs_choose(22, "constructor"); void* e = NULL; void* t[1];
            switch (k) {
                case 0: e = arg_rem("a", "b"); break; case 1: e = arg_lit0("a", NULL, "g"); break; case 2: e = arg_lit1("a", NULL, "g"); break;
                case 3: e = arg_int0("a", NULL, NULL, "g"); break; case 4: e = arg_int1("a", NULL, NULL, "g"); break; case 5: e = arg_intn("a", NULL, NULL, 0, 40, "g"); break;
                case 6: e = arg_dbl0("a", NULL, NULL, "g"); break; case 7: e = arg_dbl1("a", NULL, NULL, "g"); break; case 8: e = arg_dbln("a", NULL, NULL, 0, 40, "g"); break;
                case 9: e = arg_str0("a", NULL, NULL, "g"); break; case 10: e = arg_str1("a", NULL, NULL, "g"); break; case 11: e = arg_strn("a", NULL, NULL, 0, 40, "g"); break;
                case 12: e = arg_file0("a", NULL, NULL, "g"); break; case 13: e = arg_file1("a", NULL, NULL, "g"); break; case 14: e = arg_filen("a", NULL, NULL, 0, 40, "g"); break;
                case 15: e = arg_date0("a", NULL, "%d", NULL, "g"); break; case 16: e = arg_date1("a", NULL, "%d", NULL, "g"); break; case 17: e = arg_daten("a", NULL, "%d", NULL, 0, 40, "g"); break;
                case 18: e = arg_rex0("a", NULL, "a", NULL, 0, "g"); break; case 19: e = arg_rex1("a", NULL, "a", NULL, 0, "g"); break; case 20: e = arg_rexn("a", NULL, "a", NULL, 0, 40, 0, "g"); break;
                default: e = arg_end(40); break;
            }
            vs_assert(e != NULL, "entry made");
            t[0] = e; arg_freetable(t, 1);
            break;
        }
        case 11: { /* a table with many names and a command line with many arguments */
            static void* t[22]; static char nm[20][12]; static char* argv[50]; int i, n = 0;
            for (i = 0; i < 20; i++) { sprintf(nm[i], "name%d,al%d", i, i); t[i] = arg_litn("xyz", nm[i], 0, 60, "g"); }
            t[20] = arg_strn(NULL, NULL, NULL, 0, 30, "g"); t[21] = arg_end(30);
            argv[n++] = "p";
            for (i = 0; i < 20; i++) { argv[n++] = "--name1"; argv[n++] = "word"; }
            argv[n++] = "--al7"; argv[n] = NULL;
            vs_limit(50000000);
            vs_assert(arg_parse(n, argv, t) == 0, "parsed");
            arg_print_syntaxv(fp, t, ";");
            arg_freetable(t, 22);
            break;
        }
        case 12: { /* dynamic strings of every kind */
            arg_dstr_t d = arg_dstr_create(); char big[700]; int i;
            memset(big, 'y', 699); big[699] = 0;
            arg_dstr_set(d, "static", ARG_DSTR_STATIC); arg_dstr_cat(d, "x"); arg_dstr_catf(d, "%s", big); arg_dstr_reset(d);
            arg_dstr_set(d, "small", ARG_DSTR_VOLATILE); for (i = 0; i < 250; i++) arg_dstr_catc(d, 'z'); arg_dstr_catf(d, "%d%s", 7, big);
            vs_assert(strlen(arg_dstr_cstr(d)) == 5 + 250 + 1 + 699, "text complete");
            arg_dstr_free(d); arg_dstr_cat(d, big);
            arg_dstr_destroy(d);
            break;
        }
        case 13: { /* the map itself */
            arg_hashtable_t* h = arg_hashtable_create(16, hs, eq); arg_hashtable_itr_t* it; int i, last = 39;
            for (i = 0; i < 40; i++) { int* k = (int*)malloc(sizeof(int)); if (!k) { vs_assume(0); return; } /* the harness itself ran out */ *k = i; arg_hashtable_insert(h, k, NULL); }
            it = arg_hashtable_itr_create(h); vs_assert(arg_hashtable_itr_search(it, h, &last) != 0, "found"); arg_hashtable_itr_remove(it); arg_hashtable_itr_destroy(it);
            vs_assert(arg_hashtable_count(h) == 39, "all there");
            arg_hashtable_destroy(h, 0);
            break;
        }
        case 5: { int a[4] = {3, 1, 2, 0}; arg_mgsort(a, 4, sizeof(int), 0, 3, cmp); vs_assert(a[0] == 0 && a[3] == 3, "sorted"); break; }
        case 6: { /* a growing registry */
            int i; char nm[40][4];
            arg_cmd_init();
            for (i = 0; i < 40; i++) { sprintf(nm[i], "%d", i); arg_cmd_register(nm[i], proc, "d", NULL); }
            vs_assert(arg_cmd_count() == 40, "registered");
            arg_cmd_uninit();
            break;
        }
    }
    vs_assert(vs_malloc_may_fail(0) == 1, "a failed allocation never goes unnoticed");
    vs_reach("enough memory");
    vs_out("stopped", 0);
    arg_set_panic(my_panic);
}
