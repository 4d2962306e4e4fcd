/* C25: module identity and the ready-made help and syntax-error messages. */
#include "refsyntax.h"
#ifndef NLEN
#define NLEN 2
#endif
/* texts of up to NLEN arbitrary characters, or (LENS) long ones with an arbitrary last character */
#ifdef LENS
static const int lens[] = {LENS};
static char* txt(int lo, int hi, const char* name) {
    static int used; /* one long text at a time */
    int n = used ? 2 : lens[vs_choose((int)(sizeof lens / sizeof *lens), "len")];
    char* p = (char*)malloc((size_t)n + 1);
    (void)lo; (void)hi;
    if (n > 1) used = 1;
    memset(p, 'n', (size_t)n); p[n] = 0;
    if (n) { vs_bytes(p + n - 1, 1, name); vs_assume(p[n - 1] != 0); }
    return p;
}
#else
#define txt(lo, hi, name) sym_str_upto(lo, hi, name)
#endif
static rs want;
static const char* mname;
static char ver[2000];
static int myproc(int argc, char** argv, arg_dstr_t res, void* ctx) { (void)argc; (void)argv; (void)res; (void)ctx; return 0; }
static void usage(void) { rs_s(&want, " [-h|--help] <file> [-n|--num=<n>]..."); }
void vs_main(void) {
    static const int nums[] = {0, 3, -7, 2147483647};
    long before = vs_live_heap();
    struct arg_lit* h = arg_lit0("h", "help", "show help");
    struct arg_file* f = arg_file1(NULL, NULL, NULL, "input");
    struct arg_int* n = arg_intn("n", "num", "<n>", 0, 5, NULL);
    struct arg_end* end = arg_end(5);
    void* table[4];
    arg_dstr_t ds = arg_dstr_create();
    int which = vs_choose(4, "message"), known = which ? vs_choose(2, "known") : 0, rounds = which ? 1 : 1 + vs_choose(2, "again"), i;
    char *cmd = which ? txt(0, NLEN, "cmd") : "", *desc = which ? txt(0, NLEN, "desc") : "", *keep = NULL;
    table[0] = h; table[1] = f; table[2] = n; table[3] = end;
    mname = "<name>"; strcpy(ver, "0.0.0.0");
    for (i = 0; i < rounds; i++) {
        if (vs_choose(2, "named")) {
            char* t = txt(0, NLEN, "module");
            arg_set_module_name(t);
            if (keep) free(keep);
            keep = dup_str(t);
            mname = keep[0] ? keep : "<name>";
            memset(t, '#', strlen(t)); free(t);
            vs_reach("named");
        }
        if (which == 0 && vs_choose(2, "versioned")) {
            char* t = txt(0, NLEN, "tag");
            int k = vs_choose(4, "version"), a = nums[k], b = nums[(k + 3 - i) % 4], c = nums[(k + 2) % 4];
            arg_set_module_version(a, b, c, t);
            sprintf(ver, "%d.%d.%d.%s", a, b, c, t);
            memset(t, '#', strlen(t)); free(t);
            vs_reach("versioned");
        }
    }
    arg_cmd_init();
#ifdef LENS
    vs_limit(50000000);
    if (known) vs_assume(strlen(cmd) < ARG_CMD_NAME_LEN && strlen(desc) < ARG_CMD_DESCRIPTION_LEN);
#endif
    if (known) arg_cmd_register(cmd, myproc, desc, NULL);
    arg_dstr_cat(ds, "before;"); rs_s(&want, "before;");
    if (which == 0) {
        arg_make_get_help_msg(ds);
        rs_s(&want, mname); rs_s(&want, " v"); rs_s(&want, ver); rs_s(&want, "\nPlease type '"); rs_s(&want, mname); rs_s(&want, " help' to get more information.\n");
        vs_reach("short help");
    } else {
        char* argv[6]; int bad, argc = 0, errs, r = 99, code = -12345, helped = 0, plain = which <= 2;
        argv[argc++] = "p";
        if (vs_choose(2, "helpopt")) { argv[argc++] = "-h"; }
        if (vs_choose(2, "fileopt")) { argv[argc++] = "in"; }
        if ((bad = vs_choose(2, "badopt"))) { argv[argc++] = "-nx"; argv[argc++] = "-nyy"; }
        argv[argc] = NULL;
        errs = arg_parse(argc, argv, table);
        helped = h->count * (which == 3 && vs_choose(2, "twice") ? 2 : 1);
        if (which == 1) { arg_make_help_msg(ds, cmd, table); helped = 1; }
        else if (which == 2) { arg_make_syntax_err_msg(ds, table, end); helped = 0; }
        else r = arg_make_syntax_err_help_msg(ds, cmd, helped, errs, table, end, &code);
        if (!plain) {
            vs_assert(r == (helped > 0 || errs > 0), "a message is made exactly when help is asked for or there are errors");
            vs_assert(code == (helped > 0 ? EXIT_SUCCESS : errs > 0 ? EXIT_FAILURE : -12345), "the exit code: success for help, failure for errors, untouched otherwise");
        }
        if (helped) {
            if (known) { rs_s(&want, cmd); rs_s(&want, ": "); rs_s(&want, desc); rs_c(&want, '\n'); }
            rs_s(&want, "Usage:\n  "); rs_s(&want, mname); usage();
            rs_s(&want, "\n \nAvailable options:\n  "); rs_pad(&want, "-h, --help", 23); rs_s(&want, " show help\n  "); rs_pad(&want, "<file>", 23); rs_s(&want, " input\n\n");
            vs_reach("help");
        } else if (which == 2 || errs > 0) {
            if (bad) { rs_s(&want, mname); rs_s(&want, ": invalid argument \"x\" to option -n|--num=<n>\n"); rs_s(&want, mname); rs_s(&want, ": invalid argument \"yy\" to option -n|--num=<n>\n"); }
            else if (errs > 0) { rs_s(&want, mname); rs_s(&want, ": missing option <file>\n"); }
            rs_s(&want, "Usage: \n  "); rs_s(&want, mname); usage(); rs_s(&want, "\n\n");
            vs_reach("errors");
        } else vs_reach("nothing to say");
    }
    vs_outs("text", arg_dstr_cstr(ds));
    vs_assert(same(arg_dstr_cstr(ds), want.b), "the message, appended to what was there");
    arg_dstr_destroy(ds);
    arg_cmd_uninit();
    arg_freetable(table, 4);
    (void)before;
    if (which == 0) { /* each new name or version takes the place of the old one */
        long live;
        arg_set_module_name("x"); arg_set_module_version(1, 2, 3, "y");
        live = vs_live_heap();
        arg_set_module_name("another"); arg_set_module_version(12345, 2, 3, "another");
        vs_assert(vs_live_heap() == live, "the old name and version are released");
    }
}
