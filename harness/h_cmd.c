/* C21: sub-command registry: a command is found, dispatched and listed exactly as last registered. */
#include "refsyntax.h"
#ifndef OPS
#define OPS 3
#endif
#ifndef PRE
#define PRE 0
#endif
#define NK 5
#ifdef DESCN /* descriptions of every length */
static const int descn[] = {DESCN};
#define DESC_LEN (descn[vs_choose((int)(sizeof descn / sizeof *descn), "length")])
#else
#define DESC_LEN (ARG_CMD_DESCRIPTION_LEN - 1)
#endif
#define ALL (NK + PRE)
static char* name[ALL];
static char pre[PRE + 1][8];
typedef struct { int present, proc, ctx; char* desc; } rec;
static rec R[ALL];
static int ctxs[4];
static int calls, lastproc, lastargc, ret;
static char **lastargv; static arg_dstr_t lastres; static void* lastctx;
static int run(int p, int argc, char** argv, arg_dstr_t res, void* ctx) { calls++; lastproc = p; lastargc = argc; lastargv = argv; lastres = res; lastctx = ctx; arg_dstr_cat(res, p ? "one" : "zero"); return ret; }
static int p0(int argc, char** argv, arg_dstr_t res, void* ctx) { return run(0, argc, argv, res, ctx); }
static int p1(int argc, char** argv, arg_dstr_t res, void* ctx) { return run(1, argc, argv, res, ctx); }
static arg_cmdfn* procs[] = {p0, p1};
static unsigned count;
static long mine; /* descriptions the harness keeps */
static int owner(const char* s) { int i; for (i = 0; i < ALL; i++) if (same(s, name[i])) return i; return -1; }
static void check_info(arg_cmd_info_t* c, int i) {
    vs_assert(same(c->name, name[i]), "the name of the command");
    vs_assert(same(c->description, R[i].desc), "the description it was registered with");
    vs_assert(c->proc == procs[R[i].proc] && c->ctx == &ctxs[R[i].ctx], "the procedure and context it was registered with");
}
static void check_all(void) {
    int i, seen[ALL], n = 0;
    arg_cmd_itr_t it = arg_cmd_itr_create();
    vs_assert(arg_cmd_count() == count, "the number of commands");
    for (i = 0; i < ALL; i++) {
        arg_cmd_info_t* c = arg_cmd_info(name[i]);
        seen[i] = 0;
        vs_assert((c != NULL) == R[i].present, "exactly the registered commands are found");
        if (c) check_info(c, i);
    }
    if (count) do {
        int k = owner(arg_cmd_itr_key(it));
        vs_assert(k >= 0 && R[k].present && !seen[k], "iteration lists each registered command once");
        seen[k] = 1; n++;
        check_info(arg_cmd_itr_value(it), k);
    } while (arg_cmd_itr_advance(it));
    else vs_assert(arg_cmd_itr_advance(it) == 0, "an empty registry has nothing to list");
    vs_assert((unsigned)n == count, "iteration lists every command");
    arg_cmd_itr_destroy(it);
}
static char* fill(int n, int seed) { char* p = (char*)malloc((size_t)n + 1); int i; for (i = 0; i < n; i++) p[i] = (char)('a' + (i + seed) % 26); p[n] = 0; return p; }
void vs_main(void) {
    long before = vs_live_heap();
    int i;
    char* argv[3] = {"x", "y", NULL};
    /* two names with the same hash, a symbolic one, the empty one and one of the greatest length */
    name[0] = dup_str("Ez"); name[1] = dup_str("FY"); name[2] = dup_str(""); name[3] = fill(ARG_CMD_NAME_LEN - 1, 3);
#ifdef LONGN /* long names that differ in one character only, or in two without a difference in their hashes */
    {
        static const int ns[] = {LONGN};
        int n = ns[vs_choose((int)(sizeof ns / sizeof *ns), "size")], at = vs_choose(6, "at");
        free(name[0]); free(name[1]);
        name[0] = fill(n, 5); name[1] = fill(n, 5);
        if (at < 3) name[1][at == 0 ? 0 : at == 1 ? n - 1 : n / 2] = '_';
        else {
            int p = at == 3 ? 0 : at == 4 ? n - 2 : n / 2;
            memcpy(name[0] + p, "bB", 2); memcpy(name[1] + p, "ac", 2);
        }
        vs_limit(50000000);
    }
#endif
    name[4] = (char*)malloc(3);
    vs_bytes(name[4], 2, "name"); name[4][2] = 0;
    vs_assume((name[4][0] == 'E' || name[4][0] == (char)0xc3) && (name[4][1] == 'Y' || name[4][1] == (char)0xa9));
    arg_cmd_init();
    for (i = 0; i < PRE; i++) {
        sprintf(pre[i], "c%d", i);
        name[NK + i] = pre[i];
        R[NK + i].present = 1; R[NK + i].proc = i & 1; R[NK + i].ctx = i & 3; R[NK + i].desc = "d"; count++;
        arg_cmd_register(pre[i], procs[i & 1], "d", &ctxs[i & 3]);
    }
    for (i = 0; i < OPS; i++) {
        int k = vs_choose(NK, "which"), had = R[k].present;
        char* given = dup_str(name[k]); /* the registry keeps nothing of the caller's */
        switch (vs_choose(5, "op")) {
            case 0: {
                char* d;
                switch (vs_choose(3, "desc")) { case 0: d = sym_str(2, "d"); break; case 1: d = fill(DESC_LEN, i); break; default: d = dup_str(""); }
                R[k].present = 1; R[k].proc = vs_choose(2, "proc"); R[k].ctx = i & 3; R[k].desc = dup_str(d); mine++;
                arg_cmd_register(given, procs[R[k].proc], d, &ctxs[i & 3]);
                memset(d, '#', strlen(d));
                free(d);
                if (!had) count++; else vs_reach("registered again");
                vs_reach("registered");
                break;
            }
            case 1: arg_cmd_unregister(given); if (had) { R[k].present = 0; count--; vs_reach("unregistered"); } else vs_reach("unregistering an unknown command"); break;
            case 2:
                if (!had) { vs_assert(arg_cmd_info(given) == NULL, "an unknown command is not found"); break; }
                {
                    arg_dstr_t res = arg_dstr_create();
                    int was = calls, argc = vs_int("argc"), r;
                    ret = vs_int("ret");
                    r = arg_cmd_dispatch(given, argc, argv, res);
                    vs_assert(calls == was + 1 && lastproc == R[k].proc, "dispatch calls the procedure of that command, once");
                    vs_assert(lastargc == argc && lastargv == argv && lastres == res && lastctx == &ctxs[R[k].ctx], "the procedure gets the arguments, the result string and its context");
                    vs_assert(r == ret, "dispatch returns what the procedure returned");
                    vs_assert(same(arg_dstr_cstr(res), R[k].proc ? "one" : "zero"), "what the procedure wrote is kept");
                    arg_dstr_destroy(res);
                    vs_reach("dispatched");
                }
                break;
            case 4: { /* registered again with the texts the registry itself returned */
                arg_cmd_info_t* c = arg_cmd_info(given);
                if (!c) break;
                R[k].proc = !R[k].proc; R[k].ctx = 3;
                arg_cmd_register(c->name, procs[R[k].proc], c->description, &ctxs[3]);
                vs_reach("wrapped");
                break;
            }
            case 3: {
                arg_cmd_itr_t it = arg_cmd_itr_create();
                int r = arg_cmd_itr_search(it, given);
                vs_assert((r != 0) == had, "iterator search finds exactly the registered commands");
                if (r) { vs_assert(same(arg_cmd_itr_key(it), name[k]), "iterator search stands on the command"); check_info(arg_cmd_itr_value(it), k); vs_reach("iterator search"); }
                arg_cmd_itr_destroy(it);
                break;
            }
        }
        memset(given, '#', strlen(given));
        free(given);
    }
    check_all();
    vs_out("count", (long)count);
    arg_cmd_uninit();
    for (i = 0; i < NK; i++) free(name[i]);
    vs_assert(vs_live_heap() == before + mine, "the registry gives back all its memory");
    arg_cmd_init();
    vs_assert(arg_cmd_count() == 0, "a new registry is empty");
    arg_cmd_uninit();
}
