/* Native side of the harness interface: inputs come from a replay file (argv[1]), one line per
 * input: NAME HEX. Exit codes: 0 finished, 42 assertion of the harness failed, 43 an assumption
 * did not hold, 44 the inputs do not fit the harness (diverged). Observations go to argv[2]. */
#define _GNU_SOURCE
#include "vsym.h"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef exit
#undef abort
#include <unistd.h>
static FILE *in, *out, *realerr;
static int mayfail, exitok = -1;
static long live;
static unsigned char* next(const char* name, size_t n, unsigned char* buf) {
    char nm[128], *hex; size_t i, got = 0;
    static char line[1 << 16];
    if (!fgets(line, sizeof line, in)) { memset(buf, 0, n); fprintf(realerr, "replay: out of inputs at %s\n", name); _exit(44); }
    hex = strchr(line, ' ');
    if (!hex) { _exit(44); }
    *hex++ = 0;
    snprintf(nm, sizeof nm, "%s", line);
    if (strcmp(nm, name)) { fprintf(realerr, "replay: wanted %s, have %s\n", name, nm); _exit(44); }
    for (i = 0; hex[2 * i] && hex[2 * i] != '\n'; i++) { unsigned x; sscanf(hex + 2 * i, "%2x", &x); if (i < n) buf[i] = (unsigned char)x; got++; }
    if (got != n) { fprintf(realerr, "replay: size of %s: wanted %zu, have %zu\n", name, n, got); _exit(44); }
    return buf;
}
void vs_bytes(void* p, size_t n, const char* name) { if (n == 0) { char l[256]; if (!fgets(l, sizeof l, in)) _exit(44); return; } next(name, n, (unsigned char*)p); }
int vs_int(const char* name) { int v; next(name, 4, (unsigned char*)&v); return v; }
int vs_choose(int n, const char* name) { unsigned char b; next(name, 1, &b); (void)n; return b; }
void vs_assume(int c) { if (!c) { fflush(out); _exit(43); } }
void vs_assert_(int c, const char* msg) { if (!c) { fprintf(realerr, "ASSERTION FAILED: %s\n", msg); fprintf(out, "ASSERT %s\n", msg); fflush(out); fflush(realerr); _exit(42); } }
void vs_reach(const char* l) { (void)l; }
void vs_out(const char* l, long v) { fprintf(out, "%s=%ld\n", l, v); }
void vs_outs(const char* l, const char* s) {
    fprintf(out, "%s=", l);
    if (!s) s = "(nil)";
    for (; *s; s++) fprintf(out, "%02x", (unsigned char)*s);
    fprintf(out, "\n");
}
long vs_live_heap(void) { return live; }
int vs_malloc_may_fail(int n) { int old = mayfail; mayfail = n; return old; }
void (*vs_exit_hook)(int code);
void vs_limit(long n) { (void)n; }
void vs_exit_ok(int c) { exitok = c; }
int vs_ite(int c, int a, int b) { return c ? a : b; }
int vs_must(int c) { return c; }
int vs_symbolic(long v) { (void)v; return 0; }
long vs_concrete(long v) { return v; }
int vs_readable(const void* p) { return p != NULL; }
static void finish(int code) { fflush(out); fclose(out); _exit(code); }
void vs_done(void) { finish(0); }
static int refuse(void) { unsigned char b; if (mayfail <= 0) return 0; next("alloc", 1, &b); if (b) mayfail--; return b; }
void* vsn_malloc(size_t n) { void* p; if (refuse()) return NULL; p = malloc(n); if (p) live++; return p; }
void* vsn_calloc(size_t a, size_t b) { void* p; if (refuse()) return NULL; p = calloc(a, b); if (p) live++; return p; }
void* vsn_realloc(void* q, size_t n) { void* p; if (refuse()) return NULL; p = realloc(q, n ? n : 1); if (p && !q) live++; return p; }
void vsn_free(void* p) { if (p) live--; free(p); }
void vsn_exit(int c) { if (vs_exit_hook) vs_exit_hook(c); if (exitok == 1000 || exitok == (c & 255)) finish(0); fprintf(realerr, "exit(%d) called\n", c); finish(45); }
void vsn_abort(void) { if (vs_exit_hook) vs_exit_hook(134); if (exitok == 134) finish(0); fprintf(realerr, "abort() called\n"); finish(46); }
static struct { FILE* fp; char* p; size_t n; } files[8];
static int nf;
static FILE* mk(void) { files[nf].fp = open_memstream(&files[nf].p, &files[nf].n); return files[nf++].fp; }
FILE* vs_file(void) { return mk(); }
const char* vs_text(FILE* fp) { int i; fflush(fp); for (i = 0; i < nf; i++) if (files[i].fp == fp) return files[i].p; return ""; }
const char* vs_stdout_text(void) { return vs_text(stdout); }
const char* vs_stderr_text(void) { return vs_text(stderr); }
int main(int argc, char** argv) {
    FILE* o;
    realerr = stderr;
    in = fopen(argv[1], "r"); out = argc > 2 ? fopen(argv[2], "w") : stdout;
    if (!in || !out) return 44;
    o = mk(); stdout = o;
    o = mk(); stderr = o;
    vs_main();
    finish(0);
    return 0;
}
