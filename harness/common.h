/* Shared harness helpers. Only the public interface of the library is used. */
#ifndef COMMON_H
#define COMMON_H
#include "vsym.h"
#include "argtable3.h"

/* a fresh symbolic string of exactly n characters (none of them NUL) in a block of n+1 bytes,
 * so that any access past the terminator is out of bounds */
static char* sym_str(int n, const char* name) {
    char* p = (char*)malloc((size_t)n + 1);
    int i;
    vs_bytes(p, (size_t)n, name);
    for (i = 0; i < n; i++) vs_assume(p[i] != 0);
    p[n] = 0;
    return p;
}
/* length chosen in lo..hi: one path per length */
static char* sym_str_upto(int lo, int hi, const char* name) {
    int n = lo + (hi > lo ? vs_choose(hi - lo + 1, "len") : 0);
    return sym_str(n, name);
}
/* every character drawn from the given set */
static void restrict_to(const char* s, const char* set) {
    for (; *s; s++) {
        int in = 0;
        const char* q;
        for (q = set; *q; q++) in = in | (*s == *q);
        vs_assume(in);
    }
}
static char* dup_str(const char* s) {
    size_t n = strlen(s) + 1;
    char* p = (char*)malloc(n);
    memcpy(p, s, n);
    return p;
}
/* n1 times c1, k arbitrary characters, n2 times c2, k arbitrary characters, n3 times c3 */
static char* padded(int n1, char c1, int n2, char c2, int n3, char c3, int k, const char* name) {
    int n = n1 + n2 + n3 + 2 * k, i;
    char *p = (char*)malloc((size_t)n + 1), *q = p;
    memset(q, c1, (size_t)n1); q += n1;
    vs_bytes(q, (size_t)k, name);
    for (i = 0; i < k; i++) vs_assume(q[i] != 0);
    q += k;
    memset(q, c2, (size_t)n2); q += n2;
    vs_bytes(q, (size_t)k, name);
    for (i = 0; i < k; i++) vs_assume(q[i] != 0);
    q += k;
    memset(q, c3, (size_t)n3); q += n3;
    *q = 0;
    return p;
}
/* a call after which nothing more is allocated than before */
#define KEEPS(call) do { long live_ = vs_live_heap(); call; vs_assert(vs_live_heap() == live_, "printing keeps no memory"); } while (0)
/* the same for a call that writes to a dynamic string D */
#define KEEPS_DS(call) do { long live_ = vs_live_heap(); arg_dstr_t D = arg_dstr_create(); call; arg_dstr_destroy(D); vs_assert(vs_live_heap() == live_, "printing keeps no memory"); } while (0)
static int same(const char* a, const char* b) { return strcmp(a, b) == 0; }
#endif
