/* C26: arg_mgsort sorts: the result is ordered, holds the same elements, and nothing outside the range is touched. */
#include "common.h"
#ifndef N
#define N 5
#endif
#ifndef WIDTH
#define WIDTH 2
#endif
static unsigned char a[(N + 2) * WIDTH], o[(N + 2) * WIDTH];
static int cmp(const void* x, const void* y) { int p = *(const unsigned char*)x, q = *(const unsigned char*)y; return REVERSE ? q - p : p - q; }
void vs_main(void) {
    int i, j;
#ifdef SYMK
    int n, from, to;
#else
    int n = vs_choose(N + 1, "n"), from = n ? vs_choose(n, "from") : 0, to = n ? from + vs_choose(n - from, "to") : -1;
#endif
    long before = vs_live_heap();
    #ifdef SYMK /* SYMK keys are arbitrary, the others fixed */
#ifdef SIZES
    static const int sizes[] = {SIZES};
    n = sizes[vs_choose((int)(sizeof sizes / sizeof *sizes), "n")]; from = vs_choose(2, "from"); to = n - 1 - (from ? 2 : 0);
    vs_limit(100000000);
#else
    n = N - vs_choose(2, "n"); from = 3 * vs_choose(2, "from"); to = n - 1 - 2 * vs_choose(2, "to");
#endif
    {
#ifdef SIZES
        int at = vs_choose(2, "at") * (n / 2);
#else
        int at = vs_choose(n, "at");
#endif
        for (i = 0; i < n; i++) { a[i * WIDTH] = (unsigned char)(i * 97 % 31 * 8); if ((i + n - at) % n % (n / SYMK) == 0) vs_bytes(&a[i * WIDTH], 1, "key"); } }
#else
    for (i = 0; i < n; i++) vs_bytes(&a[i * WIDTH], 1, "key");
#endif
    for (i = 0; i < n; i++) { for (j = 1; j < WIDTH; j++) a[i * WIDTH + j] = (unsigned char)(i + j); }
    memset(a + n * WIDTH, 0xEE, WIDTH);
    memcpy(o, a, sizeof a);
    arg_mgsort(a, n, WIDTH, from, to, cmp);
    for (i = from; i < to; i++) vs_assert(cmp(&a[i * WIDTH], &a[(i + 1) * WIDTH]) <= 0, "in order");
    for (i = 0; i <= n; i++) if (i < from || i > to) vs_assert(memcmp(a + i * WIDTH, o + i * WIDTH, WIDTH) == 0, "elements outside the range stay");
#if WIDTH > 1
    { /* every element is one of the old ones, each once: the tag names it */
        int seen[N + 1];
        for (i = 0; i < n; i++) seen[i] = 0;
        for (i = from; i <= to; i++) {
            int k = a[i * WIDTH + 1] - 1, d;
            vs_assert(k >= from && k <= to && !seen[k], "each element appears once");
            seen[k] = 1;
            for (d = 0; d < WIDTH; d++) vs_assert(a[i * WIDTH + d] == o[k * WIDTH + d], "elements are moved whole");
        }
    }
#else
    { unsigned char c; int x = 0, y = 0; vs_bytes(&c, 1, "any"); for (i = from; i <= to; i++) { x = x + (a[i] == c); y = y + (o[i] == c); } vs_assert(x == y, "the same elements"); }
#endif
    vs_assert(vs_live_heap() == before, "no memory is kept");
    for (i = 0; i < n; i++) vs_out("key", (WIDTH > 1) ? a[i * WIDTH + 1] : 0);
    if (to > from) vs_reach("sorted");
}
