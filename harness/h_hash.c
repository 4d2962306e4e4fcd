/* C20: the hash table is a faithful map, whatever the hash function returns and whatever the sequence of operations. */
#include "common.h"
#include "argtable3_private.h"
#ifndef PRE
#define PRE 0      /* entries present before the chosen operations */
#endif
#ifndef OPS
#define OPS 4
#endif
#ifndef KEYS
#define KEYS 3     /* keys the chosen operations work on; the others are only looked at */
#endif
#ifndef MINSIZE
#define MINSIZE 16
#endif
#ifndef CONC
#define CONC 0
#endif
#ifndef STRIDE
#define STRIDE 1
#endif
#ifdef EACH /* whether to remove or to go on is chosen at every step */
#define STEP(n) ((void)(n), vs_choose(2, "step"))
#else
#define STEP(n) ((n) & 1)
#endif
#ifndef FIRST
#define FIRST 0
#endif
#define ALL (PRE + KEYS)
static unsigned hv[ALL + 1];
static int *val[ALL + 1];    /* the value stored for each key, or NULL */
static unsigned hashfn(const void* k) { return hv[*(const int*)k]; }
static int eqfn(const void* a, const void* b) { return *(const int*)a == *(const int*)b; }
static int* box(int v) { int* p = (int*)malloc(sizeof(int)); *p = v; return p; }
static unsigned count;
static arg_hashtable_t* h;
static void check_all(void) {
    arg_hashtable_itr_t* it;
    int i, seen[ALL + 1], n = 0, more;
    vs_assert(arg_hashtable_count(h) == count, "count");
    for (i = 0; i < ALL; i++) { vs_assert(arg_hashtable_search(h, &i) == (void*)val[i], "every key finds its own latest value, and only present keys are found"); seen[i] = 0; }
    it = arg_hashtable_itr_create(h);
    if (count) do {
        int k = *(int*)arg_hashtable_itr_key(it);
        vs_assert(k >= 0 && k < ALL && !seen[k] && val[k], "iteration meets present keys, each once");
        vs_assert(arg_hashtable_itr_value(it) == (void*)val[k], "iteration shows the value of the key");
        seen[k] = 1; n++;
        more = arg_hashtable_itr_advance(it);
    } while (more);
    else vs_assert(arg_hashtable_itr_advance(it) == 0, "nothing to iterate in an empty table");
    vs_assert((unsigned)n == count, "iteration meets every key");
    arg_hashtable_itr_destroy(it);
}
void vs_main(void) {
    long before = vs_live_heap(), vals = 0;
    int i, nv = 100;
    for (i = 0; i < PRE; i++) hv[i] = (unsigned)i * STRIDE;
    for (; i < ALL; i++) {
#if SYMHASH
        hv[i] = (unsigned)vs_int("hash");
#else
        { unsigned char b; vs_bytes(&b, 1, "hash"); vs_assume(b < HV); if (CONC) b = (unsigned char)vs_concrete(b); hv[i] = (unsigned)b * 7u + (PRE > 0 ? 3u : 0u); }
#endif
    }
    h = arg_hashtable_create(MINSIZE, hashfn, eqfn);
    vs_assert(h != NULL && arg_hashtable_count(h) == 0, "a new table is empty");
    for (i = 0; i < PRE; i++) { val[i] = box(nv++); arg_hashtable_insert(h, box(i), val[i]); count++; vals++; }
    for (i = 0; i < OPS; i++) {
        int op = (i == 0 && FIRST) ? FIRST : vs_choose(6, "op"), k = ALL - KEYS + vs_choose(KEYS, "key"), r;
        arg_hashtable_itr_t* it;
        switch (op) {
            case 0: if (val[k]) { vs_assume(0); return; } val[k] = box(nv++); arg_hashtable_insert(h, box(k), val[k]); count++; vals++; vs_reach("insert"); break;
            case 1: arg_hashtable_remove(h, &k); if (val[k]) { val[k] = NULL; count--; vals--; vs_reach("remove"); } break;
            case 2: if (!val[k]) { vs_assert(arg_hashtable_change(h, &k, NULL) == 0, "changing an absent key does nothing"); break; }
                val[k] = box(nv++); vs_assert(arg_hashtable_change(h, &k, val[k]) != 0, "changing a present key"); vs_reach("change"); break;
            case 3: /* search with an iterator, then remove there and go on */
                it = arg_hashtable_itr_create(h);
                r = arg_hashtable_itr_search(it, h, &k);
                vs_assert((r != 0) == (val[k] != NULL), "iterator search finds exactly the present keys");
                if (r) {
                    vs_assert(*(int*)arg_hashtable_itr_key(it) == k && arg_hashtable_itr_value(it) == (void*)val[k], "iterator search points at the key");
                    r = arg_hashtable_itr_remove(it);
                    val[k] = NULL; count--; vals--;
                    if (r) { int x = *(int*)arg_hashtable_itr_key(it); vs_assert(x >= 0 && x < ALL && x != k && val[x] == arg_hashtable_itr_value(it), "after removing, the iterator stands on another present key"); vs_reach("iterator goes on"); }
                    vs_reach("iterator remove");
                }
                arg_hashtable_itr_destroy(it);
                break;
            case 4: /* remove every second key while iterating */
                if (!count) break;
                it = arg_hashtable_itr_create(h);
                { unsigned step = 0, todo = count; int more = 1, seen[ALL + 1], j; for (j = 0; j < ALL; j++) seen[j] = 0;
                  while (more) {
                    int x = *(int*)arg_hashtable_itr_key(it);
                    vs_assert(x >= 0 && x < ALL && !seen[x] && val[x], "iteration with removal meets each key once");
                    seen[x] = 1;
                    if (STEP(step++)) more = arg_hashtable_itr_advance(it);
                    else { val[x] = NULL; count--; vals--; more = arg_hashtable_itr_remove(it); }
                  }
                  vs_assert(step == todo, "iteration with removal meets every key"); }
                arg_hashtable_itr_destroy(it);
                vs_reach("remove while iterating");
                break;
            case 5: check_all(); break;
        }
    }
    check_all();
    vs_out("count", (long)count);
    if (vs_choose(2, "freevalues")) { arg_hashtable_destroy(h, 1); vs_assert(vs_live_heap() == before, "destroying the table releases keys and values"); }
    else { arg_hashtable_destroy(h, 0); vs_assert(vs_live_heap() == before + vals, "destroying the table can leave the values to the caller"); }
}
