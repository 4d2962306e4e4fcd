/* Harness interface. Under the symbolic executor the vs_* functions are built in; in a native
 * build (replay of counterexamples, validation of sampled paths) they are in native.c. */
#ifndef VSYM_H
#define VSYM_H
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
void vs_bytes(void* p, size_t n, const char* name); /* n fresh symbolic bytes */
int vs_int(const char* name);                       /* fresh symbolic int */
int vs_choose(int n, const char* name);             /* one path for each value in [0,n) */
void vs_assume(int c);
void vs_assert_(int c, const char* msg);
void vs_reach(const char* label); /* non-vacuity witness: every label must be reached */
void vs_out(const char* label, long v);
void vs_outs(const char* label, const char* s);
long vs_live_heap(void);
int vs_malloc_may_fail(int n); /* up to n allocation failures from here on; returns how many were left */
extern void (*vs_exit_hook)(int code); /* called when the library calls exit(code), or abort() (134) */
void vs_limit(long insts);      /* instruction budget for what follows */
void vs_exit_ok(int code);      /* exit(code) ends the path normally; 1000: any code; 134: abort() */
int vs_ite(int c, int a, int b);
int vs_must(int c);
int vs_symbolic(long v);
long vs_concrete(long v);
int vs_readable(const void* p);
void vs_done(void);
FILE* vs_file(void);               /* a capturing stream */
const char* vs_text(FILE* fp);     /* what was written to it */
const char* vs_stdout_text(void);  /* what was written to stdout / stderr */
const char* vs_stderr_text(void);
#define vs_assert(c, msg) vs_assert_((c) ? 1 : 0, msg)
void vs_main(void);
#ifdef __cplusplus
}
#endif
#endif
