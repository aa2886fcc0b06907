/* Shared by all CBMC harnesses.  VV(i) is the i-th symbolic input; the same
 * harness compiled with -DREPLAY takes the values of a counterexample and runs
 * natively. */
#ifndef VV_H
#define VV_H
#ifdef REPLAY
#include <stdio.h>
#include <stdlib.h>
static long vv_vals[] = { VV_VALUES };
#define VV(i) (vv_vals[i])
#define VV_ASSUME(c) do{ if(!(c)) { printf("VVASSUME %s\n", #c); fflush(stdout); _Exit(77);} }while(0)
#define VV_ASSERT(c,n) do{ if(!(c)) { printf("VVFAIL %s\n", n); fflush(stdout); _Exit(42);} }while(0)
#define VV_REACH(n)
#else
long nondet_long(void);
long vv_in[64];
static inline long vv_get(int i) { long v = nondet_long(); vv_in[i] = v; return v; }
#define VV(i) vv_get(i)
#define VV_ASSUME(c) __CPROVER_assume(c)
#define VV_ASSERT(c,n) __CPROVER_assert(c, "VV " n)
#define VV_REACH(n) __CPROVER_assert(0, "VVREACH " n)
#endif
#endif
