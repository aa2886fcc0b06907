/* arbitrary precision integers: the real arb_prec.c, with its pool allocator
 * replaced by one fixed-size object per number (the pool has its own harness) */
#include "arb_prec.c"
#include "vv.h"
#include <string.h>
#ifndef CAP
#define CAP 5
#endif
#ifndef REPLAY
void *vv_alloc(unsigned int nbytes)
{
    struct vvc { short pad[3]; short len; long w[CAP]; };
    char *p = (char *)malloc(sizeof(struct vvc));
    __CPROVER_assume(p != 0 && nbytes <= CAP*8);
    p[4] = 2;
    return p+8;
}
void vv_free(void *p) { }
#else
pointer Malloc(unsigned long int n) { return calloc(1,n); }
void Eprintf(char *fmt, ...) { }
void Wprintf(char *fmt, ...) { }
#endif
static arbi_T mk(int n, int base)      /* any canonical n-word number */
{
    arbi_T x = arbi_collect(allocate(n));
    for(int i=0;i<n;i++) x[i] = VV(base+i);
    if(n>1) VV_ASSUME(!((x[n-2]<0)? x[n-1]==-1 : x[n-1]==0));
    return x;
}
static arbi_T mkc(int n, const long *v)
{
    arbi_T x = arbi_collect(allocate(n));
    for(int i=0;i<n;i++) x[i] = v[i];
    return x;
}
/* reference arithmetic: two's complement, N words */
#ifndef N
#define N 4
#endif
typedef unsigned long ul;
typedef unsigned __int128 u128;
static void ext(arbi_T x, ul *d) { int l = Length(x); for(int i=0;i<N;i++) d[i] = i<l? (ul)x[i] : (x[l-1]<0? -1UL:0UL); }
static void addn(ul *a, const ul *b, ul c) { for(int i=0;i<N;i++) { u128 t = (u128)a[i]+b[i]+c; a[i] = (ul)t; c = (ul)(t>>64); } }
static void negn(ul *d) { ul c=1; for(int i=0;i<N;i++) { u128 t = (u128)(~d[i])+c; d[i] = (ul)t; c = (ul)(t>>64); } }
static void mulc(const ul *a, const ul *b, ul *p)
{
    for(int i=0;i<N;i++) p[i]=0;
    for(int i=0;i<N;i++) { ul c=0; if(b[i]==0) continue; for(int j=0;i+j<N;j++) {
	u128 t = (u128)a[j]*b[i]+p[i+j]+c; p[i+j] = (ul)t; c = (ul)(t>>64); } }
}
#define CANON(z) do { int l_ = Length(z); VV_ASSERT(l_>=1 && l_<=N, "length in range"); \
    if(l_>1) VV_ASSERT(!((z[l_-2]<0)? z[l_-1]==-1 : z[l_-1]==0), "shortest representation"); } while(0)
#define SAME(Z,E,n) do { for(int i_=0;i_<N;i_++) VV_ASSERT(Z[i_]==E[i_], n); } while(0)
