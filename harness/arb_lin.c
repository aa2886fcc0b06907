#include "arb.h"
int main()
{
    arbi_T x = mk(LX,0), y;
    if(ALIAS) y = x; else y = mk(LY,8);
    ul X[N],Y[N],E[N],Z[N],X2[N];
    ext(x,X); ext(y,Y); ext(x,E);
    arbi_T z = 0;
    int neg = x[LX-1]<0;
#if OP==0
    z = Arbi_add(x,y); addn(E,Y,0);
#elif OP==1
    z = Arbi_sub(x,y); for(int i=0;i<N;i++) Z[i] = ~Y[i]; addn(E,Z,1);
#elif OP==2
    z = Arbi_neg(x); negn(E);
#elif OP==3
    z = Arbi_abs(x); if(neg) negn(E);
#elif OP==4
    z = Arbi_bvAND(x,y); for(int i=0;i<N;i++) E[i] &= Y[i];
#elif OP==5
    z = Arbi_bvOR(x,y); for(int i=0;i<N;i++) E[i] |= Y[i];
#elif OP==6
    z = Arbi_bvXOR(x,y); for(int i=0;i<N;i++) E[i] ^= Y[i];
#elif OP==7
    z = Arbi_bvNOT(x); for(int i=0;i<N;i++) E[i] = ~E[i];
#elif OP==8
    z = Arbi_cpy(x);
#elif OP==9
    /* x ? y as integers: subtract in N words (no overflow since N > LX,LY) */
    { for(int i=0;i<N;i++) Z[i] = ~Y[i]; addn(E,Z,1);
      int any = 0; for(int i=0;i<N;i++) any |= E[i]!=0;
      int c = Arbi_cmp(x,y);
      VV_ASSERT((c==arbi_LESS) == ((long)E[N-1]<0), "less");
      VV_ASSERT((c==arbi_EQ) == !any, "equal");
      VV_ASSERT((c==arbi_GREAT) == (any && (long)E[N-1]>=0), "greater");
      VV_ASSERT(!!Arbi_IsNegative(x) == neg, "negative");
      if(!any) VV_ASSERT(Arbi_hash(x,1024)==Arbi_hash(y,1024), "hash of equal numbers"); }
#endif
    if(z) { CANON(z); ext(z,Z); SAME(Z,E,"value of the result"); }
    ext(x,X2); SAME(X2,X,"operand unchanged");
    ext(y,X2); SAME(X2,Y,"operand unchanged");
    VV_REACH("end");
}
