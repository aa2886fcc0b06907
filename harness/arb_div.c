#include "arb.h"
int main()
{
    long yv[1] = { YV };
#ifdef YB
    VV_ASSUME(yv[0]!=0 && yv[0]<(1L<<YB) && yv[0]>-(1L<<YB));
#endif
    arbi_T x = mk(1,0), y = mkc(1,yv);
#ifdef XB
    VV_ASSUME(x[0]<(1L<<XB) && x[0]>-(1L<<XB));
#endif
    int xs = x[0]<0, ys = yv[0]<0;
    VV_ASSUME(xs==XS);
    VV_ASSUME(x[0]!=MinWord);
    arbi_T q = Arbi_div(x,y), r = Arbi_mod(x,y);
    VV_ASSERT(Length(q)==1 && Length(r)==1, "length");
    long Q=q[0], R=r[0];
    if(ys) VV_ASSERT(R<=0 && R>yv[0], "remainder has the sign of the divisor and is smaller");
    else VV_ASSERT(R>=0 && R<yv[0], "remainder has the sign of the divisor and is smaller");
    /* with this bound on q, equality modulo 2^64 is equality */
    { ul m = (1UL<<63)/(ul)(ys? -yv[0] : yv[0]) + 1;
      VV_ASSERT((ul)(Q<0? -Q : Q) <= m, "size of the quotient"); }
    ul P = (ul)(Q<0? -Q : Q)*(ul)(ys? -yv[0] : yv[0]);
    if((Q<0) != ys) P = -P;
    VV_ASSERT(P+(ul)R == (ul)x[0], "x = q*y + r");
    VV_REACH("end");
}
