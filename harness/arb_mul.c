#include "arb.h"
int main()
{
    static const long yv[] = { YV };
    arbi_T x = mk(LX,0), y = mkc(LY,yv);
    int xs = x[LX-1]<0, ys = yv[LY-1]<0;
    VV_ASSUME(xs==XS);
    ul X[N],Y[N],P[N],Z[N];
    ext(x,X); ext(y,Y);
    arbi_T z = SWAP? Arbi_mlt(y,x) : Arbi_mlt(x,y);
    if(xs) negn(X);
    if(ys) negn(Y);
    mulc(X,Y,P); if(xs!=ys) negn(P);
    CANON(z); ext(z,Z);
    SAME(Z,P,"value of the product");
    VV_REACH("end");
}
