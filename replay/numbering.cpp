#include "common.h"
#include <type_traits>
#include <girgs/SpatialTreeCoordinateHelper.h>
#include <hypergirgs/AngleHelper.h>
Rep R; typedef unsigned long long U;
template<unsigned D> struct G{ typedef girgs::SpatialTreeCoordinateHelper<D> H;
    static U first(int l){ U s=0; for(int k=0;k<l;k++) s+=1ull<<(D*k); return s; }
    static void level(int l){ if(H::numCellsInLevel(l)!=1ull<<(D*l)) R.fail(cat("numCellsInLevel D=",D," level ",l)); if(H::firstCellOfLevel(l)!=first(l)) R.fail(cat("firstCellOfLevel D=",D," level ",l)); if(H::numChildren()!=1ull<<D) R.fail(cat("numChildren D=",D)); }
    static void cell(int l,U c){ if(c<first(l)||c>=first(l+1)||c>0xffffffffull) return; R.ev++; R.distinct++; U off=c-first(l);
        if(H::cellOfLevel(c)!=off) R.fail(cat("cellOfLevel D=",D," level ",l," cell ",c,": got ",H::cellOfLevel(c)," expected ",off));
        if(D*(l+1)<=31){ U f=first(l+1)+(off<<D); if(H::firstChild(c)!=f) R.fail(cat("firstChild D=",D," level ",l," cell ",c)); if(H::lastChild(c)!=f+(1<<D)-1) R.fail(cat("lastChild D=",D," level ",l," cell ",c));
            for(U k=0;k<(1u<<D);k++) if(H::parent(f+k)!=c) { R.fail(cat("parent D=",D," child ",f+k," got ",H::parent(f+k)," expected ",c)); break; } } }
    static void run(long n,std::mt19937_64&g){ for(int l=0;D*l<=31;l++){ level(l); U a=first(l),b=first(l+1); cell(l,a);cell(l,a+1);cell(l,b-1);cell(l,std::min<U>(b,1ull<<32)-1);cell(l,(a+b)/2); for(U p=1;p<b-a;p<<=1) {cell(l,a+p);cell(l,a+p-1);} for(long i=0;i<n/32;i++) cell(l,a+g()%(std::min<U>(b,1ull<<32)-a)); } }
};
void A(int l,U c){ typedef hypergirgs::AngleHelper H; U f=(1ull<<l)-1; if(c<f||c>=2*f+1) return; R.ev++; R.distinct++; U off=c-f; 
    if(H::numCellsInLevel(l)!=1ull<<l||H::firstCellOfLevel(l)!=f||H::numChildren()!=2) R.fail(cat("angle level ",l));
    if(l<31){ U g=(2ull<<l)-1+2*off; if(H::firstChild(c)!=g) R.fail(cat("angle firstChild level ",l," cell ",c)); if(H::secondChild(c)!=g+1) R.fail(cat("angle secondChild level ",l," cell ",c)); if(H::parent(g)!=c||H::parent(g+1)!=c) R.fail(cat("angle parent of children of cell ",c," level ",l)); } }
void one(int D,int l,U c){ if(D==1)G<1>::cell(l,c); if(D==2)G<2>::cell(l,c); if(D==3)G<3>::cell(l,c); if(D==4)G<4>::cell(l,c); if(D==5)G<5>::cell(l,c); if(D==0)A(l,c); }
int main(int c,char**v){ std::mt19937_64 g(atoi(v[1])); long n=atol(v[2]); for(int i=3;i+2<c;i+=3) one(atoi(v[i]),atoi(v[i+1]),strtoull(v[i+2],0,10));
    G<1>::run(n,g);G<2>::run(n,g);G<3>::run(n,g);G<4>::run(n,g);G<5>::run(n,g);
    for(int l=0;l<31;l++){ U f=(1ull<<l)-1; A(l,f);A(l,2*f);A(l,f+(f/2)); for(long i=0;i<n/32;i++) A(l,f+g()%(f+1)); }
    R.sample("all levels"); return R.end(); }
