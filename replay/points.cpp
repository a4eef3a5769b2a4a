#include "common.h"
#include <type_traits>
#include <girgs/SpatialTreeCoordinateHelper.h>
Rep R; typedef unsigned long long U;
template<unsigned D> struct G{ typedef girgs::SpatialTreeCoordinateHelper<D> H; static const int ML= D==1?30:31/D;
    static U first(int l){ U s=0; for(int k=0;k<l;k++) s+=1ull<<(D*k); return s; }
    static U code(const std::array<U,D>&c,int l){ U r=0; for(int b=0;b<l;b++) for(unsigned d=0;d<D;d++) r|=((c[d]>>b)&1)<<(b*D+d); return r; }
    static void point(std::array<double,D> x,int l){ for(auto t:x) if(!(t>=0&&t<1)) return; R.ev++; R.distinct++; std::array<U,D> c; for(unsigned d=0;d<D;d++) c[d]=(U)std::floor(std::ldexp(x[d],l)); std::string w=cat("D=",D," level ",l," point"); for(auto t:x) w+=cat(" ",t); if(R.ev<3) R.sample(w);
        U e=code(c,l), g=H::cellForPoint(x,l); if(g!=e) { R.fail(cat("cellForPoint ",w,": got ",g," expected ",e)); return; }
        if(l<ML){ U k=H::cellForPoint(x,l+1); if((k>>D)!=g) R.fail(cat("cells do not nest: ",w)); }
        auto b=H::bounds(first(l)+g,l); for(unsigned d=0;d<D;d++) if(!(b[d].first<=x[d]&&x[d]<b[d].second)) { R.fail(cat("bounds of the cell do not contain the point: ",w)); break; } }
    static void cell(U cell,int l){ if(cell<first(l)||cell>=first(l+1)) return; R.ev++; R.distinct++; U x=cell-first(l); auto b=H::bounds(cell,l); for(unsigned d=0;d<D;d++){ U k=0; for(int i=0;i<l;i++) k|=((x>>(i*D+d))&1)<<i; if(b[d].first!=std::ldexp((double)k,-l)||b[d].second!=std::ldexp((double)(k+1),-l)) { R.fail(cat("bounds D=",D," level ",l," cell ",cell," dimension ",d,": [",b[d].first,",",b[d].second,"]")); break; } } }
    static void run(long n,std::mt19937_64&g){ for(long k=0;k<n;k++){ int l=g()%(ML+1); U N=1ull<<l; std::array<double,D> x; for(auto&t:x){ U i=g()%N; t=std::ldexp((double)i,-l); switch(g()%4){ case 0:t=std::nextafter(t,0);break; case 1:t=std::nextafter(t,2);break; case 2:t=(g()>>11)/9007199254740992.0;} } point(x,l); cell(first(l)+g()%(1ull<<(D*l)),l); } 
        for(int l=0;l<=ML;l++){ std::array<double,D> x; for(auto&t:x) t=std::nextafter(1.0,0); point(x,l); for(auto&t:x) t=0; point(x,l); } for(int l=0;l<=ML&&D*l<=12;l++) for(U i=0;i<(1u<<(D*l));i++) cell(first(l)+i,l); } };
template<unsigned D> void pt(char k,char**v){ if(k=='p'){ std::array<double,D> x; for(unsigned d=0;d<D;d++) x[d]=atof(v[1+d]); G<D>::point(x,atoi(v[0])); } else G<D>::cell(strtoull(v[1],0,10),atoi(v[0])); }
int main(int c,char**v){ std::mt19937_64 g(atoi(v[1])); long n=atol(v[2]); for(int i=3;i<c;){ char k=v[i][0]; int D=atoi(v[i+1]); char**w=v+i+2; if(D==1)pt<1>(k,w); if(D==2)pt<2>(k,w); if(D==3)pt<3>(k,w); if(D==4)pt<4>(k,w); if(D==5)pt<5>(k,w); i+=3+(k=='p'?D:1); }
    G<1>::run(n,g);G<2>::run(n,g);G<3>::run(n,g);G<4>::run(n,g);G<5>::run(n,g); return R.end(); }
