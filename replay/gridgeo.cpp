// oracle: coordinates kept explicitly, cell numbers built by interleaving them here
#include "common.h"
#include <type_traits>
#include <girgs/SpatialTreeCoordinateHelper.h>
#include <girgs/Node.h>
Rep R; typedef unsigned long long U;
template<unsigned D> struct G{ typedef girgs::SpatialTreeCoordinateHelper<D> H; static const int ML= D==1?30:31/D;
    static U first(int l){ U s=0; for(int k=0;k<l;k++) s+=1ull<<(D*k); return s; }
    static U cell(const std::array<U,D>&c,int l){ U r=0; for(int b=0;b<l;b++) for(unsigned d=0;d<D;d++) r|=((c[d]>>b)&1)<<(b*D+d); return first(l)+r; }
    static std::string str(const std::array<U,D>&c){ std::string s="("; for(auto x:c) s+=std::to_string(x)+" "; return s+")"; }
    static void pair(int l,std::array<U,D> a,std::array<U,D> b,std::mt19937_64*g){ U n=1ull<<l; for(auto&x:a) x%=n; for(auto&x:b) x%=n; R.ev++; R.distinct+= a!=b;
        U mx=0; bool t=true; for(unsigned d=0;d<D;d++){ U df=a[d]>b[d]?a[d]-b[d]:b[d]-a[d]; df=std::min(df,n-df); mx=std::max(mx,df); t&=df<=1; }
        U A=cell(a,l),B=cell(b,l); std::string w=cat("D=",D," level ",l," cells ",str(a),str(b)," numbers ",A," ",B); if(R.ev<3) R.sample(w);
        if(H::touching(A,B,l)!=t) R.fail(cat("touching ",w,": got ",H::touching(A,B,l)));
        double e= mx<=1?0.0:(double)(mx-1)/(double)n; double got=H::dist(A,B,l); if(got!=e) R.fail(cat("dist ",w,": got ",got," expected ",e));
        if(g){ girgs::Node<D> p,q; for(unsigned d=0;d<D;d++){ p.coord[d]=((double)a[d]+((*g)()>>11)/9007199254740992.0)/n; q.coord[d]=((double)b[d]+((*g)()>>11)/9007199254740992.0)/n; if(p.coord[d]>=1)p.coord[d]=0.9999999; if(q.coord[d]>=1)q.coord[d]=0.9999999; }
            node(p,q,"points in "+w); if(p.distance(q)<got-1e-12) R.fail(cat("points of ",w," are closer than dist: ",p.distance(q)," < ",got)); }
    }
    static void node(girgs::Node<D>&p,girgs::Node<D>&q,const std::string&w){ double m=0; for(unsigned d=0;d<D;d++){ double x=std::fabs(p.coord[d]-q.coord[d]); m=std::max(m,std::min(x,1-x)); } double g=p.distance(q); 
        if(!(std::fabs(g-m)<=1e-15)) { std::string s; for(unsigned d=0;d<D;d++) s+=cat(" ",p.coord[d],"|",q.coord[d]); R.fail(cat("Node::distance ",w," D=",D," coords",s,": got ",g," expected ",m)); } }
    static void run(long n,std::mt19937_64&g){
        for(int l=0;l<=ML && (1ull<<(2*D*l))<=5000;l++) { U N=1ull<<(D*l); for(U i=0;i<N;i++) for(U j=0;j<N;j++){ std::array<U,D> a,b; for(unsigned d=0;d<D;d++){ a[d]=(i>>(d*l)); b[d]=(j>>(d*l)); } pair(l,a,b,&g); } }
        for(long k=0;k<n;k++){ int l=g()%(ML+1); U N=1ull<<l; std::array<U,D> a,b; for(unsigned d=0;d<D;d++){ a[d]=g()%N; b[d]= g()%3? a[d]+N+g()%5-2 : g()%N; if(g()%8==0) {a[d]=0; b[d]=N-1-g()%2;} if(g()%8==0) b[d]=a[d]+N/2; } pair(l,a,b,k%4==0?&g:0); } }
};
template<unsigned D> void args(char k,char**v){ if(k=='c'){ std::array<U,D> a,b; for(unsigned d=0;d<D;d++){ a[d]=strtoull(v[1+d],0,10); b[d]=strtoull(v[1+D+d],0,10); } G<D>::pair(atoi(v[0]),a,b,0);} else { girgs::Node<D> p,q; for(unsigned d=0;d<D;d++){ p.coord[d]=atof(v[d]); q.coord[d]=atof(v[D+d]); } R.ev++; G<D>::node(p,q,"verifier input"); } }
int main(int c,char**v){ std::mt19937_64 g(atoi(v[1])); long n=atol(v[2]);
    for(int i=3;i<c;){ char k=v[i][0]; int D=atoi(v[i+1]); char**w=v+i+2; if(D==1)args<1>(k,w); if(D==2)args<2>(k,w); if(D==3)args<3>(k,w); if(D==4)args<4>(k,w); if(D==5)args<5>(k,w); i+=2+2*D+(k=='c'); }
    G<1>::run(n,g);G<2>::run(n,g);G<3>::run(n,g);G<4>::run(n,g);G<5>::run(n,g); return R.end(); }
