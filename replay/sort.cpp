// the integer sort against std::stable_sort. argv: seed seconds
#include "common.h"
#include <memory>
#include <numeric>
#include <cassert>
#include <chrono>
#include <omp.h>
#ifdef HYPER
#include <hypergirgs/IntSort.h>
#else
#include <girgs/IntSort.h>
#endif
Rep R; std::mt19937_64 G;
template<class K> struct E{ K k; uint32_t id; };
template<class K> void one(size_t n,int t,K maxk,int kind,int api,size_t guard){ omp_set_num_threads(t); std::string s=cat("n=",n," key bits=",8*sizeof(K)," max_key=",(unsigned long long)maxk," keys#",kind," threads=",t," interface#",api); printf("CASE %s\n",s.c_str()); R.ev++; R.distinct+=n>1&&maxk>0; if(R.ev%200==7) R.sample(s);
    std::vector<E<K>> v(n); for(size_t i=0;i<n;i++){ unsigned long long k=G(); unsigned long long m=(unsigned long long)maxk; k= m==~0ull?k:k%(m+1); if(kind==1) k=m; if(kind==2) k=m-(m?k%(m>2?3:m+1):0); if(kind==3) k=std::min<unsigned long long>(m,i); if(kind==4) k=m-std::min<unsigned long long>(m,i); if(kind==5) k=k&~0xffull; v[i]={(K)k,(uint32_t)i}; }
    auto w=v; std::stable_sort(w.begin(),w.end(),[](const E<K>&a,const E<K>&b){return a.k<b.k;}); auto key=[](const E<K>&e){return e.k;}; std::vector<E<K>> r;
    if(api==0){ auto x=v; intsort::intsort(x,key,maxk); r=x; }
    if(api==1){ std::vector<E<K>> x(guard+n+guard); for(auto&e:x) e={(K)77,0xabcdef01u}; std::copy(v.begin(),v.end(),x.begin()+guard); intsort::intsort(x.begin()+guard,x.begin()+guard+n,key,maxk); for(size_t i=0;i<guard;i++) if(x[i].id!=0xabcdef01u||x[guard+n+i].id!=0xabcdef01u){ R.fail(s+": elements outside the sequence were changed"); return; } r.assign(x.begin()+guard,x.begin()+guard+n); }
    if(api==2){ std::unique_ptr<E<K>[]> p(new E<K>[n]); std::copy(v.begin(),v.end(),p.get()); intsort::intsort(p,n,key,maxk); r.assign(p.get(),p.get()+n); }
    if(r.size()!=n){ R.fail(s+": the size changed"); return; }
    for(size_t i=0;i<n;i++) if(r[i].k!=w[i].k||r[i].id!=w[i].id){ R.fail(cat(s,": position ",i," holds element ",r[i].id," with key ",(unsigned long long)r[i].k," instead of element ",w[i].id," with key ",(unsigned long long)w[i].k)); return; } }
int main(int c,char**v){ G.seed(atoi(v[1])); double lim=atof(v[2]); auto t0=std::chrono::steady_clock::now(); auto el=[&]{ return std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); }; setvbuf(stdout,0,_IOLBF,0); printf("HANG-IS-FAILURE\n");
    int T[]={1,2,3,4,5,7,8,16}; size_t NS[]={0,1,2,3,5,17,100,255,256,1000,4097,20000}; size_t NB[]={131071,131072,131073,200000,262144,262145,300001,400000,524289,700001,1000000};
    auto mk=[&](int bits){ unsigned long long m; int k=G()%6; int b=G()%(bits+1); unsigned long long full=bits==64?~0ull:((1ull<<bits)-1); m= b==64?full:(1ull<<b); if(k==0) m--; if(k==1) m++; if(k==2) m=m+1?G()%(m+1):G(); if(k==3) m=full; if(k==4) m=G()%600; return std::min(m,full); };
    for(int i=0;el()<lim&&R.fails<3;i++){ bool big= i%12==11; size_t n=big? NB[G()%11]:NS[G()%12]; int t=T[G()%8],kind=G()%6,api=G()%3;
        switch(G()%3){ case 0: one<uint32_t>(n,t,(uint32_t)mk(32),kind,api,50); break; case 1: one<uint64_t>(n,t,mk(64),kind,api,50); break; default: one<uint32_t>(n,t,(uint32_t)std::max<unsigned long long>(1,(n*3)>>(G()%4)),kind,api,50); } }
    return R.end(); }
