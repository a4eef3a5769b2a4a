// equal seed and thread count give equal results; different seeds do not. argv: girg|hrg seed seconds
#include "common.h"
#include <numeric>
#include <thread>
#include <atomic>
#include <chrono>
#include <omp.h>
#include <girgs/Generator.h>
#include <hypergirgs/Generator.h>
Rep R; std::mt19937_64 G; double U(){ return (G()>>11)/9007199254740992.0; } typedef std::vector<double> VD; typedef std::vector<std::pair<int,int>> EL;
EL norm(EL e){ for(auto&x:e) if(x.first>x.second) std::swap(x.first,x.second); std::sort(e.begin(),e.end()); return e; }
template<class F> void rep(F f,int runs,int seed,const std::string&k,bool big){ printf("CASE %s seed=%d\n",k.c_str(),seed); R.ev++; R.distinct+=big; auto a=f(seed); for(int i=1;i<runs;i++) if(f(seed)!=a){ R.fail(cat(k," seed=",seed,": repetition ",i," gives another result")); return; } if(!big) return; for(int s2:{seed+1,seed+7,seed^64,seed/2,seed+1000}) if(s2!=seed&&f(s2)==a){ R.fail(cat(k,": seeds ",seed," and ",s2," give the same result")); return; } }
int main(int c,char**v){ std::string mode=v[1]; int s0=atoi(v[2]); double lim=atof(v[3]); G.seed(s0); setvbuf(stdout,0,_IOLBF,0); printf("HANG-IS-FAILURE\n"); auto t0=std::chrono::steady_clock::now(); auto el=[&]{ return std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); };
  std::atomic<bool> stop{false}; std::vector<std::thread> noise; for(int i=0;i<3;i++) noise.emplace_back([&,i]{ volatile double x=1; while(!stop){ for(int q=0;q<20000*(i+1);q++) x=x*1.0000001; std::this_thread::sleep_for(std::chrono::microseconds(50*(i+1))); } });
  int T[]={1,2,3,4,5,7,8,12,16};
  for(int r=0;el()<lim&&R.fails<3;r++){ int t=T[G()%9]; omp_set_num_threads(t); int sd=r%7==0?0:G()%100000; bool par=G()%2; int n=(r%3==0)?25000+G()%40000:50+G()%500; std::string th=cat(" threads=",t);
    if(mode=="girg"){ double ple=2.1+0.9*U(); int D=1+G()%5; std::string k=cat("n=",n," ple=",ple,th," parallel=",par); rep([&](int s){ return girgs::generateWeights(n,ple,s,par); },2,sd,"generateWeights "+k,true); k=cat("n=",n," D=",D,th," parallel=",par); rep([&](int s){ return girgs::generatePositions(n,D,s,par); },2,sd,"generatePositions "+k,true); if(r==2) R.sample(k);
      int m=n>5000?4000:n; auto w=girgs::generateWeights(m,2.5,12,false); auto x=girgs::generatePositions(m,D,13,false); double al=1.1+3*U(); bool big=m>=200; rep([&](int s){ return norm(girgs::generateEdges(w,x,al,s)); },4,sd,cat("generateEdges n=",m," D=",D," alpha=",al,th),big); }
    else { double al=0.55+.45*U(),RR=5+10*U(); std::string k=cat("n=",n," alpha=",al," R=",RR,th," parallel=",par); rep([&](int s){ return hypergirgs::sampleRadii(n,al,RR,s,par); },2,sd,"sampleRadii "+k,true); rep([&](int s){ return hypergirgs::sampleAngles(n,s,par); },2,sd,"sampleAngles "+k,true); rep([&](int s){ return hypergirgs::sampleRadiiAndAngles(n,al,RR,s,par); },2,sd,"sampleRadiiAndAngles "+k,true); if(r==2) R.sample(k);
      int m=n>5000?6000:n; double T_=0.2+0.7*U(),R2=hypergirgs::calculateRadius(m,0.75,T_,8); if(!(R2>2)) R2=5; auto rr=hypergirgs::sampleRadii(m,0.75,R2,12,false); auto a=hypergirgs::sampleAngles(m,13,false); rep([&](int s){ return norm(hypergirgs::generateEdges(rr,a,T_,R2,s)); },6,sd,cat("generateEdges n=",m," T=",T_," R=",R2,th),m>=200); } }
  stop=true; for(auto&x:noise) x.join(); return R.end(); }
