// returned edge lists: complete graphs larger than the per-thread block, exact block multiples, and the callback's multiset. argv: girg|hrg seed scale
#include "common.h"
#include <numeric>
#include <cassert>
#include <mutex>
#include <thread>
#include <atomic>
#include <condition_variable>
#include <omp.h>
#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>
#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>
Rep R; std::mt19937_64 G; double U(){ return (G()>>11)/9007199254740992.0; } typedef std::vector<double> VD; typedef std::vector<std::pair<int,int>> EL;
const double INFTY=std::numeric_limits<double>::infinity();
// every pair exactly once within its cluster
void clusters(const EL&e,const std::vector<int>&cl,long want,const std::string&k){ size_t n=cl.size(); std::vector<unsigned char> c(n*n,0); 
    for(auto&p:e){ if(p.first<0||p.second<0||p.first>=(int)n||p.second>=(int)n||p.first==p.second||cl[p.first]!=cl[p.second]){ R.fail(cat(k,": contains ",p.first," ",p.second,", which is not an edge")); return; } auto&q=c[(size_t)std::min(p.first,p.second)*n+std::max(p.first,p.second)]; if(q++){ R.fail(cat(k,": edge ",p.first," ",p.second," returned twice")); return; } }
    if((long)e.size()!=want){ R.fail(cat(k,": ",e.size()," edges returned, the graph has ",want)); } }
void girgc(std::vector<int> sizes,int t,int seed,double alpha){ int n=0; long m=0; VD w; std::vector<VD> x; std::vector<int> cl; for(size_t i=0;i<sizes.size();i++){ for(int q=0;q<sizes[i];q++){ w.push_back(1); x.push_back({(i+0.5)/sizes.size()}); cl.push_back(i); } n+=sizes[i]; m+=(long)sizes[i]*(sizes[i]-1)/2; } std::vector<int> p(n); std::iota(p.begin(),p.end(),0); std::shuffle(p.begin(),p.end(),G); std::vector<int> c2(n); std::vector<VD> x2(n); for(int i=0;i<n;i++){ c2[i]=cl[p[i]]; x2[i]=x[p[i]]; }
    omp_set_num_threads(t); std::string k=cat("girgs threshold graph of ",sizes.size()," cliques, first ",sizes[0],", ",m," edges, threads=",t," seed=",seed); printf("CASE %s\n",k.c_str()); R.ev++; R.distinct++; R.sample(k); clusters(girgs::generateEdges(w,x2,INFTY,seed),c2,m,k); }
void girgcomplete(int n,int D,int t,int seed){ omp_set_num_threads(t); VD w(n,1.0); std::vector<VD> x(n,VD(D)); for(auto&p:x) for(auto&c:p) c=U(); std::string k=cat("girgs complete graph (alpha=0) n=",n," D=",D," threads=",t," seed=",seed); printf("CASE %s\n",k.c_str()); R.ev++; R.distinct++; clusters(girgs::generateEdges(w,x,0.0,seed),std::vector<int>(n,0),(long)n*(n-1)/2,k); }
void hrgcomplete(int n,int t,int seed){ omp_set_num_threads(t); VD r(n),a(n); for(int i=0;i<n;i++){ r[i]=0.01+4.9*U(); a[i]=6.28*U(); } std::string k=cat("hypergirgs complete graph n=",n," R=10 radii<5 T=0 threads=",t," seed=",seed); printf("CASE %s\n",k.c_str()); R.ev++; R.distinct++; R.sample(k); clusters(hypergirgs::generateEdges(r,a,0,10,seed),std::vector<int>(n,0),(long)n*(n-1)/2,k); }
void cmp(EL a,EL b,const std::string&k){ R.ev++; R.distinct+=b.size()>0; std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); if(a!=b) R.fail(cat(k,": the ",a.size()," edges returned are not the ",b.size()," edges the sampler reports")); }
int main(int c,char**v){ std::string mode=v[1]; int seed=atoi(v[2]); int scale=atoi(v[3]); G.seed(seed); setvbuf(stdout,0,_IOLBF,0); printf("HANG-IS-FAILURE\n"); int T[]={1,2,3,8};
  for(int rep=0;rep<scale&&R.fails<3;rep++){
    if(mode=="girg"){ girgc({1448,44,2,2},1,seed+rep,INFTY); girgc({1448,44,2},1,seed,INFTY); girgc({1448,44,2,2,2},1,seed,INFTY); girgc({1448,1448,44,44,2,2,2,2},1,seed,INFTY); girgcomplete(1500+G()%1000,1+G()%5,1,seed); girgcomplete(2600+G()%400,1+G()%3,2,seed+1); girgcomplete(3000,1,3,seed+2); girgcomplete(1200,2,8,seed+2); }
    else { hrgcomplete(1450,1,seed); hrgcomplete(2100+G()%500,1,seed); hrgcomplete(2800,2,seed); hrgcomplete(3000,3,seed+rep); hrgcomplete(1300,8,seed); }
    for(int i=0;i<30;i++){ int t=T[G()%4],n=1+G()%400; omp_set_num_threads(t); int sd=G()%1000; EL b; std::mutex m;
      if(mode=="girg"){ VD w(n); std::vector<VD> x(n,VD(2)); for(auto&q:w) q=std::pow(1-U()*.999,-0.7); for(auto&p:x) for(auto&q:p) q=U(); auto cb=[&](int u,int w_,int){ std::lock_guard<std::mutex> l(m); b.push_back({u,w_}); }; auto tree=girgs::makeSpatialTree<2>(w,x,1.5,cb); tree.generateEdges(sd); std::string k=cat("girgs n=",n," D=2 alpha=1.5 threads=",t," seed=",sd," #",i); printf("CASE %s\n",k.c_str()); cmp(girgs::generateEdges(w,x,1.5,sd),b,k); }
      else { VD r(n),a(n); for(int q=0;q<n;q++){ r[q]=8*std::sqrt(U())+1e-3; a[q]=6.28*U(); } auto cb=[&](int u,int w_,int){ std::lock_guard<std::mutex> l(m); b.push_back({u,w_}); }; auto tree=hypergirgs::makeHyperbolicTree(r,a,0.5,8.5,cb); tree.generate(sd); std::string k=cat("hypergirgs n=",n," R=8.5 T=0.5 threads=",t," seed=",sd," #",i); printf("CASE %s\n",k.c_str()); cmp(hypergirgs::generateEdges(r,a,0.5,8.5,sd),b,k); } }
  }
  return R.end(); }
