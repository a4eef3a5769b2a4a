// GIRG sampler against brute force. argv: mode seed scale
//  cover: alpha=0 must give the complete graph, every pair once; finite alpha must give no loop and no duplicate
//  threshold: exact edge set of the model;  prob: edge frequencies over many seeds;  index: the point index against a filter over all vertices
#include "common.h"
#include <numeric>
#include <cassert>
#include <limits>
#include <chrono>
#include <mutex>
#include <thread>
#include <atomic>
#include <string>
#include <omp.h>
#include <fstream>
#define private public
#define protected public
#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>
#undef private
#undef protected
Rep R; std::mt19937_64 G; typedef std::vector<double> VD;
double U(){ return (G()>>11)/9007199254740992.0; }
struct Scene{ int D; VD w; std::vector<VD> x; std::string name; double W=0; int n()const{return w.size();}
    double dist(int a,int b)const{ double m=0; for(int d=0;d<D;d++){ double t=std::fabs(x[a][d]-x[b][d]); m=std::max(m,std::min(t,1-t)); } return m; } };
Scene scene(int D,int n,int wk,int pk){ Scene s; s.D=D; s.name=cat("D=",D," n=",n," weights#",wk," positions#",pk);
    for(int i=0;i<n;i++){ double w=1;
        if(wk==1) w=std::pow(1-U()*0.999,-0.7);
        if(wk==2) w= i==n/2? 0.3*n+3 : 1+U();
        if(wk==3) w=0.75*(double)(1ull<<(G()%6));
        if(wk==4) w=(double)(1ull<<(1+G()%5))*(1-1e-9*U())*1.0; 
        if(wk==5) w=std::exp(4*U()*U());
        if(wk==6) w=40+U()*300;          // W < w0^2 for small n
        if(wk==7) w=0.05*std::pow(1-U()*0.9999,-0.6);
        if(wk==8) w= i==0?1.0: std::exp2(1+(int)(G()%4))*(1-1e-6);
        s.w.push_back(w); VD p(D); 
        for(auto&c:p){ c=U(); if(pk==1) c=std::floor(c*8)/8; if(pk==2) c=0.5+0.01*(U()-.5); if(pk==3) c=G()%2?U()*1e-3:1-1e-3*(U()+1e-12); if(pk==4) c=std::floor(c*64)/64+(G()%2?0:1-1e-9)/64; if(pk==5) c=(G()%3)/3.0+0.02*U(); if(c>=1||c<0) c=0; }
        if(pk==6 && i) p=s.x[0];
        s.x.push_back(p); }
    s.W=std::accumulate(s.w.begin(),s.w.end(),0.0); return s; }
std::string key(const Scene&s,double alpha,int seed,int t){ return cat(s.name," alpha=",alpha," seed=",seed," threads=",t); }
std::string nodestr(const Scene&s,int i){ std::string r=cat("vertex ",i," weight ",s.w[i]," at ("); for(double c:s.x[i]) r+=cat(c," "); return r+")"; }
const double INFTY=std::numeric_limits<double>::infinity();
void cover(const Scene&s,int t,int seed){ omp_set_num_threads(t); int n=s.n(); R.ev++; R.distinct+= n>1; std::string k=key(s,0,seed,t); printf("CASE %s\n",k.c_str()); if(R.ev%97==5) R.sample(k);
    auto e=girgs::generateEdges(s.w,s.x,0.0,seed); std::vector<char> c((size_t)n*n,0); long bad=0;
    for(auto&p:e){ if(p.first==p.second){ R.fail(cat(k,": self loop at ",p.first)); return; } if(p.first<0||p.second<0||p.first>=n||p.second>=n){ R.fail(cat(k,": edge to no vertex")); return; } auto&q=c[(size_t)std::min(p.first,p.second)*n+std::max(p.first,p.second)]; if(q++){ R.fail(cat(k,": pair ",p.first," ",p.second," decided twice: ",nodestr(s,p.first),", ",nodestr(s,p.second))); return; } }
    for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if(!c[(size_t)i*n+j]){ R.fail(cat(k,": pair ",i," ",j," never decided: ",nodestr(s,i),", ",nodestr(s,j))); return; } }
void dups(const Scene&s,double alpha,int t,int seed){ omp_set_num_threads(t); R.ev++; R.distinct++; std::string k=key(s,alpha,seed,t); printf("CASE %s\n",k.c_str());
    auto e=girgs::generateEdges(s.w,s.x,alpha,seed); std::set<std::pair<int,int>> q; for(auto&p:e){ if(p.first==p.second||p.first<0||p.second<0||p.first>=s.n()||p.second>=s.n()){ R.fail(cat(k,": self loop or no vertex ",p.first," ",p.second)); return; } if(!q.insert({std::min(p.first,p.second),std::max(p.first,p.second)}).second){ R.fail(cat(k,": duplicate edge ",p.first," ",p.second)); return; } } }
void threshold(const Scene&s,int t,int seed){ omp_set_num_threads(t); int n=s.n(); R.ev++; std::string k=key(s,INFTY,seed,t); printf("CASE %s\n",k.c_str()); if(R.ev%97==5) R.sample(k);
    auto e=girgs::generateEdges(s.w,s.x,INFTY,seed); std::vector<char> c((size_t)n*n,0); R.distinct+= e.size()>0;
    for(auto&p:e){ if(p.first==p.second||p.first<0||p.second<0||p.first>=n||p.second>=n){ R.fail(cat(k,": self loop or no vertex")); return; } auto&q=c[(size_t)std::min(p.first,p.second)*n+std::max(p.first,p.second)]; if(q++){ R.fail(cat(k,": edge ",p.first," ",p.second," twice")); return; } }
    for(int i=0;i<n;i++) for(int j=i+1;j<n;j++){ double d=std::pow(s.dist(i,j),s.D),w=s.w[i]*s.w[j]/s.W; if(std::fabs(d-w)<=1e-11*std::max(d,w)) continue; if((d<w)!=(c[(size_t)i*n+j]!=0)){ R.fail(cat(k,": pair ",i," ",j," edge=",(int)c[(size_t)i*n+j]," but dist^D=",d," w_u*w_v/W=",w,": ",nodestr(s,i),", ",nodestr(s,j))); return; } } }
template<unsigned D> void prob(const Scene&s,double alpha,int t,int runs,int seed0){ omp_set_num_threads(t); int n=s.n(); std::string k=key(s,alpha,seed0,t)+cat(" runs=",runs); printf("CASE %s\n",k.c_str()); if(R.samples.size()<3) R.sample(k);
    std::vector<std::vector<unsigned>> cnt(t,std::vector<unsigned>((size_t)n*n)); std::vector<long long> tot(t);
    auto cb=[&](int a,int b,int tid){ cnt[tid][(size_t)std::min(a,b)*n+std::max(a,b)]++; tot[tid]++; };
    auto tree=girgs::makeSpatialTree<D>(s.w,s.x,alpha,cb); double sum=0,sq=0; long long last=0; std::vector<double> per(runs);
    if(tree.m_levels>(D==1?14u:D==2?6u:D==3?4u:3u)) return; auto t0=std::chrono::steady_clock::now(); double lim=0.35;
    for(int r=0;r<runs;r++){ if(r>=150&&r%50==0&&std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>lim) { runs=r; per.resize(r); break; } tree.generateEdges(seed0+r*64); long long now=0; for(auto x:tot) now+=x; per[r]=now-last; last=now; }
    R.ev+=runs; double E=0,Var=0,O=0; double bp[12]={0},bo[12]={0},bv[12]={0}; long pairs=0;
    for(int i=0;i<n;i++) for(int j=i+1;j<n;j++){ double p=std::min(1.0,std::pow(s.w[i]*s.w[j]/s.W/std::pow(s.dist(i,j),(int)D),alpha)); double o=0; for(auto&c:cnt) o+=c[(size_t)i*n+j]; pairs++; R.distinct+= p>0&&p<1;
        double e=runs*p,v=runs*p*(1-p); E+=e;Var+=v;O+=o; int b=p>=1?11:std::min(10,(int)(-std::log2(p))); bp[b]+=e; bo[b]+=o; bv[b]+=v;
        if(std::fabs(o-e)>6.5*std::sqrt(v)+7+1e-6*runs) { R.fail(cat(k,": pair ",i," ",j," was an edge in ",o," of ",runs," runs, expected ",e," (p=",p,"): ",nodestr(s,i),", ",nodestr(s,j))); return; }
        if(o>runs){ R.fail(cat(k,": pair ",i," ",j," emitted more than once per run")); return; } }
    double slack=1e-6*runs*pairs+8;
    if(std::fabs(O-E)>6.5*std::sqrt(Var)+slack){ R.fail(cat(k,": ",O," edges over all runs, expected ",E," +- ",std::sqrt(Var))); return; }
    for(int b=0;b<12;b++) if(std::fabs(bo[b]-bp[b])>6.5*std::sqrt(bv[b])+slack){ R.fail(cat(k,": pairs with probability about 2^-",b,": ",bo[b]," edges, expected ",bp[b])); return; }
    double m=O/runs,va=0; for(double x:per) va+=(x-m)*(x-m); va/=runs; double ev=Var/runs; if(runs>=500&&ev>1&&std::fabs(va/ev-1)>9*std::sqrt(2.0/runs)+0.02){ R.fail(cat(k,": the number of edges has variance ",va," over the runs, independent decisions have ",ev)); return; } }
void probD(const Scene&s,double a,int t,int runs,int seed){ switch(s.D){ case 1:prob<1>(s,a,t,runs,seed);break; case 2:prob<2>(s,a,t,runs,seed);break; case 3:prob<3>(s,a,t,runs,seed);break; case 4:prob<4>(s,a,t,runs,seed);break; case 5:prob<5>(s,a,t,runs,seed);break; } }
template<unsigned D> void index_(const Scene&s,int t){ omp_set_num_threads(t); int n=s.n(); std::string k=key(s,1.5,0,t); printf("CASE %s\n",k.c_str()); if(R.samples.size()<4) R.sample(k);
    auto cb=[&](int,int,int){}; auto tree=girgs::makeSpatialTree<D>(s.w,s.x,1.5,cb); typedef girgs::SpatialTreeCoordinateHelper<D> H; double w0=*std::min_element(s.w.begin(),s.w.end()); std::vector<int> seen(n);
    unsigned need=0; for(double w:s.w) need=std::max(need,(unsigned)std::log2(w/w0)); if(tree.m_weight_layers.size()<=need){ R.fail(cat(k,": no layer ",need)); return; }
    for(unsigned i=0;i<tree.m_weight_layers.size();i++){ unsigned tl=tree.weightLayerTargetLevel(i);
        for(unsigned l=0;l<=tl;l++){ unsigned long long N=1ull<<(D*l); std::map<unsigned,std::vector<int>> want;
            for(int v=0;v<n;v++) if((unsigned)std::log2(s.w[v]/w0)==i){ unsigned c=0; for(unsigned b=0;b<l;b++) for(unsigned d=0;d<D;d++) c|=(((unsigned)(s.x[v][d]*(1u<<l))>>b)&1)<<(b*D+d); want[c].push_back(v); }
            std::vector<unsigned> cells; if(N<=4096) for(unsigned c=0;c<N;c++) cells.push_back(c); else { for(auto&p:want){ cells.push_back(p.first); if(p.first) cells.push_back(p.first-1); if(p.first+1<N) cells.push_back(p.first+1);} for(int q=0;q<200;q++) cells.push_back(G()%N); cells.push_back(0); cells.push_back(N-1); }
            for(unsigned c:cells){ R.ev++; auto rg=tree.m_weight_layers[i].cellIterators(H::firstCellOfLevel(l)+c,l); std::vector<int> got; long len=rg.second-rg.first; if(len<0||len>n){ R.fail(cat(k,": layer ",i," level ",l," cell ",c," range of length ",len)); return; }
                for(auto p=rg.first;p!=rg.second;++p){ got.push_back(p->index); if(p->index<0||p->index>=n||p->weight!=s.w[p->index]||!std::equal(p->coord.begin(),p->coord.end(),s.x[p->index].begin())){ R.fail(cat(k,": stored vertex ",p->index," does not carry its own weight and position")); return; } }
                std::sort(got.begin(),got.end()); auto it=want.find(c); R.distinct+= it!=want.end(); static const std::vector<int> none; const auto&wn= it==want.end()?none:it->second;
                if(got!=wn){ std::string a,b; for(int x:got) a+=cat(x," "); for(int x:wn) b+=cat(x," "); R.fail(cat(k,": layer ",i," level ",l," cell ",c," returns vertices {",a.substr(0,100),"} instead of {",b.substr(0,100),"}")); return; }
                if(tree.m_weight_layers[i].pointsInCell(H::firstCellOfLevel(l)+c,l)!=(int)wn.size()){ R.fail(cat(k,": pointsInCell of layer ",i," level ",l," cell ",c)); return; }
                for(size_t q=0;q<wn.size();q++) if(&tree.m_weight_layers[i].kthPoint(H::firstCellOfLevel(l)+c,l,q)!=rg.first+q){ R.fail(cat(k,": kthPoint ",q," of layer ",i," level ",l," cell ",c)); return; } } } } }
void indexD(const Scene&s,int t){ switch(s.D){ case 1:index_<1>(s,t);break; case 2:index_<2>(s,t);break; case 3:index_<3>(s,t);break; case 4:index_<4>(s,t);break; case 5:index_<5>(s,t);break; } }
template<unsigned D> void pairs_(const VD&w,const std::vector<VD>&x,const std::string&k){ printf("CASE %s\n",k.c_str()); R.ev++; if(R.ev%300==5) R.sample(k); typedef long double LD; auto cb=[&](int,int,int){}; auto t=girgs::makeSpatialTree<D>(w,x,1.5,cb);
    LD w0=*std::min_element(w.begin(),w.end()),wn=*std::max_element(w.begin(),w.end()),W=0; for(double q:w) W+=q; LD lb=log2l(W/w0/w0); if(std::fabs((double)(lb-roundl(lb)))<1e-9&&lb>0) return; int B=(int)lb; LD lw=log2l(wn/w0); if(lw-floorl(lw)<1e-12&&lw>0.5) {} unsigned L=t.m_weight_layers.size();
    for(double q:w){ unsigned l=(unsigned)std::log2(q/(double)w0); if(l>=L){ R.fail(cat(k,": ",L," layers, but weight ",q," belongs to layer ",l)); return; } }
    std::map<std::pair<unsigned,unsigned>,std::vector<unsigned>> at; for(unsigned l=0;l<t.m_layer_pairs.size();l++) for(auto&p:t.m_layer_pairs[l]) at[p].push_back(l); R.distinct+=t.m_layer_pairs.size()>1;
    if(t.m_levels!=t.m_layer_pairs.size()){ R.fail(cat(k,": ",t.m_levels," levels but ",t.m_layer_pairs.size()," lists of layer pairs")); return; }
    for(auto&p:at) if(p.first.first>=L||p.first.second>=L){ R.fail(cat(k,": a layer pair ",p.first.first,",",p.first.second," of layers that do not exist")); return; }
    for(unsigned i=0;i<L;i++) for(unsigned j=0;j<L;j++){ auto&a=at[{i,j}]; std::string q=cat(k,": layer pair ",i,",",j); if(a.size()!=1){ R.fail(cat(q," is scheduled ",a.size()," times")); return; } int e=B-(int)i-(int)j-2; unsigned want=e>0?e/(int)D:0; if(a[0]!=want){ R.fail(cat(q," is compared on level ",a[0]," instead of ",want," (W/w0^2=",(double)(W/w0/w0),")")); return; }
        if(a[0]>t.weightLayerTargetLevel(i)||a[0]>t.weightLayerTargetLevel(j)){ R.fail(cat(q," is compared on level ",a[0],", deeper than the insertion levels ",t.weightLayerTargetLevel(i),", ",t.weightLayerTargetLevel(j))); return; }
        if(a[0]!=t.partitioningBaseLevel(i,j)){ R.fail(cat(q,": partitioningBaseLevel gives ",t.partitioningBaseLevel(i,j),", scheduled on ",a[0])); return; }
        LD vol=powl(2,-(LD)D*a[0]),con=powl(2,(LD)i+j+2)*w0*w0/W; if(a[0]>0&&vol<con*(1-1e-12L)){ R.fail(cat(q," is compared on level ",a[0]," whose cells have volume ",(double)vol," below the connection volume ",(double)con)); return; } } }
void pairsD(const VD&w,int D,const std::string&k){ std::vector<VD> x(w.size(),VD(D)); for(auto&p:x) for(auto&c:p) c=U(); switch(D){ case 1:pairs_<1>(w,x,k);break; case 2:pairs_<2>(w,x,k);break; case 3:pairs_<3>(w,x,k);break; case 4:pairs_<4>(w,x,k);break; case 5:pairs_<5>(w,x,k);break; } }
int main(int c,char**v){ std::string mode=v[1]; G.seed(atoi(v[2])); double scale=atof(v[3]); auto t0=std::chrono::steady_clock::now();
    auto left=[&]{ return std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()<3.2*scale; };
    int T[]={1,2,3,4,5,7,8,12,16,33}; int NS[]={1,2,3,4,7,20,45,90,160}; 
    setvbuf(stdout,0,_IOLBF,0); printf("HANG-IS-FAILURE\n");
    if(mode=="cover"){ for(int r=0;left()&&R.fails<3;r++) for(int D=1;D<=5;D++){ int n=NS[G()%9]; Scene s=scene(D,n,G()%9,G()%7); cover(s,T[G()%10],G()%1000); if(G()%3==0) dups(s,1.2+U()*5,T[G()%10],G()%1000); 
            if(r%40==3){ Scene b=scene(D,700,1+G()%8,G()%6); cover(b,T[G()%10],1); dups(b,1.5,T[G()%10],2);} } }
    if(mode=="threshold"){ for(int r=0;left()&&R.fails<3;r++) for(int D=1;D<=5;D++){ int n=NS[G()%9]; Scene s=scene(D,n,G()%9,G()%7); double f=std::exp2(G()%8-4.0); for(auto&w:s.w) w*=f; s.W*=f; s.W=std::accumulate(s.w.begin(),s.w.end(),0.0); s.name+=cat(" scale ",f); threshold(s,T[G()%10],G()%1000); if(r%20==3){ Scene b=scene(D,1500,1+G()%8,G()%6); threshold(b,T[G()%10],1); } } }
    if(mode=="prob"){ double AL[]={0.3,0.8,1.0,1.3,2.0,3.5,6.0}; for(int r=0;left()&&R.fails<3;r++) for(int D=1;D<=5;D++){ int n=2+G()%45; int wk=G()%9; Scene s=scene(D,n,wk,G()%3?0:(int)(G()%6)); double f=std::exp2(1-(int)(G()%9)); for(auto&w:s.w) w*=f; s.W=std::accumulate(s.w.begin(),s.w.end(),0.0); s.name+=cat(" scale ",f); probD(s,AL[G()%7],G()%3?1:(int)(2+G()%3),G()%3?2500:8000,1+G()%1000); }
        }
    if(mode=="index"){ for(int r=0;left()&&R.fails<3;r++) for(int D=1;D<=5;D++){ Scene s=scene(D,NS[G()%9],G()%9,G()%7); indexD(s,T[G()%10]); if(r%10==3){ Scene b=scene(D,3000,1+G()%8,G()%6); indexD(b,T[G()%10]); } } }
    if(mode=="pairs"){ for(int r=0;left()&&R.fails<3;r++) for(int D=1;D<=5;D++){ if(r%2){ Scene s=scene(D,NS[G()%9],G()%9,0); double f=std::exp2(G()%8-4.0); for(auto&w:s.w) w*=f; pairsD(s.w,D,cat(s.name," scaled by ",f," min weight ",*std::min_element(s.w.begin(),s.w.end()))); }
            else { int n=1+G()%60; double w0=std::exp2(12*U()-7); VD w(n); w[0]=w0; for(int i=1;i<n;i++) w[i]=w0*std::exp2((1+G()%9)*U()); double lw=0; for(double q:w) lw+=q; if(std::log2(lw/w0/w0)>20) continue; pairsD(w,D,cat("D=",D," n=",n," w0=",w0," W=",lw)); } } }
    return R.end(); }
