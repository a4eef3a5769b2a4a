// hyperbolic sampler against brute force. argv: mode seed scale
//  threshold: exact edge set for T=0; cover: with a huge T every pair is an edge with probability ~1/2: over 48 runs every pair must occur, never twice in one run
//  prob: edge frequencies over many seeds; index: the point index against a filter over all vertices
#include "common.h"
#include <numeric>
#include <cassert>
#include <chrono>
#include <mutex>
#include <thread>
#include <atomic>
#include <condition_variable>
#include <omp.h>
#define private public
#define protected public
#include <hypergirgs/Generator.h>
#include <hypergirgs/AngleHelper.h>
#include <hypergirgs/RadiusLayer.h>
#include <hypergirgs/HyperbolicTree.h>
#undef private
#undef protected
Rep R; std::mt19937_64 G; typedef std::vector<double> VD; typedef long double LD;
double U(){ return (G()>>11)/9007199254740992.0; } const double TP=2*3.14159265358979323846;
struct Scene{ VD r,a; double R; std::string name; std::vector<LD> sh,ch; void prep(){ for(double x:r){ sh.push_back(sinhl(x)); ch.push_back(coshl(x)); } } int n()const{return r.size();}
    LD coshd(int i,int j)const{ LD q=sinl(((LD)a[i]-a[j])/2); return std::max<LD>(1,coshl((LD)r[i]-r[j])+2*q*q*sh[i]*sh[j]); } };
Scene scene(int n,double Rd,int rk,int ak){ Scene s; s.R=Rd; s.name=cat("n=",n," R=",Rd," radii#",rk," angles#",ak); double al=0.55+0.45*U();
    for(int i=0;i<n;i++){ double r=acosh(1+U()*(std::cosh(al*Rd)-1))/al; if(rk==1) r=Rd*U(); if(rk==2) r=Rd*(1-1e-3*U()); if(rk==3) r= i%3==0? std::max(1e-6,Rd-(double)(1+G()%std::max(1,(int)Rd))+ (G()%2?1e-9:-1e-9)) : Rd*U(); if(rk==4) r= i<2? 0.3*U(): Rd-U()*1.5; if(rk==5) r=Rd/2+Rd*0.2*(U()-.5); if(!(r>1e-7)) r=1e-7; if(r>=Rd) r=std::nextafter(Rd,0);
        double p=TP*U(); if(ak==1) p=TP*(G()%16)/16.0; if(ak==2) p=1+0.02*U(); if(ak==3) p= G()%2? 1e-4*U(): TP-1e-4*U(); if(ak==4) p=TP*((G()%64)+(G()%2?1e-12:1-1e-12))/64; if(ak==5) p=TP*(G()%5)/5.0+0.01*U(); if(p>=TP||p<0) p=0; s.r.push_back(r); s.a.push_back(p); }
    s.prep(); return s; }
std::string vx(const Scene&s,int i){ return cat("vertex ",i," radius ",s.r[i]," angle ",s.a[i]); }
std::string key(const Scene&s,double T,int seed,int t){ return cat(s.name," T=",T," seed=",seed," threads=",t); }
void threshold(Scene s,int t,int seed){ omp_set_num_threads(t); int n=s.n(); R.ev++; std::string k=key(s,0,seed,t); printf("CASE %s\n",k.c_str()); if(R.ev%50==3) R.sample(k);
    auto e=hypergirgs::generateEdges(s.r,s.a,0,s.R,seed); std::vector<char> c((size_t)n*n,0); R.distinct+= e.size()>0;
    for(auto&p:e){ if(p.first==p.second||p.first<0||p.second<0||p.first>=n||p.second>=n){ R.fail(cat(k,": self loop or no vertex ",p.first," ",p.second)); return; } auto&q=c[(size_t)std::min(p.first,p.second)*n+std::max(p.first,p.second)]; if(q++){ R.fail(cat(k,": edge ",p.first," ",p.second," twice")); return; } }
    LD cR=coshl(s.R); for(int i=0;i<n;i++) for(int j=i+1;j<n;j++){ LD ss=s.sh[i]*s.sh[j]; LD diff=(cR-s.coshd(i,j))/ss; LD tol=4e-15L*(1+s.ch[i]*s.ch[j]/ss+cR/ss); if(fabsl(diff)<=tol) continue; if((diff>0)!=(c[(size_t)i*n+j]!=0)){ R.fail(cat(k,": pair ",i," ",j," edge=",(int)c[(size_t)i*n+j]," but distance=",(double)acoshl(s.coshd(i,j))," R=",s.R,": ",vx(s,i),", ",vx(s,j))); return; } } }
void cover(Scene s,int t,int seed){ omp_set_num_threads(t); int n=s.n(); double T=1e7; std::string k=key(s,T,seed,t); printf("CASE %s\n",k.c_str()); R.ev++; R.distinct+=n>1; if(R.ev%20==3) R.sample(k); std::vector<char> ever((size_t)n*n,0); int runs=50; double tot=0;
    for(int r=0;r<runs;r++){ auto e=hypergirgs::generateEdges(s.r,s.a,T,s.R,seed+r*997); std::set<std::pair<int,int>> q; tot+=e.size(); for(auto&p:e){ if(p.first==p.second||p.first<0||p.second<0||p.first>=n||p.second>=n){ R.fail(cat(k,": self loop or no vertex ",p.first," ",p.second)); return; } int a=std::min(p.first,p.second),b=std::max(p.first,p.second); if(!q.insert({a,b}).second){ R.fail(cat(k,": pair ",a," ",b," decided twice: ",vx(s,a),", ",vx(s,b))); return; } ever[(size_t)a*n+b]=1; } }
    for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if(!ever[(size_t)i*n+j]){ R.fail(cat(k,": pair ",i," ",j," never decided in ",runs," runs: ",vx(s,i),", ",vx(s,j))); return; }
    double m=(double)n*(n-1)/2*runs; if(std::fabs(tot-m/2)>6.5*std::sqrt(m/4)+2) R.fail(cat(k,": ",tot," edges of ",m," pair decisions, expected half")); }
void prob(Scene s,double T,int t,int runs,int seed0){ omp_set_num_threads(t); int n=s.n(); std::string k=key(s,T,seed0,t)+cat(" runs<=",runs); printf("CASE %s\n",k.c_str()); if(R.samples.size()<4) R.sample(k);
    std::vector<std::vector<unsigned>> cnt(t,std::vector<unsigned>((size_t)n*n)); std::vector<long long> tot(t); auto cb=[&](int a,int b,int tid){ cnt[tid][(size_t)std::min(a,b)*n+std::max(a,b)]++; tot[tid]++; };
    auto tree=hypergirgs::makeHyperbolicTree(s.r,s.a,T,s.R,cb); long long last=0; VD per; auto t0=std::chrono::steady_clock::now();
    for(int r=0;r<runs;r++){ if(r>=150&&r%50==0&&std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>0.35) break; tree.generate(seed0+r*64); long long now=0; for(auto x:tot) now+=x; per.push_back(now-last); last=now; }
    runs=per.size(); R.ev+=runs; double E=0,Var=0,O=0,bp[12]={0},bo[12]={0},bv[12]={0}; long pairs=0;
    for(int i=0;i<n;i++) for(int j=i+1;j<n;j++){ double d=acoshl(s.coshd(i,j)), p=1/(1+std::exp((d-s.R)/(2*T))); double o=0; for(auto&c:cnt) o+=c[(size_t)i*n+j]; pairs++; R.distinct+=p>1e-3&&p<0.999; double e=runs*p,v=runs*p*(1-p); E+=e;Var+=v;O+=o; int b=p>=1?11:std::min(10,(int)(-std::log2(p))); bp[b]+=e;bo[b]+=o;bv[b]+=v;
        if(o>runs){ R.fail(cat(k,": pair ",i," ",j," emitted more than once per run")); return; }
        if(std::fabs(o-e)>6.5*std::sqrt(v)+7+1e-6*runs){ R.fail(cat(k,": pair ",i," ",j," was an edge in ",o," of ",runs," runs, expected ",e," (p=",p,", distance ",d,"): ",vx(s,i),", ",vx(s,j))); return; } }
    double slack=1e-6*runs*pairs+8; if(std::fabs(O-E)>6.5*std::sqrt(Var)+slack){ R.fail(cat(k,": ",O," edges over all runs, expected ",E," +- ",std::sqrt(Var))); return; }
    for(int b=0;b<12;b++) if(std::fabs(bo[b]-bp[b])>6.5*std::sqrt(bv[b])+slack){ R.fail(cat(k,": pairs with probability about 2^-",b,": ",bo[b]," edges, expected ",bp[b])); return; }
    double m=O/runs,va=0; for(double x:per) va+=(x-m)*(x-m); va/=runs; double ev=Var/runs; if(runs>=500&&ev>1&&std::fabs(va/ev-1)>9*std::sqrt(2.0/runs)+0.02) R.fail(cat(k,": the number of edges has variance ",va," over the runs, independent decisions have ",ev)); }
void index_(const Scene&s,int t){ omp_set_num_threads(t); int n=s.n(); std::string k=key(s,0,0,t); printf("CASE %s\n",k.c_str()); if(R.samples.size()<4) R.sample(k); typedef hypergirgs::AngleHelper H;
    std::vector<hypergirgs::Point> pts; std::vector<unsigned> fic; auto L=hypergirgs::RadiusLayer::buildPartition(s.r,s.a,s.R,1.0,pts,fic,false); unsigned need=0; for(double r:s.r) need=std::max(need,(unsigned)(s.R-r)); if(L.size()<=need){ R.fail(cat(k,": ",L.size()," layers, a vertex belongs to layer ",need)); return; }
    for(unsigned i=0;i<L.size();i++){ unsigned tl=L[i].m_target_level; 
        for(int v=0;v<n;v++) if((unsigned)(s.R-s.r[v])==i && !(L[i].m_r_min-1e-9<=s.r[v]&&s.r[v]<=L[i].m_r_max+1e-9)){ R.fail(cat(k,": layer ",i," bounds ",L[i].m_r_min,"..",L[i].m_r_max," do not contain ",vx(s,v))); return; }
        for(unsigned l=0;l<=tl;l++){ unsigned long long N=1ull<<l; std::map<unsigned,std::vector<int>> want; for(int v=0;v<n;v++) if((unsigned)(s.R-s.r[v])==i) want[std::min<unsigned>(N-1,(unsigned)(s.a[v]/TP*N))].push_back(v);
            std::vector<unsigned> cells; if(N<=2048) for(unsigned c=0;c<N;c++) cells.push_back(c); else { for(auto&p:want){ cells.push_back(p.first); if(p.first) cells.push_back(p.first-1); if(p.first+1<N) cells.push_back(p.first+1);} for(int q=0;q<100;q++) cells.push_back(G()%N); cells.push_back(0); cells.push_back(N-1); }
            for(unsigned c:cells){ R.ev++; unsigned cell=(1u<<l)-1+c; auto rg=L[i].cellIterators(cell,l); long len=rg.second-rg.first; if(len<0||len>n){ R.fail(cat(k,": layer ",i," level ",l," cell ",c," range of length ",len)); return; } std::vector<int> got; for(auto p=rg.first;p!=rg.second;++p) { got.push_back(p->id); if(p->id<0||p->id>=n||std::fabs(p->cos_phi-std::cos(s.a[p->id]))>1e-12||std::fabs(p->sin_phi-std::sin(s.a[p->id]))>1e-12||std::fabs(p->invsinh_r*std::sinh(s.r[p->id])-1)>1e-9||std::fabs(p->coth_r*std::tanh(s.r[p->id])-1)>1e-9){ R.fail(cat(k,": stored vertex ",p->id," does not carry its own coordinates")); return; } } std::sort(got.begin(),got.end());
                auto it=want.find(c); static const std::vector<int> none; const auto&wn=it==want.end()?none:it->second; R.distinct+=!wn.empty();
                if(got!=wn){ std::string a,b; for(int x:got) a+=cat(x," "); for(int x:wn) b+=cat(x," "); R.fail(cat(k,": layer ",i," level ",l," cell ",c," returns vertices {",a.substr(0,100),"} instead of {",b.substr(0,100),"}")); return; }
                if(L[i].pointsInCell(cell,l)!=(int)wn.size()){ R.fail(cat(k,": pointsInCell of layer ",i," level ",l," cell ",c)); return; } for(size_t q=0;q<wn.size();q++) if(&L[i].kthPoint(cell,l,q)!=rg.first+q){ R.fail(cat(k,": kthPoint ",q," of layer ",i," level ",l," cell ",c)); return; } } } } }
void pairs_(const Scene&s){ std::string k=s.name; printf("CASE %s\n",k.c_str()); R.ev++; if(R.ev%100==5) R.sample(k); auto cb=[&](int,int,int){}; auto t=hypergirgs::makeHyperbolicTree(s.r,s.a,0.5,s.R,cb); auto&L=t.m_radius_layers; std::map<std::pair<unsigned,unsigned>,std::vector<unsigned>> at; for(unsigned l=0;l<t.m_layer_pairs.size();l++) for(auto&p:t.m_layer_pairs[l]) at[p].push_back(l); R.distinct+=t.m_layer_pairs.size()>1;
    if(t.m_layers!=L.size()||t.m_levels!=t.m_layer_pairs.size()){ R.fail(cat(k,": ",t.m_levels," levels but ",t.m_layer_pairs.size()," lists of layer pairs")); return; }
    for(unsigned i=0;i<L.size();i++) for(unsigned j=0;j<L.size();j++){ auto&a=at[{i,j}]; std::string q=cat(k,": layer pair ",i,",",j); if(a.size()!=1){ R.fail(cat(q," is scheduled ",a.size()," times")); return; } if(a[0]>L[i].m_target_level||a[0]>L[j].m_target_level){ R.fail(cat(q," is compared on level ",a[0],", deeper than the insertion levels ",L[i].m_target_level,", ",L[j].m_target_level)); return; }
        LD r1=L[i].m_r_min,r2=L[j].m_r_min; for(unsigned l=1;l<=a[0]&&l<=a[0];l++){ LD w=(LD)TP/powl(2,l); if(l<2) continue; LD qq=sinl(w/2),cd=coshl(r1-r2)+2*qq*qq*sinhl(r1)*sinhl(r2); if(cd<coshl(s.R)*(1-1e-9L)){ R.fail(cat(q," is compared on level ",a[0],", but on level ",l," points of cells that do not touch can be at distance ",(double)acoshl(cd)," < R")); return; } }
        // not less deep than possible: on the next level non-touching cells may contain close points
        { LD w=(LD)TP/powl(2,a[0]+1),qq=sinl(w/2),cd=coshl(r1-r2)+2*qq*qq*sinhl(r1)*sinhl(r2); if(cd>coshl(s.R)*(1+1e-9L)){ R.fail(cat(q," is compared on level ",a[0]," although level ",a[0]+1," also separates it")); return; } } }
    for(auto&p:at) if(p.first.first>=L.size()||p.first.second>=L.size()) R.fail(cat(k,": a layer pair of layers that do not exist")); }
int main(int c,char**v){ std::string mode=v[1]; G.seed(atoi(v[2])); double scale=atof(v[3]); auto t0=std::chrono::steady_clock::now(); auto left=[&]{ return std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()<3.0*scale; };
    int T[]={1,2,3,4,5,6,7,8,12,16,33}; int NS[]={1,2,3,4,7,20,45,90,160}; setvbuf(stdout,0,_IOLBF,0); printf("HANG-IS-FAILURE\n");
    auto RD=[&]{ double r= G()%3? 2+12*U(): 1+U()*6; if(G()%5==0) r=std::floor(r)+1; return r; };
    if(mode=="threshold") for(int r=0;left()&&R.fails<3;r++){ Scene s=scene(NS[G()%9],RD(),G()%6,G()%6); threshold(s,T[G()%11],G()%1000); if(r%30==3){ Scene b=scene(1500,4+14*U(),G()%6,G()%6); threshold(b,T[G()%11],1); } }
    if(mode=="cover") for(int r=0;left()&&R.fails<3;r++){ Scene s=scene(NS[G()%8],G()%4?RD():8+10*U(),G()%6,G()%6); cover(s,T[G()%11],G()%1000); }
    if(mode=="prob"){ double TT[]={0.05,0.2,0.4,0.6,0.8,0.95,0.99}; for(int r=0;left()&&R.fails<3;r++){ Scene s=scene(2+G()%50,RD(),G()%6,G()%3?0:(int)(G()%6)); prob(s,TT[G()%7],G()%3?1:2+G()%3,G()%3?2500:8000,1+G()%1000); } }
    if(mode=="index") for(int r=0;left()&&R.fails<3;r++){ Scene s=scene(NS[G()%9],RD(),G()%6,G()%6); index_(s,T[G()%11]); if(r%20==3){ Scene b=scene(4000,3+12*U(),G()%6,G()%6); index_(b,T[G()%11]); } }
    if(mode=="pairs") for(int r=0;left()&&R.fails<3;r++){ Scene s=scene(NS[G()%9],RD(),G()%6,0); pairs_(s); }
    return R.end(); }
