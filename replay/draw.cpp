// sampled weights, positions, radii, angles and the radius formulas. argv: girg|hrg seed scale
#include "common.h"
#include <omp.h>
#include <girgs/Generator.h>
#include <hypergirgs/Generator.h>
Rep R; typedef std::vector<double> VD;
// Kolmogorov-Smirnov: u should be uniform in [0,1)
void ks(VD u,const std::string&k){ size_t n=u.size(); if(n<20) return; std::sort(u.begin(),u.end()); double d=0; for(size_t i=0;i<n;i++) d=std::max(d,std::max(std::fabs(u[i]-(double)i/n),std::fabs(u[i]-(double)(i+1)/n))); if(d*std::sqrt((double)n)>3.4) R.fail(cat(k,": not the documented distribution (KS ",d*std::sqrt((double)n)," for ",n," values)")); }
void rep(VD u,const std::string&k){ std::sort(u.begin(),u.end()); size_t d=0; for(size_t i=1;i<u.size();i++) d+=u[i]==u[i-1]; if(d>2+u.size()/1000000) R.fail(cat(k,": ",d," values occur twice among ",u.size())); }
void corr(const VD&a,const VD&b,const std::string&k){ size_t n=a.size(); if(n<1000) return; double s=0; for(size_t i=0;i<n;i++) s+=(a[i]-.5)*(b[i]-.5); double z=s/std::sqrt(n/144.0); if(std::fabs(z)>7) R.fail(cat(k,": coordinates are correlated (z=",z,")")); }
#ifdef HG
#endif
int main(int c,char**v){ std::string mode=v[1]; int seed=atoi(v[2]); int scale=atoi(v[3]); std::mt19937_64 g(seed*77+5); const double PI2=2*3.14159265358979323846;
    int ns[]={1,2,3,7,100,1000,9999,10000,10001,19999,20000,20001,45678,100000,200003,523456};
    for(int rep_=0;rep_<scale;rep_++) for(int n:ns) for(int t:{1,2,3,8}) for(int par=0;par<2;par++){ if(n<10000&&t>2) continue; omp_set_num_threads(t); int sd=(rep_==0&&n==100)?0:(n==7?-1:(int)(g()%1000000));
#ifdef GIRG
        double ple=2.01+(g()%99)/100.0; std::string k=cat("n=",n," ple=",ple," seed=",sd," threads=",t," parallel=",par); printf("CASE %s\n",k.c_str());
        auto w=girgs::generateWeights(n,ple,sd,par); R.ev++; R.distinct+=n>=100; if(n==10001) R.sample("weights "+k); if((int)w.size()!=n){ R.fail(cat(k,": ",w.size()," weights")); continue; }
        if(n>=2){ double mx=std::max(1.0,n/2.0); bool ok=true; for(int i=0;i<n&&ok;i++) if(!(w[i]>=1-1e-12&&w[i]<=mx*(1+1e-9))){ R.fail(cat(k,": weight ",i," is ",w[i]," outside [1,",mx,"]")); ok=false; }
            if(ok&&n>2){ double cc=std::pow(0.5*n,1-ple); VD u; for(double x:w) u.push_back((1-std::pow(x,1-ple))/(1-cc)); ks(u,k+" weights"); rep(u,k+" weights"); if(n>=1000){ VD a(u.begin(),u.end()-1),b(u.begin()+1,u.end()); corr(a,b,k+" consecutive weights"); } } }
        int D=1+g()%5; k+=cat(" D=",D); auto p=girgs::generatePositions(n,D,sd,par); R.ev++; R.distinct+=n>=100; if((int)p.size()!=n){ R.fail(cat(k,": ",p.size()," positions")); continue; }
        bool ok=true; for(int i=0;i<n&&ok;i++){ if((int)p[i].size()!=D){ R.fail(cat(k,": position ",i," has ",p[i].size()," coordinates")); ok=false; break; } for(double x:p[i]) if(!(x>=0&&x<1)){ R.fail(cat(k,": position ",i," has a coordinate ",x)); ok=false; break; } }
        if(ok){ VD all; std::vector<VD> col(D); for(auto&q:p) for(int d=0;d<D;d++){ all.push_back(q[d]); col[d].push_back(q[d]); } rep(all,k+" coordinates"); for(int d=0;d<D;d++){ ks(col[d],cat(k," coordinate ",d)); if(d) corr(col[d-1],col[d],cat(k," coordinates ",d-1,",",d)); } }
#else
        double al=0.51+(g()%50)/100.0, RR=0.5+(g()%3000)/100.0; std::string k=cat("n=",n," alpha=",al," R=",RR," seed=",sd," threads=",t," parallel=",par); printf("CASE %s\n",k.c_str());
        VD r,a; int w=g()%2; if(w) { auto q=hypergirgs::sampleRadiiAndAngles(n,al,RR,sd,par); r=q.first; a=q.second; } else { r=hypergirgs::sampleRadii(n,al,RR,sd,par); a=hypergirgs::sampleAngles(n,sd,par); }
        R.ev+=2; R.distinct+=2*(n>=100); if(n==10001) R.sample(k); if((int)r.size()!=n||(int)a.size()!=n){ R.fail(cat(k,": ",r.size()," radii, ",a.size()," angles")); continue; }
        bool ok=true; for(int i=0;i<n&&ok;i++){ if(!(r[i]>0&&r[i]<=RR*(1+1e-12))){ R.fail(cat(k,": radius ",i," is ",r[i])); ok=false; } if(!(a[i]>=0&&a[i]<PI2)){ R.fail(cat(k,": angle ",i," is ",a[i])); ok=false; } }
        if(ok){ VD u,x; double den=std::cosh(al*RR)-1; for(double q:r) u.push_back((std::cosh(al*q)-1)/den); for(double q:a) x.push_back(q/PI2); ks(u,k+" radii"); ks(x,k+" angles"); if(al*RR<20) rep(u,k+" radii"); rep(x,k+" angles"); if(w) corr(u,x,k+" radius and angle"); }
#endif
    }
#ifndef GIRG
    for(int i=0;i<2000*scale;i++){ int n=i%4==0?(int)(1+g()%2147483647):i%4==1?(int)(1+g()%100):(int)(1+g()%100000); double al=0.5+(1+g()%1000)/2000.0,T=i%3?(g()%1000)/1001.0:0,deg=1+(g()%100000)/100.0; std::string k=cat("n=",n," alpha=",al," T=",T," deg=",deg); const long double P=3.14159265358979323846L; R.ev++; R.distinct++;
        double e=2*std::log((double)(2.0L*n*al*al*(T==0?1/P:T/sinl(P*T))/(deg*(al-.5)*(al-.5)))), got=hypergirgs::calculateRadius(n,al,T,deg); if(!(std::fabs(e-got)<=1e-9*(1+std::fabs(e)))) R.fail(cat("calculateRadius ",k,": ",got," expected ",e));
        deg=1+(g()%2000)/100.0; n=std::max(n,2000); double xi=2*al/(2*al-1); if(n<deg*60*xi*xi*(1+al)) continue; k=cat("n=",n," alpha=",al," T=",T," deg=",deg); printf("CASE nkr %s\nHANG-IS-FAILURE\n",k.c_str()); R.ev++;
        got=hypergirgs::calculateRadiusLikeNetworKit(n,al,T,deg);
        if(T==0){ double ed=2/M_PI*xi*xi*n*(std::exp(-got/2)+std::exp(-al*got)*(al*(got/2)*(M_PI/4/al/al-(M_PI-1)/al+(M_PI-2))-1)); if(!(std::fabs(ed-deg)<=0.0100001)) R.fail(cat("NetworKit radius ",k,": R=",got," has expected degree ",ed)); }
        else { double ee=2*std::log((double)(n/(deg*(sinl(P*T)/(P*T))*(P/2)/xi/xi))); if(!(std::fabs(ee-got)<=1e-9*(1+std::fabs(ee)))) R.fail(cat("NetworKit radius ",k,": ",got," expected ",ee)); } }
#endif
    return R.end(); }
