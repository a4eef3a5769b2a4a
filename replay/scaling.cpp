// weight scaling against the exact expected degree: P(edge) = E over a uniform torus distance of min(1,(w_u w_v/(W dist^D))^alpha)
#include "common.h"
#include <numeric>
#include <chrono>
#include <omp.h>
#include <girgs/Generator.h>
Rep R; std::mt19937_64 G; double U(){ return (G()>>11)/9007199254740992.0; }
double expdeg(const std::vector<double>&w,double D,double al){ long double W=0; for(double x:w) W+=x; long double s=0; size_t n=w.size(); for(size_t i=0;i<n;i++) for(size_t j=0;j<i;j++){ long double a=powl(2,D)*w[i]*w[j]/W; s+= a>=1?1: std::isinf(al)? a : a+(powl(a,al)-a)/(1-al); } return 2*s/n; }
int main(int c,char**v){ G.seed(atoi(v[1])); double lim=atof(v[2]); auto t0=std::chrono::steady_clock::now(); setvbuf(stdout,0,_IOLBF,0); printf("HANG-IS-FAILURE\n");
    while(std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()<lim&&R.fails<3){
        int n= G()%3? 2+G()%40 : 50+G()%700; int k=G()%5; std::vector<double> w; for(int i=0;i<n;i++) w.push_back(k==0?1.0: k==1? std::pow(1-U()*0.999,-0.7): k==2? (i==0?0.4*n+2:1+U()) : k==3? 1+(double)(G()%4) : std::exp(3*U()*U())*0.1);
        int D=1+G()%5; double al= G()%3==0? std::numeric_limits<double>::infinity() : G()%4==0? 8.5+U()*20: G()%3? 1.05+U()*6.9: 0.2+0.7*U(); int mode=G()%5; double deg= mode==0? (n-1)*(0.7+0.28*U()) : mode==1? 0.1+U() : std::min<double>(n-1,1+U()*12)*(U()<.5?.9:.5); if(deg>n-1.05) deg=n-1.05; if(!(deg>0.05)) deg=0.05; omp_set_num_threads(1+G()%8); if(G()%9==0) deg=n-1; if(n>3*(unsigned)n) deg=1;
        if(al<1&&deg<n-1) deg=std::min(deg,0.5*(n-1));
        std::string s=cat("n=",n," weights#",k," D=",D," alpha=",al," degree=",deg," first weights ",w[0]," ",w[1]); printf("CASE %s\n",s.c_str()); if(R.ev%200==5) R.sample(s); R.ev++; R.distinct++;
        auto x=w; double f=girgs::scaleWeights(x,deg,D,al); bool ok=f>0; for(int i=0;i<n;i++) if(!(std::fabs(x[i]-f*w[i])<=1e-12*x[i])) ok=false; if(!ok){ R.fail(cat(s,": weights are not scaled by the one returned factor ",f)); continue; }
        // alpha above 8 is treated as the threshold model by design (documented limit of the estimator); compare with what it stands for
        double e=expdeg(x,D,al>8?std::numeric_limits<double>::infinity():al); if(!(std::fabs(e-deg)<=0.0201+1e-9*n)) R.fail(cat(s,": the expected degree of the scaled weights is ",e)); }
    return R.end(); }
