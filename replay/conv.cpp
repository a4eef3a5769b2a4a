// conversions of girgs/Hyperbolic.h in floating point. argv: seed n
#include "common.h"
#include <girgs/Hyperbolic.h>
using namespace girgs;
int main(int c,char**v){ Rep R; std::mt19937_64 g(atoi(v[1])); long n=atol(v[2]); auto U=[&]{ return (g()>>11)/9007199254740992.0; }; const double PI2=2*3.14159265358979323846;
    auto ang=[&](double a){ double p=angleToGirgPosition(a); if(!(p>=0&&p<1)) R.fail(cat("angle ",a," maps to ",p)); if(std::fabs(p-a/PI2)>1e-15) R.fail(cat("angle ",a," maps to ",p," expected ",a/PI2)); double b=girgPositionToAngle(p); if(std::fabs(b-a)>4e-15*std::max(a,1e-300)+1e-300) R.fail(cat("angle ",a," comes back as ",b)); double a2=std::nextafter(a,10); if(a2<PI2&&angleToGirgPosition(a2)<p) R.fail(cat("not monotone at angle ",a)); };
    auto pos=[&](double p){ double a=girgPositionToAngle(p); if(!(a>=0)||std::fabs(a-p*PI2)>1e-14*std::max(a,1e-300)+1e-300) R.fail(cat("position ",p," maps to angle ",a)); double q=angleToGirgPosition(a); if(std::fabs(q-p)>4e-15*p) R.fail(cat("position ",p," comes back as ",q)); };
    auto rad=[&](double r,double RR){ double w=radiusToGirgWeight(r,RR); if(!(std::fabs(w-std::exp((RR-r)/2))<=1e-13*w)) R.fail(cat("radius ",r," R ",RR," weight ",w)); double b=girgWeightToRadius(w,RR); if(!(std::fabs(b-r)<=1e-13*(RR+1))) R.fail(cat("radius ",r," R ",RR," comes back as ",b)); double r2=r+1e-9*(1+r); if(!(radiusToGirgWeight(r2,RR)<w)) R.fail(cat("larger radius does not give a smaller weight at ",r," R ",RR)); };
    auto wei=[&](double w,double RR,double s){ double r=girgWeightToRadius(w,RR,s); if(!(std::fabs(r-(RR-2*std::log(w/s)))<=1e-12*(RR+std::fabs(r)+1))) R.fail(cat("weight ",w," scaling ",s," R ",RR," radius ",r)); double b=radiusToGirgWeight(r,RR)*s; if(!(std::fabs(b-w)<=1e-12*w*(RR+std::fabs(r)+1))) R.fail(cat("weight ",w," scaling ",s," R ",RR," comes back as ",b)); if(s==1&&girgWeightToRadius(w,RR)!=r) R.fail(cat("default scaling is not 1 for weight ",w)); };
    for(double a:{0.0,std::nextafter(PI2,0),PI2/2,PI2/4,1e-300,std::nextafter(PI2/2,0)}) { ang(a); R.ev++; }
    for(long i=0;i<n;i++){ R.ev+=4; R.distinct+=4; double a=U()*PI2; if(i%5==0) a=std::ldexp(a,-(int)(g()%60)); if(a>=PI2) a=0; ang(a); pos(i%7==0?std::ldexp(U(),-(int)(g()%60)):U()); double RR=1+U()*80; rad(i%11==0?0:i%13==0?RR:U()*RR,RR); wei(std::exp(U()*40-5),RR,i%2?1.0:0.05+U()*20); if(i<3) R.sample(cat("angle ",a,", R ",RR)); }
    return R.end(); }
