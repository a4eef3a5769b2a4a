#include "common.h"
#include <hypergirgs/AngleHelper.h>
typedef hypergirgs::AngleHelper H; typedef unsigned long long U; Rep R; const double PI=3.14159265358979323846;
void pr(int l,U a,U b){ U n=1ull<<l,f=n-1; if(a<f||b<f||a>=f+n||b>=f+n) return; R.ev++; R.distinct+=a!=b; U d=a>b?a-b:b-a; d=std::min(d,n-d); std::string w=cat("level ",l," cells ",a-f," ",b-f); R.sample(w);
    if(H::touching(a,b,l)!=(d<=1)) R.fail(cat("touching ",w," got ",H::touching(a,b,l))); int e=d<=1?0:d-1; if(H::cellsBetween(a,b,l)!=e) R.fail(cat("cellsBetween ",w," got ",H::cellsBetween(a,b,l)," expected ",e));
    double x=e*(2*PI/n), g=H::dist(a,b,l); if(std::fabs(g-x)>1e-12*(1+x)) R.fail(cat("dist ",w," got ",g," expected ",x)); }
void pt(double ang,int l){ if(!(ang>=0&&ang<2*PI)) return; R.ev++; R.distinct++; U n=1ull<<l; unsigned c=H::cellForPoint(ang,l); std::string w=cat("angle ",ang," level ",l);
    if(c>=n) { R.fail(cat("cellForPoint out of the level: ",w," got ",c)); return; } double x=ang/(2*PI)*n; if(x<c-1e-6||x>c+1+1e-6) R.fail(cat("cellForPoint ",w," got ",c," position ",x));
    if(l<30){ unsigned k=H::cellForPoint(ang,l+1); if(k/2!=c) R.fail(cat("cells of ",w," do not nest: ",c," then ",k)); }
    auto b=H::bounds(H::firstCellOfLevel(l)+c,l); if(std::fabs(b.first-2*PI/n*c)>1e-12||std::fabs(b.second-2*PI/n*(c+1))>1e-12) R.fail(cat("bounds ",w)); if(ang<b.first-1e-12||ang>b.second+1e-12) R.fail(cat("bounds of the cell do not contain ",w)); }
int main(int c,char**v){ std::mt19937_64 g(atoi(v[1])); long n=atol(v[2]); if(c>3&&v[3][0]=='p'){ for(int i=4;i+1<c;i+=2) pt(atof(v[i+1]),atoi(v[i])); } else for(int i=3;i+2<c;i+=3) pr(atoi(v[i]),strtoull(v[i+1],0,10),strtoull(v[i+2],0,10));
    for(int l=0;l<=6;l++) for(U a=0;a<(1u<<l);a++) for(U b=0;b<(1u<<l);b++) pr(l,(1u<<l)-1+a,(1u<<l)-1+b);
    for(long i=0;i<n;i++){ int l=g()%31; U N=1ull<<l,a=g()%N,b=g()%2?(a+N+g()%7-3)%N:g()%N; if(g()%8==0){a=0;b=N-1-g()%2;} if(b>=N) b=0; pr(l,N-1+a,N-1+b); }
    for(int l=0;l<=30;l++){ U N=1ull<<l; for(long i=0;i<n/200;i++){ U k=((U)i<64?(U)i:g())%N; if(i%3==0) k=N-1-k%8*(N>8); double x=2*PI/N*k; pt(x,l); pt(std::nextafter(x,0),l); pt(std::nextafter(x,9),l); pt((g()>>11)/9007199254740992.0*2*PI,l);} pt(std::nextafter(2*PI,0),l); pt(0,l); }
    return R.end(); }
