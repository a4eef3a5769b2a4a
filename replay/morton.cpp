// oracle: interleave bit by bit
#include "common.h"
#include <type_traits>
#include <girgs/BitManipulation.h>
Rep R;
template<unsigned D> void one_c(std::array<uint32_t,D> c){
    using Impl=girgs::BitManipulation<D>; const int nb=32/D; R.ev++;
    for(auto&x:c) x&= nb==32?0xffffffffu:((1u<<nb)-1);
    uint32_t e=0; bool nz=false; for(int l=0;l<nb;l++) for(unsigned d=0;d<D;d++) { e|=((c[d]>>l)&1u)<<(l*D+d); nz|=c[d]; }
    R.distinct+=nz; auto g=Impl::deposit(c);
    std::string s="D="+std::to_string(D)+" coords"; for(auto x:c) s+=" "+std::to_string(x);
    R.sample(s);
    if(g!=e) R.fail(cat("deposit ",s,": got ",g,", interleaving is ",e));
    auto b=Impl::extract(g); for(unsigned d=0;d<D;d++) if(b[d]!=c[d]) { R.fail(cat("extract(deposit()) ",s,": coordinate ",d," is ",b[d])); break; }
}
template<unsigned D> void one_x(uint32_t x){
    using Impl=girgs::BitManipulation<D>; R.ev++; R.distinct+= x!=0;
    auto g=Impl::extract(x);
    for(unsigned d=0;d<D;d++){ uint32_t e=0; for(int l=0;l*D+d<32;l++) e|=((x>>(l*D+d))&1u)<<l; if(e!=g[d]) { R.fail(cat("extract D=",D," word ",x,": coordinate ",d," is ",g[d],", expected ",e)); return; } }
    const int nb=32/D; uint32_t y= nb*D<32 ? x&((1u<<(nb*D))-1) : x;
    if(Impl::deposit(Impl::extract(y))!=y) R.fail(cat("deposit(extract(x)) != x: D=",D," x=",y));
}
template<unsigned D> void all_x(uint32_t x){ one_x<D>(x); }
void X(uint32_t x){ one_x<1>(x);one_x<2>(x);one_x<3>(x);one_x<4>(x);one_x<5>(x); }
template<unsigned D> void C(const std::vector<uint32_t>&v){ std::array<uint32_t,D> a{}; for(unsigned d=0;d<D;d++) a[d]= d<v.size()?v[d]:0; one_c<D>(a); }
int main(int c,char**v){
    int seed=c>1?atoi(v[1]):1; long n=c>2?atol(v[2]):100000;
    for(int i=3;i<c;){ if(v[i][0]=='x'){ X(strtoul(v[i+1],0,10)); i+=2; } else { int k=atoi(v[i+1]); std::vector<uint32_t> a; for(int d=0;d<k;d++) a.push_back(strtoul(v[i+2+d],0,10)); C<1>(a);C<2>(a);C<3>(a);C<4>(a);C<5>(a); i+=2+k; } }
    for(int i=0;i<32;i++){ X(1u<<i); X((1u<<i)-1); X(~(1u<<i)); for(int d=0;d<5;d++){ std::vector<uint32_t> a(5); a[d]=1u<<i; C<1>(a);C<2>(a);C<3>(a);C<4>(a);C<5>(a); } }
    std::mt19937 g(seed); for(long i=0;i<n;i++){ X(g()); std::vector<uint32_t> a; for(int d=0;d<5;d++) a.push_back(g()); C<1>(a);C<2>(a);C<3>(a);C<4>(a);C<5>(a); }
    return R.end();
}
