#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <random>
#include <algorithm>
#include <limits>
#include <array>
#include <functional>
#include <sstream>
#include <iostream>
struct Rep {
    long long ev=0, distinct=0; int fails=0; std::vector<std::string> samples;
    void sample(const std::string& s){ if(samples.size()<4) samples.push_back(s); }
    void fail(const std::string& s){ if(fails++<5) { printf("FAIL %s\n", s.c_str()); fflush(stdout);} }
    int end(){
        printf("{\"evaluations\":%lld,\"distinct\":%lld,\"samples\":[",ev,distinct);
        for(size_t i=0;i<samples.size();++i){ std::string e; for(char c:samples[i]) { if(c=='"'||c=='\\') e+='\\'; e+=c; } printf("%s\"%s\"", i?",":"", e.c_str()); }
        printf("]}\n"); fflush(stdout); return fails?1:0; }
};
template<class... T> std::string cat(T const&... t){ std::ostringstream s; s.precision(17); int d[]={0,((void)(s<<t),0)...}; (void)d; return s.str(); }
