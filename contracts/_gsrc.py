"""translation units of the two Generator.cpp files (included as they are)"""
from vlib.prove import *
from vlib.spec import *
from vlib import rt
def tu_g(x=0): return '#include "%s/source/girgs/source/Generator.cpp"\n'%REPO
def tu_h(x=0): return '#include "%s/source/hypergirgs/source/Generator.cpp"\n'%REPO
KEEPRX=re.compile(r"std::(uniform_real_distribution|geometric_distribution|mersenne_twister_engine|random_device|vector)::(operator\(\)|seed|discard|random_device|~random_device|vector|~vector|operator=|insert|emplace_back|push_back|reserve|resize|clear)$|std::mersenne_twister_engine::mersenne_twister_engine$|std::basic_|std::__cxx11|std::set(precision|w)|girgs::(make|estimate)|std::operator|hypergirgs::make")
def keepfn(n,d):
    b=sym.base_name(d)
    if "omp_outlined" in n: return True
    if re.match(r"(girgs|hypergirgs)::(generateWeights|generatePositions|scaleWeights|generateEdges|saveDot|sampleRadii|sampleAngles|sampleRadiiAndAngles|sampleRadiiAndAnglesHelper|calculateRadius|calculateRadiusLikeNetworKit|getExpectedDegree|searchTargetRadiusForColdGraphs|getTargetRadius)$",b): return True
    return bool(KEEPRX.match(b))
class _M: pass
