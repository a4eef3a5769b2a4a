"""C21 the command line tools reject out-of-range parameters"""
from vlib.prove import *
GS=["source/girgs/source/Generator.cpp","source/girgs/source/WeightScaling.cpp"]; HS=["source/hypergirgs/source/Generator.cpp","source/hypergirgs/source/RadiusLayer.cpp","source/hypergirgs/source/AngleHelper.cpp"]
from contracts import cli
def tool(c,which): cli.tool(c,which,"param")
def jobs(tier): return [("gengirg","tool",dict(which="gengirg")),("genhrg","tool",dict(which="genhrg"))]
def replay(N,refuted,unknown,errors):
    q=N.tier=="quick"; sc=1 if q else 20
    for d,src in((['CLI_MAIN="%s/source/cli/gengirg/main.cpp"'%REPO],GS),(['CLI_MAIN="%s/source/cli/genhrg/main.cpp"'%REPO,"HRG"],HS)): N.drive("cli.cpp",["params",N.seed,10*sc],defs=["NDEBUG"]+d,repo_sources=src,what="the real main() with values inside, at and outside every documented range",timeout=300)
RULE='command lines; non-trivial if a value is at or outside the end of its range'
LEVEL="proof"
ASSUMPTIONS=["arguments given for numbers parse (std::stoi/stod throw otherwise, and the program ends with an error)","std::map behaves as a total function from strings to strings (missing keys are empty)","at most 2^30 arguments","NaN is modelled as every ordered comparison being false; other double arithmetic is treated as real"]
EXPLANATION="main() of both tools with all its own functions (parseArgs, rangeCheck, logParam) inlined, for every argument vector: the parse loop is proved to compute the documented map from flags to values (invariant: parsing the rest from here gives the specified result); on every path that generates anything or opens a file every parameter is in its documented range, with its ends open or closed as documented and never NaN; the tool exits early only with an error status and only if a parameter is outside its range; every library call gets the value of the flag of its name, or the documented default."
