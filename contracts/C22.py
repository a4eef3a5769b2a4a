"""C22 output files describe exactly the generated graph"""
from vlib.prove import *
GS=["source/girgs/source/Generator.cpp","source/girgs/source/WeightScaling.cpp"]; HS=["source/hypergirgs/source/Generator.cpp","source/hypergirgs/source/RadiusLayer.cpp","source/hypergirgs/source/AngleHelper.cpp"]
from contracts import cli
def tool(c,which): cli.tool(c,which,"file")
def dot(c): cli.saveDot(c)
def jobs(tier): return [("gengirg","tool",dict(which="gengirg")),("genhrg","tool",dict(which="genhrg")),("saveDot","dot",{})]
def replay(N,refuted,unknown,errors):
    q=N.tier=="quick"; sc=1 if q else 20
    for d,src in((['CLI_MAIN="%s/source/cli/gengirg/main.cpp"'%REPO],GS),(['CLI_MAIN="%s/source/cli/genhrg/main.cpp"'%REPO,"HRG"],HS)): N.drive("cli.cpp",["files",N.seed,10*sc],defs=["NDEBUG"]+d,repo_sources=src,what="files written by the real main() and writers parsed back and compared with the generated graph",timeout=300)
RULE='files written; non-trivial if the graph has edges'
LEVEL="proof"
ASSUMPTIONS=["the stream operators of libstdc++ write the characters, integers and doubles they are given (17 significant digits identify a double); write errors after a successful open (a full disk) are not considered","fewer than 2^31-1 vertices","std::map, stoi, stod as in C21"]
EXPLANATION="every file written by the tools' main() and by saveDot, for every graph: the sequence of characters and numbers written is proved, item by item, to be the one the format prescribes (loop invariants: after k iterations exactly k lines are complete): header with the two counts, one line per edge in order, coordinates with 17 significant digits, dot nodes with label and all coordinates and dot edges; the file has the name asked for and is written if and only if asked for; when it cannot be opened an exception is thrown and nothing is written."
