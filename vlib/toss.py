"""The coin-toss automaton: which pair is decided, with which random number, and whether the edge is reported.

Events: distance(x,y) decides the pair {x,y}; draw() gives the random number of the decision (before or after);
emit(a,b) reports the edge.  A decision without a draw must come out the same for every number (rnd arbitrary)."""
import z3
from .sym import *
class Toss:
    G=("open","x","y","rnd","draws","emitted")
    def __init__(A,st,cond,lo=0,names=None):
        A.cond=cond; z=z3.IntVal(0)
        st.g.update(open=z,x=z,y=z,draws=z,emitted=z,rnd=z3.Real("rnd0")); st.pc+=[st.g["rnd"]>=0,st.g["rnd"]<1]; st.g["q"]=z3.RealVal(1)
    def done(A,st): g=st.g; return z3.Implies(g["open"]==1,(g["emitted"]==1)==A.cond(st,g["x"],g["y"],g["rnd"]))
    def set(A,eng,st,**kw):
        for k,v in kw.items(): st.g[k]=z3.simplify(v) if isinstance(v,z3.ExprRef) else v; eng.note_write(("g",k))
    def distance(A,eng,st,x,y):
        g=st.g; eng.oblige(st,"the previous decision is carried out: reported exactly if the number drawn is below the probability",A.done(st),"post")
        eng.oblige(st,"a vertex is never paired with itself",x!=y,"post")
        f=z3.Real(eng.name("rnd")); st.pc+=[f>=0,f<g["q"]]
        dr=z3.simplify(z3.If(g["open"]==1,z3.IntVal(0),g["draws"])); A.set(eng,st,rnd=z3.If(dr==1,g["rnd"],f),draws=dr,open=z3.IntVal(1),x=x,y=y,emitted=z3.IntVal(0))
    def draw(A,eng,st):
        g=st.g; again=z3.simplify(g["draws"]==1); eng.oblige(st,"the previous decision is carried out: reported exactly if the number drawn is below the probability",z3.Implies(again,A.done(st)),"post")
        f=z3.Real(eng.name("rnd")); st.pc+=[f>=0,f<g["q"]]
        A.set(eng,st,open=z3.If(again,z3.IntVal(0),g["open"]),emitted=z3.If(again,z3.IntVal(0),g["emitted"]),draws=z3.IntVal(1),rnd=f); return f
    def emit(A,eng,st,ok):
        g=st.g; eng.oblige(st,"an edge is only reported for the pair being decided",z3.And(g["open"]==1,ok),"post"); eng.oblige(st,"an edge is reported at most once",g["emitted"]==0,"post"); A.set(eng,st,emitted=z3.IntVal(1))
    def end(A,eng,st): eng.oblige(st,"the last decision is carried out: reported exactly if the number drawn is below the probability",A.done(st),assume=False)
    def templates(A):
        g=lambda M,k:M.st.g[k]
        return [("ghost ranges",lambda M:z3.And(*[z3.And(g(M,k)>=0,g(M,k)<=1) for k in("open","emitted","draws")])),
            ("a number is only pending for an open decision",lambda M:g(M,"draws")<=g(M,"open")),("every open decision has its number",lambda M:g(M,"draws")==g(M,"open")),("range of the number drawn",lambda M:z3.And(g(M,"rnd")>=0,g(M,"rnd")<g(M,"q"))),
            ("every decision so far is reported exactly if the number drawn is below the probability",lambda M:A.done(M.st),True)]
