"""LLVM IR loader (ctypes over libLLVM's C API): real C++ source -> clang -> IR -> python objects.

What the extraction does, on every run: clang++ compiles the harness TU, which only #includes /repo's headers or
sources and instantiates templates; every function that is not a contract boundary is inlined (alwaysinline) and
the IR is normalised with semantics-preserving LLVM passes.  Nothing is hand-copied."""
import ctypes, ctypes.util, os, subprocess, tempfile, hashlib, re

L = ctypes.CDLL("libLLVM.so.18.1")
P = ctypes.c_void_p
def _f(name, res, *args):
    fn = getattr(L, name); fn.restype = res; fn.argtypes = list(args); return fn
S = ctypes.c_char_p; U = ctypes.c_uint; I = ctypes.c_int; ULL = ctypes.c_ulonglong; SZ = ctypes.c_size_t
ctxCreate = _f("LLVMContextCreate", P)
memBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", I, S, ctypes.POINTER(P), ctypes.POINTER(S))
parseIR = _f("LLVMParseIRInContext", I, P, P, ctypes.POINTER(P), ctypes.POINTER(S))
firstFn = _f("LLVMGetFirstFunction", P, P); nextFn = _f("LLVMGetNextFunction", P, P)
firstGl = _f("LLVMGetFirstGlobal", P, P); nextGl = _f("LLVMGetNextGlobal", P, P)
valName = _f("LLVMGetValueName2", P, P, ctypes.POINTER(SZ))
cntBB = _f("LLVMCountBasicBlocks", U, P); isDecl = _f("LLVMIsDeclaration", I, P)
firstBB = _f("LLVMGetFirstBasicBlock", P, P); nextBB = _f("LLVMGetNextBasicBlock", P, P)
firstI = _f("LLVMGetFirstInstruction", P, P); nextI = _f("LLVMGetNextInstruction", P, P)
opcode = _f("LLVMGetInstructionOpcode", I, P)
numOps = _f("LLVMGetNumOperands", I, P); getOp = _f("LLVMGetOperand", P, P, U)
typeOf = _f("LLVMTypeOf", P, P); typeKind = _f("LLVMGetTypeKind", I, P)
intW = _f("LLVMGetIntTypeWidth", U, P)
stCount = _f("LLVMCountStructElementTypes", U, P); stEl = _f("LLVMStructGetTypeAtIndex", P, P, U)
elTy = _f("LLVMGetElementType", P, P); arrLen = _f("LLVMGetArrayLength2", ctypes.c_uint64, P)
vecLen = _f("LLVMGetVectorSize", U, P)
dl = _f("LLVMGetModuleDataLayout", P, P)
offEl = _f("LLVMOffsetOfElement", ULL, P, P, U); abiSize = _f("LLVMABISizeOfType", ULL, P, P)
numIdx = _f("LLVMGetNumIndices", U, P); idxs = _f("LLVMGetIndices", ctypes.POINTER(U), P)
gepSrc = _f("LLVMGetGEPSourceElementType", P, P); allocTy = _f("LLVMGetAllocatedType", P, P)
icmpPred = _f("LLVMGetICmpPredicate", I, P); fcmpPred = _f("LLVMGetFCmpPredicate", I, P)
getNSW = _f("LLVMGetNSW", I, P); getNUW = _f("LLVMGetNUW", I, P); getExact = _f("LLVMGetExact", I, P)
numSucc = _f("LLVMGetNumSuccessors", U, P); getSucc = _f("LLVMGetSuccessor", P, P, U)
cntInc = _f("LLVMCountIncoming", U, P); incV = _f("LLVMGetIncomingValue", P, P, U); incB = _f("LLVMGetIncomingBlock", P, P, U)
valKind = _f("LLVMGetValueKind", I, P)
sext = _f("LLVMConstIntGetZExtValue", ULL, P); sextv = _f("LLVMConstIntGetSExtValue", ctypes.c_longlong, P)
dblVal = _f("LLVMConstRealGetDouble", ctypes.c_double, P, ctypes.POINTER(I))
calledV = _f("LLVMGetCalledValue", P, P); nArgs = _f("LLVMGetNumArgOperands", U, P)
nParams = _f("LLVMCountParams", U, P); getParam = _f("LLVMGetParam", P, P, U)
ginit = _f("LLVMGetInitializer", P, P); isConstG = _f("LLVMIsGlobalConstant", I, P); gvt = _f("LLVMGlobalGetValueType", P, P)
constOpc = _f("LLVMGetConstOpcode", I, P)
dbgLine = _f("LLVMGetDebugLocLine", U, P)
dbgFile = _f("LLVMGetDebugLocFilename", P, P, ctypes.POINTER(U))
kindId = _f("LLVMGetEnumAttributeKindForName", U, S, SZ)
mkAttr = _f("LLVMCreateEnumAttribute", P, P, U, ctypes.c_uint64)
addAttr = _f("LLVMAddAttributeAtIndex", None, P, U, P); rmAttr = _f("LLVMRemoveEnumAttributeAtIndex", None, P, U, U)
runPasses = _f("LLVMRunPasses", P, P, S, P, P)
mkOpts = _f("LLVMCreatePassBuilderOptions", P)
errMsg = _f("LLVMGetErrorMessage", S, P)
printV = _f("LLVMPrintValueToString", P, P)
printM = _f("LLVMPrintModuleToFile", I, P, S, ctypes.POINTER(S))
aggEl = _f("LLVMGetAggregateElement", P, P, U)
isStr = _f("LLVMIsConstantString", I, P); asStr = _f("LLVMGetAsString", P, P, ctypes.POINTER(SZ))
setLinkage = _f("LLVMSetLinkage", None, P, I)
swDefault = _f("LLVMGetSwitchDefaultDest", P, P)
fnTy = _f("LLVMGlobalGetValueType", P, P); retTy = _f("LLVMGetReturnType", P, P)
_cxxdem = ctypes.CDLL("libstdc++.so.6").__cxa_demangle
_cxxdem.restype = P; _cxxdem.argtypes = [S, P, P, ctypes.POINTER(I)]
_free = ctypes.CDLL(None).free; _free.argtypes = [P]

_dem = {}
def demangle(n):
    if n in _dem: return _dem[n]
    st = I(0); r = _cxxdem(n.encode(), None, None, ctypes.byref(st)); out = n
    if r and st.value == 0:
        out = ctypes.string_at(r).decode(); _free(r)
    _dem[n] = out
    return out

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',
13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',
26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',
37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',
46:'select',47:'userop1',48:'userop2',49:'vaarg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',
54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad',61:'cleanupret',62:'catchret',
63:'catchpad',64:'cleanuppad',65:'catchswitch',67:'callbr'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}

class Ty:
    """kind: int,float,ptr,struct,array,void,other"""
    __slots__ = ("kind","w","els","offs","n","el","size","name")
    def __repr__(s):
        return {"int":f"i{s.w}","float":s.name,"ptr":"ptr","void":"void"}.get(s.kind) or \
            (f"[{s.n} x {s.el}]" if s.kind=="array" else f"{{{','.join(map(str,s.els))}}}" if s.kind=="struct" else "other")

class Const:   # python-level constant operand
    __slots__ = ("k","v","ty")
    def __init__(s,k,v,ty): s.k=k; s.v=v; s.ty=ty   # k: int,fp,null,undef,global,func,agg,gep,zero,other
    def __repr__(s): return f"const({s.k},{s.v})"
class Ref:
    __slots__=("id",)
    def __init__(s,i): s.id=i
    def __repr__(s): return f"%{s.id}"

class Inst:
    __slots__=("id","op","ty","ops","pred","x","nsw","nuw","exact","line","file","name","fn","blocks","args","raw")
    def __repr__(s):
        return f"%{s.id} = {s.op} {s.pred or ''} {s.ops} {s.x if s.x is not None else ''} {s.fn.dname if getattr(s,'fn',None) else ''} {s.blocks or ''}"

class Block:
    __slots__=("id","insts","name","phis","succ","pred")
class Func:
    def __repr__(s): return f"<fn {s.dname}>"

class Module:
    def __init__(self, path):
        self.ctx = ctxCreate(); buf = P(); msg = S()
        if memBuf(path.encode(), ctypes.byref(buf), ctypes.byref(msg)): raise RuntimeError(msg.value)
        m = P()
        if parseIR(self.ctx, buf, ctypes.byref(m), ctypes.byref(msg)): raise RuntimeError(msg.value)
        self.m = m; self._ty = {}; self.td = dl(m)
    def fname(self, v):
        n = SZ(); p = valName(v, ctypes.byref(n)); return ctypes.string_at(p, n.value).decode()
    def fns(self):
        f = firstFn(self.m)
        while f:
            yield f; f = nextFn(f)
    def normalise(self, keep, passes):
        """keep(mangled,demangled)->bool: function stays a call; all else is inlined"""
        k = lambda s: kindId(s.encode(), len(s))
        ai, ni, on, ns = k("alwaysinline"), k("noinline"), k("optnone"), k("optsize")
        A = mkAttr(self.ctx, ai, 0); N = mkAttr(self.ctx, ni, 0)
        FI = 0xFFFFFFFF
        for f in self.fns():
            if isDecl(f): continue
            n = self.fname(f); d = demangle(n)
            rmAttr(f, FI, on); rmAttr(f, FI, ai); rmAttr(f, FI, ni)
            addAttr(f, FI, N if keep(n, d) else A)
        for ps in passes:
            e = runPasses(self.m, ps.encode(), None, mkOpts())
            if e: raise RuntimeError("pass failure: %s" % errMsg(e))
    def dump(self, path):
        printM(self.m, path.encode(), None)
    def ty(self, t):
        if t in self._ty: return self._ty[t]
        k = typeKind(t); r = Ty(); r.kind="other"; r.w=0; r.els=None; r.offs=None; r.n=0; r.el=None; r.size=0; r.name=""
        self._ty[t] = r
        if k == 0: r.kind="void"
        elif k in (1,2,3,4,5,6): r.kind="float"; r.name={1:"half",2:"float",3:"double",4:"x86_fp80",5:"fp128",6:"ppc"}[k]; r.size=abiSize(self.td,t)
        elif k == 8: r.kind="int"; r.w=intW(t); r.size=abiSize(self.td,t)
        elif k == 10:
            r.kind="struct"; n=stCount(t)
            r.els=[self.ty(stEl(t,i)) for i in range(n)]; r.offs=[offEl(self.td,t,i) for i in range(n)]; r.size=abiSize(self.td,t)
        elif k == 11: r.kind="array"; r.n=arrLen(t); r.el=self.ty(elTy(t)); r.size=abiSize(self.td,t)
        elif k == 12: r.kind="ptr"; r.size=8
        elif k == 13: r.kind="vector"; r.n=vecLen(t); r.el=self.ty(elTy(t)); r.size=abiSize(self.td,t)
        return r
    def load(self):
        self.funcs = {}; self._fp = {}
        for f in self.fns():
            F = Func(); F.name=self.fname(f); F.dname=demangle(F.name); F.ptr=f; F.decl=bool(isDecl(f)); F.blocks=None; F.mod=self
            F.nparams = nParams(f); F.ret = self.ty(retTy(fnTy(f)))
            self.funcs[F.name]=F; self._fp[f]=F
        self.globals = {}; self._gp = {}
        g = firstGl(self.m)
        while g:
            nm = self.fname(g); self._gp[g]=nm; self.globals[nm]=g; g = nextGl(g)
        return self
    def find(self, pat, must=True):
        r = [f for f in self.funcs.values() if not f.decl and re.search(pat, f.dname)]
        if must and len(r) != 1: raise LookupError(f"function pattern {pat!r}: {len(r)} matches {[x.dname for x in r][:5]}")
        return r[0] if len(r)==1 else (r if not must else None)
    def const(self, v):
        k = valKind(v); t = self.ty(typeOf(v))
        # LLVMValueKind (18): Arg0 BB1 MemUse2 MemDef3 MemPhi4 Function5 GAlias6 IFunc7 GVar8 BlockAddr9 CExpr10 CArray11 CStruct12 CVector13
        # Undef14 CAggZero15 CDArray16 CDVector17 CInt18 CFP19 CNull20 TokenNone21 MDAsV22 InlineAsm23 Inst24 Poison25
        if k == 18:
            return Const("int", sext(v) if t.w<=64 else None, t)
        if k == 19:
            lossy=I(0); return Const("fp", dblVal(v, ctypes.byref(lossy)), t)
        if k == 20: return Const("null", None, t)
        if k in (14,25): return Const("undef", None, t)
        if k == 5: return Const("func", self._fp[v], t)
        if k == 8: return Const("global", self._gp[v], t)
        if k == 15: return Const("zero", None, t)
        if k in (11,12,13,16,17):
            n = t.n if t.kind in("array","vector") else len(t.els)
            return Const("agg", [self.const(aggEl(v,i)) for i in range(n)], t)
        if k == 10:
            oc = OPC.get(constOpc(v))
            if oc == "gep":
                return Const("gep", (self.ty(gepSrc(v)), [self.const(getOp(v,i)) for i in range(numOps(v))]), t)
            return Const("cexpr", (oc,[self.const(getOp(v,i)) for i in range(numOps(v))]), t)
        return Const("other", k, t)
    def ginit(self, name):
        g = self.globals[name]; i = ginit(g)
        return (self.const(i) if i else None, bool(isConstG(g)), self.ty(gvt(g)))
    def body(self, F):
        if F.blocks is not None: return F
        ids = {}
        F.params=[]
        for i in range(nParams(F.ptr)):
            p = getParam(F.ptr,i); ids[p]=len(ids); F.params.append((ids[p], self.ty(typeOf(p))))
        bbs=[]; b=firstBB(F.ptr); bid={}
        while b:
            bid[b]=len(bbs); bbs.append(b); b=nextBB(b)
        asv = _f("LLVMBasicBlockAsValue", P, P); vab=_f("LLVMValueAsBasicBlock",P,P)
        for b in bbs:
            i=firstI(b)
            while i: ids[i]=len(ids); i=nextI(i)
        def opnd(v):
            if v in ids: return Ref(ids[v])
            k=valKind(v)
            if k==1: return ("bb", bid[vab(v)])
            if k==22 or k==23: return Const("other",k,None)
            return self.const(v)
        F.blocks=[]
        for b in bbs:
            B=Block(); B.id=bid[b]; B.insts=[]; B.phis=[]; B.succ=[]; B.pred=[]
            i=firstI(b)
            while i:
                n=Inst(); n.id=ids[i]; n.op=OPC.get(opcode(i),"?%d"%opcode(i)); n.ty=self.ty(typeOf(i)); n.pred=None;n.x=None;n.fn=None;n.blocks=None;n.args=None
                n.nsw=n.nuw=n.exact=False; n.line=dbgLine(i); n.raw=i; n.name=""
                ln=U(0); fp=dbgFile(i, ctypes.byref(ln)); n.file=ctypes.string_at(fp,ln.value).decode() if fp else ""
                if n.op=="phi":
                    c=cntInc(i); n.ops=[opnd(incV(i,j)) for j in range(c)]; n.blocks=[bid[incB(i,j)] for j in range(c)]
                    B.phis.append(n); i=nextI(i); continue
                n.ops=[opnd(getOp(i,j)) for j in range(numOps(i))]
                if n.op in("add","sub","mul","shl"): n.nsw=bool(getNSW(i)); n.nuw=bool(getNUW(i))
                elif n.op in("udiv","sdiv","lshr","ashr"): n.exact=bool(getExact(i))
                elif n.op=="icmp": n.pred=ICMP[icmpPred(i)]
                elif n.op=="fcmp": n.pred=FCMP[fcmpPred(i)]
                elif n.op=="gep": n.x=self.ty(gepSrc(i))
                elif n.op=="alloca": n.x=self.ty(allocTy(i))
                elif n.op in("extractvalue","insertvalue"):
                    c=numIdx(i); ix=idxs(i); n.x=[ix[j] for j in range(c)]
                elif n.op in("call","invoke"):
                    cv=calledV(i); n.fn=self._fp.get(cv); na=nArgs(i); n.args=n.ops[:na]; n.x=opnd(cv) if n.fn is None and valKind(cv)!=23 else None
                    if n.fn and n.fn.name.startswith("llvm.dbg"): i=nextI(i); continue
                if n.op in("br","switch","invoke"):
                    n.blocks=[bid[getSucc(i,j)] for j in range(numSucc(i))]
                    B.succ=list(n.blocks) if n.op!="invoke" else [n.blocks[0]]
                B.insts.append(n); i=nextI(i)
            F.blocks.append(B)
        for B in F.blocks:
            for s in B.succ:
                if B.id not in F.blocks[s].pred: F.blocks[s].pred.append(B.id)
        self._loops(F)
        return F
    def _loops(self,F):
        n=len(F.blocks); order=[]; seen=set()
        st=[(0,iter(F.blocks[0].succ))]; seen.add(0)
        while st:
            b,it=st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s,iter(F.blocks[s].succ))); break
            else:
                order.append(b); st.pop()
        rpo=order[::-1]; F.rpo=rpo; pos={b:i for i,b in enumerate(rpo)}; idom={0:0}
        ch=True
        while ch:
            ch=False
            for b in rpo[1:]:
                new=None
                for p in F.blocks[b].pred:
                    if p in idom:
                        if new is None: new=p
                        else:
                            a,c=p,new
                            while a!=c:
                                while pos[a]>pos[c]: a=idom[a]
                                while pos[c]>pos[a]: c=idom[c]
                            new=a
                if new is not None and idom.get(b)!=new: idom[b]=new; ch=True
        def dom(a,b):
            while True:
                if a==b: return True
                if b==0: return False
                b=idom[b]
        F.loops={}
        for b in rpo:
            for s in F.blocks[b].succ:
                if dom(s,b):
                    body=F.loops.setdefault(s,{s}); wl=[b]
                    while wl:
                        x=wl.pop()
                        if x in body: continue
                        body.add(x); wl.extend(F.blocks[x].pred)
                elif pos[s]<=pos[b]: raise RuntimeError("irreducible loop")

CLANG="clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
PASSES=["always-inline","function(sroa,early-cse<memssa>,simplifycfg,sroa,early-cse<memssa>,simplifycfg),globaldce"]
def compile_ir(src, incs, defs=(), std="c++11", openmp=True, workdir=None, extra=()):
    here=os.path.dirname(os.path.abspath(__file__))
    out=os.path.join(workdir, hashlib.sha1((src+repr(incs)+repr(defs)+repr(extra)).encode()).hexdigest()[:12]+".ll")
    cmd=[CLANG,"-std="+std,"-O1","-Xclang","-disable-llvm-passes","-gline-tables-only","-ffp-contract=off","-fno-discard-value-names","-S","-emit-llvm","-w"]
    if openmp: cmd.append("-fopenmp")
    cmd+=["-isystem",os.path.join(here,"..","harness","inc")]
    for i in incs: cmd+=["-I",i]
    for d in defs: cmd.append("-D"+d)
    cmd+=list(extra)+[src,"-o",out]
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode: raise RuntimeError("clang failed on %s:\n%s"%(src,r.stderr[-3000:]))
    return out
def load(src, incs, keep, defs=(), workdir=None, openmp=True, extra=(), passes=None):
    p=compile_ir(src,incs,defs,workdir=workdir,openmp=openmp,extra=extra)
    m=Module(p); m.normalise(keep, passes or PASSES); return m.load()
