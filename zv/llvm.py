"""Reads LLVM bitcode through libLLVM's C API (ctypes) into plain Python objects."""
import ctypes as C, os

_L = None
def lib():
    global _L
    if _L is None:
        for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.18.1",
                  "libLLVM-18.so"):
            try:
                _L = C.CDLL(p); break
            except OSError:
                continue
        if _L is None:
            raise RuntimeError("libLLVM-18 not found")
        L = _L
        P = C.c_void_p
        def f(name, res, *args):
            fn = getattr(L, name); fn.restype = res; fn.argtypes = list(args); return fn
        for name, res, args in [
            ("LLVMContextCreate", P, ()),
            ("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, (C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))),
            ("LLVMParseBitcodeInContext2", C.c_int, (P, P, C.POINTER(P))),
            ("LLVMGetFirstFunction", P, (P,)), ("LLVMGetNextFunction", P, (P,)),
            ("LLVMGetFirstGlobal", P, (P,)), ("LLVMGetNextGlobal", P, (P,)),
            ("LLVMGetFirstGlobalAlias", P, (P,)), ("LLVMGetNextGlobalAlias", P, (P,)),
            ("LLVMAliasGetAliasee", P, (P,)),
            ("LLVMGetInitializer", P, (P,)), ("LLVMIsGlobalConstant", C.c_int, (P,)),
            ("LLVMGlobalGetValueType", P, (P,)),
            ("LLVMGetValueName2", P, (P, C.POINTER(C.c_size_t))),
            ("LLVMIsDeclaration", C.c_int, (P,)),
            ("LLVMGetFirstBasicBlock", P, (P,)), ("LLVMGetNextBasicBlock", P, (P,)),
            ("LLVMGetBasicBlockName", C.c_char_p, (P,)),
            ("LLVMGetFirstInstruction", P, (P,)), ("LLVMGetNextInstruction", P, (P,)),
            ("LLVMGetInstructionOpcode", C.c_int, (P,)),
            ("LLVMGetNumOperands", C.c_int, (P,)), ("LLVMGetOperand", P, (P, C.c_uint)),
            ("LLVMTypeOf", P, (P,)), ("LLVMGetTypeKind", C.c_int, (P,)),
            ("LLVMGetStructName", C.c_char_p, (P,)), ("LLVMCountStructElementTypes", C.c_uint, (P,)),
            ("LLVMStructGetTypeAtIndex", P, (P, C.c_uint)),
            ("LLVMGetArrayLength2", C.c_uint64, (P,)), ("LLVMGetElementType", P, (P,)),
            ("LLVMGetIntTypeWidth", C.c_uint, (P,)),
            ("LLVMGetReturnType", P, (P,)), ("LLVMCountParamTypes", C.c_uint, (P,)),
            ("LLVMIsFunctionVarArg", C.c_int, (P,)),
            ("LLVMGetICmpPredicate", C.c_int, (P,)), ("LLVMGetFCmpPredicate", C.c_int, (P,)),
            ("LLVMGetValueKind", C.c_int, (P,)),
            ("LLVMConstIntGetSExtValue", C.c_longlong, (P,)),
            ("LLVMConstIntGetZExtValue", C.c_ulonglong, (P,)),
            ("LLVMConstRealGetDouble", C.c_double, (P, C.POINTER(C.c_int))),
            ("LLVMGetGEPSourceElementType", P, (P,)), ("LLVMGetAllocatedType", P, (P,)),
            ("LLVMGetCalledFunctionType", P, (P,)), ("LLVMGetCalledValue", P, (P,)),
            ("LLVMGetNumArgOperands", C.c_uint, (P,)),
            ("LLVMGetNumSuccessors", C.c_uint, (P,)), ("LLVMGetSuccessor", P, (P, C.c_uint)),
            ("LLVMIsConditional", C.c_int, (P,)), ("LLVMGetCondition", P, (P,)),
            ("LLVMCountIncoming", C.c_uint, (P,)), ("LLVMGetIncomingValue", P, (P, C.c_uint)),
            ("LLVMGetIncomingBlock", P, (P, C.c_uint)),
            ("LLVMGetConstOpcode", C.c_int, (P,)),
            ("LLVMIsConstantString", C.c_int, (P,)),
            ("LLVMGetAsString", P, (P, C.POINTER(C.c_size_t))),
            ("LLVMGetAggregateElement", P, (P, C.c_uint)),
            ("LLVMGetDebugLocLine", C.c_uint, (P,)),
            ("LLVMGetDebugLocFilename", P, (P, C.POINTER(C.c_uint))),
            ("LLVMCountParams", C.c_uint, (P,)), ("LLVMGetParam", P, (P, C.c_uint)),
            ("LLVMGetNumIndices", C.c_uint, (P,)), ("LLVMGetIndices", C.POINTER(C.c_uint), (P,)),
            ("LLVMGetModuleDataLayout", P, (P,)),
            ("LLVMABISizeOfType", C.c_ulonglong, (P, P)),
            ("LLVMOffsetOfElement", C.c_ulonglong, (P, P, C.c_uint)),
            ("LLVMGetMDString", P, (P, C.POINTER(C.c_uint))),
            ("LLVMIsUndef", C.c_int, (P,)), ("LLVMIsPoison", C.c_int, (P,)),
            ("LLVMGetBasicBlockParent", P, (P,)),
            ("LLVMValueIsBasicBlock", C.c_int, (P,)),
            ("LLVMIsPackedStruct", C.c_int, (P,)),
        ]:
            f(name, res, *args)
    return _L

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',67:'callbr',66:'fneg',
 8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',
 20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',
 30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',
 42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',49:'va_arg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',
 55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}

class Ty:
    """kind: void,int,float,ptr,struct,array,func,other"""
    __slots__ = ("kind","bits","name","elems","n","elem","size","offs")
    def __repr__(s):
        if s.kind=='int': return f"i{s.bits}"
        if s.kind=='struct': return s.name or ("{"+",".join(map(repr,s.elems))+"}")
        if s.kind=='array': return f"[{s.n} x {s.elem}]"
        return s.kind

class Val:
    __slots__ = ("k","ty","v","name","ops","extra")
    # k: 'int','real','null','undef','local','global','func','const'(aggregate),'cexpr','str','meta'
    def __init__(s,k,ty,v=None,name=None,ops=None,extra=None):
        s.k=k; s.ty=ty; s.v=v; s.name=name; s.ops=ops; s.extra=extra
    def __repr__(s): return f"<{s.k} {s.name or s.v}>"

class Inst:
    __slots__ = ("op","ty","ops","res","pred","succ","src_ty","callee","inc","line","idx","name","cond","file")
    def __repr__(s): return f"{s.res}={s.op} {s.ops}"

class Block:
    __slots__ = ("name","insts","preds","id","term_succ")
class Func:
    def __init__(s): s.blocks=None
    def __repr__(s): return f"<Func {s.name}>"

class Module:
    _ctx=None
    def __init__(self, path):
        L=lib()
        if Module._ctx is None: Module._ctx=L.LLVMContextCreate()
        buf=C.c_void_p(); msg=C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError("cannot read "+path)
        m=C.c_void_p()
        if L.LLVMParseBitcodeInContext2(Module._ctx, buf, C.byref(m)):
            raise RuntimeError("cannot parse "+path)
        self.path=path; self.m=m; self.dl=L.LLVMGetModuleDataLayout(m)
        self.fn={}; self.gl={}; self._ty={}
        x=L.LLVMGetFirstFunction(m)
        while x:
            n=self._vname(x)
            self.fn[n]=x; x=L.LLVMGetNextFunction(x)
        x=L.LLVMGetFirstGlobal(m)
        while x:
            self.gl[self._vname(x)]=x; x=L.LLVMGetNextGlobal(x)
        self.alias={}
        x=L.LLVMGetFirstGlobalAlias(m)
        while x:
            t=L.LLVMAliasGetAliasee(x)
            self.alias[self._vname(x)]=self._vname(t); x=L.LLVMGetNextGlobalAlias(x)
        self.funcs={}; self.globs={}
    def _vname(self,x):
        n=C.c_size_t(); p=lib().LLVMGetValueName2(x,C.byref(n))
        return C.string_at(p,n.value).decode() if p and n.value else ""
    def defined(self,name):
        name=self.alias.get(name,name)
        return name in self.fn and not lib().LLVMIsDeclaration(self.fn[name])
    def ty(self,t):
        if t in self._ty: return self._ty[t]
        L=lib(); k=L.LLVMGetTypeKind(t); r=Ty(); self._ty[t]=r
        r.bits=r.name=r.elems=r.n=r.elem=r.offs=None; r.size=None
        if k==0: r.kind='void'
        elif k in (2,3,4,5,6): r.kind='float'; r.bits={2:32,3:64}.get(k,80); r.size=r.bits//8
        elif k==8: r.kind='int'; r.bits=L.LLVMGetIntTypeWidth(t); r.size=max(1,r.bits//8)
        elif k==9:
            r.kind='func'; r.elem=self.ty(L.LLVMGetReturnType(t)); r.n=L.LLVMIsFunctionVarArg(t)
        elif k==10:
            r.kind='struct'; n=L.LLVMGetStructName(t); r.name=n.decode() if n else None
            c=L.LLVMCountStructElementTypes(t)
            r.elems=[self.ty(L.LLVMStructGetTypeAtIndex(t,i)) for i in range(c)]
            try:
                r.size=L.LLVMABISizeOfType(self.dl,t); r.offs=[L.LLVMOffsetOfElement(self.dl,t,i) for i in range(c)]
            except Exception: pass
        elif k==11:
            r.kind='array'; r.n=L.LLVMGetArrayLength2(t); r.elem=self.ty(L.LLVMGetElementType(t)); r.size=(r.elem.size or 0)*r.n
        elif k==12: r.kind='ptr'; r.size=8
        else: r.kind='other%d'%k
        return r
    # --- values
    def val(self,v,names):
        L=lib()
        if v in names: return names[v]
        k=L.LLVMGetValueKind(v); ty=self.ty(L.LLVMTypeOf(v)) if k not in (1,) else None
        # LLVMValueKind: 0 Arg,1 BB,2 MemUse..,5 Function,6 GlobalAlias,7 IFunc,8 GlobalVariable,9 BlockAddr,10 ConstExpr,
        # 11 ConstArray,12 ConstStruct,13 ConstVector,14 Undef,15 AggZero,16 DataArray,17 DataVector,18 ConstInt,19 ConstFP,20 NullPtr,21 TokenNone,22 Metadata,23 InlineAsm,24 Inst,25 Poison
        if k==18:
            if ty.bits>64: return Val('int',ty,0)
            return Val('int',ty,L.LLVMConstIntGetSExtValue(v) if ty.bits>1 else L.LLVMConstIntGetZExtValue(v))
        if k==19:
            l=C.c_int(); return Val('real',ty,L.LLVMConstRealGetDouble(v,C.byref(l)))
        if k==20: return Val('null',ty)
        if k in (14,25): return Val('undef',ty)
        if k==5 or k==6: return Val('func',ty,name=self._vname(v))
        if k==8: return Val('global',ty,name=self._vname(v))
        if k==15: return Val('zero',ty)
        if k==16:
            if L.LLVMIsConstantString(v):
                n=C.c_size_t(); p=L.LLVMGetAsString(v,C.byref(n))
                return Val('str',ty,C.string_at(p,n.value))
            return Val('agg',ty,ops=[self.val(L.LLVMGetAggregateElement(v,i),names) for i in range(ty.n)])
        if k in (11,12): 
            n=L.LLVMGetNumOperands(v)
            return Val('agg',ty,ops=[self.val(L.LLVMGetOperand(v,i),names) for i in range(n)])
        if k==10:
            op=OPC.get(L.LLVMGetConstOpcode(v),'?')
            ops=[self.val(L.LLVMGetOperand(v,i),names) for i in range(L.LLVMGetNumOperands(v))]
            ex=self.ty(L.LLVMGetGEPSourceElementType(v)) if op=='gep' else None
            return Val('cexpr',ty,v=op,ops=ops,extra=ex)
        if k==22:
            n=C.c_uint(); p=L.LLVMGetMDString(v,C.byref(n))
            return Val('meta',ty,C.string_at(p,n.value).decode() if p else None)
        return Val('unknown%d'%k,ty)
    def glob(self,name):
        """(type, initializer Val or None, is_const)"""
        if name not in self.globs:
            L=lib(); g=self.gl[name]
            i=L.LLVMGetInitializer(g)
            self.globs[name]=(self.ty(L.LLVMGlobalGetValueType(g)), self.val(i,{}) if i else None, bool(L.LLVMIsGlobalConstant(g)))
        return self.globs[name]
    def func(self,name):
        name=self.alias.get(name,name)
        if name in self.funcs: return self.funcs[name]
        L=lib(); x=self.fn.get(name)
        if not x or L.LLVMIsDeclaration(x): return None
        F=Func(); F.name=name; F.mod=self
        names={}
        F.params=[]
        for i in range(L.LLVMCountParams(x)):
            p=L.LLVMGetParam(x,i); v=Val('local',self.ty(L.LLVMTypeOf(p)),v=('a',i),name=self._vname(p))
            names[p]=v; F.params.append(v)
        bbs=[]; b=L.LLVMGetFirstBasicBlock(x); bid={}
        while b: bid[b]=len(bbs); bbs.append(b); b=L.LLVMGetNextBasicBlock(b)
        # first pass number instructions
        insts=[]
        cnt=0
        for b in bbs:
            row=[]; i=L.LLVMGetFirstInstruction(b)
            while i:
                row.append(i)
                names[i]=Val('local',self.ty(L.LLVMTypeOf(i)),v=cnt,name=self._vname(i)); cnt+=1
                i=L.LLVMGetNextInstruction(i)
            insts.append(row)
        F.blocks=[]
        for bi,b in enumerate(bbs):
            B=Block(); B.name=L.LLVMGetBasicBlockName(b).decode(); B.id=bi; B.insts=[]; B.preds=[]; B.term_succ=[]
            for i in insts[bi]:
                I=Inst(); op=OPC.get(L.LLVMGetInstructionOpcode(i),'op%d'%L.LLVMGetInstructionOpcode(i))
                I.op=op; I.ty=names[i].ty; I.res=names[i].v; I.name=names[i].name
                I.pred=I.succ=I.src_ty=I.callee=I.inc=I.idx=I.cond=None
                I.line=L.LLVMGetDebugLocLine(i) if op in('call','store','ret','br','load','icmp','fcmp') else 0
                I.ops=[]
                if op=='br':
                    I.succ=[bid[L.LLVMGetSuccessor(i,j)] for j in range(L.LLVMGetNumSuccessors(i))]
                    if L.LLVMIsConditional(i): I.cond=self.val(L.LLVMGetCondition(i),names)
                elif op=='switch':
                    I.succ=[bid[L.LLVMGetSuccessor(i,j)] for j in range(L.LLVMGetNumSuccessors(i))]
                    n=L.LLVMGetNumOperands(i)
                    I.cond=self.val(L.LLVMGetOperand(i,0),names)
                    # operands: cond, default, v1, d1, v2, d2 ...
                    I.ops=[self.val(L.LLVMGetOperand(i,j),names).v for j in range(2,n,2)]
                elif op=='phi':
                    I.inc=[(bid[L.LLVMGetIncomingBlock(i,j)],self.val(L.LLVMGetIncomingValue(i,j),names)) for j in range(L.LLVMCountIncoming(i))]
                elif op=='call' or op=='invoke':
                    I.callee=self.val(L.LLVMGetCalledValue(i),names)
                    I.ops=[self.val(L.LLVMGetOperand(i,j),names) for j in range(L.LLVMGetNumArgOperands(i))]
                else:
                    I.ops=[self.val(L.LLVMGetOperand(i,j),names) for j in range(L.LLVMGetNumOperands(i))]
                    if op=='gep': I.src_ty=self.ty(L.LLVMGetGEPSourceElementType(i))
                    elif op=='alloca': I.src_ty=self.ty(L.LLVMGetAllocatedType(i))
                    elif op=='icmp': I.pred=ICMP[L.LLVMGetICmpPredicate(i)]
                    elif op=='fcmp': I.pred=FCMP[L.LLVMGetFCmpPredicate(i)]
                    elif op in('extractvalue','insertvalue'):
                        n=L.LLVMGetNumIndices(i); q=L.LLVMGetIndices(i); I.idx=[q[j] for j in range(n)]
                B.insts.append(I)
            t=B.insts[-1]; B.term_succ=t.succ or []
            F.blocks.append(B)
        for B in F.blocks:
            for s in B.term_succ: F.blocks[s].preds.append(B.id)
        self._loops(F)
        self.funcs[name]=F
        return F
    def _loops(self,F):
        """natural loops: header -> set of block ids; back edges by dominators"""
        n=len(F.blocks); 
        # reachable order
        order=[];seen=set()
        st=[(0,iter(F.blocks[0].term_succ))];seen.add(0)
        while st:
            b,it=st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s,iter(F.blocks[s].term_succ))); break
            else: order.append(b); st.pop()
        rpo=order[::-1]; F.rpo=rpo; F.rpo_index={b:i for i,b in enumerate(rpo)}
        dom={b:None for b in rpo}; dom[0]={0}
        ch=True
        while ch:
            ch=False
            for b in rpo[1:]:
                ps=[dom[p] for p in F.blocks[b].preds if p in dom and dom[p] is not None]
                d=set.intersection(*ps)|{b} if ps else {b}
                if d!=dom[b]: dom[b]=d; ch=True
        F.loops={}
        for b in rpo:
            for s in F.blocks[b].term_succ:
                if s in dom[b]:
                    body=F.loops.setdefault(s,{s}); st=[b]
                    while st:
                        x=st.pop()
                        if x not in body:
                            body.add(x); st.extend(p for p in F.blocks[x].preds if p in dom)
        # irreducible check
        F.irreducible=False
        for b in rpo:
            for s in F.blocks[b].term_succ:
                if F.rpo_index[s]<=F.rpo_index[b] and s not in dom[b]: F.irreducible=True
