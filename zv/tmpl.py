"""Loop-invariant candidate templates.  They range over the typed variables in scope, never over their names."""
import z3, itertools
from logic import *
from exe import *
import contract as CT

def pre(lc): return lc.ex.oldviews
def now(lc,st): return lc.ex.contract.views(lc.ex,st,lc.ex.args,lc.ex.sig)

def idxvars(lc,inW=True):
    """changing integer variables and iterator positions: (label, getter)"""
    out=[]
    for k in lc.ints(inW):
        out.append((lc.label(k),(lambda st,k=k:st.mem[k])))
    for k in lc.positions(inW):
        out.append((lc.label(k),(lambda st,k=k:st.mem[k].dims[-1])))
    if lc.ex.opts.get('defd'): out=[x for x in out if defd(lc,x[1])]
    return out
def undefd(t): return z3.is_expr(t) and z3.is_const(t) and t.decl().name().startswith('undef')
def defd(lc,g):
    """has the variable a value when the loop is entered?"""
    try: v=g(lc.entry)
    except (KeyError,AttributeError,IndexError): return False
    return z3.is_expr(v) and not undefd(v)
def dreals(lc): return [k for k in lc.reals(True) if defd(lc,lambda st,k=k:st.mem[k])]
def posvars(lc,inW=True):
    return [(k,(lambda st,k=k:st.mem[k].dims[-1])) for k in lc.positions(inW)]
def seqkey(lc,k):
    """(root, steps) of the sequence a position iterates over"""
    p=lc.hst.mem[k]; return (p.root,p.steps[:-1])

def every(*fs):
    """cand per index variable:  fs: (V0,V,i)->formula"""
    def t(lc):
        for lab,g in idxvars(lc):
            for n,f in enumerate(fs):
                yield Cand(f"every{n}({lab})",lambda st,f=f,g=g:f(pre(lc),now(lc,st),g(st)))
    return t
def every_all(*fs):
    """as every, over all index variables (changing or not)"""
    def t(lc):
        for lab,g in idxvars(lc,None):
            for n,f in enumerate(fs):
                yield Cand(f"everyall{n}({lab})",lambda st,f=f,g=g:f(pre(lc),now(lc,st),g(st)))
    return t
def every2(*fs):
    def t(lc):
        vs=idxvars(lc)
        for (la,ga),(lb,gb) in itertools.permutations(vs,2):
            for n,f in enumerate(fs):
                yield Cand(f"every2_{n}({la},{lb})",lambda st,f=f,ga=ga,gb=gb:f(pre(lc),now(lc,st),ga(st),gb(st)))
    return t
def always(*fs):
    """cand about the objects only: (V0,V)->formula (or list)"""
    def t(lc):
        for n,f in enumerate(fs):
            yield Cand(f"always{n}",lambda st,f=f:f(pre(lc),now(lc,st)))
    return t
def accum(*fs,lo=None):
    """changing real r, index i:  f(V0,V,i,r)"""
    def t(lc):
        for kr in lc.reals(True):
            for lab,g in idxvars(lc):
                for n,f in enumerate(fs):
                    yield Cand(f"accum{n}({lc.label(kr)},{lab})",lambda st,f=f,g=g,kr=kr:f(pre(lc),now(lc,st),g(st),st.mem[kr]))
    return t
def reals(*fs):
    def t(lc):
        for kr in lc.reals(True):
            for n,f in enumerate(fs):
                yield Cand(f"real{n}({lc.label(kr)})",lambda st,f=f,kr=kr:f(pre(lc),now(lc,st),st.mem[kr]))
    return t
def real_any(*fs):
    """any real (changing or not) with index"""
    def t(lc):
        for kr in lc.reals(None):
            for lab,g in idxvars(lc):
                for n,f in enumerate(fs):
                    yield Cand(f"rany{n}({lc.label(kr)},{lab})",lambda st,f=f,g=g,kr=kr:f(pre(lc),now(lc,st),g(st),st.mem[kr]))
    return t
def accum2(*fs):
    """two changing ints/one real: f(V0,V,i,j,r) with any pair of index variables (changing or not)"""
    def t(lc):
        vs=idxvars(lc,None)
        for kr in lc.reals(True):
            for (la,ga),(lb,gb) in itertools.permutations(vs,2):
                for n,f in enumerate(fs):
                    yield Cand(f"accum2_{n}({lc.label(kr)},{la},{lb})",lambda st,f=f,ga=ga,gb=gb,kr=kr:f(pre(lc),now(lc,st),ga(st),gb(st),st.mem[kr]))
    return t
def accumc(*fs):
    """changing real r, changing index i, an index variable a that the loop leaves alone: f(V0,V,i,a,r)"""
    def t(lc):
        ch=[x for x in idxvars(lc,True) if defd(lc,x[1])]; cl={l for l,_ in idxvars(lc,True)}; un=[]; seen=set()
        for l,g in idxvars(lc,None):
            if l in cl or not defd(lc,g): continue
            i=g(lc.entry).get_id()
            if isnum(g(lc.entry)) or i in seen: continue
            seen.add(i); un.append((l,g))
        for kr in dreals(lc):
            for (la,ga) in ch:
                for (lb,gb) in un:
                    for n,f in enumerate(fs):
                        yield Cand(f"accumc{n}({lc.label(kr)},{la},{lb})",lambda st,f=f,ga=ga,gb=gb,kr=kr:f(pre(lc),now(lc,st),ga(st),gb(st),st.mem[kr]))
    return t
def accumx(*fs):
    """changing real r, two distinct changing integer variables i,j: f(V0,V,i,j,r)"""
    def t(lc):
        vs=[x for x in idxvars(lc,True) if defd(lc,x[1])]
        for kr in dreals(lc):
            for (la,ga),(lb,gb) in itertools.permutations(vs,2):
                for n,f in enumerate(fs):
                    yield Cand(f"accumx{n}({lc.label(kr)},{la},{lb})",lambda st,f=f,ga=ga,gb=gb,kr=kr:f(pre(lc),now(lc,st),ga(st),gb(st),st.mem[kr]))
    return t
def merge(field):
    """ordered-merge facts between iterators of different sequences with the index field `field`:
       everything before position p in P is below the element at q in Q (when q is not at the end)"""
    def t(lc):
        ks=[k for k in lc.positions(None,True) if not isnum(lc.hst.mem[k].dims[-1])]
        if not any(k in lc.W for k in ks): return
        def arr(st,k):
            p=st.mem[k]
            return lc.ex.rd(st,Ptr(p.root,p.ref,p.steps[:-1],p.dims[:-1]),('[]',field),I)
        def ln(st,k):
            p=st.mem[k]
            return lc.ex.rd(st,Ptr(p.root,p.ref,p.steps[:-1],p.dims[:-1]),('len',),I)
        def starts(k):
            """possible beginnings of the range iterated by k: 0 or an unchanged iterator into the same sequence"""
            r=[]
            for q in ks:
                if q in lc.W: continue
                if q!=k and seqkey(lc,q)==seqkey(lc,k): r.append(q)
            return r
        for a,b in itertools.permutations(ks,2):
            if seqkey(lc,a)==seqkey(lc,b): continue
            if a not in lc.W and b not in lc.W: continue
            for q in [None]+starts(a):
              for e in [None]+starts(b):
                for op,f in (('<',lambda x,y:x<y),('<=',lambda x,y:x<=y)):
                    yield Cand(f"merge{op}({lc.label(a)},{lc.label(b)},{q and lc.label(q)},{e and lc.label(e)})",lambda st,a=a,b=b,f=f,q=q,e=e:
                      Implies(And(st.mem[b].dims[-1]<(ln(st,b) if e is None else st.mem[e].dims[-1]),0<=st.mem[b].dims[-1]),ForAll(lambda k:Implies(And((0 if q is None else st.mem[q].dims[-1])<=k,k<st.mem[a].dims[-1]),f(arr(st,a)[k],arr(st,b)[st.mem[b].dims[-1]])),pats=lambda k:[arr(st,a)[k]])))
    return t
def any2(*fs):
    """pairs of index variables, at least one changing: f(V0,V,i,j)"""
    def t(lc):
        vs=idxvars(lc,None); ch={l for l,_ in idxvars(lc,True)}
        for (la,ga),(lb,gb) in itertools.permutations(vs,2):
            if la not in ch and lb not in ch: continue
            for n,f in enumerate(fs):
                yield Cand(f"any2_{n}({la},{lb})",lambda st,f=f,ga=ga,gb=gb:f(pre(lc),now(lc,st),ga(st),gb(st)))
    return t
def copyof(field):
    """an integer variable that caches the index field of the element at a position:  i == seq[pos].field (when pos is not at the end)"""
    def t(lc):
        for kp in lc.positions(None,True):
            def el(st,k=kp):
                p=st.mem[k]; return lc.ex.rd(st,Ptr(p.root,p.ref,p.steps[:-1],p.dims[:-1]),('[]',field),I)[p.dims[-1]]
            def ln(st,k=kp):
                p=st.mem[k]; return lc.ex.rd(st,Ptr(p.root,p.ref,p.steps[:-1],p.dims[:-1]),('len',),I)
            if isnum(lc.hst.mem[kp].dims[-1]): continue
            for ki in lc.ints(None):
                if not ki[0].startswith(lc.fr.path+'/'): continue
                if ki not in lc.W and kp not in lc.W: continue
                yield Cand(f"copyof({lc.label(ki)},{lc.label(kp)})",lambda st,ki=ki,kp=kp,el=el,ln=ln:And(st.mem[ki]==el(st),st.mem[kp].dims[-1]<ln(st)))
    return t
def locals_of(lc,cls):
    """views of the local objects of a class that are in scope"""
    r=[]
    for root,dt in sorted(lc.ex.cells.items()):
        if dt is None or dt.kind!='struct' or cname(dt.name)!=cls: continue
        if root.startswith('P:') or not root.startswith(lc.fr.path+'/'): continue
        if not any(k[0]==root for k in lc.hst.mem): continue
        r.append((root,lambda st,root=root,dt=dt:CT.View(lc.ex,st,Ptr(root),dt)))
    return r
def local(cls,*fs):
    """f(V0,V,L)"""
    def t(lc):
        for root,g in locals_of(lc,cls):
            for n,f in enumerate(fs): yield Cand(f"local{n}({root})",lambda st,f=f,g=g:f(pre(lc),now(lc,st),g(st)))
    return t
def local_every(cls,*fs):
    """f(V0,V,L,i)"""
    def t(lc):
        for root,g in locals_of(lc,cls):
            for lab,gi in idxvars(lc,None):
                for n,f in enumerate(fs): yield Cand(f"locale{n}({root},{lab})",lambda st,f=f,g=g,gi=gi:f(pre(lc),now(lc,st),g(st),gi(st)))
    return t
def local_any2(cls,*fs):
    def t(lc):
        vs=idxvars(lc,None)
        for root,g in locals_of(lc,cls):
            for (la,ga),(lb,gb) in itertools.permutations(vs,2):
                for n,f in enumerate(fs): yield Cand(f"local2_{n}({root},{la},{lb})",lambda st,f=f,g=g,ga=ga,gb=gb:f(pre(lc),now(lc,st),g(st),ga(st),gb(st)))
    return t
def pos_in(lc,name):
    """iterator variables (changing or not) into a sequence belonging to the object a parameter denotes"""
    return [(lc.label(k),(lambda st,k=k:st.mem[k].dims[-1])) for k in lc.positions(None) if seqkey(lc,k)[0]=='P:'+name and not isnum(lc.hst.mem[k].dims[-1])]
def local_pos(cls,name,*fs):
    def t(lc):
        for root,g in locals_of(lc,cls):
            for lab,gi in pos_in(lc,name):
                for n,f in enumerate(fs): yield Cand(f"localp{n}({root},{lab})",lambda st,f=f,g=g,gi=gi:f(pre(lc),now(lc,st),g(st),gi(st)))
    return t
def local_pos2(cls,na,nb,*fs):
    def t(lc):
        for root,g in locals_of(lc,cls):
            for (la,ga) in pos_in(lc,na):
              for (lb,gb) in pos_in(lc,nb):
                if la==lb: continue
                for n,f in enumerate(fs): yield Cand(f"localp2_{n}({root},{la},{lb})",lambda st,f=f,g=g,ga=ga,gb=gb:f(pre(lc),now(lc,st),g(st),ga(st),gb(st)))
    return t
def local_self(cls,*fs):
    """local object and an iterator into it"""
    def t(lc):
        for root,g in locals_of(lc,cls):
            for k in lc.positions(None):
                if seqkey(lc,k)[0]!=root or isnum(lc.hst.mem[k].dims[-1]): continue
                for n,f in enumerate(fs): yield Cand(f"locals{n}({root},{lc.label(k)})",lambda st,f=f,g=g,k=k:f(pre(lc),now(lc,st),g(st),st.mem[k].dims[-1]))
    return t
