"""Terms, spec functions with ground-instantiated definitions, and the prover."""
import z3, time, os
from fractions import Fraction

I=z3.IntSort(); R=z3.RealSort(); B=z3.BoolSort()
AI=z3.ArraySort(I,I); AR=z3.ArraySort(I,R)
TRUE=z3.BoolVal(True); FALSE=z3.BoolVal(False)

def iv(n): return z3.IntVal(n)
def rv(f):
    fr=Fraction(f)
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}") if fr.denominator!=1 else z3.RealVal(fr.numerator)
def isnum(t): return z3.is_int_value(t)
def num(t): return t.as_long()

def lift(x):
    if isinstance(x,bool): return z3.BoolVal(x)
    if isinstance(x,int): return iv(x)
    if isinstance(x,(float,Fraction)): return rv(x)
    return x

def add(a,b):
    if isnum(a) and isnum(b): return iv(num(a)+num(b))
    if isnum(b) and num(b)==0: return a
    if isnum(a) and num(a)==0: return b
    # (x+c)+d
    if isnum(b) and z3.is_add(a) and a.num_args()==2 and isnum(a.arg(1)):
        return add(a.arg(0),iv(num(a.arg(1))+num(b)))
    return a+b
def sub(a,b):
    if isnum(b): return add(a,iv(-num(b)))
    if a.eq(b): return iv(0)
    return a-b
def mul(a,b):
    if isnum(a) and isnum(b): return iv(num(a)*num(b))
    if isnum(b) and num(b)==1: return a
    if isnum(a) and num(a)==1: return b
    return a*b

def And(*xs):
    ys=[]
    for x in xs:
        if isinstance(x,(list,tuple)): ys+=list(x)
        else: ys.append(x)
    ys=[lift(y) for y in ys]
    ys=[y for y in ys if not z3.is_true(y)]
    if not ys: return TRUE
    if len(ys)==1: return ys[0]
    return z3.And(*ys)
def Or(*xs):
    ys=[]
    for x in xs:
        if isinstance(x,(list,tuple)): ys+=list(x)
        else: ys.append(x)
    ys=[lift(y) for y in ys]
    if not ys: return FALSE
    if len(ys)==1: return ys[0]
    return z3.Or(*ys)
def Not(x): return z3.Not(lift(x))
def Implies(a,b): return z3.Implies(lift(a),lift(b))
def Ite(c,a,b):
    a=lift(a); b=lift(b)
    if a.eq(b): return a
    return z3.If(lift(c),a,b)
def Max(a,b): return Ite(lift(a)>=lift(b),a,b)
def Min(a,b): return Ite(lift(a)<=lift(b),a,b)
def Abs(a): return Ite(a>=0,a,-a)

_bv=[0]            # nesting depth of binders (names depend on depth only, so equal formulas are shared)
_bound={}          # ids of bound-variable constants
def _bvar(sort,j,hint='b'):
    v=z3.Const(f"{hint}!{_bv[0]}!{j}!{sort}",sort)
    _bound[v.get_id()]=v
    return v

def ForAll(fn,n=None,pats=None,sorts=None):
    """ForAll(lambda i: body) ; number of variables from fn's arity"""
    k=n or fn.__code__.co_argcount
    _bv[0]+=1
    try:
        vs=[_bvar((sorts or [I]*k)[j],j) for j in range(k)]
        body=lift(fn(*vs))
    finally: _bv[0]-=1
    if z3.is_true(body): return TRUE
    if pats:
        ps=[]
        for p in (pats(*vs) if callable(pats) else pats):
            ps.append(z3.MultiPattern(*p) if isinstance(p,(list,tuple)) else p)
        ok=[p for p in ps]
        try: return z3.ForAll(vs,body,patterns=ok)
        except z3.Z3Exception: return z3.ForAll(vs,body)
    p=auto_pats(body,vs)
    if p:
        try: return z3.ForAll(vs,body,patterns=p)
        except z3.Z3Exception: pass
    return z3.ForAll(vs,body)
def Exists(fn,n=None):
    k=n or fn.__code__.co_argcount
    _bv[0]+=1
    try:
        vs=[_bvar(I,j) for j in range(k)]
        return z3.Exists(vs,lift(fn(*vs)))
    finally: _bv[0]-=1

def subterms(t,seen=None):
    seen=set() if seen is None else seen
    st=[t]
    while st:
        x=st.pop()
        i=x.get_id()
        if i in seen: continue
        seen.add(i)
        yield x
        if z3.is_quantifier(x): continue
        st.extend(x.children())

def auto_pats(body,vs):
    """choose select/UF applications containing each bound var directly as an argument"""
    ids={v.get_id():v for v in vs}
    cands={i:[] for i in ids}
    for t in subterms(body):
        if z3.is_app(t) and (z3.is_select(t) or (t.decl().kind()==z3.Z3_OP_UNINTERPRETED and t.num_args()>0)):
            ch=t.children()
            direct=[c.get_id() for c in ch if c.get_id() in ids]
            if not direct: continue
            sub=list(subterms(t))
            if any(z3.is_app(x) and x.decl().kind()==z3.Z3_OP_ITE for x in sub): continue   # z3 rejects these as patterns
            fv=set(x.get_id() for x in sub if x.get_id() in ids)
            # arguments other than direct variables must not contain arithmetic over bound variables
            okk=True
            for c in ch:
                if c.get_id() in ids: continue
                for x in subterms(c):
                    if x.get_id() in ids and not _plain(c,ids): okk=False
            if okk:
                for i in fv: cands[i].append((t,fv))
    if any(not cands[i] for i in cands): return None
    if len(vs)==1:
        seen=set(); out=[]
        for t,_ in cands[vs[0].get_id()]:
            if t.get_id() not in seen: seen.add(t.get_id()); out.append(t)
        return out[:6]
    # multi var: single terms covering all, else multipattern of one each
    full=[t for t,fv in cands[vs[0].get_id()] if len(fv)==len(vs)]
    out=[]
    seen=set()
    for t in full:
        if t.get_id() not in seen: seen.add(t.get_id()); out.append(t)
    if out: return out[:4]
    import itertools
    combos=[]
    lists=[ [t for t,_ in cands[v.get_id()]][:3] for v in vs]
    for c in itertools.product(*lists):
        combos.append(z3.MultiPattern(*c))
    return combos[:6]
def _plain(c,ids):
    # only selects/UF over bound vars, no arithmetic
    for x in subterms(c):
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ADD,z3.Z3_OP_SUB,z3.Z3_OP_MUL,z3.Z3_OP_ITE):
            for y in subterms(x):
                if y.get_id() in ids: return False
    return True

# ---------------------------------------------------------------- spec functions
# Arrays defined by comprehension: A_f(params)[k] = body(k, params)
class Defs:
    def __init__(s):
        s.by_key={}       # structural key -> function decl
        s.axiom={}        # decl name -> (axiom formula)
        s.n=0
DEFS=Defs()

def comp(fn,sort=R):
    """array term whose k-th element is fn(k)"""
    k=z3.Const("k!comp",I)
    # nested comprehensions need distinct binders
    comp.depth+=1
    try:
        k=z3.Const(f"k!comp{comp.depth}",I)
        _bound[k.get_id()]=k
        body=lift(fn(k))
        if sort==R and body.sort()==I: body=z3.ToReal(body)
    finally: comp.depth-=1
    fv=[]
    seen=set()
    for t in subterms(body):
        if t.get_id() in _bound and t.get_id()!=k.get_id() and t.get_id() not in seen:
            seen.add(t.get_id()); fv.append(t)
    fv.sort(key=lambda t:t.decl().name())
    canon=z3.substitute(body,*[(v,z3.Const(f"p!{j}_{v.sort()}",v.sort())) for j,v in enumerate(fv)],(k,z3.Const("p!k",I))) if fv else z3.substitute(body,(k,z3.Const("p!k",I)))
    key=(canon.get_id(),len(fv),str(sort))
    if key not in DEFS.by_key:
        DEFS.n+=1
        nm=f"comp{DEFS.n}"
        f=z3.Function(nm,*[v.sort() for v in fv],z3.ArraySort(I,sort)) if fv else z3.Const(nm,z3.ArraySort(I,sort))
        ps=[z3.Const(f"p!{j}_{v.sort()}",v.sort()) for j,v in enumerate(fv)]
        pk=z3.Const("p!k",I)
        app=(f(*ps) if ps else f)
        ax=z3.ForAll(ps+[pk],app[pk]==canon,patterns=[app[pk]])
        DEFS.by_key[key]=(f,canon)
        DEFS.axiom[nm]=(ax,ps,pk,app,canon)
    f,_=DEFS.by_key[key]
    return f(*fv) if fv else f
comp.depth=0

sumto=z3.Function("sumto",AR,I,R)      # sum of A[0..n)
maxto=z3.Function("maxto",AR,I,R)      # max of A[0..n), n>0
cntto=None
def Sum(n,fn,lo=0):
    A=comp(fn)
    n=lift(n)
    if isinstance(lo,int) and lo==0: return sumto(A,n)
    return sumto(A,n)-sumto(A,lift(lo))
def SumA(A,n): return sumto(A,lift(n))
def MaxOver(n,fn):
    return maxto(comp(fn),lift(n))

# sparse lookup: value at column j among entries [0,len) of (idx,val)
cv=z3.Function("cv",AI,AR,I,I,R)       # idx, val, len, j
cvpos=z3.Function("cvpos",AI,I,I,I)    # witness position
# lookup in a sub-range [lo,hi)
cvr=z3.Function("cvr",AI,AR,I,I,I,R)
cvrpos=z3.Function("cvrpos",AI,I,I,I,I)
occ=z3.Function("occ",AI,I,I,B)        # j occurs among idx[0..len)

def def_cv(t):
    idx,val,n,j=t.children()
    p=cvpos(idx,n,j)
    k=z3.Const("k!cv",I)
    return [z3.Or(z3.And(0<=p,p<n,idx[p]==j,t==val[p]),
                  z3.And(t==0,p==-1,z3.ForAll([k],z3.Implies(z3.And(0<=k,k<n),idx[k]!=j),patterns=[idx[k]])))]
def def_cvr(t):
    idx,val,lo,hi,j=t.children()
    p=cvrpos(idx,lo,hi,j)
    k=z3.Const("k!cv",I)
    return [z3.Or(z3.And(lo<=p,p<hi,idx[p]==j,t==val[p]),
                  z3.And(t==0,p==lo-1,z3.ForAll([k],z3.Implies(z3.And(lo<=k,k<hi),idx[k]!=j),patterns=[idx[k]])))]
def def_occ(t):
    idx,n,j=t.children()
    p=cvpos(idx,n,j)
    k=z3.Const("k!cv",I)
    return [z3.Or(z3.And(t,0<=p,p<n,idx[p]==j),
                  z3.And(z3.Not(t),p==-1,z3.ForAll([k],z3.Implies(z3.And(0<=k,k<n),idx[k]!=j),patterns=[idx[k]])))]
_skn=[0]
_skcache={}
def sk(key,sort=I,hint='sk'):
    if key in _skcache: return _skcache[key]
    _skn[0]+=1
    v=z3.Const(f"{hint}!{_skn[0]}",sort); _skcache[key]=v
    return v
_keep=[]
def sum_instances(terms):
    """ground instances of the definition/lemmas of sumto on the given applications"""
    out=[]
    byA={}
    for t in terms:
        A,n=t.children()
        out.append(z3.Implies(n<=0,t==0))
        byA.setdefault(A.get_id(),(A,{}))[1][n.get_id()]=(n,t)
    groups=list(byA.values())
    for A,ns in groups:
        l=list(ns.values())
        for i in range(len(l)):
            for j in range(len(l)):
                if i!=j:
                    n,t=l[i]; m,u=l[j]
                    # step
                    d=z3.simplify(n-m)
                    if z3.is_int_value(d):
                        if d.as_long()==1: out.append(z3.Implies(m>=0,t==u+A[m]))
                    else:
                        out.append(z3.Implies(z3.And(n==m+1,m>=0),t==u+A[m]))
                        if i<j: out.append(z3.Implies(n==m,t==u))
                    if not(z3.is_int_value(d) and abs(d.as_long())<=1) and not(z3.is_int_value(d) and d.as_long()<0):
                        # tail of zeros
                        s=sk(('t',A.get_id(),n.get_id(),m.get_id())); _keep.extend([A,n,m])
                        out.append(z3.Or(t==u,m>n,m<0,z3.And(m<=s,s<n,A[s]!=0)))
        # single element: sum to 1
        for n,t in l:
            out.append(z3.Implies(n==1,t==A[0]))
    # congruence / zero / nonneg lemmas (each provable by induction; see lemmas.py)
    for gi in range(len(groups)):
        for gj in range(gi+1,len(groups)):
            A,na=groups[gi]; Bb,nb=groups[gj]
            for n,t in na.values():
                for m,u in nb.values():
                    d=z3.simplify(n-m)
                    if z3.is_int_value(d) and d.as_long()!=0: continue
                    s=sk(('c',A.get_id(),Bb.get_id(),n.get_id(),m.get_id())); _keep.extend([A,Bb,n,m])
                    out.append(z3.Or(n!=m,t==u,z3.And(0<=s,s<n,A[s]!=Bb[s])))
    return out
def sum_zero(terms):
    out=[]
    for t in terms:
        A,n=t.children()
        s=sk(('z',A.get_id(),n.get_id())); _keep.extend([A,n])
        out.append(z3.Or(t==0,z3.And(0<=s,s<n,A[s]!=0)))
        s=sk(('nn',A.get_id(),n.get_id()))
        out.append(z3.Or(t>=0,z3.And(0<=s,s<n,A[s]<0)))
    return out
def max_instances(terms):
    out=[]
    ws=[]
    for t in terms:
        A,n=t.children()
        w=sk(('mx',A.get_id(),n.get_id())); _keep.extend([A,n]); ws.append(w)
    for t,w0 in zip(terms,ws):
        A,n=t.children()
        w=w0
        for u in [n-1]+[x for x in ws if x is not w0]: out.append(z3.Implies(z3.And(n>=1,0<=u,u<n),A[u]<=t))
        k=z3.Const("k!mx",I)
        out.append(z3.Implies(n>=1,z3.And(0<=w,w<n,t==A[w],z3.ForAll([k],z3.Implies(z3.And(0<=k,k<n),A[k]<=t),patterns=[A[k]]))))
    return out

def gen_axiom(decl,fn):
    """the definition as a universally quantified axiom, used when applications occur below quantifiers"""
    vs=[z3.Const(f"ga!{i}_{decl.domain(i)}",decl.domain(i)) for i in range(decl.arity())]
    t=decl(*vs)
    return z3.ForAll(vs,z3.And(*fn(t)),patterns=[t])
GENAX={}       # decl id -> axiom
SPEC=[]        # extra: (decl, callback(list of apps)->list of formulas)
def spec(decl,cb): SPEC.append((decl,cb))
spec(cv,lambda ts:[f for t in ts for f in def_cv(t)])
spec(cvr,lambda ts:[f for t in ts for f in def_cvr(t)])
spec(occ,lambda ts:[f for t in ts for f in def_occ(t)])
for _d,_f in((cv,def_cv),(cvr,def_cvr),(occ,def_occ)): GENAX[_d.get_id()]=gen_axiom(_d,_f)
spec(sumto,lambda ts:sum_instances(ts)+sum_zero(ts))
spec(maxto,max_instances)

# ---------------------------------------------------------------- prover
class Stats:
    queries=0; time=0.0; cached=0; maxt=0.0; rl=0; wallout=0
    rounds=0
STATS=Stats()
_cache={}
_cacherefs=[]

_flat={}
def flat(fs):
    out=[]
    for f in fs:
        i=f.get_id()
        c=_flat.get(i)
        if c is None:
            c=(_flat1(f),f); _flat[i]=c
        out+=c[0]
    return out
def _flat1(f0):
    out=[]
    st=[f0]
    while st:
        f=st.pop()
        if z3.is_and(f): st.extend(f.children()[::-1])
        elif z3.is_true(f): pass
        elif z3.is_not(f) and z3.is_or(f.arg(0)): st.extend([z3.Not(c) for c in f.arg(0).children()][::-1])
        elif z3.is_not(f) and z3.is_not(f.arg(0)): st.append(f.arg(0).arg(0))
        elif z3.is_not(f) and z3.is_quantifier(f.arg(0)) and f.arg(0).is_exists():
            q=f.arg(0)
            vs=[z3.Const(f"ne!{j}_{q.var_sort(j)}",q.var_sort(j)) for j in range(q.num_vars())]
            body=z3.substitute_vars(q.body(),*vs[::-1])
            ps=auto_pats(body,vs)
            try: out.append(z3.ForAll(vs,z3.Not(body),patterns=ps) if ps else z3.ForAll(vs,z3.Not(body)))
            except z3.Z3Exception: out.append(z3.ForAll(vs,z3.Not(body)))
        elif z3.is_not(f) and z3.is_implies(f.arg(0)): st.extend([f.arg(0).arg(0),z3.Not(f.arg(0).arg(1))])
        else: out.append(f)
    return out

def skolem_goal(g,hyps,sks,depth=0):
    """-> list of (hyps, goal, skolems)"""
    if z3.is_and(g):
        r=[]
        for c in g.children(): r+=skolem_goal(c,hyps,sks,depth)
        return r
    if z3.is_implies(g):
        return skolem_goal(g.arg(1),hyps+[g.arg(0)],sks,depth)
    if z3.is_quantifier(g) and g.is_forall():
        vs=[]
        for j in range(g.num_vars()):
            vs.append(sk(('g',g.get_id(),j,depth),g.var_sort(j),'gsk'))
        _keep.append(g)
        body=z3.substitute_vars(g.body(),*vs[::-1])
        return skolem_goal(body,hyps,sks+vs,depth+1)
    return [(hyps,g,sks)]

_col={}
def _collect1(f):
    """spec applications and comp names in the ground part of one formula (cached)"""
    i=f.get_id()
    c=_col.get(i)
    if c is not None: return c[0]
    specids={d.get_id() for d,_ in SPEC}
    apps=[]; comps=set(); gen=set()
    for t in subterms(f):
        if z3.is_quantifier(t):
            for x in _qsub(t.body(),set()):
                if z3.is_app(x):
                    d=x.decl()
                    if d.name() in DEFS.axiom: comps.add(d.name())
                    if d.get_id() in GENAX: gen.add(d.get_id())
            continue
        if z3.is_app(t):
            d=t.decl(); di=d.get_id()
            if di in specids: apps.append((di,t.get_id(),t))
            elif d.name() in DEFS.axiom: comps.add(d.name())
    r=(apps,comps,gen)
    _col[i]=(r,f)
    return r
_cs={}; _cn={}
def _nested(n):
    """does the comprehension's body contain a specification function?"""
    if n not in _cn:
        specids={d.get_id() for d,_ in SPEC}
        _cn[n]=any(z3.is_app(x) and x.decl().get_id() in specids for x in _qsub(DEFS.axiom[n][4],set()))
    return _cn[n]
def _compsel(f):
    i=f.get_id()
    c=_cs.get(i)
    if c is None:
        r=[t for t in subterms(f) if z3.is_select(t) and z3.is_app(t.arg(0)) and t.arg(0).decl().name() in DEFS.axiom and _nested(t.arg(0).decl().name())]
        c=(r,f); _cs[i]=c
    return c[0]
def collect(fs):
    apps={d.get_id():{} for d,_ in SPEC}
    comps=set(); gen=set()
    for f in fs:
        a,c,g=_collect1(f)
        for di,i,t in a: apps[di][i]=t
        comps|=c; gen|=g
    return apps,comps,gen
def _qsub(t,seen):
    st=[t]
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); yield x
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())

_instc={}
def _inst(h,*ts):
    k=(h.get_id(),)+tuple(t.get_id() for t in ts)
    c=_instc.get(k)
    if c is None:
        c=(z3.substitute_vars(h.body(),*ts),h,ts); _instc[k]=c
    return c[0]
def instantiate(hyps,terms):
    """instances of universally quantified Int hypotheses at the given terms"""
    out=[]
    ints=[t for t in terms if t.sort()==I]
    if not ints: return out
    for h in hyps:
        if z3.is_quantifier(h) and h.is_forall():
            n=h.num_vars()
            if any(h.var_sort(j)!=I for j in range(n)): continue
            if n==1:
                for t in ints: out.append(_inst(h,t))
            elif n==2 and len(ints)<=4:
                for t in ints:
                    for u in ints: out.append(_inst(h,t,u))
    return out

def prepare(hyps,goal,sks):
    fs=flat(hyps)
    neg=[] if goal is None else flat([z3.Not(goal)])
    all_=fs+neg
    all_+=flat(instantiate(fs,sks))
    done_gen=set(); done_comps=set()
    extra=[]
    work=all_
    per={d.get_id():{} for d,_ in SPEC}; done_cs={}
    for rnd in range(3):
        apps,comps,gen=collect(work)
        new=[GENAX[g] for g in gen-done_gen]
        done_gen|=gen
        for c in comps-done_comps:
            new.append(DEFS.axiom[c][0])
        done_comps|=comps
        changed=False
        for d,cb in SPEC:
            m=per[d.get_id()]
            add_={k:v for k,v in apps[d.get_id()].items() if k not in m}
            if add_:
                m.update(add_); changed=True
        if changed:
            for d,cb in SPEC:
                m=per[d.get_id()]
                if m: new+=cb(list(m.values()))
        if not new: break
        # drop duplicates
        ids={f.get_id() for f in all_}
        new=[f for f in flat(new) if f.get_id() not in ids]
        # instantiate comp axioms at sks happens through patterns
        new2=instantiate([f for f in new if z3.is_quantifier(f)],sks)
        # comprehensions over sums: the sums must appear as ground terms for the lemmas to be instantiated
        for f in work:
            for t in _compsel(f):
                n=t.arg(0).decl().name(); ax,ps,pk,app,canon=DEFS.axiom[n]
                if n not in done_cs: done_cs[n]=set()
                if t.get_id() in done_cs[n]: continue
                done_cs[n].add(t.get_id()); _keep.append(t)
                new.append(t==z3.substitute(canon,*(list(zip(ps,t.arg(0).children()))+[(pk,t.arg(1))])))
        new+=[f for f in flat(new2)]
        all_+=new; work=new
    return all_

# ---- products of two non-constants as an uninterpreted function (a weaker theory: unsat there is unsat)
mulr=z3.Function("mulr",R,R,R); invr=z3.Function("invr",R,R); muli=z3.Function("muli",I,I,I)
_am={}
_fresh=[0]
def absmul(t):
    i=t.get_id()
    c=_am.get(i)
    if c is not None: return c[0]
    r=_absmul(t)
    _am[i]=(r,t); return r
def _isn(t): return z3.is_rational_value(t) or z3.is_int_value(t) or (z3.is_app(t) and t.decl().kind()==z3.Z3_OP_TO_REAL and z3.is_int_value(t.arg(0))) or (z3.is_app(t) and t.decl().kind()==z3.Z3_OP_UMINUS and _isn(t.arg(0)))
def _absmul(t):
    if z3.is_quantifier(t):
        _fresh[0]+=1; n=_fresh[0]
        vs=[z3.Const(f"am!{n}!{j}",t.var_sort(j)) for j in range(t.num_vars())]
        b0=z3.substitute_vars(t.body(),*vs[::-1]); b=absmul(b0)
        if b.eq(b0): return t
        ps=[]
        for j in range(t.num_patterns()):
            p=t.pattern(j)
            ch=[absmul(z3.substitute_vars(x,*vs[::-1])) for x in p.children()]
            ps.append(z3.MultiPattern(*ch) if len(ch)>1 else ch[0])
        try:
            return (z3.ForAll if t.is_forall() else z3.Exists)(vs,b,patterns=ps) if ps else (z3.ForAll if t.is_forall() else z3.Exists)(vs,b)
        except z3.Z3Exception: return (z3.ForAll if t.is_forall() else z3.Exists)(vs,b)
    if not z3.is_app(t) or t.num_args()==0: return t
    ch=t.children(); nc=[absmul(c) for c in ch]
    k=t.decl().kind()
    if k==z3.Z3_OP_MUL:
        num=[c for c in nc if _isn(c)]; oth=[c for c in nc if not _isn(c)]
        if len(oth)>=2:
            f=mulr if t.sort()==R else muli
            r=oth[0]
            for o in oth[1:]: r=f(r,o)
            for x in num: r=x*r
            return r
    elif k==z3.Z3_OP_DIV and not _isn(nc[1]):
        return invr(nc[1]) if _isn(nc[0]) and z3.simplify(nc[0]).eq(z3.RealVal(1)) else mulr(nc[0],invr(nc[1]))
    if all(a.eq(b) for a,b in zip(ch,nc)): return t
    return t.decl()(*nc)
_mx,_my=z3.Reals("mx!a my!a"); _ix,_iy=z3.Ints("mx!i my!i")
MULAX=[z3.ForAll([_mx,_my],z3.And(mulr(_mx,_my)==mulr(_my,_mx),z3.Implies(_mx==0,mulr(_mx,_my)==0),z3.Implies(_mx==1,mulr(_mx,_my)==_my),z3.Implies(z3.And(_mx>=0,_my>=0),mulr(_mx,_my)>=0)),patterns=[mulr(_mx,_my)]),
       z3.ForAll([_ix,_iy],z3.And(muli(_ix,_iy)==muli(_iy,_ix),z3.Implies(_ix==0,muli(_ix,_iy)==0),z3.Implies(_ix==1,muli(_ix,_iy)==_iy)),patterns=[muli(_ix,_iy)])]
DEBUG=os.environ.get('ZV_DEBUG')
NL=[True]      # also try with products left as they are (nonlinear arithmetic)
RL=2500
SEED0=0
def check(fs,timeout=4000,mbqi=False,seed=0,qi=None):
    if not mbqi:
        gs=[absmul(f) for f in fs]
        if any(not a.eq(b) for a,b in zip(fs,gs)):
            r,s=check1(gs+MULAX,timeout,mbqi,seed,qi)
            if r==z3.unsat or not NL[0]: return r,s
    return check1(fs,timeout,mbqi,seed,qi)
def check1(fs,timeout=4000,mbqi=False,seed=0,qi=None):
    s=z3.SimpleSolver()
    seed+=SEED0
    if qi: s.set('smt.qi.eager_threshold',float(qi)); s.set('smt.qi.lazy_threshold',float(qi)*4)
    # the deterministic resource limit decides; wall time is only a safety net on a slow machine
    s.set('rlimit',timeout*RL); s.set('timeout',timeout*8)
    s.set('smt.mbqi',mbqi); s.set('smt.auto_config',False)
    s.set('smt.random_seed',seed)
    s.set('smt.arith.nl.nra',False) if not mbqi else None
    for f in fs: s.add(f)
    t=time.time()
    r=s.check()
    dt=time.time()-t
    if DEBUG and dt>0.7: print(f"   slow {dt:.1f}s {r} mbqi={mbqi} timeout={timeout} {s.reason_unknown() if r==z3.unknown else ''} n={len(fs)} last={str(fs[-1])[:100]!r}",flush=True)
    if r==z3.unknown:
        why=s.reason_unknown()
        if dt>=timeout*8/1000*.98: STATS.wallout+=1
        elif 'limit' in why or 'cancel' in why: STATS.rl+=1
    STATS.queries+=1; STATS.time+=dt; STATS.maxt=max(STATS.maxt,dt)
    return r,s

def prove(hyps,goal,timeout=4000,want=None,axioms=()):
    """True if hyps |= goal.  want: dict to receive failure info"""
    goal=lift(goal)
    if z3.is_true(goal): return True
    key=(frozenset(h.get_id() for h in hyps),goal.get_id(),len(axioms))
    if key in _cache:
        STATS.cached+=1
        if _cache[key] or want is None: return _cache[key]
    _cacherefs.append((list(hyps),goal))
    ok=True
    for hs,g,sks in skolem_goal(goal,list(hyps),[]):
        fs=prepare(hs+list(axioms),g,sks)
        r,s=check(fs,timeout)
        if r!=z3.unsat:
            ok=False
            if want is not None:
                want['reason']=str(r)+(' ('+s.reason_unknown()+')' if r==z3.unknown else '')
                want['smt2']=s.to_smt2()
                want['goal']=str(g)[:4000]
                try: want['model']=str(s.model())[:6000]
                except z3.Z3Exception: want['model']=None
            break
    _cache[key]=ok
    return ok

def feasible(hyps,timeout=300):
    key=('f',frozenset(h.get_id() for h in hyps))
    if key in _cache: return _cache[key]
    _cacherefs.append(list(hyps))
    # quantifier-free part only: cheap, over-approximates feasibility
    fs=[h for h in flat(hyps) if not _hasq(h)]
    r,_=check(fs,timeout)
    v=(r!=z3.unsat)
    _cache[key]=v
    return v
_hq={}
def _hasq(f):
    i=f.get_id()
    if i in _hq: return _hq[i][0]
    v=any(z3.is_quantifier(t) for t in subterms(f))
    _hq[i]=(v,f)
    return v
