"""Contracts: requires / modifies / ensures over views of the real data structures; verification driver of one function."""
import z3, time, traceback, os
from logic import *
import logic
from exe import *
import exe as X

class View:
    """typed view of an object in a state"""
    __slots__=("_ex","_st","_p","_dt")
    def __init__(s,ex,st,p,dt): s._ex=ex; s._st=st; s._p=p; s._dt=dt
    def at(s,st): return View(s._ex,st,s._p,s._dt)
    def __getattr__(s,n):
        if n.startswith('__'): raise AttributeError(n)
        dt=s._dt
        if dt.kind=='ptr': 
            # automatic dereference
            return getattr(s.deref,n)
        if dt.kind=='struct' and cname(dt.name) in SEQ:
            if n=='len': return s._ex.rd(s._st,s._p,('len',),I)
        r=dt.find(n)
        if r is None: raise AttributeError(f"{dt.name} has no field {n}")
        o,off,t,_=r
        return mk(s._ex,s._st,s._p.step(f"{cname(o.name)}+{off}"),t)
    @property
    def deref(s):
        dt=s._dt
        p=s._ex.read(s._st,s._p,PTRTY) if dt.kind=='ptr' else s._p
        return View(s._ex,s._st,p,dt.to)
    def __getitem__(s,i):
        i=lift(i)
        dt=s._dt
        if dt.kind=='struct' and cname(dt.name) in SEQ:
            return mk(s._ex,s._st,s._p.index(i),s._ex.p.di.targ(dt,0))
        if dt.kind=='array': return mk(s._ex,s._st,s._p.index(i),dt.to)
        if dt.kind=='ptr':
            p=s._ex.read(s._st,s._p,PTRTY)
            if p.root=='H' and not p.steps: p=Ptr('H',p.ref,('A:'+rawname(dt.to),'[]'),(i,))
            elif p.steps[-1:]==('[]',): p=Ptr(p.root,p.ref,p.steps,p.dims[:-1]+(add(p.dims[-1],i),))
            return mk(s._ex,s._st,p,dt.to)
        raise TypeError("index of "+repr(dt))
    def arr(s,*rel,sort=None):
        """whole array term of a leaf of a sequence: v.data.arr() or v.data.arr('index')"""
        dt=s._dt
        et=s._ex.p.di.targ(dt,0) if dt.kind=='struct' else dt.to
        steps=['[]']
        for f in rel:
            o,off,t,_=et.find(f); steps.append(f"{cname(o.name)}+{off}"); et=t
        base=R if et.kind=='real' else I
        return s._ex.rd(s._st,s._p,tuple(steps),base)
    @property
    def ref(s):
        """identity of the object / value of the pointer"""
        if s._dt.kind=='ptr':
            return s._ex.ptr_to_term(s._ex.read(s._st,s._p,PTRTY))
        return s._p.ref if s._p.root=='H' else s._ex.gref(s._p)
    @property
    def str(s): return s._ex.rd(s._st,s._p,('str',),I)
def rawname(dt):
    if dt.kind=='real': return 'double'
    if dt.kind=='int': return f'i{dt.size*8}'
    if dt.kind=='bool': return 'i8'
    if dt.kind=='ptr': return 'ptr'
    return cname(dt.name)
def mk(ex,st,p,dt):
    if dt.kind=='int': return ex.rd(st,ex.raw(p,INTTY),(),I)
    if dt.kind=='bool': return ex.rd(st,ex.raw(p,INTTY),(),I)!=0
    if dt.kind=='real': return ex.rd(st,ex.raw(p,FLTTY),(),R)
    return View(ex,st,p,dt)

class NS:
    """arguments of a call, by position (p0, p1, ...) and by given name"""
    def __init__(s,d): s.__dict__.update(d)
    def __getitem__(s,k): return s.__dict__[k]

class Contract:
    """fn: demangled signature.  names: parameter names given by the contract (positional).
    kinds: per name 'cell' (distinct object), 'heap' (object in the shared heap), default cell for refs and this"""
    def __init__(s,fn,names,requires=(),ensures=(),modifies=(),templates=(),kinds=None,prop=(),abstract=False,opts=None,label=None,pure=None,alloc=False,note=None,result_name=None,ret_heap=None,types=None,lemmas=None,pre=None,hints=None):
        s.fn=fn; s.names=names; s.req=list(requires); s.ens=list(ensures); s.mod=list(modifies)
        s.templates=list(templates); s.kinds=kinds or {}; s.props=prop; s.abstract=abstract; s.opts=opts or {}
        s.label=label or fn; s.pure=pure; s.alloc=alloc; s.note=note; s.ret_heap=ret_heap; s.types=types or {}
        s.lemmas=lemmas; s.pre=pre; s.hints=hints
    # parameter types from the debug info
    def sig(s,prog):
        ln=prog.bydem.get(s.fn)
        sg=None
        if ln:
            sg=prog.di.signature(ln) or prog.di.signature(prog.m.alias.get(ln,ln))
            if sg is None and 'C1' in ln: sg=prog.di.signature(ln.replace('C1','C4')) or prog.di.signature(ln.replace('C1','C2'))
            if sg is None and ('C2E' in ln): sg=prog.di.signature(ln.replace('C2E','C4E'))
            if sg is None and ('D2E' in ln or 'D1E' in ln): sg=prog.di.signature(ln.replace('D2E','D4E').replace('D1E','D4E'))
        if sg is None:
            # by linkage name in debug info only (pure virtual)
            for k,i in prog.di.subprog_type.items():
                if k.startswith('_Z'):
                    pass
            nm=s.opts.get('linkage')
            if nm: sg=prog.di.signature(nm)
        if sg is None: raise Unsupported("no signature for "+s.fn)
        return sg
    def views(s,ex,st,args,sig):
        d={}
        pts=sig[1:]
        off=0
        if sret_ret(sig[0]): off=1
        real=args
        if off: 
            d['result']=View(ex,st,args[0],sig[0]); real=args[1:]
        for n,t,a in zip(s.names,pts,real):
            d[n]=arg_view(ex,st,a,s.types.get(n) and ex.p.typ(s.types[n]) or t)
        return NS(d)
    def apply(s,ex,st,args,path):
        """use at a call site"""
        sig=s.sig(ex.p)
        V=s.views(ex,st,args,sig)
        for lab,f in clauses(s.req,lambda fn:fn(V)):
            ex.oblige(st,f"call {short(s.fn)} requires {lab}",f)
            st.assume(f)
        old=st.copy()
        V0=s.views(ex,old,args,sig)
        site=f"{short(s.fn)}:{path}"
        if s.alloc:
            n=z3.Const("nxt:"+site,I); st.assume(n>=st.nxt); st.nxt=n
        for mfn in s.mod:
            items=mfn(V)
            for it in (items if isinstance(items,list) else [items]): it.havoc(ex,st,site)
        rt=sig[0]
        ret=None
        V1=s.views(ex,st,args,sig)
        if not sret_ret(rt):
            if rt.kind=='real': ret=z3.Const("ret:"+site,R)
            elif rt.kind=='bool': ret=z3.Const("ret:"+site,B)
            elif rt.kind=='int': ret=z3.Const("ret:"+site,I)
            elif rt.kind=='ptr':
                r=z3.Const("ret:"+site,I); st.assume(z3.And(r>=0,r<st.nxt)); ret=Ptr('H',r)
                if s.opts.get('ret_raw'): ret=Ptr('H',r,('A:'+rawname(rt.to),'[]'),(iv(0),))
            elif rt.kind=='void': ret=None
            else: ret=X.UNDEF
            if rt.kind=='ptr': V1.__dict__['result']=View(ex,st,ret,rt.to)
            else: V1.__dict__['result']=ret
        else:
            ex.havoc_obj(st,args[0],rt,"ret:"+site)
        for lab,f in clauses(s.ens,lambda fn:fn(V0,V1)): st.assume(f)
        if getattr(ex,'want_calls',False):
            snap=st.copy(); VS=s.views(ex,snap,args,sig)
            if ret is not None: VS.__dict__['result']=V1.__dict__['result']
            st.ghost['calls']=st.ghost.get('calls',())+((short(s.fn),V0,VS),)
        return [(st,ret if ret is not None else X.UNDEF)]

def sret_ret(rt):
    return rt.kind=='struct' and not(cname(rt.name) in('__gnu_cxx::__normal_iterator','std::_List_iterator'))
def arg_view(ex,st,a,t):
    if t.kind=='ptr':
        if isinstance(a,Ptr): return View(ex,st,a,t.to) if t.to.kind not in('int','real','bool') else ScalarRef(ex,st,a,t.to)
        return a
    if isinstance(a,Ptr) : return View(ex,st,a,t)
    if t.kind=='bool' and z3.is_expr(a): return ex.tobool(a)
    return a
class ScalarRef:
    def __init__(s,ex,st,p,t): s._ex=ex; s._st=st; s._p=p; s._dt=t
    @property
    def v(s): return mk(s._ex,s._st,s._p,s._dt)
    def at(s,st): return ScalarRef(s._ex,st,s._p,s._dt)
def short(fn):
    return base_name(fn).split('::',0)[0]
def clauses(fs,call):
    """each clause function may return a formula, a list, or a dict label->formula"""
    out=[]
    for i,fn in enumerate(fs):
        r=call(fn)
        nm=getattr(fn,'label',None) or (fn.__name__ if fn.__name__!='<lambda>' else f"#{i+1}")
        if r is None: continue
        if isinstance(r,dict): out+=[(k,lift(v)) for k,v in r.items()]
        elif isinstance(r,(list,tuple)): out+=[(f"{nm}.{j+1}",lift(x)) for j,x in enumerate(r)]
        else: out.append((nm,lift(r)))
    return out

# ---- modifies items
class MAll:
    """the whole object (all its leaves)"""
    def __init__(s,view): s.v=view
    def havoc(s,ex,st,site): ex.havoc_obj(st,s.v._p,s.v._dt,"mod:"+site)
    def covers(s,ex,key,dims_ok=True):
        p=s.v._p
        return key[0]==p.root and key[1][:len(p.steps)]==p.steps and (p.root!='H')
    def exempt(s,ex,key):
        """for heap leaves: function (index terms)->Bool telling whether position is exempt"""
        p=s.v._p
        if key[0]==p.root=='H':
            if p.steps and key[1][:len(p.steps)]==p.steps:
                d=p.alldims(); return lambda ix: And(*[a==b for a,b in zip(ix,d)])
            if not p.steps:
                for rel,base,isp in ex.p.leaves(s.v._dt):
                    if key[1]==rel: return lambda ix: ix[0]==p.ref
        if key[0]==p.root and key[1][:len(p.steps)]==p.steps:
            d=p.alldims(); return lambda ix: And(*[a==b for a,b in zip(ix,d)])
        return None
class MField:
    """one field (or sub-object) of an object: MField(view,'lbVal')"""
    def __init__(s,view,*fields): s.v=view; s.f=fields
    def resolve(s,ex):
        p=s.v._p; t=s.v._dt
        if t.kind=='ptr': vv=s.v.deref; p=vv._p; t=vv._dt
        for f in s.f:
            o,off,t2,_=t.find(f); p=p.step(f"{cname(o.name)}+{off}"); t=t2
        return p,t
    def havoc(s,ex,st,site):
        p,t=s.resolve(ex); ex.havoc_obj(st,p,t,"mod:"+site)
    def covers(s,ex,key):
        p,t=s.resolve(ex)
        return key[0]==p.root and key[1][:len(p.steps)]==p.steps and p.root!='H' and not p.dims
    def exempt(s,ex,key):
        p,t=s.resolve(ex)
        if key[0]==p.root and key[1][:len(p.steps)]==p.steps:
            d=p.alldims(); return lambda ix: And(*[a==b for a,b in zip(ix,d)])
        return None
class MScalar:
    """object behind a scalar reference parameter"""
    def __init__(s,v): s.v=v
    def havoc(s,ex,st,site):
        ex.havoc_obj(st,s.v._p,s.v._dt,"mod:"+site)
    def covers(s,ex,key): return key==s.v._p.key()
    def exempt(s,ex,key): return None
class MHeap:
    """a field of every object of a class (heap leaf prefix)"""
    def __init__(s,cls,*fields,where=None): s.cls=cls; s.f=fields; s.where=where
    def prefix(s,ex):
        t=ex.p.typ(s.cls); pre=()
        for f in s.f:
            o,off,t2,_=t.find(f); pre+=(f"{cname(o.name)}+{off}",); t=t2
        return pre,t
    def keys(s,ex):
        pre,t=s.prefix(ex)
        return [(('H',pre+rel),base) for rel,base,isp in ex.p.leaves(t)]
    def havoc(s,ex,st,site):
        for key,base in s.keys(ex):
            t0=ex.leafterm(st,key,base)
            n=z3.Const(f"mod:{site}|{'/'.join(key[1])}",t0.sort())
            if s.where is not None:
                r=z3.Const("r!mod",I)
                st.assume(z3.ForAll([r],z3.Implies(z3.Not(lift(s.where(r))),n[r]==t0[r]),patterns=[n[r]]))
            st.mem[key]=n; st.w.add(key)
    def covers(s,ex,key):
        if s.where is not None: return False
        pre,t=s.prefix(ex)
        return key[0]=='H' and key[1][:len(pre)]==pre
    def exempt(s,ex,key):
        pre,t=s.prefix(ex)
        if key[0]=='H' and key[1][:len(pre)]==pre and s.where is not None:
            return lambda ix: lift(s.where(ix[0]))
        return None

class Result:
    def __init__(s,fn): 
        s.fn=fn; s.obligations=[]; s.status='proved'; s.reason=None; s.failed=[]; s.paths=0; s.wall=0; s.inv=0
        s.inlined=[]; s.externals=[]; s.contracts=[]; s.loops={}

def verify(prog,contracts,c,opts=None,verbose=False):
    """a failed attempt is repeated with another solver seed and larger limits before it counts"""
    t0=time.time()
    r=verify1(prog,contracts,c,opts)
    for seed,ct in((31,4000),(77,1500)):
        if r.status!='failed' or time.time()-t0>180: break
        o2=dict(opts or {}); o2['cand_timeout']=ct
        logic.SEED0=seed; logic._cache.clear()
        try: r2=verify1(prog,contracts,c,o2)
        finally: logic.SEED0=0; logic._cache.clear()
        if r2.status=='proved': r2.wall=time.time()-t0; return r2
        if r2.status=='undecided': r.failed=[dict(f,reason=(f.get('reason') or '')+' (second attempt: resource limit)') for f in r.failed]
        r.wall=time.time()-t0
    return r
def verify1(prog,contracts,c,opts=None,verbose=False):
    res=Result(c.fn)
    t0=time.time()
    q0=(STATS.queries,STATS.time)
    o=dict(c.opts); o.update(opts or {})
    logic.NL[0]=o.get('nl',True)
    others=dict(contracts)
    others.pop(c.fn,None)
    if o.get('recursive'): others[c.fn]=c
    for n in o.get('inline',[]): 
        others.pop(n,None)
    ex=Exec(prog,others,o)
    ex.templates=c.templates; ex.want_calls=bool(c.hints)
    for n in o.get('assume_contracts',[]): pass
    res.ex=ex
    try:
        ln=prog.bydem.get(c.fn)
        if ln is None or not prog.m.defined(prog.m.alias.get(ln,ln)): raise Unsupported("function not found in the current source: "+c.fn)
        ln=prog.m.alias.get(ln,ln)
        F=prog.m.func(ln)
        sig=c.sig(prog)
        st=State(); st.nxt=z3.Const("nxt0",I); st.assume(st.nxt>=1)
        args=[]
        i=0
        pts=sig[1:]
        if sret_ret(sig[0]):
            root="P:result"; ex.cells[root]=sig[0]; args.append(Ptr(root)); i=1
        for n,t in zip(c.names,pts):
            if n in c.types: t=prog.typ(c.types[n])
            kind=c.kinds.get(n)
            if t.kind=='ptr':
                if kind=='heap':
                    r=z3.Const("P:"+n,I); st.assume(z3.And(r>0,r<st.nxt)); args.append(Ptr('H',r))
                elif kind=='heap0':
                    r=z3.Const("P:"+n,I); st.assume(z3.And(r>=0,r<st.nxt)); args.append(Ptr('H',r))
                elif kind=='rawarr':
                    r=z3.Const("P:"+n,I); st.assume(z3.And(r>0,r<st.nxt)); args.append(Ptr('H',r,('A:'+rawname(t.to),'[]'),(iv(0),)))
                else:
                    root="P:"+n; ex.cells[root]=t.to; args.append(Ptr(root))
            elif t.kind=='real': args.append(z3.Const("P:"+n,R))
            elif t.kind=='bool': args.append(z3.Const("P:"+n,B))
            elif t.kind=='int': 
                v=z3.Const("P:"+n,I); args.append(v)
                if not t.signed: st.assume(v>=0)
            elif t.kind=='struct':
                # by value: passed indirectly
                root="P:"+n; ex.cells[root]=t; args.append(Ptr(root))
            else: raise Unsupported("parameter kind "+t.kind)
        if len(args)!=len(F.params):
            raise Unsupported(f"parameter count {len(args)} vs {len(F.params)}")
        # container lengths are never negative
        for root,t in list(ex.cells.items()):
            if root.startswith('P:') and t is not None:
                try: lv=prog.leaves(t)
                except Unsupported: continue
                for rel,base,isp in lv:
                    if rel[-1:]==('len',):
                        lt=ex.leafterm(st,(root,rel),I); nd=rel.count('[]')
                        if nd==0: st.assume(lt>=0)
                        elif nd==1: st.assume(ForAll(lambda i:lt[i]>=0,pats=lambda i:[lt[i]]))
        # bool params arrive as i1 zeroext
        V=c.views(ex,st,args,sig)
        for lab,f in clauses(c.req,lambda fn:fn(V)): st.assume(f)
        if c.pre:
            for f in c.pre(V): st.assume(f)
        # vacuity: the precondition must be satisfiable
        r,_=logic.check(prepare(st.pc,None,[]),3000)
        if r==z3.unsat: raise Unsupported("VACUOUS: precondition is unsatisfiable")
        # lens are non-negative
        old=st.copy()
        ex.oldstate=old; ex.oldviews=c.views(ex,old,args,sig); ex.args=args; ex.sig=sig; ex.contract=c
        outs=ex.run_fn(ln,args,st,'f')
        res.paths=len(outs)
        V0=c.views(ex,old,args,sig)
        reach=0
        mods=[]
        for mfn in c.mod:
            items=mfn(V0); mods+=items if isinstance(items,list) else [items]
        for k,(st2,rv_) in enumerate(outs):
            V1=c.views(ex,st2,args,sig)
            if not sret_ret(sig[0]):
                rt=sig[0]
                if rt.kind=='bool' and z3.is_expr(rv_): rv_=ex.tobool(rv_)
                if rt.kind=='ptr' and isinstance(rv_,Ptr): rr=View(ex,st2,rv_,rt.to)
                else: rr=rv_
                if isinstance(rr,X.Undef) and rt.kind!='void': raise Unsupported("undefined return value")
                V1.__dict__['result']=rr
            if c.lemmas:
                for f in c.lemmas(ex,V0,V1): st2.assume(f)
            if c.hints:      # intermediate facts: each is an obligation of its own, then available to the later ones
                try: hs=c.hints(V0,V1,st2.ghost.get('calls',()))
                except (IndexError,KeyError): hs=[]
                small=[]
                for lab,f in hs:
                    ex.obl.append((f"step {lab}",list(st2.pc),f,tuple(small),st2.trace)); st2.assume(f); small.append(f)
                c_small=tuple(small)
            else: c_small=None
            for lab,f in clauses(c.ens,lambda fn:fn(V0,V1)):
                ex.obl.append((f"ensures {lab}",list(st2.pc),f,c_small,st2.trace))
            # frame
            for key,v in st2.mem.items():
                if key[0] in ex.cells and not key[0].startswith('P:'): continue
                if key[0].startswith(('T:','f')): continue
                if key[0]=='P:result' : continue
                v0=old.mem.get(key)
                if v0 is None:
                    if key not in st2.w: continue
                    if z3.is_expr(v):
                        nd=key[1].count('[]')+(1 if key[0]=='H' else 0)
                        b=v.sort()
                        for _ in range(nd): b=b.range()
                        v0=ex.leafterm(old,key,b)
                    else: v0=None
                if v0 is v: continue
                if z3.is_expr(v) and z3.is_expr(v0) and v.eq(v0): continue
                if any(m.covers(ex,key) for m in mods): continue
                if isinstance(v,Ptr):
                    if isinstance(v0,Ptr): f=ex.ptr_eq(v,v0)
                    elif z3.is_expr(v0): f=ex.ptr_to_term(v)==v0
                    else:
                        t0=z3.Const(f"{key[0]}|{'/'.join(key[1])}",I)
                        f=ex.ptr_to_term(v)==t0
                    ex.obl.append((f"frame {'/'.join(key[1])}",list(st2.pc),f,None,st2.trace)); continue
                if not z3.is_expr(v) or not z3.is_expr(v0): continue
                exs=[e for e in (m.exempt(ex,key) for m in mods) if e]
                nd=key[1].count('[]')+(1 if key[0]=='H' else 0)
                if nd==0: f=v==v0
                else:
                    def body(*ix):
                        conds=[]
                        if key[0]=='H': conds+=[0<=ix[0],ix[0]<old.nxt]
                        # element positions are meaningful only below the length
                        lk=lenkeys(key)
                        for (lkey,nix) in lk:
                            lt=old.mem.get(lkey)
                            if lt is not None and z3.is_expr(lt): conds+=[0<=ix[nix],ix[nix]<seln(lt,ix[:nix])]
                        conds+=[Not(e(ix)) for e in exs]
                        return Implies(And(*conds),seln(v,ix)==seln(v0,ix))
                    f=ForAll(body,n=nd)
                ex.obl.append((f"frame {key[0]}:{'/'.join(key[1])}",list(st2.pc),f,None,st2.trace))
        # discharge
        reach=0
        to=o.get('timeout',8000)
        cache_fail={}
        for (nm,pc,f,info,trace) in ex.obl:
            want={}
            ok=bool(info) and isinstance(info,tuple) and prove_small(list(info),f)
            if not ok: ok=prove(pc,f,to,want)
            if not ok: ok=prove2(pc,f,o,want)
            res.obligations.append((nm,ok))
            if not ok:
                want['name']=nm; want['trace']=trace
                res.failed.append(want)
                if len(res.failed)>=o.get('maxfail',3): break
            if time.time()-t0>ex.budget*1.5: raise Budget("discharge budget")
        # reachability: at least one return path has a satisfiable path condition (not contradictory assumptions)
        sat=False; unk=False
        for st2,_ in outs:
            r,_s=logic.check(prepare(st2.pc,None,[]),2000)
            if r!=z3.unsat: sat=True; break
        if outs and not sat: raise Unsupported("VACUOUS: no return path is reachable")
        if not outs and not o.get('noreturn'): raise Unsupported("VACUOUS: function never returns")
        if not res.obligations: raise Unsupported("VACUOUS: no obligation generated")
        res.status='failed' if res.failed else 'proved'
    except Unsupported as e:
        res.status='undecided'; res.reason=str(e)
        if os.environ.get('ZV_TB'): traceback.print_exc()
    except Budget as e:
        res.status='undecided'; res.reason=str(e)
    except z3.Z3Exception as e:
        res.status='undecided'; res.reason="z3: "+str(e)[:300]
        if os.environ.get('ZV_TB'): traceback.print_exc()
    except (AttributeError,KeyError,TypeError,IndexError,AssertionError,RecursionError,ValueError) as e:
        res.status='undecided'; res.reason=f"extraction: {type(e).__name__} {e}"[:300]
        if os.environ.get('ZV_TB'): traceback.print_exc()
    logic.NL[0]=True
    res.wall=time.time()-t0
    res.queries=STATS.queries-q0[0]; res.solver=STATS.time-q0[1]
    res.inlined=sorted(ex.inlined); res.externals=sorted(ex.externals); res.contracts=sorted(ex.used_contracts)
    res.loops=ex.houdini_kept; res.inv=getattr(ex,'n_inv',0)
    return res

def lenkeys(key):
    """length leaves that guard the '[]' dims of a key: [(key of len, dim index)]"""
    out=[]
    steps=key[1]; d=1 if key[0]=='H' else 0
    for i,s in enumerate(steps):
        if s=='[]':
            out.append(((key[0],steps[:i]+('len',)),d)); d+=1
    return out

def prove_small(hyps,f):
    """from the intermediate facts only, after rewriting the goal with their equations (right to left)"""
    if prove(hyps,f,1500): return True
    for hs,g,sks in skolem_goal(lift(f),list(hyps),[]):
        for h in hyps[::-1]:
            for x in ([h] if not z3.is_quantifier(h) else [z3.substitute_vars(h.body(),t) for t in sks if t.sort()==I] if h.num_vars()==1 else []):
                gd=TRUE
                if z3.is_implies(x): gd,x=x.arg(0),x.arg(1)
                if not z3.is_eq(x): continue
                if not z3.is_true(gd) and not prove(hs,gd,500): continue
                g=z3.substitute(g,(x.arg(1),x.arg(0)))
        if not prove(hs,g,1500): return False
    return True
def prove2(pc,f,o,want):
    """second opinions: other seeds, mbqi, cvc5"""
    for hs,g,sks in skolem_goal(lift(f),list(pc),[]):
        fs=prepare(hs,g,sks)
        for kw in(dict(seed=7),dict(qi=60),dict(qi=60,seed=11)):
            r,s=logic.check(fs,o.get('timeout2',6000),mbqi=False,**kw)
            if os.environ.get('ZV_P2'): print('prove2',want.get('name'),kw,r,s.reason_unknown() if r==z3.unknown else '')
            if r!=z3.unknown: break
        if r==z3.unsat: continue
        return False
    return True
