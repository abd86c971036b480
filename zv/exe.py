"""Symbolic executor over LLVM IR: path-forking, loops cut at headers (Houdini invariants), calls by contract or inlined."""
import re, subprocess, time, itertools, os
import z3
from logic import *
import logic
from llvm import Module
from di import DI, DT, strip_targs

class Unsupported(Exception): pass
class Budget(Exception): pass

LLVMBIN="/usr/lib/llvm-18/bin/"
def demangle(names):
    names=list(names)
    r=subprocess.run([LLVMBIN+'llvm-cxxfilt'],input='\n'.join(names)+'\n',capture_output=True,text=True).stdout.split('\n')
    return dict(zip(names,r))
def norm_dem(d):
    d=d.replace('std::__cxx11::','std::').replace('[abi:cxx11]','').replace('> >','>>').replace('std::tr1::','std::')
    return d
def canon(llname):
    """canonical struct name for path steps"""
    n=llname
    for p in('class.','struct.','union.'):
        if n.startswith(p): n=n[len(p):]; break
    n=re.sub(r'\.\d+$','',n); n=re.sub(r'\.base$','',n); n=re.sub(r'\.\d+$','',n)
    return cname(n)
def cname(q):
    return strip_targs(q).replace('std::__cxx11::','std::').replace('std::tr1::','std::')

class Ptr:
    __slots__=("root","ref","steps","dims")
    def __init__(s,root,ref=None,steps=(),dims=()):
        s.root=root; s.ref=ref; s.steps=steps; s.dims=dims
    def step(s,st): return Ptr(s.root,s.ref,s.steps+(st,),s.dims)
    def steps_(s,st): return Ptr(s.root,s.ref,s.steps+tuple(st),s.dims)
    def index(s,i): return Ptr(s.root,s.ref,s.steps+('[]',),s.dims+(i,))
    def __repr__(s): return f"Ptr({s.root},{s.ref},{s.steps},{s.dims})"
    def key(s): return (s.root,s.steps)
    def alldims(s): return ((s.ref,) if s.root=='H' else ())+tuple(s.dims)
NULLREF=iv(0)
def null(): return Ptr('H',NULLREF)
class FnPtr:
    def __init__(s,name): s.name=name
class VT:
    def __init__(s,p): s.p=p; s.cls=None
class VSlot:
    def __init__(s,vt,n): s.vt=vt; s.n=n
class VFn:
    def __init__(s,vt,n): s.vt=vt; s.n=n
class PInt:
    """pointer cast to integer"""
    def __init__(s,p): s.p=p
class Agg:
    def __init__(s,vals): s.vals=list(vals)
class Undef:
    def __repr__(s): return "undef"
UNDEF=Undef()
class VBRef:
    """vector<bool>::reference"""
    def __init__(s,p): s.p=p

class State:
    __slots__=("mem","env","pc","w","hav","nxt","ghost","trace")
    def __init__(s):
        s.mem={}; s.env={}; s.pc=[]; s.w=set(); s.hav=[]; s.nxt=None; s.ghost={}; s.trace=()
    def copy(s):
        n=State(); n.mem=dict(s.mem); n.env=dict(s.env); n.pc=list(s.pc); n.w=set(s.w); n.hav=list(s.hav); n.nxt=s.nxt; n.ghost=dict(s.ghost); n.trace=s.trace
        return n
    def assume(s,f):
        f=lift(f)
        if not z3.is_true(f): s.pc.append(f)

class Frame:
    def __init__(s,fn,path,depth): s.fn=fn; s.path=path; s.depth=depth

def sel(a,i):
    while True:
        if z3.is_store(a) and a.num_args()==3:
            j=a.arg(1)
            if j.eq(i): return a.arg(2)
            if isnum(i) and isnum(j): a=a.arg(0); continue
            d=z3.simplify(i-j)
            if isnum(d) and num(d)!=0: a=a.arg(0); continue
            return z3.Select(a,i)
        if z3.is_const_array(a): return a.arg(0)
        return z3.Select(a,i)
def seln(a,dims):
    for d in dims: a=sel(a,d)
    return a
def storen(a,dims,v):
    if not dims: return v
    if len(dims)==1: return z3.Store(a,dims[0],v)
    return z3.Store(a,dims[0],storen(sel(a,dims[0]),dims[1:],v))
def asort(base,n):
    s=base
    for _ in range(n): s=z3.ArraySort(I,s)
    return s

NOOP_PREFIX=("std::basic_ostream","std::basic_ios","std::ios_base","std::setprecision","std::basic_ofstream","std::basic_ifstream","std::basic_istream",
  "std::operator<<","std::flush","std::endl","std::allocator","std::__new_allocator","std::basic_stringstream","std::basic_ostringstream","std::basic_istringstream","std::fpos")
NOOP_NAMES={"printf","fprintf","fflush","puts","putchar","fputc","fputs","gettimeofday","free","operator delete(void*)","operator delete[](void*)","operator delete(void*, unsigned long)","srand","srandom","srand48","perror","fclose","fputc","fwrite"}
EXITS={"exit","abort","_exit","__cxa_throw","std::terminate()","__cxa_pure_virtual","longjmp"}
STDSTREAM=("std::cout","std::cerr","std::cin")

class Prog:
    def __init__(s,bc,ll):
        s.m=Module(bc); s.di=DI(ll)
        names=list(s.m.fn)+list(s.m.alias)
        s.dem={k:norm_dem(v) for k,v in demangle(names).items()}
        s.bydem={}
        for k,v in s.dem.items():
            if v not in s.bydem or (not s.m.defined(s.bydem[v]) ): s.bydem[v]=k
        s.bybase={}
        for k,v in s.dem.items():
            s.bybase.setdefault(base_name(v),set()).add(v)
        s.ll=ll; s._bodies=None
        s.types={}
        for q,i in s.di.byname.items():
            s.types.setdefault(norm_dem(q).replace(' *','*'),i)
        s._leaves={}
    def closure_hash(s,fn,stop):
        """hash of the IR text (no debug info) of a function and of everything it reaches that is not under contract"""
        import re,hashlib
        if s._bodies is None:
            s._bodies={}; cur=None
            for l in open(s.ll,errors='replace'):
                if l.startswith('define '):
                    m=re.search(r'@("[^"]*"|[\w.$]+)\(',l); cur=[]; s._bodies[m.group(1).strip('"')]=cur
                    l=re.sub(r'(#\d+|!dbg !\d+|personality.*|comdat.*)','',l)
                if cur is not None:
                    if l.startswith('}'): cur=None; continue
                    if 'llvm.dbg.' in l: continue
                    cur.append(re.sub(r'(, ![\w.]+ !\d+| #\d+)','',l.strip()))
        ln=s.bydem.get(fn); 
        if ln is None: return None
        ln=s.m.alias.get(ln,ln)
        seen={}; todo=[ln]
        while todo:
            x=todo.pop()
            x=s.m.alias.get(x,x)
            if x in seen or x not in s._bodies: continue
            d=s.dem.get(x,'')
            if x!=ln and (d in stop or d.startswith(('std::','__gnu_cxx::')) or ' std::' in d.split('(')[0]): continue
            t=s._bodies[x]; seen[x]='\n'.join(t)
            for l in t:
                for m in re.finditer(r'@("[^"]*"|[\w.$]+)',l): todo.append(m.group(1).strip('"'))
        h=hashlib.sha256()
        for x in sorted(seen): h.update(x.encode()); h.update(re.sub(r'@\.str[.\d]*','@.str',seen[x]).encode())
        return h.hexdigest()[:16]
    def typ(s,name):
        name=norm_dem(name.strip())
        name=name.replace(' const','').replace('const ','').replace(' *','*').strip()
        if name.endswith('*') or name.endswith('&'):
            t=DT('ptr','ptr',8); t.to=s.typ(name[:-1]) ; return t
        prim={'double':('real',8),'float':('real',4),'int':('int',4),'unsigned int':('int',4),'long':('int',8),'unsigned long':('int',8),'bool':('bool',1),'char':('int',1),'void':('void',0),'unsigned char':('int',1),'short':('int',2)}
        if name in prim:
            k,z=prim[name]; t=DT(k,name,z); return t
        i=s.types.get(name)
        if i is None:
            # tolerate differing spacing
            n2=name.replace(' ','')
            for q,j in s.types.items():
                if q.replace(' ','')==n2: i=j; s.types[name]=j; break
        if i is None: raise Unsupported("type "+name)
        return s.di.type(i)
    def leaves(s,dt):
        """[(steps, base sort, isptr)]"""
        k=id(dt)
        if k in s._leaves: return s._leaves[k][1]
        r=s._lv(dt); s._leaves[k]=(dt,r); return r
    def _lv(s,dt):
        if dt.kind in('int','bool'): return [((),I,False)]
        if dt.kind=='real': return [((),R,False)]
        if dt.kind=='ptr': return [((),I,True)]
        if dt.kind=='array': return [(('[]',)+a,b,c) for a,b,c in s.leaves(dt.to)]
        if dt.kind=='struct':
            c=cname(dt.name)
            if c in SEQ:
                return [(('len',),I,False)]+[(('[]',)+a,b,p) for a,b,p in s.leaves(s.di.targ(dt,0))]
            if c in MAPS:
                kt=s.di.targ(dt,0)
                return [(('dom','[]'),I,False)]+[(('val','[]')+a,b,p) for a,b,p in s.leaves(s.di.targ(dt,1))]
            if c=='std::basic_string': return [(('str',),I,False)]
            r=[]
            for o,b in dt.bases: r+=s.leaves(b)
            for n,o,t in dt.members:
                if n.startswith('_vptr'): continue
                r+=[((f"{c}+{o}",)+a,b,p) for a,b,p in s.leaves(t)]
            return r
        if dt.kind in('void','func'): return []
        raise Unsupported("leaves of "+repr(dt))

SEQ={'std::vector','std::list','std::stack','std::deque'}
MAPS={'std::map','std::unordered_map','std::_Hashtable'}

def base_name(d):
    """qualified function name without parameter list / template args / return type"""
    i=paren_split(d)
    n=d[:i] if i>=0 else d
    n=strip_targs(n)
    n=n.strip()
    # drop return type of templates
    depth=0; cut=0
    for j,c in enumerate(n):
        if c==' ' and not n[:j].endswith('operator') and not re.search(r'operator$',n[:j]): 
            if 'operator ' in n and j>n.find('operator '): continue
            cut=j+1
    return n[cut:]
def paren_split(d):
    """index of the '(' that starts the parameter list"""
    depth=0;i=0
    while i<len(d):
        if d.startswith('operator()',i): i+=10; continue
        if d.startswith('(anonymous namespace)',i): i+=21; continue
        if d.startswith('operator<<',i) or d.startswith('operator->',i) or d.startswith('operator>>',i): i+=10; continue
        if d.startswith('operator<',i) and not d.startswith('operator<=',i): i+=9; continue
        if d.startswith('operator>',i): i+=9; continue
        c=d[i]
        if c=='<': depth+=1
        elif c=='>': depth-=1
        elif c=='(' and depth==0: return i
        i+=1
    return -1
def split_targs(t):
    out=[];d=0;cur=''
    for c in t:
        if c=='<' or c=='(': d+=1
        if c=='>' or c==')': d-=1
        if c==',' and d==0: out.append(cur.strip()); cur=''
        else: cur+=c
    if cur.strip(): out.append(cur.strip())
    return out
_sm={}
def split_method(d):
    """demangled -> (class canonical, targs, method, params string) or (None,[],function,params)"""
    if d in _sm: return _sm[d]
    i=paren_split(d)
    n=d[:i] if i>=0 else d; ps=d[i:] if i>=0 else ''
    # split at last '::' at depth 0
    depth=0; last=-1; j=0
    while j<len(n):
        if n.startswith('operator',j) and depth==0 and (j==0 or n[j-1] in ': '):
            break
        if n[j]=='<': depth+=1
        elif n[j]=='>': depth-=1
        elif n.startswith('::',j) and depth==0: last=j
        j+=1
    if last<0: r=(None,[],n,ps)
    else:
        cls=n[:last]; meth=n[last+2:]
        # drop return type before class (spaces at depth 0)
        depth=0; cut=0
        for k,c in enumerate(cls):
            if c=='<': depth+=1
            elif c=='>': depth-=1
            elif c==' ' and depth==0: cut=k+1
        cls=cls[cut:]
        targs=[]
        k=cls.find('<')
        # template args of the last component
        depth=0; start=-1
        for k,c in enumerate(cls):
            if c=='<':
                if depth==0: start=k
                depth+=1
            elif c=='>':
                depth-=1
                if depth==0: targs=split_targs(cls[start+1:k])
        mm=strip_targs(meth) if not meth.startswith('operator') else meth
        r=(cname(cls),targs,mm,ps)
    _sm[d]=r
    return r

class Exec:
    """one verification run of one function"""
    def __init__(s,prog,contracts,opts=None):
        s.p=prog; s.m=prog.m; s.C=contracts; s.opts=opts or {}
        s.cells={}          # cell root -> DT or None
        s.obl=[]            # recorded obligations
        s.record=True
        s.dry=0
        s.wmemo={}
        s.shape={}          # loop key -> {leaf key: varying component set}
        s.used_contracts=set(); s.inlined=set(); s.externals=set(); s.assumed=set()
        s.templates=[]
        s.t0=time.time(); s.budget=s.opts.get('budget',240)
        s.steps=0; s.oldstate=None
        s.dyn=s.opts.get('dyn',{})
        s.arrayptr=s.opts.get('arrayptr',{})
        s.noinline=set(s.opts.get('noinline',[]))
        s.loopinfo=[]
        s.houdini_kept={}
        s.maxpaths=s.opts.get('maxpaths',4000)
        s.current=None
        s.safety=s.opts.get('safety',False)
    # ------------------------------------------------------------ memory
    def leafterm(s,st,key,base):
        """whole term stored at key (array over its dims)"""
        if key in st.mem:
            v=st.mem[key]
            return v
        root,steps=key
        nd=steps.count('[]')+(1 if root=='H' else 0)
        gen=''
        for (r,pre,g) in st.hav:
            if r==root and steps[:len(pre)]==pre: gen='@'+g
        t=z3.Const(f"{root}{gen}|{'/'.join(steps)}",asort(base,nd))
        st.mem[key]=t
        if root=='H' and steps[-1:]==('len',):
            if nd==1: st.assume(ForAll(lambda i:t[i]>=0,pats=lambda i:[t[i]]))
            if nd==2: st.assume(ForAll(lambda i,j:t[i][j]>=0,pats=lambda i,j:[t[i][j]]))
        return t
    def ptr_from_term(s,st,t,laststep):
        tag=s.arrayptr.get(laststep)
        if tag: return Ptr('H',t,('A:'+tag,'[]'),(iv(0),))
        return Ptr('H',t)
    def ptr_to_term(s,v):
        if isinstance(v,Ptr):
            if v.root=='H' and not v.steps: return v.ref
            if v.root=='H' and len(v.steps)==2 and v.steps[0].startswith('A:') and isnum(v.dims[0]) and num(v.dims[0])==0: return v.ref
            if v.root.startswith('G:'):
                return s.gref(v)
        raise Unsupported(f"storing interior pointer {v}")
    def gref(s,v):
        c=z3.Const("addr:"+v.root+'/'.join(v.steps),I)
        return c
    def read(s,st,p,ty):
        s._fixroot(p)
        if isinstance(p,VSlot): return VFn(p.vt,p.n)
        if not isinstance(p,Ptr): raise Unsupported(f"load through {p!r}")
        if ty.kind=='struct' or ty.kind=='array':
            return s.read_agg(st,p,ty)
        p=s.raw(p,ty)
        if p.root.startswith('G:'):
            r=s.read_global(st,p,ty)
            if r is not None: return r
        key=p.key(); nd=p.alldims()
        if ty.kind=='ptr':
            if not nd:
                if key in st.mem:
                    v=st.mem[key]
                    if z3.is_expr(v): 
                        return s.ptr_from_term(st,v,p.steps[-1] if p.steps else None)
                    return v
                # initial pointer in a cell: unknown heap object
                if p.root.startswith('P:') or p.root.startswith('G:'):
                    t=s.leafterm(st,key,I)
                    st.assume(z3.And(0<=t,t<st.nxt))
                    return s.ptr_from_term(st,t,p.steps[-1] if p.steps else None)
                return UNDEF
            t=seln(s.leafterm(st,key,I),nd)
            if not isnum(t): st.assume(z3.And(0<=t,t<st.nxt))
            return s.ptr_from_term(st,t,p.steps[-1] if p.steps and p.steps[-1]!='[]' else ('/'.join(p.steps)))
        base=R if ty.kind=='float' else I
        t=s.leafterm(st,key,base)
        if not z3.is_expr(t):
            if isinstance(t,Undef): return z3.Const(f"undef:{key}",base)
            raise Unsupported(f"scalar load of pointer leaf {key}")
        v=seln(t,nd)
        if v.sort()!=base:
            raise Unsupported(f"sort mismatch at {key}")
        return v
    def raw(s,p,ty):
        """direct access to a primitive through a heap pointer without field steps: element 0 of a raw array"""
        if p.root=='H' and not p.steps:
            nm={'float':'double','int':f'i{ty.bits}','ptr':'ptr'}.get(ty.kind)
            return Ptr('H',p.ref,('A:'+nm,'[]'),(iv(0),))
        return p
    def _fixroot(s,p): pass
    def read_agg(s,st,p,ty):
        if ty.kind=='struct' and not ty.name:
            dt=s.ptr_dt(p)
            vals=[]
            for i,e in enumerate(ty.elems):
                q=s.at_offset(p,dt,ty.offs[i]) if dt else p.step(f"{{}}+{ty.offs[i]}")
                vals.append(s.read(st,q,e))
            return Agg(vals)
        if ty.kind=='struct':
            vals=[]
            for i,e in enumerate(ty.elems):
                vals.append(s.read(st,p.step(f"{canon(ty.name)}+{ty.offs[i]}"),e))
            return Agg(vals)
        raise Unsupported("aggregate load")
    def at_offset(s,p,dt,off):
        """pointer to the scalar leaf of dt at byte offset off"""
        if dt.kind in('int','real','bool','ptr') and off==0: return p
        if dt.kind=='struct':
            for o,b in dt.bases:
                if o<=off<o+b.size and (b.members or b.bases):
                    r=s.at_offset(p,b,off-o)
                    if r is not None: return r
            for n,o,t in dt.members:
                if o<=off<o+max(t.size,1): return s.at_offset(p.step(f"{cname(dt.name)}+{o}"),t,off-o)
        return None
    def ptr_dt(s,p):
        """DT of the pointee if known"""
        dt=None
        if p.root!='H': dt=s.cells.get(p.root)
        i=0; steps=p.steps
        # restart from last typed step
        for k in range(len(steps)-1,-1,-1):
            if '+' in steps[k] and steps[k]!='[]':
                c,o=steps[k].rsplit('+',1)
                t=None
                for q in s.p.types:
                    pass
                t=s.named(c)
                if t is None: return None
                for n,oo,mt in t.members:
                    if oo==int(o): dt=mt; i=k+1; break
                else: return None
                break
        else:
            if p.root=='H': return None
        for stp in steps[i:]:
            if dt is None: return None
            if stp=='[]':
                if dt.kind=='struct' and cname(dt.name) in SEQ: dt=s.p.di.targ(dt,0)
                elif dt.kind=='array': dt=dt.to
                else: return None
            elif '+' in stp:
                c,o=stp.rsplit('+',1); t=s.named(c)
                r=None
                for n,oo,mt in (t.members if t else []):
                    if oo==int(o): r=mt
                dt=r
            else: return None
        return dt
    def named(s,c):
        t=s.p.di.named(c)
        return t
    def read_global(s,st,p,ty):
        if p.key() in st.mem: return None
        name=p.root[2:]
        if name in s.m.gl:
            gty,init,const=s.m.glob(name)
            if init is not None and const and not p.steps:
                if init.k in('int','real','null'): return s.const(init)
            if init is not None and const and p.steps:
                # constant array/struct with constant index
                v=init
                ds=list(p.dims)
                for stp in p.steps:
                    if stp=='[]':
                        d=ds.pop(0)
                        if not isnum(d) or v.k not in('agg',): return None
                        v=v.ops[num(d)]
                    else:
                        return None
                if v.k in('int','real','null'): return s.const(v)
        return None
    def write(s,st,p,ty,v):
        if not isinstance(p,Ptr): raise Unsupported(f"store through {p!r}")
        if isinstance(v,(Agg,)) or ty.kind=='struct':
            return s.write_agg(st,p,ty,v)
        if isinstance(v,VT) or (isinstance(v,Ptr) and v.root.startswith('G:_ZT')):
            return
        p=s.raw(p,ty)
        key=p.key(); nd=p.alldims()
        st.w.add(key)
        if not nd:
            if ty.kind!='ptr' and not z3.is_expr(v):
                if isinstance(v,(Undef,PInt)): pass
            st.mem[key]=v
            return
        base=R if ty.kind=='float' else I
        if ty.kind=='ptr': v=s.ptr_to_term(v) if not isinstance(v,Undef) else z3.Const(f"undef:{key}",I)
        elif isinstance(v,Undef): v=z3.Const(f"undef:{key}",base)
        t=s.leafterm(st,key,base)
        st.mem[key]=storen(t,nd,v)
    def write_agg(s,st,p,ty,v):
        if isinstance(v,Undef): return
        dt=s.ptr_dt(p)
        for i,e in enumerate(ty.elems):
            if dt: q=s.at_offset(p,dt,ty.offs[i])
            elif ty.name: q=p.step(f"{canon(ty.name)}+{ty.offs[i]}")
            else: q=p.step(f"{{}}+{ty.offs[i]}")
            if q is None: raise Unsupported("aggregate store")
            s.write(st,q,e,v.vals[i])
    # sub-object access by relative steps (for containers, views)
    def rd(s,st,p,rel,base):
        """term at p+rel: scalar, or array if rel contains []"""
        key=(p.root,p.steps+tuple(rel))
        t=s.leafterm(st,key,base)
        if not z3.is_expr(t):
            t=s.ptr_to_term(t) if isinstance(t,Ptr) else (z3.Const(f"undef:{key}",base) if isinstance(t,Undef) else t)
        return seln(t,p.alldims())
    def wr(s,st,p,rel,v,base):
        key=(p.root,p.steps+tuple(rel))
        st.w.add(key)
        d=p.alldims()
        if not d: st.mem[key]=v
        else: st.mem[key]=storen(s.leafterm(st,key,base),d,v)
    def copy_obj(s,st,dst,src,dt):
        vals=[]
        for rel,base,isp in s.p.leaves(dt):
            if isp and not src.alldims() and '[]' not in rel:
                key=(src.root,src.steps+rel)
                v=s.read(st,src.steps_(rel),PTRTY)
                if dst.alldims(): v=s.ptr_to_term(v) if isinstance(v,Ptr) else z3.Const(f"undef:{key}",I)
            else: v=s.rd(st,src,rel,base)
            vals.append((rel,v,base))
        for rel,v,base in vals: s.wr(st,dst,rel,v,base)
    def length(s,st,c):
        v=s.rd(st,c,('len',),I)
        if not isnum(v): st.assume(v>=0)
        return v
    def havoc_obj(s,st,p,dt,tag):
        for rel,base,isp in s.p.leaves(dt):
            nd=rel.count('[]')
            v=z3.Const(f"{tag}|{p.root}|{'/'.join(p.steps+tuple(rel))}",asort(base,nd))
            if rel[-1:]==('len',) and nd==0: st.assume(v>=0)
            if isp and nd==0: st.assume(z3.And(0<=v,v<st.nxt))
            s.wr(st,p,rel,v,base)
    def fresh_ref(s,st,site):
        r=z3.Const(f"new:{site}",I)
        st.assume(r==st.nxt)
        n=z3.Const(f"nxt:{site}",I)
        st.assume(n==r+1)
        st.nxt=n
        return r
    # ------------------------------------------------------------ values
    def const(s,v):
        if v.k=='int':
            if v.ty.bits==1: return z3.BoolVal(bool(v.v))
            return iv(v.v)
        if v.k=='real':
            if v.v!=v.v: return z3.Const("real_nan",R)
            if v.v in(float('inf'),float('-inf')):
                c=z3.Const("real_inf",R)
                return c if v.v>0 else -c
            return rv(v.v)
        if v.k=='null': return null()
        if v.k=='undef':
            return UNDEF
        if v.k=='global': return Ptr('G:'+v.name)
        if v.k=='func': return FnPtr(v.name)
        if v.k=='meta': return v
        if v.k=='zero':
            if v.ty.kind=='struct': return Agg([s.zeroof(e) for e in v.ty.elems])
        if v.k=='agg': return Agg([s.const(o) for o in v.ops])
        if v.k=='cexpr':
            if v.v=='gep':
                base=s.const(v.ops[0])
                if isinstance(base,Ptr) and base.root.startswith('G:_ZTV'): return base
                return s.gep(v.extra,base,[s.const(o) for o in v.ops[1:]])
            if v.v in('bitcast','addrspacecast'): return s.const(v.ops[0])
        raise Unsupported(f"constant {v.k} {v.v}")
    def zeroof(s,ty):
        if ty.kind=='ptr': return null()
        if ty.kind=='float': return rv(0)
        if ty.kind=='int': return FALSE if ty.bits==1 else iv(0)
        if ty.kind=='struct': return Agg([s.zeroof(e) for e in ty.elems])
        raise Unsupported("zero "+repr(ty))
    def val(s,st,v):
        if v.k=='local':
            try: return st.env[v.v]
            except KeyError: raise Unsupported(f"value {v.name} undefined")
        return s.const(v)
    def gep(s,src,p,idx):
        if isinstance(p,VT):
            return VSlot(p,num(idx[0]))
        if isinstance(p,Undef): return UNDEF
        if not isinstance(p,Ptr): raise Unsupported(f"gep on {p!r}")
        i0=idx[0]
        if not (isnum(i0) and num(i0)==0):
            if src.kind=='int' and src.bits==8 and not(p.steps and p.steps[-1]=='[]'):
                # byte offset: base-class adjustment
                if len(idx)==1 and isnum(i0) and p.root!='H' or not p.root.startswith('G:'): 
                    dt=s.ptr_dt(p)
                    return p if not s.opts.get('strict_i8') else (_ for _ in ()).throw(Unsupported("i8 gep"))
            if p.steps and p.steps[-1]=='[]':
                p=Ptr(p.root,p.ref,p.steps,p.dims[:-1]+(add(p.dims[-1],i0),))
            elif p.root=='H' and not p.steps:
                nm={'float':'double','int':f'i{src.bits}','ptr':'ptr','struct':canon(src.name) if src.name else '?'}.get(src.kind)
                p=Ptr('H',p.ref,('A:'+nm,'[]'),(i0,))
            else: raise Unsupported(f"pointer arithmetic on {p}")
        ty=src
        for i in idx[1:]:
            if ty.kind=='struct':
                k=num(i)
                p=p.step(f"{canon(ty.name) if ty.name else '{}'}+{ty.offs[k]}")
                ty=ty.elems[k]
            elif ty.kind=='array':
                p=p.index(i); ty=ty.elem
            else: raise Unsupported("gep type")
        return p
    def ptr_eq(s,a,b):
        if isinstance(a,Undef) or isinstance(b,Undef): return z3.Const("undef_cmp",B)
        if isinstance(a,FnPtr) or isinstance(b,FnPtr):
            if isinstance(a,FnPtr) and isinstance(b,FnPtr): return z3.BoolVal(a.name==b.name)
            return FALSE
        if not(isinstance(a,Ptr) and isinstance(b,Ptr)): raise Unsupported("pointer comparison")
        if a.root==b.root and a.steps==b.steps:
            return And(*[x==y for x,y in zip(a.alldims(),b.alldims()) if not x.eq(y)])
        if a.root=='H' and b.root=='H':
            # base object against array element 0 / interior
            if not a.steps and len(b.steps)==2 and b.steps[0].startswith('A:'): return And(a.ref==b.ref,b.dims[0]==0)
            if not b.steps and len(a.steps)==2 and a.steps[0].startswith('A:'): return And(a.ref==b.ref,a.dims[0]==0)
            if not a.steps and isnum(a.ref) and num(a.ref)==0: return FALSE
            if not b.steps and isnum(b.ref) and num(b.ref)==0: return FALSE
            return FALSE
        if a.root.startswith('G:') and b.root=='H' and not b.steps: return s.gref(a)==b.ref
        if b.root.startswith('G:') and a.root=='H' and not a.steps: return s.gref(b)==a.ref
        return FALSE
    def tobool(s,v):
        if z3.is_bool(v): return v
        return v!=0
    def toint(s,v):
        if z3.is_expr(v) and z3.is_bool(v): return z3.If(v,iv(1),iv(0)) if not(z3.is_true(v) or z3.is_false(v)) else iv(1 if z3.is_true(v) else 0)
        return v
    # ------------------------------------------------------------ obligations
    def oblige(s,st,name,goal,info=None):
        if not s.record or s.dry: 
            return
        s.obl.append((name,list(st.pc),lift(goal),info,st.trace))
    # ------------------------------------------------------------ execution
    def tick(s):
        s.steps+=1
        if s.steps%64==0 and time.time()-s.t0>s.budget: raise Budget(f"time budget ({s.budget}s)")
    def run_fn(s,name,args,st,path):
        """-> [(state, retval)]"""
        F=s.m.func(name)
        if F is None: raise Unsupported("no body: "+s.p.dem.get(name,name))
        if F.irreducible: raise Unsupported("irreducible control flow in "+s.p.dem.get(name,name))
        depth=path.count('>')
        if depth>24: raise Unsupported("inlining depth at "+s.p.dem.get(name,name))
        fr=Frame(F,path,depth)
        outer=st.env; st.env={}
        # clear cells of this frame
        pre=path+'/'
        for k in [k for k in st.mem if k[0].startswith(pre)]: del st.mem[k]
        for prm,a in zip(F.params,args): st.env[prm.v]=a
        outs=[]
        for o in s.exec_from(fr,0,None,st,None):
            kind=o[0]
            if kind=='ret':
                _,st2,v=o
                st2.env=dict(outer)
                outs.append((st2,v))
            else: raise Unsupported("unexpected outcome "+kind)
        return outs
    def exec_from(s,fr,block,pred,st,active,first=True):
        """outcomes: ('ret',st,v) ('back',st,pred) ('exit',block,pred,st)"""
        F=fr.fn
        work=[(block,pred,st,first)]
        outs=[]
        body=F.loops[active] if active is not None else None
        while work:
            b,pr,st,fst=work.pop()
            s.tick()
            if not fst or active is None:
                if active is not None and b==active:
                    outs.append(('back',st,pr)); continue
                if body is not None and b not in body:
                    outs.append(('exit',b,pr,st)); continue
                if b in F.loops and b!=active:
                    for o in s.run_loop(fr,b,pr,st):
                        if o[0]=='exit': work.append((o[1],o[2],o[3],False))
                        else: outs.append(o)
                    continue
            for nb,nst in s.exec_block(fr,b,pr,st,outs):
                work.append((nb,b,nst,False))
            if len(outs)+len(work)>s.maxpaths: raise Unsupported("path explosion")
        return outs
    def exec_block(s,fr,b,pred,st,outs):
        """execute a block, forking at calls; returns [(succ block, state)] and appends ret outcomes"""
        B=fr.fn.blocks[b]
        # phis
        phis=[]
        for ins in B.insts:
            if ins.op!='phi': break
            for (pb,v) in ins.inc:
                if pb==pred: phis.append((ins.res,s.val(st,v))); break
            else: raise Unsupported("phi")
        for r,v in phis: st.env[r]=v
        res=[]
        work=[(st,len(phis))]
        while work:
            st,i=work.pop()
            n=len(B.insts)
            while i<n:
                ins=B.insts[i]; i+=1
                op=ins.op
                if op in('call','invoke'):
                    rs=s.call(fr,ins,st)
                    if rs is None: continue         # no effect, continue with same state
                    if len(rs)==0: st=None; break   # path ends
                    for st2 in rs[1:]: work.append((st2,i))
                    st=rs[0]
                    continue
                if op=='br':
                    if ins.cond is None: res.append((ins.succ[0],st)); st=None; break
                    c=s.tobool(s.val(st,ins.cond)) if not isinstance(s.val(st,ins.cond),Undef) else z3.Const(f"undefc:{fr.path}:{ins.line}",logic.B)
                    if z3.is_true(c): res.append((ins.succ[0],st)); st=None; break
                    if z3.is_false(c): res.append((ins.succ[1],st)); st=None; break
                    # llvm br: operand order true, false = successors 0,1
                    st2=st.copy()
                    st.assume(c); st2.assume(z3.Not(c))
                    st.trace=st.trace+((ins.line,True),); st2.trace=st2.trace+((ins.line,False),)
                    f2=feasible(st2.pc); f1=feasible(st.pc)
                    if f2: res.append((ins.succ[1],st2))
                    if f1: res.append((ins.succ[0],st))
                    st=None; break
                if op=='switch':
                    v=s.val(st,ins.cond)
                    rest=[]
                    for cval,sb in zip(ins.ops,ins.succ[1:]):
                        st2=st.copy(); st2.assume(v==cval)
                        rest.append(v!=cval)
                        if feasible(st2.pc): res.append((sb,st2))
                    st.assume(And(*rest))
                    if feasible(st.pc): res.append((ins.succ[0],st))
                    st=None; break
                if op=='ret':
                    outs.append(('ret',st,s.val(st,ins.ops[0]) if ins.ops else None)); st=None; break
                if op=='unreachable': st=None; break
                st.env[ins.res]=s.inst(fr,ins,st)
        return res
    def inst(s,fr,ins,st):
        op=ins.op
        if op=='alloca':
            root=f"{fr.path}/{ins.res}"
            if root not in s.cells:
                s.cells[root]=s.ll_dt(ins.src_ty)
            if ins.src_ty.kind in('int','float') and (root,()) not in st.mem:
                st.mem[(root,())]=z3.Const("undef:"+root,I if ins.src_ty.kind=='int' else R)
            return Ptr(root)
        if op=='load': 
            p=s.val(st,ins.ops[0])
            if ins.ty.kind=='ptr' and isinstance(p,Ptr) and ins.name.startswith('vtable'): return VT(p)
            return s.read(st,p,ins.ty) if not isinstance(p,Undef) else UNDEF
        if op=='store':
            v=s.val(st,ins.ops[0]); ty=ins.ops[0].ty
            s.write(st,s.val(st,ins.ops[1]),ty,s.toint(v) if ty.kind=='int' else v); return None
        if op=='gep': return s.gep(ins.src_ty,s.val(st,ins.ops[0]),[s.val(st,o) for o in ins.ops[1:]])
        if op in('bitcast','addrspacecast','freeze'): return s.val(st,ins.ops[0])
        a=s.val(st,ins.ops[0]) if ins.ops else None
        b=s.val(st,ins.ops[1]) if len(ins.ops)>1 else None
        if op in('icmp',):
            if isinstance(a,(Ptr,FnPtr)) or isinstance(b,(Ptr,FnPtr)):
                if ins.pred in('eq','ne'):
                    e=s.ptr_eq(a,b); return e if ins.pred=='eq' else Not(e)
                if isinstance(a,Ptr) and isinstance(b,Ptr) and a.root==b.root and a.steps==b.steps and a.dims:
                    x,y=a.dims[-1],b.dims[-1]
                else: raise Unsupported("pointer order")
                a,b=x,y
            if isinstance(a,PInt) or isinstance(b,PInt): raise Unsupported("int compare of pointer")
            if isinstance(a,Undef) or isinstance(b,Undef): return z3.Const(f"undefcmp:{fr.path}:{ins.res}",logic.B)
            if isinstance(a,VT) : return z3.Const("vtcmp",logic.B)
            if z3.is_bool(a) or z3.is_bool(b): a=s.toint(a); b=s.toint(b)
            pr=ins.pred
            if pr=='eq': r=a==b
            elif pr=='ne': r=a!=b
            else:
                if pr[0]=='u' and s.safety:
                    for x in (a,b):
                        if not isnum(x): s.oblige(st,'unsigned operand non-negative',x>=0)
                r={'gt':a>b,'ge':a>=b,'lt':a<b,'le':a<=b}[pr[1:]]
            r_=z3.simplify(r) if isnum(a) and isnum(b) else r
            return r_
        if isinstance(a,Undef) or isinstance(b,Undef):
            if ins.ty.kind=='float': return z3.Const(f"undef:{fr.path}:{ins.res}",R)
            if ins.ty.kind=='int': return z3.Const(f"undef:{fr.path}:{ins.res}",logic.B if ins.ty.bits==1 else I)
            return UNDEF
        if op=='fcmp':
            pr=ins.pred
            if pr in('true','ord'): return TRUE
            if pr in('false','uno'): return FALSE
            p2=pr[1:]
            if p2=='eq': return a==b
            if p2=='ne': return a!=b
            return {'gt':a>b,'ge':a>=b,'lt':a<b,'le':a<=b}[p2]
        if op=='fadd': return z3.simplify(a+b) if z3.is_rational_value(a) and z3.is_rational_value(b) else a+b
        if op=='fsub': return a-b
        if op=='fmul': return a*b
        if op=='fneg': return -a
        if op=='fdiv':
            return a/b
        if op in('add','sub','mul') and (isinstance(a,PInt) or isinstance(b,PInt)):
            if op=='sub' and isinstance(a,PInt) and isinstance(b,PInt):
                x,y=a.p,b.p
                if x.root==y.root and x.steps==y.steps and x.dims:
                    return ('pdiff',sub(x.dims[-1],y.dims[-1]))
            raise Unsupported("pointer integer arithmetic")
        if isinstance(a,tuple) and a[0]=='pdiff':
            if op in('sdiv','udiv','ashr'): return a[1]
            raise Unsupported("pdiff")
        if op=='add': return add(a,b)
        if op=='sub': return sub(a,b)
        if op=='mul': return mul(a,b)
        if op in('sdiv','udiv'):
            q=a/b
            if op=='sdiv' : q=z3.If(a>=0,a/b,-((-a)/b)) if not(isnum(a) and isnum(b)) else iv(int(num(a)/num(b)))
            return q
        if op in('srem','urem'):
            if op=='srem': return z3.If(a>=0,a%b,-((-a)%b))
            return a%b
        if op in('and','or','xor'):
            if z3.is_bool(a) or z3.is_bool(b):
                a=s.tobool(a); b=s.tobool(b)
                return z3.And(a,b) if op=='and' else z3.Or(a,b) if op=='or' else z3.Xor(a,b) if not z3.is_true(b) else z3.Not(a)
            if isnum(a) and isnum(b):
                return iv({'and':num(a)&num(b),'or':num(a)|num(b),'xor':num(a)^num(b)}[op])
            if op=='and' and isnum(b) and (num(b)+1)&num(b)==0 and num(b)>=0: return a%iv(num(b)+1)
            f=z3.Function('bit'+op,I,I,I); return f(a,b)
        if op=='shl' and isnum(b): return mul(a,iv(1<<num(b)))
        if op in('ashr','lshr') and isnum(b): return a/iv(1<<num(b))
        if op=='trunc':
            if ins.ty.bits==1: return s.tobool(a)
            return a
        if op in('zext','sext'):
            return s.toint(a) if z3.is_expr(a) else a
        if op in('sitofp','uitofp'):
            a=s.toint(a)
            return rv(num(a)) if isnum(a) else z3.ToReal(a)
        if op in('fptosi','fptoui'):
            if z3.is_app_of(a,z3.Z3_OP_TO_REAL): return a.arg(0)
            return z3.If(a>=0,z3.ToInt(a),-z3.ToInt(-a))
        if op in('fpext','fptrunc'): return a
        if op=='ptrtoint': return PInt(a)
        if op=='inttoptr':
            if isinstance(a,PInt): return a.p
            raise Unsupported("inttoptr")
        if op=='select':
            c=s.tobool(a); y=s.val(st,ins.ops[2])
            if z3.is_true(c): return b
            if z3.is_false(c): return y
            if isinstance(b,Ptr) or isinstance(y,Ptr): raise Unsupported("select of pointers")
            if z3.is_bool(b) or z3.is_bool(y): return z3.If(c,s.tobool(b),s.tobool(y))
            return z3.If(c,b,y)
        if op=='extractvalue':
            v=a
            for k in ins.idx: v=v.vals[k]
            return v
        if op=='insertvalue':
            v=Agg(a.vals) if isinstance(a,Agg) else Agg([UNDEF]*len(ins.ty.elems))
            if len(ins.idx)!=1: raise Unsupported("insertvalue")
            v.vals[ins.idx[0]]=b
            return v
        raise Unsupported("instruction "+op)
    def ll_dt(s,ty):
        if ty.kind=='struct' and ty.name:
            n=re.sub(r'^(class|struct|union)\.','',ty.name)
            n=re.sub(r'\.\d+$','',n)
            return s.p.di.named(n)
        return None
    # ------------------------------------------------------------ loops
    def run_loop(s,fr,h,pred,st):
        F=fr.fn
        lk=(fr.path,F.name,h)
        lname=f"L{h}@{fr.path}"
        wsave=st.w
        W=s.wmemo.setdefault(lk,set())
        shape=s.shape.setdefault(lk,{})
        pre=fr.path+'/'
        def live(k):
            # cells of inlined callee frames die with their frame
            r=k[0]
            return not (r.startswith(fr.path+'>'))
        rounds=0
        bounds=[]
        while True:
            rounds+=1
            if rounds>12: raise Unsupported("loop write-set does not stabilise")
            s.dry+=1
            try:
                hst=s.havoc_loop(st,W,shape,lname)
                npc=len(hst.pc)
                hst.w=set()
                outs=s.exec_from(fr,h,pred,hst.copy(),h,True)
            finally: s.dry-=1
            changed=False
            for o in outs:
                ost=o[1] if o[0]!='exit' else o[3]
                for k in ost.w:
                    if live(k) and k not in W:
                        W.add(k); changed=True
                if o[0]=='back':
                    for k in W:
                        v0=hst.mem.get(k); v1=ost.mem.get(k)
                        if isinstance(v0,Ptr) or isinstance(v1,Ptr):
                            changed|=s.merge_shape(shape,k,v0,v1)
                if o[0]=='back' and ost.nxt is not hst.nxt and 'nxt' not in shape:
                    shape['nxt']=True; changed=True
            if not changed: break
        s.wmemo[lk]=W
        if s.dry:
            # write sets are stable; no invariants needed for a dry run
            st_w=set(wsave)
            res=[]
            for o in outs:
                if o[0]=='back': continue
                ost=o[1] if o[0]!='exit' else o[3]
                ost.w=st_w|W|ost.w
                res.append(o)
            return res
        # heap arrays written only in the rows of fixed objects: the other rows keep their value
        rows={}
        for k in W:
            if not k[0].startswith('H'): continue
            c=hst.mem.get(k); v1=next((o[1].mem.get(k) for o in outs if o[0]=='back'),None)
            if not(z3.is_expr(v1) and v1.sort_kind()==z3.Z3_ARRAY_SORT and v1.domain()==I): continue
            if c is None:
                so=v1.sort()
                while isinstance(so,z3.ArraySortRef): so=so.range()
                s.leafterm(st,k,so)
                nm=f"H@{lname}|{'/'.join(k[1])}"; c=z3.Const(nm,v1.sort())
            t0=st.mem.get(k)
            if not(z3.is_expr(c) and z3.is_const(c) and z3.is_expr(t0)) or c.eq(t0): continue
            rs={}; ok=True
            for o in outs:
                if o[0]!='back': continue
                todo=[o[1].mem.get(k)]
                while todo and ok:
                    t=todo.pop()
                    if t is None: ok=False
                    elif t.eq(c): pass
                    elif z3.is_app_of(t,z3.Z3_OP_ITE): todo+=[t.arg(1),t.arg(2)]
                    elif z3.is_app_of(t,z3.Z3_OP_STORE) and z3.is_const(t.arg(1)) and t.arg(1).decl().name().startswith('P:') and '|' not in t.arg(1).decl().name(): rs[t.arg(1).get_id()]=t.arg(1); todo.append(t.arg(0))
                    else: ok=False
            if ok and rs: rows[k]=list(rs.values())
        shape['rows']=rows
        if os.environ.get('ZV_ROWS'): print('ROWS',lname,{str(k):[str(x) for x in v] for k,v in rows.items()})
        # candidates
        hst=s.havoc_loop(st,W,shape,lname)
        lctx=LoopCtx(s,fr,h,st,hst,W,outs,shape)
        cands=s.gen_candidates(lctx)
        K=[]
        t1=time.time()
        es=st.copy()
        pend=[]
        for c in cands:
            try: f=c.f(st)
            except (Unsupported,AttributeError,KeyError,z3.Z3Exception,TypeError,IndexError) as e:
                if os.environ.get('ZV_CAND'): print("cand",c.name,"inapplicable",repr(e)[:100])
                continue
            if f is None: continue
            pend.append((c,lift(f)))
        K=s.filter_provable(st.pc,pend)
        saveobl=s.obl; saveloops=len(s.loopinfo)
        it=0
        while True:
            it+=1
            s.obl=[]
            hst=s.havoc_loop(st,W,shape,lname)
            for c in K: hst.assume(c.f(hst))
            hst.w=set()
            outs=s.exec_from(fr,h,pred,hst.copy(),h,True)
            backs=[o[1] for o in outs if o[0]=='back']
            K2=K
            for bst in backs:
                pend=[]
                for c in K2:
                    try: pend.append((c,lift(c.f(bst))))
                    except (Unsupported,AttributeError,KeyError,z3.Z3Exception,TypeError,IndexError) as e: pass
                K2=s.filter_provable(bst.pc,pend)
            if len(K2)==len(K): break
            if os.environ.get('ZV_CAND'):
                print(f"  {lname} round {it}: dropped",[c.name for c in K if c not in K2])
            K=K2
            if it>25: raise Unsupported("houdini does not converge")
        s.houdini_kept[lname]=[c.name for c in K]
        if os.environ.get('ZV_CAND'): print(f"  {lname}: kept",[c.name for c in K],f"of {len(cands)} in {it} rounds {time.time()-t1:.1f}s")
        bobl=s.obl; s.obl=saveobl
        s.obl.extend(bobl)
        for c in K:
            s.n_inv=getattr(s,'n_inv',0)+1+len(backs)
        res=[]
        for o in outs:
            if o[0]=='back': continue
            ost=o[1] if o[0]!='exit' else o[3]
            ost.w=wsave|W|ost.w
            res.append(o)
        return res
    def filter_provable(s,pc,pend):
        """subset of candidates implied by pc"""
        import logic
        nl=logic.NL[0]; logic.NL[0]=nl and s.opts.get('nl_cand',True)
        try: return s.filter_provable1(pc,pend)
        finally: logic.NL[0]=nl
    def filter_provable1(s,pc,pend):
        if not pend: return []
        if all(z3.is_true(f) for _,f in pend): return [c for c,_ in pend]
        to=s.opts.get('cand_timeout',1500)
        if len(pend)>1 and prove(pc,And(*[f for _,f in pend]),to): return [c for c,_ in pend]
        s.tick()
        if time.time()-s.t0>s.budget: raise Budget("time budget")
        dbg=os.environ.get('ZV_CF')
        if dbg:
            for c,f in pend:
                if dbg in c.name:
                    w={}
                    if not prove(pc,f,to,w):
                        print("CANDFAIL",c.name,w.get('reason'),w.get('goal','')[:600])
                        open('/tmp/w/cf.smt2','w').write(w.get('smt2') or '')
        return [c for c,f in pend if prove(pc,f,to)]
    def merge_shape(s,shape,k,v0,v1):
        cur=shape.setdefault(k,set())
        if cur=={'opaque'} or 'opaque' in cur: return False
        n=len(cur)
        if isinstance(v0,Undef) or v0 is None or isinstance(v1,Undef) or v1 is None:
            if v0 is v1: return False
            # uninitialised at entry: value at the header is meaningless
            cur.add('opaque'); return True
        if not(isinstance(v0,Ptr) and isinstance(v1,Ptr)): 
            cur.add('opaque'); return True
        if v0.root!=v1.root or v0.steps!=v1.steps:
            cur.add('opaque'); return True
        if v0.root=='H' and not v0.ref.eq(v1.ref): cur.add('ref')
        for i,(a,b) in enumerate(zip(v0.dims,v1.dims)):
            if not a.eq(b): cur.add(i)
        return len(cur)!=n
    def havoc_loop(s,st,W,shape,lname):
        h=st.copy()
        for k in W:
            if k not in st.mem and k[0].startswith('H')==False and k[0] not in s.cells and not k[0].startswith(('P:','G:','T:')):
                continue
            v=st.mem.get(k)
            sh=shape.get(k,set())
            nm=f"{lname}|{k[0]}|{'/'.join(k[1])}"
            if isinstance(v,Ptr) or isinstance(v,Undef) or ('opaque' in sh):
                if 'opaque' in sh: h.mem[k]=UNDEF; continue
                if isinstance(v,Undef): continue
                if not sh: continue
                ref=v.ref
                if 'ref' in sh:
                    ref=z3.Const(nm+"|ref",I)
                dims=tuple(z3.Const(f"{nm}|d{i}",I) if i in sh else d for i,d in enumerate(v.dims))
                if 'ref' in sh: pass
                h.mem[k]=Ptr(v.root,ref,v.steps,dims)
                continue
            if v is None:
                # never read before: sort unknown; leave lazily fresh via generation
                h.hav.append((k[0],k[1],lname))
                continue
            if z3.is_expr(v):
                h.mem[k]=z3.Const(nm,v.sort())
                if not s.dry and k in shape.get('rows',{}):
                    n=h.mem[k]; h.mem[k]=v
                    for r in shape['rows'][k]: h.mem[k]=z3.Store(h.mem[k],r,n[r])
                if k[1][-1:]==('len',) and v.sort()==I: h.assume(h.mem[k]>=0)
            elif isinstance(v,(PInt,tuple,FnPtr,VT)):
                h.mem[k]=UNDEF
        if 'nxt' in shape:
            n=z3.Const(f"nxt|{lname}",I); h.assume(n>=st.nxt); h.nxt=n
        for k in W:
            v=h.mem.get(k)
            if isinstance(v,Ptr) and v.root=='H' and 'ref' in shape.get(k,set()):
                h.assume(z3.And(v.ref>=0,v.ref<h.nxt))
        return h
    def gen_candidates(s,lc):
        out=[]
        for ti,t in enumerate(GENERIC+s.templates):
            try:
                for c in t(lc): 
                    if c is not None:
                        if ti>len(GENERIC): c.name+=f"#{ti-len(GENERIC)}"
                        out.append(c)
            except (Unsupported,AttributeError,KeyError,IndexError,TypeError) as e:
                if os.environ.get('ZV_CAND'): print("template error",getattr(t,'__name__',t),repr(e)[:200])
        seen=set(); r=[]
        for c in out:
            if c.name not in seen: seen.add(c.name); r.append(c)
        return r
    # ------------------------------------------------------------ calls
    def call(s,fr,ins,st):
        """returns None (same state continues) or a list of states"""
        cal=ins.callee
        if cal.k=='func': name=cal.name
        else:
            f=s.val(st,cal)
            if isinstance(f,FnPtr): name=f.name
            elif isinstance(f,VFn): return s.vcall(fr,ins,st,f)
            else: raise Unsupported("indirect call")
        dn=s.p.dem.get(name,name)
        if name.startswith('llvm.'): return s.intrinsic(fr,ins,st,name)
        args=[s.val(st,o) for o in ins.ops]
        path=f"{fr.path}>{ins.res}"
        return s.do_call(fr,ins,st,name,dn,args,path)
    def do_call(s,fr,ins,st,name,dn,args,path):
        setr=lambda st2,v: st2.env.__setitem__(ins.res,v)
        c=s.C.get(dn)
        if c is not None and c is not s.opts.get('inline_only'):
            s.used_contracts.add(dn)
            outs=c.apply(s,st,args,path)
            r=[]
            for st2,v in outs: setr(st2,v); r.append(st2)
            return r
        if dn in EXITS or base_name(dn) in EXITS: 
            s.externals.add(dn+" (ends the path)")
            return []
        if dn=='__assert_fail':
            s.oblige(st,f"assert at line {ins.line} cannot fail",FALSE)
            return []
        m=self_model(s,fr,ins,st,name,dn,args,path)
        if m is not NotImplemented:
            if m is None: setr(st,UNDEF); return None
            if isinstance(m,list):
                r=[]
                for st2,v in m: setr(st2,v); r.append(st2)
                return r
            setr(st,m[0]); return None
        if s.m.defined(name):
            real=s.m.alias.get(name,name)
            if dn.startswith('std::') or dn.startswith('__gnu_cxx') or dn.split('(')[0].split(' ')[-1].startswith(('std::','__gnu_cxx')): pass
            else: s.inlined.add(dn)
            if dn in s.noinline: raise Unsupported("not inlining "+dn)
            outs=s.run_fn(real,args,st,path)
            r=[]
            for st2,v in outs: setr(st2,v); r.append(st2)
            return r
        raise Unsupported("external call "+dn)
    def vcall(s,fr,ins,st,f):
        cls=f.vt.cls
        if cls is None: raise Unsupported("virtual call without class")
        r=s.p.di.vslot(cls,f.n)
        if r is None: raise Unsupported(f"virtual slot {cls}/{f.n}")
        args=[s.val(st,o) for o in ins.ops]
        path=f"{fr.path}>{ins.res}"
        ln,nm=r
        # contract on the static class' method
        dn=s.p.dem.get(ln)
        if dn is None:
            dn=norm_dem(demangle([ln])[ln]); s.p.dem[ln]=dn
        d=s.dyn.get(cls)
        if d:
            r2=s.p.di.vslot(d,f.n)
            if r2: 
                ln=r2[0]; dn=s.p.dem.get(ln) or norm_dem(demangle([ln])[ln])
        elif dn not in s.C:
            # method overridden by the class the contract names exactly
            raise Unsupported("virtual call to "+dn+" has no contract")
        return s.do_call(fr,ins,st,ln,dn,args,path)
    def intrinsic(s,fr,ins,st,name):
        b='.'.join(name.split('.')[:2])
        if name.startswith('llvm.dbg') or name.startswith(('llvm.assume','llvm.lifetime','llvm.stacksave','llvm.stackrestore')):
            st.env[ins.res]=UNDEF; return None
        if name.startswith('llvm.trap'): return []
        args=[]
        if name.startswith('llvm.type.test'):
            v=s.val(st,ins.ops[0])
            md=ins.ops[1]
            if isinstance(v,VT):
                t=md.v
                if t and t.startswith('_ZTS'):
                    n=t[4:]; 
                    if n not in s.p.dem: s.p.dem['_ZTS'+n]=demangle(['_ZTS'+n])['_ZTS'+n]
                    v.cls=s.p.dem['_ZTS'+n].replace('typeinfo name for ','')
            st.env[ins.res]=TRUE; return None
        args=[s.val(st,o) for o in ins.ops]
        if name.startswith('llvm.fmuladd'): st.env[ins.res]=args[0]*args[1]+args[2]; return None
        if name.startswith('llvm.fabs'):
            a=args[0]; st.env[ins.res]=z3.If(a>=0,a,-a); return None
        if name.startswith(('llvm.memcpy','llvm.memmove')):
            s.memcpy(st,args[0],args[1]); return None
        if name.startswith('llvm.memset'):
            dt=s.ptr_dt(args[0])
            if dt is None or not isnum(args[1]) or num(args[1])!=0: raise Unsupported("memset")
            for rel,base,isp in s.p.leaves(dt):
                nd=rel.count('[]')
                z=rv(0) if base==R else iv(0)
                if isp and not nd and not args[0].alldims(): v=null()
                else:
                    v=z
                    for _ in range(nd): v=z3.K(I,v)
                s.wr(st,args[0],rel,v,base)
            return None
        for nm,f in (('llvm.smax',lambda a,b:z3.If(a>=b,a,b)),('llvm.smin',lambda a,b:z3.If(a<=b,a,b)),('llvm.umax',lambda a,b:z3.If(a>=b,a,b)),('llvm.umin',lambda a,b:z3.If(a<=b,a,b)),('llvm.maxnum',lambda a,b:z3.If(a>=b,a,b)),('llvm.minnum',lambda a,b:z3.If(a<=b,a,b))):
            if name.startswith(nm): st.env[ins.res]=f(args[0],args[1]); return None
        if name.startswith('llvm.abs'): st.env[ins.res]=z3.If(args[0]>=0,args[0],-args[0]); return None
        if name.startswith('llvm.floor'): st.env[ins.res]=z3.ToReal(z3.ToInt(args[0])); return None
        raise Unsupported(name)
    def memcpy(s,st,d,src):
        dt=s.ptr_dt(d) or s.ptr_dt(src)
        if dt is None:
            # local whose debug type is a template instance: copy the leaves present in the source cell
            if src.root in s.cells and not src.alldims() and not d.alldims():
                n=len(src.steps); hit=False
                for k in [k for k in st.mem if k[0]==src.root and k[1][:n]==src.steps]:
                    k2=(d.root,d.steps+k[1][n:]); st.mem[k2]=st.mem[k]; st.w.add(k2); hit=True
                if hit: return
            raise Unsupported(f"memcpy of unknown type {d} {src}")
        s.copy_obj(st,d,src,dt)

class _T: pass
PTRTY=_T(); PTRTY.kind='ptr'; PTRTY.bits=None; PTRTY.name=None
INTTY=_T(); INTTY.kind='int'; INTTY.bits=32; INTTY.name=None
FLTTY=_T(); FLTTY.kind='float'; FLTTY.bits=64; FLTTY.name=None

class Cand:
    __slots__=("name","f")
    def __init__(s,name,f): s.name=name; s.f=f

class LoopCtx:
    """what a loop-invariant template may look at: typed variables in scope, never their names"""
    def __init__(s,ex,fr,h,st,hst,W,outs,shape):
        s.ex=ex; s.fr=fr; s.h=h; s.entry=st; s.hst=hst; s.W=W; s.outs=outs; s.shape=shape
        s.old=ex.oldstate
    def label(s,k):
        return k[0].split('/')[-1] if False else f"{k[0]}{'.'.join(k[1])}"
    def alive(s,k):
        return not k[0].startswith(s.fr.path+'>') and not k[0].startswith('T:'+s.fr.path+'>')
    def dedupe(s,keys,val):
        seen=set(); r=[]
        for k in sorted(keys):
            i=val(k)
            if k not in s.W:
                if i in seen: continue
                seen.add(i)
            r.append(k)
        return r
    def scalars(s,sort,inW=None):
        r=[]
        for k,v in s.hst.mem.items():
            if (k[0] in s.ex.cells or k[0].startswith('T:')) and s.alive(k):
                if z3.is_expr(v) and v.sort()==sort and not k[1]:
                    if k not in s.W and z3.is_const(v) and v.decl().name().startswith('undef:'): continue
                    if inW is None or (k in s.W)==inW: r.append(k)
        return s.dedupe(r,lambda k:s.hst.mem[k].get_id())
    def ints(s,inW=None): return s.scalars(I,inW)
    def reals(s,inW=None): return s.scalars(R,inW)
    def ptrs(s,inW=None,frame=False):
        """local pointer/iterator variables (keys)"""
        r=[]
        for k,v in s.hst.mem.items():
            if k[0] in s.ex.cells and isinstance(v,Ptr) and s.alive(k) and (not frame or k[0].startswith(s.fr.path+'/')):
                if inW is None or (k in s.W)==inW: r.append(k)
        return s.dedupe(r,lambda k:(s.hst.mem[k].key(),tuple(d.get_id() for d in s.hst.mem[k].alldims())))
    def positions(s,inW=None,frame=False):
        """iterators into sequences: keys whose value is an element pointer"""
        return [k for k in s.ptrs(inW,frame) if s.hst.mem[k].steps[-1:]==('[]',)]
    def get(s,st,k):
        return st.mem[k]
    def pos(s,st,k): return st.mem[k].dims[-1]
    def seq(s,st,k):
        p=st.mem[k]
        return Ptr(p.root,p.ref,p.steps[:-1],p.dims[:-1])
    def seqsig(s,k):
        p=s.hst.mem[k]
        return (p.root,p.steps[:-1],tuple(d.get_id() for d in p.alldims()[:-1]))

def g_bounds(lc):
    """comparisons of a changing int / position with a loop-invariant term found in the loop's branch conditions"""
    hs={}
    for k in lc.ints(True): hs[lc.hst.mem[k].get_id()]=('i',k)
    for k in lc.positions(True):
        hs[lc.hst.mem[k].dims[-1].get_id()]=('p',k)
    changing=set(hs)
    fresh_prefix=f"L{lc.h}@{lc.fr.path}"
    def invariant(t):
        for x in subterms(t):
            if z3.is_const(x) and x.decl().kind()==z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(fresh_prefix+'|'): return False
            if z3.is_const(x) and x.decl().kind()==z3.Z3_OP_UNINTERPRETED:
                n=x.decl().name()
                if ('>' in n and n.startswith(('L','new:','undef')) and fresh_prefix not in n and n.split('|')[0].split('@')[-1].startswith(lc.fr.path+'>')): return False
        return True
    n0=len(lc.hst.pc)
    seen=set()
    for o in lc.outs:
        st=o[1] if o[0]!='exit' else o[3]
        for f in flat(st.pc):
            neg=False
            g=f
            while z3.is_not(g): g=g.arg(0)
            if not (z3.is_app(g) and g.num_args()==2 and (z3.is_le(g) or z3.is_lt(g) or z3.is_ge(g) or z3.is_gt(g) or z3.is_eq(g) or z3.is_distinct(g))): continue
            a,b=g.arg(0),g.arg(1)
            if not(z3.is_int(a) and z3.is_int(b)): continue
            for x,y in((a,b),(b,a)):
                c=0
                xx=x
                if z3.is_add(x) and x.num_args()==2 and isnum(x.arg(1)): xx=x.arg(0); c=num(x.arg(1))
                if xx.get_id() in hs and invariant(y):
                    yy=z3.simplify(y-c) if c else y
                    key=(xx.get_id(),yy.get_id())
                    if key in seen: continue
                    seen.add(key)
                    kind,k=hs[xx.get_id()]
                    get=(lambda st,k=k:st.mem[k]) if kind=='i' else (lambda st,k=k:st.mem[k].dims[-1])
                    for d in ((0,) if c==0 else (0,)):
                        yield Cand(f"{lc.label(k)}<={yy}",lambda st,get=get,yy=yy:get(st)<=yy)
                        yield Cand(f"{lc.label(k)}>={yy}",lambda st,get=get,yy=yy:get(st)>=yy)
                    yield Cand(f"{lc.label(k)}<={yy}-1",lambda st,get=get,yy=yy:get(st)<=yy-1)
                    yield Cand(f"{lc.label(k)}>={yy}-1",lambda st,get=get,yy=yy:get(st)>=yy-1)
def g_mono(lc):
    for k in lc.ints(True):
        v0=lc.entry.mem.get(k)
        if v0 is None or not z3.is_expr(v0): continue
        yield Cand(f"{lc.label(k)}>=0",lambda st,k=k:st.mem[k]>=0)
        if isnum(v0) and num(v0)==0: pass
        else: yield Cand(f"{lc.label(k)}>=entry",lambda st,k=k,v0=v0:st.mem[k]>=v0)
        yield Cand(f"{lc.label(k)}<=entry",lambda st,k=k,v0=v0:st.mem[k]<=v0)
    for k in lc.positions(True):
        v0=lc.entry.mem.get(k)
        if not isinstance(v0,Ptr): continue
        if not v0.dims[-1].eq(lc.hst.mem[k].dims[-1]):
            yield Cand(f"{lc.label(k)}>=entry",lambda st,k=k,d=v0.dims[-1]:st.mem[k].dims[-1]>=d)
            yield Cand(f"{lc.label(k)}<=entry",lambda st,k=k,d=v0.dims[-1]:st.mem[k].dims[-1]<=d)
        sq=lc.seq(lc.hst,k)
        yield Cand(f"{lc.label(k)}<=len",lambda st,k=k:st.mem[k].dims[-1]<=lc.ex.rd(st,lc.seq(st,k),('len',),I))
def g_lockstep(lc):
    vs=[]
    for k in lc.ints(True):
        v0=lc.entry.mem.get(k)
        if z3.is_expr(v0): vs.append((k,(lambda st,k=k:st.mem[k]),v0))
    for k in lc.positions(True):
        v0=lc.entry.mem.get(k)
        if isinstance(v0,Ptr): vs.append((k,(lambda st,k=k:st.mem[k].dims[-1]),v0.dims[-1]))
    # sequence lengths that grow
    for k in lc.W:
        if k[1][-1:]==('len',) and not(k[1].count('[]')) and k[0]!='H':
            v0=lc.entry.mem.get(k)
            if z3.is_expr(v0): vs.append((k,(lambda st,k=k:st.mem[k]),v0))
    for (a,ga,a0),(b,gb,b0) in itertools.combinations(vs,2):
        yield Cand(f"{lc.label(a)}~{lc.label(b)}",lambda st,ga=ga,gb=gb,a0=a0,b0=b0:ga(st)-a0==gb(st)-b0)
def g_heapframe(lc):
    """objects allocated before the loop keep their fields"""
    for k in lc.W:
        if k[0]=='H':
            v0=lc.entry.mem.get(k)
            if v0 is None: continue
            yield Cand(f"frame {k[1]}",lambda st,k=k,v0=v0,n0=lc.entry.nxt: ForAll(lambda r:Implies(And(0<=r,r<n0),st.mem[k][r]==v0[r]),pats=lambda r:[st.mem[k][r]]))
GENERIC=[g_bounds,g_mono,g_lockstep,g_heapframe]

from stl import self_model
