"""Assumed contracts of the C++ standard library and libc (built-in models)."""
import re, z3
from logic import *

def E():
    import exe
    return exe

NI=NotImplemented
ITER_CLASSES={'std::_List_iterator','std::_List_const_iterator','std::_Rb_tree_iterator','std::_Rb_tree_const_iterator'}
MATH1={'sqrt','log','exp','sin','cos','tan','atan','floor','ceil','fabs','log10','asin','acos'}
mathfn={n:z3.Function('m_'+n,R,R) for n in MATH1}
powfn=z3.Function('m_pow',R,R,R)
fmodfn=z3.Function('m_fmod',R,R,R)
hypotfn=z3.Function('m_hypot',R,R,R)
strlit_ids={}
def strlit(b):
    if b not in strlit_ids: strlit_ids[b]=len(strlit_ids)+1
    return iv(-1000-strlit_ids[b])
strcat=z3.Function('strcat',I,I,I)
strunk=z3.Function('str_of',I,I)

def is_seq(c): return c in E().SEQ

def sub_arr(ex,st,c,rel,base): return ex.rd(st,c,('[]',)+rel,base)

def set_elem(ex,st,c,i,src,et):
    ex.copy_obj(st,c.index(i),src,et)

def seq_new(ex,st,c): ex.wr(st,c,('len',),iv(0),I)

def default_fill(ex,st,c,old,new,et,path,valptr=None):
    """elements [old,new) of c become default / copies of *valptr"""
    for rel,base,isp in ex.p.leaves(et):
        nd=rel.count('[]')
        a=sub_arr(ex,st,c,rel,base)
        sort=E().asort(base,nd)
        d=None
        if valptr is not None: d=ex.rd(st,valptr,rel,base)
        elif rel==(): d=rv(0) if base==R else iv(0)
        elif rel[-1:]==('len',) and nd==0: d=iv(0)
        elif rel[-1:]==('len',): d=None
        if isnum(old) and num(old)==0 and d is not None:
            b=z3.K(I,d)
        else:
            b=z3.Const(f"fill:{path}|{'/'.join(rel)}",z3.ArraySort(I,sort))
            k=z3.Const("k!fill",I)
            body=[z3.Implies(k<old,b[k]==a[k])]
            if d is not None: body.append(z3.Implies(z3.And(k>=old,k<new),b[k]==d))
            if not(isnum(old) and num(old)==0 and d is None):
                st.assume(z3.ForAll([k],z3.And(*body),patterns=[b[k]]))
        ex.wr(st,c,('[]',)+rel,b,base)

def shift_insert(ex,st,c,i,src,et,path):
    n=ex.length(st,c)
    vals=[]
    for rel,base,isp in ex.p.leaves(et):
        v=ex.rd(st,src,rel,base)
        a=sub_arr(ex,st,c,rel,base)
        b=z3.Const(f"ins:{path}|{'/'.join(rel)}",a.sort())
        k=z3.Const("k!ins",I)
        st.assume(z3.ForAll([k],b[k]==z3.If(k<i,a[k],z3.If(k==i,v,a[k-1])),patterns=[b[k]]))
        vals.append((rel,b,base))
    for rel,b,base in vals: ex.wr(st,c,('[]',)+rel,b,base)
    ex.wr(st,c,('len',),add(n,iv(1)),I)
    fix_iters(ex,st,c,lambda d:z3.If(d>=i,d+1,d))
def shift_erase(ex,st,c,i,cnt,et,path):
    n=ex.length(st,c)
    vals=[]
    for rel,base,isp in ex.p.leaves(et):
        a=sub_arr(ex,st,c,rel,base)
        b=z3.Const(f"era:{path}|{'/'.join(rel)}",a.sort())
        k=z3.Const("k!era",I)
        st.assume(z3.ForAll([k],b[k]==z3.If(k<i,a[k],a[k+cnt]),patterns=[b[k]]))
        # inverse pattern: old element maps to new position
        st.assume(z3.ForAll([k],z3.Implies(k>=i,b[k]==a[k+cnt]),patterns=[b[k]]))
        kk=z3.Const("k!erb",I)
        st.assume(z3.ForAll([kk],z3.And(z3.Implies(kk<i,b[kk]==a[kk]),z3.Implies(kk>=i+cnt,b[kk-cnt]==a[kk])),patterns=[a[kk]]) if z3.is_const(a) or z3.is_select(a) else TRUE)
        vals.append((rel,b,base))
    for rel,b,base in vals: ex.wr(st,c,('[]',)+rel,b,base)
    ex.wr(st,c,('len',),sub(n,cnt),I)
def fix_iters(ex,st,c,f,keep=()):
    """list iterators stay valid: renumber live element pointers into c"""
    Ptr=E().Ptr
    for k,v in list(st.mem.items()):
        if isinstance(v,Ptr) and v.root==c.root and v.steps[:-1]==c.steps and v.steps[-1:]==('[]',) and k not in keep:
            if k[1][-1:] and k[1][-1].startswith('std::_List'):
                same=all(x.eq(y) for x,y in zip(v.alldims()[:-1],c.alldims()))
                if same:
                    st.mem[k]=Ptr(v.root,v.ref,v.steps,v.dims[:-1]+(f(v.dims[-1]),)); st.w.add(k)

def self_model(ex,fr,ins,st,name,dn,args,path):
    X=E(); Ptr=X.Ptr; UND=X.UNDEF
    for k,f in USER.items():
        if dn.startswith(k): return f(ex,fr,ins,st,dn,args,path)
    if dn in X.NOOP_NAMES or X.base_name(dn) in X.NOOP_NAMES:
        if dn=='gettimeofday' and isinstance(args[0],Ptr):
            dt=ex.ptr_dt(args[0])
            if dt is not None: ex.havoc_obj(st,args[0],dt,"time:"+path)
        ex.externals.add(dn)
        return (z3.Const("ext:"+path,I),) if ins.ty.kind=='int' else None
    if dn in('operator new(unsigned long)','operator new[](unsigned long)','malloc','calloc','mymalloc','XA'):
        r=ex.fresh_ref(st,path)
        ex.externals.add(dn)
        return (Ptr('H',r),)
    if dn in MATH1:
        ex.externals.add(dn)
        if dn=='fabs': a=args[0]; return (z3.If(a>=0,a,-a),)
        if dn=='floor': return (z3.ToReal(z3.ToInt(args[0])),)
        if dn=='ceil': return (-z3.ToReal(z3.ToInt(-args[0])),)
        v=mathfn[dn](args[0])
        if dn=='sqrt': st.assume(z3.Implies(args[0]>=0,z3.And(v>=0,v*v==args[0])))
        if dn=='exp': st.assume(v>0)
        return (v,)
    if dn=='pow': return (powfn(*args),)
    if dn=='fmod': return (fmodfn(*args),)
    if dn=='hypot': return (hypotfn(*args),)
    if dn=='abs' or dn=='labs': return (z3.If(args[0]>=0,args[0],-args[0]),)
    cls,targs,meth,ps=X.split_method(dn)
    bn=X.base_name(dn)
    if bn in('std::max','std::min') and len(args)==2 and all(isinstance(a,Ptr) for a in args):
        t=X.split_targs(dn[dn.find('<')+1:dn.rfind('>(')])[0] if '<' in dn else None
        ta={'double':X.FLTTY,'int':X.INTTY,'unsigned int':X.INTTY,'float':X.FLTTY,'unsigned long':X.INTTY,'long':X.INTTY}.get(t)
        if ta is None: return NI
        x=ex.read(st,args[0],ta); y=ex.read(st,args[1],ta)
        v=z3.If(x<y,y,x) if bn=='std::max' else z3.If(y<x,y,x)
        root='T:'+path; ex.cells[root]=ex.p.typ(t)
        st.mem[(root,())]=v
        return (Ptr(root),)
    if bn in('std::fabs','std::abs'):
        a=args[0]; return (z3.If(a>=0,a,-a),)
    if bn=='std::swap' and len(args)==2:
        t=X.split_targs(dn[dn.find('std::swap<')+10:dn.rfind('>(')])[0]
        et=ex.p.typ(t)
        swap_obj(ex,st,args[0],args[1],et); return None
    if dn.startswith('std::__size_to_integer'): return (args[0],)
    if dn.startswith('std::isinf') or dn.startswith('std::isnan') or bn in('isinf','isnan','__isinf','__isnan'): return (FALSE if ins.ty.bits==1 else iv(0),)
    if cls is not None:
        if cls in X.SEQ: return seq_model(ex,fr,ins,st,cls,targs,meth,ps,dn,args,path)
        if cls in ITER_CLASSES: return iter_model(ex,fr,ins,st,cls,targs,meth,ps,args,path)
        if cls=='std::_Bit_reference': return bit_model(ex,st,meth,args)
        if cls in('std::map','std::unordered_map'): return map_model(ex,fr,ins,st,cls,targs,meth,ps,args,path)
        if cls=='std::basic_string': return str_model(ex,fr,ins,st,meth,ps,args,path)
        if cls.startswith(X.NOOP_PREFIX):
            ex.externals.add(dn[:90])
            if meth in('operator void*','operator!','operator bool','good','fail','eof','is_open'): 
                return (z3.Const("io:"+path,B) if ins.ty.kind=='int' and ins.ty.bits==1 else UND,)
            return (args[0],) if args and ins.ty.kind=='ptr' else None
    if bn.startswith(('std::operator<<','std::endl','std::flush','std::setprecision')):
        return (args[0],) if args and ins.ty.kind=='ptr' else (X.UNDEF,)
    if bn in('std::operator==','std::operator!=') and len(args)==2 and ('_List' in ps):
        a,b=(itval(ex,st,x) for x in args)
        e=ex.ptr_eq(a,b); return (e if bn.endswith('==') else Not(e),)
    if bn in('std::__detail::operator==','std::__detail::operator!='):
        a=mapit(ex,st,args[0]); b=mapit(ex,st,args[1])
        e=And(z3.BoolVal(a['end']==b['end']) if not z3.is_expr(a['end']) and not z3.is_expr(b['end']) else lift(a['end'])==lift(b['end']))
        return (e if bn.endswith('==') else Not(e),)
    if bn.startswith('std::operator') and 'basic_string' in dn:
        return str_ops(ex,fr,ins,st,bn,dn,args,path)
    if bn in('std::stable_sort','std::sort'):
        return sort_model(ex,st,dn,args,path)
    return NI

USER={}

def swap_obj(ex,st,a,b,et):
    X=E()
    tmp=[]
    for rel,base,isp in ex.p.leaves(et):
        if isp and not a.alldims() and '[]' not in rel:
            va=ex.read(st,a.steps_(rel),X.PTRTY); vb=ex.read(st,b.steps_(rel),X.PTRTY)
        else: va=ex.rd(st,a,rel,base); vb=ex.rd(st,b,rel,base)
        tmp.append((rel,va,vb,base))
    for rel,va,vb,base in tmp:
        ex.wr(st,a,rel,vb,base); ex.wr(st,b,rel,va,base)

def elem_type(ex,targs): return ex.p.typ(targs[0])

def itval(ex,st,a):
    """value of an iterator passed by value (element Ptr) or by reference (cell holding it)"""
    X=E()
    if isinstance(a,X.Ptr):
        if a.steps[-1:]==('[]',) : return a
        for stp in('__gnu_cxx::__normal_iterator+0','std::_List_iterator+0','std::_List_const_iterator+0'):
            v=st.mem.get((a.root,a.steps+(stp,)))
            if v is not None: return v
    return a

def seq_model(ex,fr,ins,st,cls,targs,meth,ps,dn,args,path):
    X=E(); Ptr=X.Ptr
    c=args[0]
    if not isinstance(c,Ptr): raise X.Unsupported("container "+repr(c))
    isbool=targs and targs[0]=='bool' and cls=='std::vector'
    sh=cls.split('::')[1]
    L=lambda: ex.length(st,c)
    try: et=elem_type(ex,targs)
    except X.Unsupported:
        if meth.startswith('~'): return None
        raise
    if not c.steps and c.root in ex.cells and ex.cells[c.root] is None:
        try: ex.cells[c.root]=ex.p.typ(cls+'<'+', '.join(targs)+'>')
        except X.Unsupported: pass
    ctor=meth in('vector','list','stack','deque')
    if ctor:
        if ps.startswith('()') or (sh=='stack' and len(args)==1): seq_new(ex,st,c); return None
        if len(args)>=2 and isinstance(args[1],Ptr) and ('const&)' in ps or '&&' in ps) and ps.lstrip('(').startswith('std::'+sh):
            copy_seq(ex,st,c,args[1],et,path); return None
        if ps.startswith('(unsigned long, std::allocator'):
            seq_new(ex,st,c); default_fill(ex,st,c,iv(0),args[1],et,path); ex.wr(st,c,('len',),args[1],I); return None
        if ps.startswith('(unsigned long,'):
            if isinstance(args[2],Ptr):
                seq_new(ex,st,c); default_fill(ex,st,c,iv(0),args[1],et,path,args[2]); ex.wr(st,c,('len',),args[1],I); return None
        if ps.startswith('(std::allocator'): seq_new(ex,st,c); return None
        raise X.Unsupported("constructor "+dn[:160])
    if meth.startswith('~'): return None
    if meth=='operator=':
        copy_seq(ex,st,c,args[1],et,path); return (c,)
    if meth in('size',): return (L(),)
    if meth=='empty': return (L()==0,)
    if meth in('begin','cbegin'): return (c.index(iv(0)),)
    if meth in('end','cend'): return (c.index(L()),)
    if meth in('operator[]','at'):
        if ex.safety or ex.opts.get('bounds'):
            n=L(); ex.oblige(st,f"index in bounds (line {ins.line})",And(args[1]>=0,args[1]<n))
        p=c.index(args[1])
        if isbool:
            return (X.Agg([p,iv(1)]),) if 'const' not in ps.split(')')[-1] else (ex.rd(st,p,(),I)!=0,)
        return (p,)
    if meth=='back' or meth=='top':
        n=L()
        if ex.safety: ex.oblige(st,f"{meth} of non-empty (line {ins.line})",n>=1)
        return (c.index(sub(n,iv(1))),)
    if meth=='front':
        if ex.safety: ex.oblige(st,f"front of non-empty (line {ins.line})",L()>=1)
        return (c.index(iv(0)),)
    if meth in('push_back','push','emplace_back'):
        n=L()
        src=args[1]
        if isbool: 
            ex.wr(st,c.index(n),(),ex.toint(src) if z3.is_expr(src) else src,I)
        else: ex.copy_obj(st,c.index(n),src,et)
        ex.wr(st,c,('len',),add(n,iv(1)),I)
        return None
    if meth=='push_front':
        shift_insert(ex,st,c,iv(0),args[1],et,path); return None
    if meth in('pop_back','pop'):
        n=L()
        if ex.safety: ex.oblige(st,f"{meth} of non-empty (line {ins.line})",n>=1)
        ex.wr(st,c,('len',),sub(n,iv(1)),I); return None
    if meth=='clear': ex.wr(st,c,('len',),iv(0),I); return None
    if meth=='reserve' or meth=='shrink_to_fit': return None
    if meth=='resize':
        n=L()
        vp=None
        if len(args)>2: 
            vp=args[2]
            if not isinstance(vp,Ptr):
                root='T:'+path; ex.cells[root]=et; st.mem[(root,())]=ex.toint(vp) if isbool else vp; vp=Ptr(root)
        default_fill(ex,st,c,n,args[1],et,path,vp)
        ex.wr(st,c,('len',),args[1],I)
        return None
    if meth=='assign' and ps.startswith('(unsigned long'):
        default_fill(ex,st,c,iv(0),args[1],et,path,args[2]); ex.wr(st,c,('len',),args[1],I); return None
    if meth=='swap':
        d=args[1]
        tmp=[]
        for rel,base in [(('len',),I)]+[(('[]',)+r,b) for r,b,_ in ex.p.leaves(et)]:
            tmp.append((rel,base,ex.rd(st,c,rel,base),ex.rd(st,d,rel,base)))
        for rel,base,x,y in tmp: ex.wr(st,c,rel,y,base); ex.wr(st,d,rel,x,base)
        return None
    if meth=='erase':
        it=itval(ex,st,args[1])
        i=it.dims[-1]
        if len(args)==2:
            shift_erase(ex,st,c,i,iv(1),et,path)
            if sh=='list': fix_iters(ex,st,c,lambda d:z3.If(d>i,d-1,d))
            return (c.index(i),)
        j=itval(ex,st,args[2]).dims[-1]
        if j.eq(L()):
            ex.wr(st,c,('len',),i,I)
        else: shift_erase(ex,st,c,i,sub(j,i),et,path)
        return (c.index(i),)
    if meth=='insert' and len(args)==3 and ('const&)' in ps or '&&)' in ps):
        it=itval(ex,st,args[1]); i=it.dims[-1]
        shift_insert(ex,st,c,i,args[2],et,path)
        return (c.index(i),)
    if meth in('get_allocator','_M_get_Tp_allocator'): return (X.UNDEF,)
    raise X.Unsupported("container method "+dn[:140])

def copy_seq(ex,st,d,s,et,path):
    if d.root==s.root and d.steps==s.steps and all(a.eq(b) for a,b in zip(d.alldims(),s.alldims())): return
    tmp=[(('len',),I,ex.length(st,s))]
    for r,b,_ in ex.p.leaves(et): tmp.append((('[]',)+r,b,ex.rd(st,s,('[]',)+r,b)))
    for rel,base,v in tmp: ex.wr(st,d,rel,v,base)

def iter_model(ex,fr,ins,st,cls,targs,meth,ps,args,path):
    X=E(); Ptr=X.Ptr
    a=args[0]; stp=cls+'+0'
    def get(p): 
        if p.steps[-1:]==('[]',): return p
        for q in(stp,'std::_List_iterator+0','std::_List_const_iterator+0'):
            v=st.mem.get((p.root,p.steps+(q,)))
            if v is not None: return v
        raise X.Unsupported("iterator value")
    def put(v): st.mem[(a.root,a.steps+(stp,))]=v; st.w.add((a.root,a.steps+(stp,)))
    def bump(v,n): return Ptr(v.root,v.ref,v.steps,v.dims[:-1]+(add(v.dims[-1],iv(n)),))
    if meth in('_List_iterator','_List_const_iterator'):
        if len(args)==1: return None
        put(get(args[1])); return None
    v=get(a)
    if not isinstance(v,Ptr): raise X.Unsupported("iterator value")
    if meth in('operator*','operator->'):
        if ex.safety:
            ex.oblige(st,f"iterator dereference in bounds (line {ins.line})",And(v.dims[-1]>=0,v.dims[-1]<ex.rd(st,Ptr(v.root,v.ref,v.steps[:-1],v.dims[:-1]),('len',),I)))
        return (v,)
    if meth in('operator++','operator--'):
        n=1 if meth=='operator++' else -1
        put(bump(v,n))
        return (v,) if 'int' in ps else (a,)
    if meth in('operator==','operator!='):
        b=get(args[1]); e=ex.ptr_eq(v,b)
        return (e if meth=='operator==' else Not(e),)
    if meth=='_M_const_cast': return (v,)
    raise X.Unsupported("iterator method "+cls+"::"+meth)

def bit_model(ex,st,meth,args):
    X=E()
    p=args[0]
    v=st.mem.get((p.root,p.steps+('std::_Bit_reference+0',)))
    if v is None: 
        v=st.mem.get((p.root,p.steps+('{}+0',)))
    if not isinstance(v,X.Ptr): raise X.Unsupported("bit reference")
    if meth=='operator bool': return (ex.rd(st,v,(),I)!=0,)
    if meth=='operator=':
        b=args[1]
        if z3.is_expr(b) : ex.wr(st,v,(),ex.toint(b),I); return (p,)
    raise X.Unsupported("bit reference "+meth)

# ---- maps: dom: Array key->Int(0/1), val leaves: Array key->...
def keyterm(ex,st,p,kt):
    X=E()
    if not isinstance(p,X.Ptr): 
        return p
    if kt.kind=='ptr': return ex.ptr_to_term(ex.read(st,p,X.PTRTY))
    if kt.kind in('int','bool'): return ex.read(st,p,X.INTTY)
    if kt.kind=='struct' and X.cname(kt.name)=='std::basic_string': return ex.rd(st,p,('str',),I)
    raise X.Unsupported("map key type")
MAPIT={}
def mapit(ex,st,p):
    X=E()
    if isinstance(p,MapIt): return p.d
    for (k,v) in st.mem.items():
        if k[0]==p.root and k[1][:len(p.steps)]==p.steps and isinstance(v,MapIt): return v.d
    raise X.Unsupported("map iterator")
class MapIt:
    def __init__(s,d): s.d=d
def map_model(ex,fr,ins,st,cls,targs,meth,ps,args,path):
    X=E(); Ptr=X.Ptr
    c=args[0]
    if meth in('map','unordered_map'):
        ex.wr(st,c,('dom','[]'),z3.K(I,iv(0)),I); return None
    if meth.startswith('~'): return None
    kt=ex.p.typ(targs[0]); vt=ex.p.typ(targs[1])
    raise X.Unsupported("map method "+meth)

def str_model(ex,fr,ins,st,meth,ps,args,path):
    X=E()
    c=args[0]
    if meth.startswith('~'): return None
    if meth=='basic_string':
        if len(args)==1: ex.wr(st,c,('str',),strlit(b''),I)
        elif isinstance(args[1],X.Ptr):
            ex.wr(st,c,('str',),strval(ex,st,args[1],path),I)
        else: raise X.Unsupported("string ctor")
        return None
    if meth=='operator=': ex.wr(st,c,('str',),strval(ex,st,args[1],path),I); return (c,)
    if meth in('c_str','data'): return (X.Ptr(c.root,c.ref,c.steps+('cstr',),c.dims),)
    raise X.Unsupported("string method "+meth)
def strval(ex,st,p,path):
    X=E()
    if p.root.startswith('G:'):
        n=p.root[2:]
        if n in ex.m.gl:
            t,init,const=ex.m.glob(n)
            if init is not None and init.k=='str': return strlit(init.v)
            if init is not None and init.k=='zero': return strlit(b'')
    if p.steps[-1:]==('cstr',): 
        q=X.Ptr(p.root,p.ref,p.steps[:-1],p.dims)
        return ex.rd(st,q,('str',),I)
    if (p.root,p.steps+('str',)) in st.mem or ex.ptr_dt(p) is not None: return ex.rd(st,p,('str',),I)
    return strunk(ex.ptr_to_term(p)) if p.root=='H' else z3.Const("str:"+path,I)
def str_ops(ex,fr,ins,st,bn,dn,args,path):
    X=E()
    if bn in('std::operator==','std::operator!='):
        a=strval(ex,st,args[0],path+'a'); b=strval(ex,st,args[1],path+'b')
        return (a==b if bn.endswith('==') else a!=b,)
    if bn=='std::operator+':
        a=strval(ex,st,args[1],path+'a'); b=strval(ex,st,args[2],path+'b')
        ex.wr(st,args[0],('str',),strcat(a,b),I); return None
    raise X.Unsupported("string op "+bn)

def sort_model(ex,st,dn,args,path):
    """sorted permutation of the range by the comparator; for stable_sort equal elements keep their order.
       The comparator itself is executed symbolically on two arbitrary elements."""
    X=E(); Ptr=X.Ptr
    stable='stable_sort' in dn.split('(')[0]
    a=itval(ex,st,args[0]); b=itval(ex,st,args[1])
    c=Ptr(a.root,a.ref,a.steps[:-1],a.dims[:-1])
    lo,hi=a.dims[-1],b.dims[-1]
    m=re.search(r'__normal_iterator<(.*?)\*, ',dn)
    et=ex.p.typ(m.group(1))
    lv=ex.p.leaves(et)
    news=[]; olds=[]
    for rel,base,isp in lv:
        o=ex.rd(st,c,('[]',)+rel,base)
        n=z3.Const(f"sorted:{path}|{'/'.join(rel)}",o.sort())
        olds.append(o); news.append(n)
    perm=z3.Function(f"perm:{path}",I,I); inv=z3.Function(f"perminv:{path}",I,I)
    k=z3.Const("k!so",I); j=z3.Const("j!so",I)
    rng=lambda x:z3.And(lo<=x,x<hi)
    facts=[z3.ForAll([k],z3.Implies(rng(k),z3.And(rng(perm(k)),inv(perm(k))==k,*[n[k]==o[perm(k)] for n,o in zip(news,olds)])),patterns=[perm(k)]+[n[k] for n in news]),
           z3.ForAll([k],z3.Implies(rng(k),z3.And(rng(inv(k)),perm(inv(k))==k)),patterns=[inv(k)]+[o[k] for o in olds]),
           z3.ForAll([k],z3.Implies(z3.Not(rng(k)),z3.And(*[n[k]==o[k] for n,o in zip(news,olds)])),patterns=[n[k] for n in news])]
    for (rel,base,isp),n in zip(lv,news): ex.wr(st,c,('[]',)+rel,n,base)
    for f in facts: st.assume(f)
    # comparator: less(x,y) as a formula over two symbolic positions
    cmpname=X.split_targs(dn[dn.find('<')+1:dn.rfind('>(')])[-1]
    ln=None
    for d,nm in ex.p.bydem.items():
        if d.startswith(cmpname+'::operator()('): ln=nm; break
    if ln is None: raise X.Unsupported("comparator "+cmpname)
    x=z3.Const("x!cmp",I); y=z3.Const("y!cmp",I)
    def less(x,y):
        st2=st.copy(); 
        sv=ex.record; ex.record=False
        npc=len(st2.pc)
        root='T:cmp:'+path; ex.cells[root]=None
        try: outs=ex.run_fn(ex.m.alias.get(ln,ln),[Ptr(root),c.index(x),c.index(y)],st2,path+'>cmp')
        finally: ex.record=sv
        return z3.Or(*[z3.And(*(o.pc[npc:]+[ex.tobool(v)])) for o,v in outs])
    lt=less(y,x)   # not (later < earlier)
    st.assume(z3.ForAll([x,y],z3.Implies(z3.And(lo<=x,x<y,y<hi),z3.Not(lt)),patterns=[z3.MultiPattern(news[0][x],news[0][y])]))
    if stable:
        l1=less(x,y)
        st.assume(z3.ForAll([x,y],z3.Implies(z3.And(lo<=x,x<y,y<hi,z3.Not(l1)),perm(x)<perm(y)),patterns=[z3.MultiPattern(news[0][x],news[0][y])]))
    st.ghost['perm']=perm
    return None
