"""C++ type information from the debug info of a linked IR module (text form)."""
import re

class DT:
    """kind: int real bool ptr struct array func void"""
    __slots__=("kind","name","size","to","bits","signed","_members","_bases","tparams","n","raw","db","virt")
    def __init__(s,kind,name,size=0):
        s.kind=kind; s.name=name; s.size=size; s.to=None; s.bits=None; s.signed=True
        s._members=None; s._bases=None; s.tparams=[]; s.n=None; s.raw=None; s.db=None; s.virt=None
    def __repr__(s): return f"DT({s.kind} {s.name})"
    def _load(s):
        if s._members is None: s.db._load_members(s)
    @property
    def members(s): s._load(); return s._members      # [(name, off, DT)]
    @property
    def bases(s): s._load(); return s._bases          # [(off, DT)]
    def find(s,name):
        """-> (owner DT, offset in owner, type, base offset) or None"""
        for n,o,t in s.members:
            if n==name: return (s,o,t,0)
        for bo,b in s.bases:
            r=b.find(name)
            if r: return (r[0],r[1],r[2],r[3]+bo)
        return None

def strip_targs(n):
    out=[];d=0;i=0
    while i<len(n):
        c=n[i]
        if n.startswith("operator<",i) or n.startswith("operator>",i) or n.startswith("operator-",i):
            j=i+8
            while j<len(n) and n[j] in "<>=-": j+=1
            if d==0: out.append(n[i:j])
            i=j; continue
        if c=='<': d+=1
        elif c=='>': d-=1
        elif d==0: out.append(c)
        i+=1
    return ''.join(out)

_field=re.compile(r'(\w+): ("(?:[^"\\]|\\.)*"|![0-9]+|!\{[^}]*\}|[^,()]+(?:\([^)]*\))?)')

class DI:
    def __init__(self,llpath):
        self.lines={}
        self.byname={}
        self.cache={}
        self.subs={}        # linkage name -> (scope id, virtualIndex)
        self.virt={}        # class qualified name -> {slot: linkageName}
        self.subprog_type={}
        self._q={}
        comp=[]; subs=[]
        with open(llpath) as f:
            for l in f:
                if l[0]!='!' : continue
                m=re.match(r'!(\d+) = (?:distinct )?(.*)',l)
                if not m: continue
                i=int(m.group(1)); b=m.group(2); self.lines[i]=b
                if b.startswith('!DICompositeType') and 'DIFlagFwdDecl' not in b: comp.append(i)
                elif b.startswith('!DISubprogram'): subs.append(i)
        for i in comp:
            d=self.d(i)
            if 'name' in d:
                q=self.qname(i)
                if q not in self.byname: self.byname[q]=i
        for i in subs:
            d=self.d(i)
            ln=d.get('linkageName') or d.get('name')
            if ln and ln not in self.subprog_type and 'type' in d: self.subprog_type[ln]=i
            if 'virtualIndex' in d and 'containingType' in d:
                c=self.qname(self.ref(d['containingType']))
                self.virt.setdefault(c,{}).setdefault(int(d['virtualIndex']),(ln or '',self._s(d.get('name'))))
    def _s(self,x): return x
    def d(self,i):
        b=self.lines[i]
        r={}
        k=b.find('(')
        for m in _field.finditer(b[k+1:]):
            v=m.group(2).strip()
            if v.startswith('"'): v=v[1:-1]
            r[m.group(1)]=v
        r['_k']=b[1:k] if k>0 else ''
        return r
    def ref(self,s):
        m=re.match(r'!(\d+)$',s or '')
        return int(m.group(1)) if m else None
    def listof(self,i):
        b=self.lines[i]
        m=re.match(r'!\{(.*)\}',b)
        if not m: return []
        return [int(x) for x in re.findall(r'!(\d+)',m.group(1))]
    def qname(self,i):
        if i in self._q: return self._q[i]
        d=self.d(i); n=d.get('name','')
        s=self.ref(d.get('scope'))
        q=n
        if s is not None:
            k=self.d(s)['_k']
            if k in('DINamespace','DICompositeType'):
                p=self.qname(s)
                # inline namespaces of libstdc++ dropped
                if n in('__cxx11',) : q=p
                else: q=(p+'::'+n) if p else n
        self._q[i]=q
        return q
    def type(self,i):
        if i is None: return DT('void','void')
        if i in self.cache: return self.cache[i]
        d=self.d(i); k=d['_k']
        tag=d.get('tag','').strip()
        if k=='DIBasicType':
            enc=d.get('encoding','').strip(); sz=int(d.get('size','0'))//8
            if enc=='DW_ATE_boolean': t=DT('bool',d['name'],sz)
            elif enc=='DW_ATE_float': t=DT('real',d['name'],sz)
            else:
                t=DT('int',d.get('name'),sz); t.bits=sz*8; t.signed='unsigned' not in enc
            self.cache[i]=t; return t
        if k=='DIDerivedType':
            if tag in('DW_TAG_pointer_type','DW_TAG_reference_type','DW_TAG_rvalue_reference_type'):
                t=DT('ptr',tag,8); self.cache[i]=t
                t.to=self.type(self.ref(d.get('baseType')))
                return t
            if tag in('DW_TAG_typedef','DW_TAG_const_type','DW_TAG_volatile_type','DW_TAG_member','DW_TAG_inheritance','DW_TAG_restrict_type'):
                t=self.type(self.ref(d.get('baseType'))); self.cache[i]=t; return t
            if tag=='DW_TAG_ptr_to_member_type':
                t=DT('int','ptrmem',16); return t
            t=DT('void',tag); return t
        if k=='DICompositeType':
            if tag=='DW_TAG_enumeration_type':
                t=DT('int',d.get('name'),int(d.get('size','32'))//8); t.bits=t.size*8; self.cache[i]=t; return t
            if tag=='DW_TAG_array_type':
                t=DT('array','',int(d.get('size','0'))//8); self.cache[i]=t
                t.to=self.type(self.ref(d.get('baseType')))
                t.n=t.size//t.to.size if t.to.size else 0
                return t
            q=self.qname(i)
            j=self.byname.get(q,i) if d.get('name') else i
            if j!=i:
                t=self.type(j); self.cache[i]=t; return t
            t=DT('struct',q,int(d.get('size','0'))//8); t.raw=i; t.db=self
            self.cache[i]=t
            tp=self.ref(d.get('templateParams'))
            if tp is not None:
                for x in self.listof(tp):
                    dd=self.d(x)
                    if dd['_k']=='DITemplateTypeParameter': t.tparams.append(self.ref(dd.get('type')))
            return t
        if k=='DISubroutineType': return DT('func','func',0)
        return DT('void',k)
    def _load_members(self,t):
        t._members=[]; t._bases=[]
        if t.raw is None: return
        d=self.d(t.raw); e=self.ref(d.get('elements'))
        if e is None: return
        for x in self.listof(e):
            dd=self.d(x)
            if dd['_k']!='DIDerivedType': continue
            tag=dd.get('tag','').strip()
            if tag=='DW_TAG_member' and 'DIFlagStaticMember' not in self.lines[x]:
                t._members.append((dd.get('name',''),int(dd.get('offset','0'))//8,self.type(self.ref(dd['baseType']))))
            elif tag=='DW_TAG_inheritance':
                t._bases.append((int(dd.get('offset','0'))//8,self.type(self.ref(dd['baseType']))))
    def targ(self,t,k):
        return self.type(t.tparams[k])
    def named(self,q):
        if q in self.byname: return self.type(self.byname[q])
        return None
    def vslot(self,cls,slot):
        """class qualified name, slot -> (linkage name, name) searching bases"""
        seen=[cls]
        while seen:
            c=seen.pop(0)
            v=self.virt.get(c,{})
            if slot in v: return v[slot]
            t=self.named(c)
            if t:
                for o,b in t.bases: seen.append(b.name)
        return None
    def signature(self,linkage):
        """[ret DT, param DTs...] (this first for methods)"""
        i=self.subprog_type.get(linkage)
        if i is None: return None
        d=self.d(i); ty=self.ref(d.get('type'))
        dd=self.d(ty); tl=self.ref(dd.get('types'))
        b=self.lines[tl]
        m=re.match(r'!\{(.*)\}',b)
        out=[]
        for x in m.group(1).split(','):
            x=x.strip()
            if x=='null' or not x: out.append(DT('void','void'))
            else: out.append(self.type(self.ref(x)))
        return out
