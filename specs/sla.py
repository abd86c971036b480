"""Contracts of src/common/sla.h, sla_mask.h: the linear-algebra layer (C01, C02, C03)."""
import z3
from logic import *
from exe import *
from contract import *
import tmpl as T

EPS=rv(1e-10)
CE="sla::cvector_entry"
# ---- views -> spec terms
def ci(x): return x.data.arr('index')
def cvl(x): return x.data.arr('value')
def n(x): return x.data.len
def at(x,j): return cv(ci(x),cvl(x),n(x),j)
def dat(x): return x.data.arr()
def has(x,j): return occ(ci(x),n(x),j)
def incr(a,lo,hi): return ForAll(lambda i,j:Implies(And(lo<=i,i<j,j<hi),a[i]<a[j]),pats=lambda i,j:[[a[i],a[j]]])
def inrange(a,lo,hi,sz): return ForAll(lambda i:Implies(And(lo<=i,i<hi),And(0<=a[i],a[i]<sz)),pats=lambda i:[a[i]])
def WF(x):
    a=ci(x)
    return And(incr(a,iv(0),n(x)),inrange(a,iv(0),n(x),x.size_),x.size_>=0)
def spread(x):
    """lemma (by induction, lemmas.py): k strictly increasing indices below size_ leave no more than size_-n gaps"""
    a=ci(x)
    return Implies(WF(x),And(n(x)<=x.size_,ForAll(lambda k:Implies(And(0<=k,k<n(x)),And(a[k]>=k,a[k]<=x.size_-n(x)+k)),pats=lambda k:[a[k]]),
       Implies(n(x)==x.size_,ForAll(lambda k:Implies(And(0<=k,k<n(x)),has(x,k))))))
def cs(A): return A.col_starts.arr()
def lo(A,c): return cs(A)[c]
def hi(A,c): return cs(A)[c+1]
def col(A,c,r): return cvr(ci(A),cvl(A),lo(A,c),hi(A,c),r)
def WFM(A):
    a=ci(A); s=cs(A)
    return And(A.size1_>=0,A.size2_>=0,A.col_starts.len==A.size2_+1,s[0]==0,s[A.size2_]==n(A),
        ForAll(lambda i,j:Implies(And(0<=i,i<=j,j<=A.size2_),s[i]<=s[j]),pats=lambda i,j:[[s[i],s[j]]]),
        ForAll(lambda c:Implies(And(0<=c,c<A.size2_),And(0<=s[c],s[c]<=s[c+1],s[c+1]<=n(A))),pats=lambda c:[s[c]]),
        ForAll(lambda c,i,j:Implies(And(0<=c,c<A.size2_,s[c]<=i,i<j,j<s[c+1]),a[i]<a[j]),pats=lambda c,i,j:[[s[c],a[i],a[j]]]),
        inrange(a,iv(0),n(A),A.size1_))
def D(v): return v.data.len
def same(a,b): return And(a.size_==b.size_,n(a)==n(b),ForAll(lambda k:Implies(And(0<=k,k<n(b)),And(ci(a)[k]==ci(b)[k],cvl(a)[k]==cvl(b)[k])),pats=lambda k:[ci(a)[k],cvl(a)[k]]))

# ---- sums over stored entries as sums over all indices (lemmas.sparse_dense_sum)
def dsum_c(x,f,size=None):
    """Sum over the stored entries k of x of value[k]*f(index[k])  ==  Sum over all i<size of x(i)*f(i)"""
    f1=f or (lambda i:rv(1))
    st=Sum(n(x),lambda k:cvl(x)[k]*f(ci(x)[k])) if f else Sum(n(x),lambda k:cvl(x)[k])
    return st==Sum(x.size_,lambda i:at(x,i)*f(i) if f else at(x,i))
def dsum_col(A,c,f,rev=False):
    g=(lambda a,b:b*a) if rev else (lambda a,b:a*b)
    return Sum(hi(A,c),lambda k:g(cvl(A)[k],f(ci(A)[k])),lo(A,c))==Sum(A.size1_,lambda i:g(col(A,c,i),f(i)))
FILES=["@keep/sla_keep.cc"]
C=[]
def c(*a,**k):
    x=Contract(*a,**k); C.append(x); return x
CV="sla::cvector const&"; DV="sla::dvector const&"; CM="sla::cmatrix const&"

# ---- reductions
c(f"sla::norm_1({CV})",['x'],ensures=[lambda o,v:{'value':v.result==Sum(n(o.x),lambda k:Abs(cvl(o.x)[k]))}],
  templates=[T.accum(lambda o,v,i,r:r==Sum(i,lambda k:Abs(cvl(o.x)[k])))],prop='C01')
c(f"sla::sum({CV})",['x'],ensures=[lambda o,v:{'value':v.result==Sum(n(o.x),lambda k:cvl(o.x)[k]),'dense value':Implies(WF(o.x),v.result==Sum(o.x.size_,lambda i:at(o.x,i)))}],
  templates=[T.accum(lambda o,v,i,r:r==Sum(i,lambda k:cvl(o.x)[k]))],lemmas=lambda ex,o,v:[Implies(WF(o.x),dsum_c(o.x,None))],prop='C01')
c(f"sla::sum({DV})",['x'],ensures=[lambda o,v:{'value':v.result==Sum(D(o.x),lambda k:dat(o.x)[k])}],
  templates=[T.accum(lambda o,v,i,r:r==Sum(i,lambda k:dat(o.x)[k]))],prop='C01')
def isnorm(r,a,m): return And(r>=0,ForAll(lambda k:Implies(And(0<=k,k<m),Abs(a[k])<=r),pats=lambda k:[a[k]]),Or(r==0,Exists(lambda k:And(0<=k,k<m,Abs(a[k])==r))))
for ty,arr,ln in((CV,cvl,n),(DV,dat,D)):
    c(f"sla::norm_inf({ty})",['x'],ensures=[lambda o,v,arr=arr,ln=ln:{'bound':And(v.result>=0,ForAll(lambda k:Implies(And(0<=k,k<ln(o.x)),Abs(arr(o.x)[k])<=v.result))),
        'attained':Or(v.result==0,Exists(lambda k:And(0<=k,k<ln(o.x),Abs(arr(o.x)[k])==v.result)))}],
      templates=[T.accum(lambda o,v,i,r,arr=arr:And(r>=0,ForAll(lambda k:Implies(And(0<=k,k<i),Abs(arr(o.x)[k])<=r),pats=lambda k:[arr(o.x)[k]])),
                         lambda o,v,i,r,arr=arr:Or(r==0,Exists(lambda k:And(0<=k,k<i,Abs(arr(o.x)[k])==r))))],prop='C01')
# ---- element access
c("sla::cvector::operator()(unsigned int) const",['self','index'],requires=[lambda v:WF(v.self)],
  ensures=[lambda o,v:{'value':v.result==at(o.self,o.index)}],
  templates=[T.every(lambda o,v,i:ForAll(lambda k:Implies(And(0<=k,k<i),ci(o.self)[k]<o.index),pats=lambda k:[ci(o.self)[k]]))],prop='C01')
c("sla::cmatrix::operator()(unsigned int, unsigned int) const",['self','r','c'],requires=[lambda v:WFM(v.self),lambda v:And(0<=v.c,v.c<v.self.size2_)],
  ensures=[lambda o,v:{'value':v.result==col(o.self,o.c,o.r)}],
  templates=[T.every(lambda o,v,i:ForAll(lambda k:Implies(And(lo(o.self,o.c)<=k,k<i),ci(o.self)[k]<o.r),pats=lambda k:[ci(o.self)[k]]))],prop='C01')
# ---- dense
SV=lambda o,v:[v.result_.data.len]
def res_dense(size,elem,**k):
    """result is a dense vector of the given size with result[j]==elem(o,j)"""
    return lambda o,v:{'size':v.result_.data.len==size(o),
        'value':ForAll(lambda j:Implies(And(0<=j,j<size(o)),dat(v.result_)[j]==elem(o,j)),pats=lambda j:[dat(v.result_)[j]])}
def mods(*names): return [lambda v,nm=nm:MAll(getattr(v,nm)) for nm in names]
def MR(v): return MAll(v.result_)
def dense_upto(elem,before=None):
    """0..i done, rest untouched"""
    return lambda o,v,i:ForAll(lambda j:Implies(And(0<=j,j<i),dat(v.result_)[j]==elem(o,j)),pats=lambda j:[dat(v.result_)[j]])
def dense_rest(after):
    return lambda o,v,i:ForAll(lambda j:Implies(And(i<=j,j<v.result_.data.len),dat(v.result_)[j]==after(o,j)),pats=lambda j:[dat(v.result_)[j]])
zero=lambda o,j:rv(0)
c("sla::dvector::operator*=(double)",['self','s'],modifies=mods('self'),
  ensures=[lambda o,v:{'size':D(v.self)==D(o.self),'value':ForAll(lambda j:Implies(And(0<=j,j<D(o.self)),dat(v.self)[j]==dat(o.self)[j]*o.s))}],
  templates=[T.every(lambda o,v,i:ForAll(lambda j:Implies(And(0<=j,j<D(o.self)),dat(v.self)[j]==Ite(j<i,dat(o.self)[j]*o.s,dat(o.self)[j])),pats=lambda j:[dat(v.self)[j]]))],prop='C01')
for op,f in(('+=',lambda a,b:a+b),('-=',lambda a,b:a-b)):
    c(f"sla::dvector::operator{op}({DV})",['self','x'],requires=[lambda v:D(v.self)==D(v.x)],modifies=mods('self'),
      ensures=[lambda o,v,f=f:{'size':D(v.self)==D(o.self),'value':ForAll(lambda j:Implies(And(0<=j,j<D(o.self)),dat(v.self)[j]==f(dat(o.self)[j],dat(o.x)[j])))}],
      templates=[T.every(lambda o,v,i,f=f:ForAll(lambda j:Implies(And(0<=j,j<D(o.self)),dat(v.self)[j]==Ite(j<i,f(dat(o.self)[j],dat(o.x)[j]),dat(o.self)[j])),pats=lambda j:[dat(v.self)[j]]))],prop='C01')
c("sla::dvector::resize(unsigned int, double)",['self','sz','value'],requires=[lambda v:v.value==0],modifies=mods('self'),
  ensures=[lambda o,v:{'size':D(v.self)==o.sz,'zeros':ForAll(lambda j:Implies(And(0<=j,j<o.sz),dat(v.self)[j]==0),pats=lambda j:[dat(v.self)[j]])}],prop='C02')
R_=['result_','x','y']
c(f"sla::emult(sla::dvector&, {DV}, {DV})",R_,requires=[lambda v:D(v.x)==D(v.y)],modifies=[MR],
  ensures=[res_dense(lambda o:D(o.x),lambda o,j:dat(o.x)[j]*dat(o.y)[j])],
  templates=[T.every(dense_upto(lambda o,j:dat(o.x)[j]*dat(o.y)[j]))],prop='C01')
c(f"sla::emult(sla::dvector&, {DV}, {CV})",R_,requires=[lambda v:D(v.x)==v.y.size_,lambda v:WF(v.y)],modifies=[MR],
  ensures=[res_dense(lambda o:D(o.x),lambda o,j:dat(o.x)[j]*at(o.y,j))],
  templates=[T.every(lambda o,v,i:ForAll(lambda j:Implies(And(0<=j,j<D(o.x)),dat(v.result_)[j]==dat(o.x)[j]*cv(ci(o.y),cvl(o.y),i,j)),pats=lambda j:[dat(v.result_)[j]]))],prop='C01')
c(f"sla::emult_column(sla::dvector&, {CM}, unsigned int, {DV})",['result_','A','c','x'],requires=[lambda v:v.A.size1_==D(v.x),lambda v:And(0<=v.c,v.c<v.A.size2_),lambda v:WFM(v.A)],modifies=[MR],
  ensures=[res_dense(lambda o:D(o.x),lambda o,j:dat(o.x)[j]*col(o.A,o.c,j))],
  templates=[T.every(lambda o,v,i:ForAll(lambda j:Implies(And(0<=j,j<D(o.x)),dat(v.result_)[j]==dat(o.x)[j]*cvr(ci(o.A),cvl(o.A),lo(o.A,o.c),i,j)),pats=lambda j:[dat(v.result_)[j]]))],prop='C01')
c(f"sla::emax(sla::dvector&, {DV}, {DV})",R_,requires=[lambda v:D(v.x)==D(v.y)],modifies=[MR],
  ensures=[res_dense(lambda o:D(o.x),lambda o,j:Max(dat(o.x)[j],dat(o.y)[j]))],
  templates=[T.every(dense_upto(lambda o,j:Max(dat(o.x)[j],dat(o.y)[j])))],prop='C01')
c(f"sla::max_assign(sla::dvector&, {DV})",['result_','x'],requires=[lambda v:D(v.result_)==D(v.x)],modifies=[MR],
  ensures=[res_dense(lambda o:D(o.x),lambda o,j:Max(dat(o.result_)[j],dat(o.x)[j]))],
  templates=[T.every(dense_upto(lambda o,j:Max(dat(o.result_)[j],dat(o.x)[j])),dense_rest(lambda o,j:dat(o.result_)[j]))],prop='C01')
c("sla::set_to_one(sla::dvector&, unsigned int)",['result_','sz'],modifies=[MR],ensures=[res_dense(lambda o:o.sz,lambda o,j:rv(1))],
  templates=[T.every(dense_upto(lambda o,j:rv(1)))],prop='C01')
c(f"sla::copy(sla::dvector&, {CV})",['result_','x'],requires=[lambda v:WF(v.x)],modifies=[MR],
  ensures=[res_dense(lambda o:o.x.size_,lambda o,j:at(o.x,j))],
  templates=[T.every(lambda o,v,i:ForAll(lambda j:Implies(And(0<=j,j<o.x.size_),dat(v.result_)[j]==cv(ci(o.x),cvl(o.x),i,j)),pats=lambda j:[dat(v.result_)[j]]))],prop='C01')
c(f"sla::copy(sla::dvector&, {DV})",['result_','x'],modifies=[MR],ensures=[res_dense(lambda o:D(o.x),lambda o,j:dat(o.x)[j])],prop='C01')
c(f"sla::copy(sla::cvector&, {CV})",['result_','x'],modifies=[MR],ensures=[lambda o,v:{'value':same(v.result_,o.x)}],prop='C01')
c(f"sla::copy_from_column(sla::dvector&, {CM}, unsigned int)",['result_','A','c'],requires=[lambda v:And(0<=v.c,v.c<v.A.size2_),lambda v:WFM(v.A)],modifies=[MR],
  ensures=[res_dense(lambda o:o.A.size1_,lambda o,j:col(o.A,o.c,j))],
  templates=[T.every(lambda o,v,i:ForAll(lambda j:Implies(And(0<=j,j<o.A.size1_),dat(v.result_)[j]==cvr(ci(o.A),cvl(o.A),lo(o.A,o.c),i,j)),pats=lambda j:[dat(v.result_)[j]]))],prop='C01')
c(f"sla::inner_prod({DV}, {CV})",['x','y'],requires=[lambda v:D(v.x)==v.y.size_,lambda v:WF(v.y)],
  ensures=[lambda o,v:{'value':v.result==Sum(n(o.y),lambda k:dat(o.x)[ci(o.y)[k]]*cvl(o.y)[k])}],
  templates=[T.accum(lambda o,v,i,r:r==Sum(i,lambda k:dat(o.x)[ci(o.y)[k]]*cvl(o.y)[k]))],prop='C01')
c(f"sla::inner_prod({CV}, {CV})",['x','y'],requires=[lambda v:v.x.size_==v.y.size_,lambda v:WF(v.x),lambda v:WF(v.y)],
  ensures=[lambda o,v:{'value':v.result==Sum(n(o.x),lambda k:cvl(o.x)[k]*at(o.y,ci(o.x)[k]))}],
  templates=[T.merge(f"{CE}+0"),T.accum(lambda o,v,i,r:r==Sum(i,lambda k:cvl(o.x)[k]*at(o.y,ci(o.x)[k])))],prop='C01')
c(f"sla::inner_prod_column({CM}, unsigned int, {CV})",['A','c','y'],requires=[lambda v:v.A.size1_==v.y.size_,lambda v:And(0<=v.c,v.c<v.A.size2_),lambda v:WFM(v.A),lambda v:WF(v.y)],
  ensures=[lambda o,v:{'value':v.result==Sum(hi(o.A,o.c),lambda k:cvl(o.A)[k]*at(o.y,ci(o.A)[k]),lo(o.A,o.c)),'dense value':v.result==Sum(o.A.size1_,lambda i:col(o.A,o.c,i)*at(o.y,i))}],
  lemmas=lambda ex,o,v:[dsum_col(o.A,o.c,lambda i:at(o.y,i))],
  templates=[T.merge(f"{CE}+0"),T.accum(lambda o,v,i,r:r==Sum(i,lambda k:cvl(o.A)[k]*at(o.y,ci(o.A)[k]),lo(o.A,o.c)))],prop='C01')
c(f"sla::mult(sla::dvector&, {DV}, {CM})",['result_','x','A'],requires=[lambda v:D(v.x)==v.A.size1_,lambda v:WFM(v.A)],modifies=[MR],
  ensures=[res_dense(lambda o:o.A.size2_,lambda o,j:Sum(hi(o.A,j),lambda k:dat(o.x)[ci(o.A)[k]]*cvl(o.A)[k],lo(o.A,j))),
    lambda o,v:{'dense value':ForAll(lambda j:Implies(And(0<=j,j<o.A.size2_),dat(v.result_)[j]==Sum(o.A.size1_,lambda i:dat(o.x)[i]*col(o.A,j,i))),pats=lambda j:[dat(v.result_)[j]])}],
  lemmas=lambda ex,o,v:[ForAll(lambda j:Implies(And(0<=j,j<o.A.size2_),dsum_col(o.A,j,lambda i:dat(o.x)[i],True)),pats=lambda j:[lo(o.A,j)])],
  templates=[T.every(dense_upto(lambda o,j:Sum(hi(o.A,j),lambda k:dat(o.x)[ci(o.A)[k]]*cvl(o.A)[k],lo(o.A,j))),dense_rest(zero)),
     T.any2(lambda o,v,i,p:dat(v.result_)[i]==Sum(p,lambda k:dat(o.x)[ci(o.A)[k]]*cvl(o.A)[k],lo(o.A,i)),
            lambda o,v,i,p:And(dense_upto(lambda o,j:Sum(hi(o.A,j),lambda k:dat(o.x)[ci(o.A)[k]]*cvl(o.A)[k],lo(o.A,j)))(o,v,i),dense_rest(zero)(o,v,i+1)))],prop='C01')
c(f"sla::mult(sla::dvector&, {CV}, {CM})",['result_','x','A'],requires=[lambda v:v.x.size_==v.A.size1_,lambda v:WFM(v.A),lambda v:WF(v.x)],modifies=[MR],
  ensures=[res_dense(lambda o:o.A.size2_,lambda o,j:Sum(hi(o.A,j),lambda k:cvl(o.A)[k]*at(o.x,ci(o.A)[k]),lo(o.A,j)))],
  templates=[T.every(dense_upto(lambda o,j:Sum(hi(o.A,j),lambda k:cvl(o.A)[k]*at(o.x,ci(o.A)[k]),lo(o.A,j))))],prop='C01')
def Ax(o,r,m): return Sum(m,lambda k:cvl(o.x)[k]*col(o.A,ci(o.x)[k],r))
sq=lambda v:v.A.size2_==v.x.size_
c(f"sla::mult(sla::dvector&, {CM}, {CV})",['result_','A','x'],requires=[sq,lambda v:WFM(v.A),lambda v:WF(v.x)],modifies=[MR],
  ensures=[res_dense(lambda o:o.A.size1_,lambda o,j:Ax(o,j,n(o.x)))],
  templates=[T.every(lambda o,v,i:ForAll(lambda j:Implies(And(0<=j,j<o.A.size1_),dat(v.result_)[j]==Ax(o,j,i)),pats=lambda j:[dat(v.result_)[j]])),
     T.any2(lambda o,v,i,p:ForAll(lambda j:Implies(And(0<=j,j<o.A.size1_),dat(v.result_)[j]==Ax(o,j,i)+cvl(o.x)[i]*cvr(ci(o.A),cvl(o.A),lo(o.A,ci(o.x)[i]),p,j)),pats=lambda j:[dat(v.result_)[j]]))],prop='C01')
# ---- sparse results
def res_sparse(size,elem):
    return lambda o,v:{'size':v.result_.size_==size(o),'C02 well-formed':WF(v.result_),
        'value':ForAll(lambda j:Implies(And(0<=j,j<size(o)),at(v.result_,j)==elem(o,j)))}
def grown(o,v,f):
    """every entry pushed so far carries f(o, index) and lies in range; strictly increasing"""
    a=ci(v.result_)
    return ForAll(lambda k:Implies(And(0<=k,k<n(v.result_)),And(cvl(v.result_)[k]==f(o,a[k]))),pats=lambda k:[a[k]])
def rincr(o,v): return incr(ci(v.result_),iv(0),n(v.result_))
def rrange(size): return lambda o,v: inrange(ci(v.result_),iv(0),n(v.result_),size(o))
rsz=lambda size:(lambda o,v:v.result_.size_==size(o))
def rlast_below(ix):
    """all pushed indices are below the next index of the operand at position i"""
    return lambda o,v,i:Implies(And(0<=i,i<ix(o)[1]),ForAll(lambda k:Implies(And(0<=k,k<n(v.result_)),ci(v.result_)[k]<ix(o)[0][i]),pats=lambda k:[ci(v.result_)[k]]))
def covered(ix,lo_=None):
    """every operand index before position i occurs in the result"""
    return lambda o,v,i:ForAll(lambda k:Implies(And((0 if lo_ is None else lo_(o))<=k,k<i),has(v.result_,ix(o)[0][k])),pats=lambda k:[ix(o)[0][k]])
X_=lambda o:(ci(o.x),n(o.x)); Y_=lambda o:(ci(o.y),n(o.y)); M_=lambda o:(ci(o.m),n(o.m)); XM=lambda o:(ci(o.xm),n(o.xm))
c("sla::cvector::resize(unsigned int, unsigned int)",['self','sz','nz'],requires=[lambda v:v.nz==0],modifies=mods('self'),
  ensures=[lambda o,v:{'size':v.self.size_==o.sz,'empty':n(v.self)==0}],prop='C02')
c("sla::cvector::push_back(unsigned int, double)",['self','index','value'],modifies=mods('self'),
  ensures=[lambda o,v:{'count':n(v.self)==n(o.self)+1,'entry':And(ci(v.self)[n(o.self)]==o.index,cvl(v.self)[n(o.self)]==o.value),
     'kept':ForAll(lambda k:Implies(And(0<=k,k<n(o.self)),And(ci(v.self)[k]==ci(o.self)[k],cvl(v.self)[k]==cvl(o.self)[k]))),'size':v.self.size_==o.self.size_}],prop='C02',abstract=True)
c("sla::cvector::operator*=(double)",['self','s'],requires=[lambda v:WF(v.self)],modifies=mods('self'),
  ensures=[lambda o,v:{'shape':And(v.self.size_==o.self.size_,n(v.self)==n(o.self)),'value':ForAll(lambda j:Implies(And(0<=j,j<n(o.self)),And(ci(v.self)[j]==ci(o.self)[j],cvl(v.self)[j]==cvl(o.self)[j]*o.s))),'dense value':ForAll(lambda j:at(v.self,j)==at(o.self,j)*o.s,pats=lambda j:[at(v.self,j)])}],
  templates=[T.every(lambda o,v,i:ForAll(lambda j:Implies(And(0<=j,j<n(o.self)),And(ci(v.self)[j]==ci(o.self)[j],cvl(v.self)[j]==Ite(j<i,cvl(o.self)[j]*o.s,cvl(o.self)[j]))),pats=lambda j:[cvl(v.self)[j],ci(v.self)[j]]))],prop='C01')
xs=lambda o:o.x.size_
xsA=lambda o:o.A.size1_
for nm,f in(('add',lambda a,b:a+b),('subtract',lambda a,b:a-b)):
    g=lambda o,j,f=f:f(at(o.x,j),at(o.y,j))
    c(f"sla::{nm}(sla::cvector&, {CV}, {CV})",R_,requires=[lambda v:v.x.size_==v.y.size_,lambda v:WF(v.x),lambda v:WF(v.y)],modifies=[MR],
      ensures=[res_sparse(xs,g)],
      templates=[T.always(rincr,rrange(xs),rsz(xs),lambda o,v,g=g:grown(o,v,g)),T.merge(f"{CE}+0"),
        T.every(rlast_below(X_),rlast_below(Y_)),T.every_all(covered(X_),covered(Y_)),T.copyof(f"{CE}+0")],prop='C01 C02')
c("sla::cvector::operator+=(sla::cvector const&)",['self','x'],requires=[lambda v:v.x.size_==v.self.size_,lambda v:WF(v.x),lambda v:WF(v.self)],modifies=mods('self'),
  ensures=[lambda o,v:{'size':v.self.size_==o.self.size_,'C02 well-formed':WF(v.self),'value':ForAll(lambda j:Implies(And(0<=j,j<o.self.size_),at(v.self,j)==at(o.self,j)+at(o.x,j)))}],prop='C01 C02')
c("sla::cvector::operator-=(sla::cvector const&)",['self','x'],requires=[lambda v:v.x.size_==v.self.size_,lambda v:WF(v.x),lambda v:WF(v.self)],modifies=mods('self'),
  ensures=[lambda o,v:{'size':v.self.size_==o.self.size_,'C02 well-formed':WF(v.self),'value':ForAll(lambda j:Implies(And(0<=j,j<o.self.size_),at(v.self,j)==at(o.self,j)-at(o.x,j)))}],prop='C01 C02')
thr=lambda x:Ite(Or(x>EPS,x<-EPS),x,rv(0))
c(f"sla::copy(sla::cvector&, {DV})",['result_','x'],modifies=[MR],
  ensures=[res_sparse(lambda o:D(o.x),lambda o,j:thr(dat(o.x)[j]))],
  templates=[T.always(rincr,rrange(lambda o:D(o.x)),rsz(lambda o:D(o.x)),lambda o,v:grown(o,v,lambda o,j:thr(dat(o.x)[j]))),
     T.every(lambda o,v,i:ForAll(lambda k:Implies(And(0<=k,k<n(v.result_)),ci(v.result_)[k]<i),pats=lambda k:[ci(v.result_)[k]]),
             lambda o,v,i:ForAll(lambda k:Implies(And(0<=k,k<i,thr(dat(o.x)[k])!=0),has(v.result_,k)),pats=lambda k:[dat(o.x)[k]]))],prop='C01 C02')
c("sla::set_to_one(sla::cvector&, unsigned int)",['result_','sz'],modifies=[MR],ensures=[res_sparse(lambda o:o.sz,lambda o,j:rv(1)),lambda o,v:{'count':n(v.result_)==o.sz}],
  templates=[T.always(lambda o,v:ForAll(lambda k:Implies(And(0<=k,k<n(v.result_)),And(ci(v.result_)[k]==k,cvl(v.result_)[k]==1)),pats=lambda k:[ci(v.result_)[k],cvl(v.result_)[k]]),rsz(lambda o:o.sz)),
     T.every(lambda o,v,i:n(v.result_)==i)],prop='C01 C02')
c(f"sla::copy_from_column(sla::cvector&, {CM}, unsigned int)",['result_','A','c'],requires=[lambda v:And(0<=v.c,v.c<v.A.size2_),lambda v:WFM(v.A)],modifies=[MR],
  ensures=[res_sparse(lambda o:o.A.size1_,lambda o,j:col(o.A,o.c,j)),lambda o,v:{'entries':And(n(v.result_)==hi(o.A,o.c)-lo(o.A,o.c),ForAll(lambda k:Implies(And(0<=k,k<n(v.result_)),And(ci(v.result_)[k]==ci(o.A)[k+lo(o.A,o.c)],cvl(v.result_)[k]==cvl(o.A)[k+lo(o.A,o.c)])),pats=lambda k:[ci(v.result_)[k],cvl(v.result_)[k]]))}],
  templates=[T.every(lambda o,v,i:ForAll(lambda k:Implies(And(0<=k,k<i-lo(o.A,o.c)),And(ci(v.result_)[k]==ci(o.A)[k+lo(o.A,o.c)],cvl(v.result_)[k]==cvl(o.A)[k+lo(o.A,o.c)])),pats=lambda k:[ci(v.result_)[k],cvl(v.result_)[k]]),
       lambda o,v,i:ForAll(lambda k:Implies(And(lo(o.A,o.c)<=k,k<i),And(ci(v.result_)[k-lo(o.A,o.c)]==ci(o.A)[k],cvl(v.result_)[k-lo(o.A,o.c)]==cvl(o.A)[k])),pats=lambda k:[ci(o.A)[k]])),
     T.always(lambda o,v:And(v.result_.size_==o.A.size1_,n(v.result_)==hi(o.A,o.c)-lo(o.A,o.c)))],prop='C01 C02')
c(f"sla::emult(sla::cvector&, {CV}, {CV})",R_,requires=[lambda v:v.x.size_==v.y.size_,lambda v:WF(v.x),lambda v:WF(v.y)],modifies=[MR],
  ensures=[res_sparse(xs,lambda o,j:at(o.x,j)*at(o.y,j))],
  templates=[T.always(rincr,rrange(xs),rsz(xs),lambda o,v:grown(o,v,lambda o,j:at(o.x,j)*at(o.y,j))),T.merge(f"{CE}+0"),
     T.every(rlast_below(X_),lambda o,v,i:ForAll(lambda k:Implies(And(0<=k,k<i,has(o.y,ci(o.x)[k])),has(v.result_,ci(o.x)[k])),pats=lambda k:[ci(o.x)[k]]))],prop='C01 C02')
c(f"sla::emult_column(sla::cvector&, {CM}, unsigned int, {CV})",['result_','A','c','x'],requires=[lambda v:v.x.size_==v.A.size1_,lambda v:And(0<=v.c,v.c<v.A.size2_),lambda v:WFM(v.A),lambda v:WF(v.x)],modifies=[MR],
  ensures=[res_sparse(xs,lambda o,j:col(o.A,o.c,j)*at(o.x,j))],
  templates=[T.always(rincr,rrange(xs),rsz(xs),lambda o,v:grown(o,v,lambda o,j:col(o.A,o.c,j)*at(o.x,j))),T.merge(f"{CE}+0"),
     T.every(lambda o,v,i:Implies(And(0<=i,i<hi(o.A,o.c)),ForAll(lambda k:Implies(And(0<=k,k<n(v.result_)),ci(v.result_)[k]<ci(o.A)[i]),pats=lambda k:[ci(v.result_)[k]])),
         lambda o,v,i:ForAll(lambda k:Implies(And(lo(o.A,o.c)<=k,k<i,has(o.x,ci(o.A)[k])),has(v.result_,ci(o.A)[k])),pats=lambda k:[ci(o.A)[k]]))],prop='C01 C02')
c(f"sla::mult(sla::cvector&, {CV}, {CM})",['result_','x','A'],requires=[lambda v:v.x.size_==v.A.size1_,lambda v:WFM(v.A),lambda v:WF(v.x)],modifies=[MR],
  ensures=[res_sparse(lambda o:o.A.size2_,lambda o,j:thr(Sum(hi(o.A,j),lambda k:cvl(o.A)[k]*at(o.x,ci(o.A)[k]),lo(o.A,j))))],prop='C01 C02')
tmpcol=lambda o,L,i,p:And(n(L)==p-lo(o.A,ci(o.x)[i]),
   ForAll(lambda k:Implies(And(0<=k,k<n(L)),And(ci(L)[k]==ci(o.A)[k+lo(o.A,ci(o.x)[i])],cvl(L)[k]==cvl(o.x)[i]*cvl(o.A)[k+lo(o.A,ci(o.x)[i])])),pats=lambda k:[ci(L)[k],cvl(L)[k]]),
   ForAll(lambda k:Implies(And(lo(o.A,ci(o.x)[i])<=k,k<p),And(ci(L)[k-lo(o.A,ci(o.x)[i])]==ci(o.A)[k],cvl(L)[k-lo(o.A,ci(o.x)[i])]==cvl(o.x)[i]*cvl(o.A)[k])),pats=lambda k:[ci(o.A)[k]]))
c(f"sla::mult(sla::cvector&, {CM}, {CV})",['result_','A','x'],requires=[sq,lambda v:WFM(v.A),lambda v:WF(v.x)],modifies=[MR],
  ensures=[res_sparse(xsA,lambda o,j:thr(Ax(o,j,n(o.x))))],
  templates=[T.local("sla::cvector",lambda o,v,L:L.size_==o.A.size1_,lambda o,v,L:WF(L)),
     T.local_pos("sla::cvector",'x',lambda o,v,L,i:ForAll(lambda j:Implies(And(0<=j,j<o.A.size1_),at(L,j)==Ax(o,j,i)),pats=lambda j:[at(L,j)])),
     T.local_self("sla::cvector",lambda o,v,L,i:Implies(And(0<=i,i<n(L)),ForAll(lambda k:Implies(And(0<=k,k<n(v.result_)),ci(v.result_)[k]<ci(L)[i]),pats=lambda k:[ci(v.result_)[k]])),
        lambda o,v,L,i:ForAll(lambda k:Implies(And(0<=k,k<i,thr(cvl(L)[k])!=0),has(v.result_,ci(L)[k])),pats=lambda k:[ci(L)[k]])),
     T.local_pos2("sla::cvector",'x','A',lambda o,v,L,i,p:tmpcol(o,L,i,p)),
     T.local("sla::cvector",lambda o,v,L:ForAll(lambda k:Implies(And(0<=k,k<n(v.result_)),And(cvl(v.result_)[k]==thr(at(L,ci(v.result_)[k])),cvl(v.result_)[k]!=0,has(L,ci(v.result_)[k]))),pats=lambda k:[ci(v.result_)[k]])),
     T.always(rincr,rrange(xsA),rsz(xsA))],prop='C01 C02',opts={'budget':900,'thorough':True})
# ---- coordinate matrices: position of the last entry stored for a cell
kpos=z3.Function("kpos",AI,AI,I,I,I,I)
def def_kpos(t):
    ra,ca,m,r,cc=t.children()
    k=z3.Const("k!kp",I)
    return [z3.Or(z3.And(0<=t,t<m,ra[t]==r,ca[t]==cc,z3.ForAll([k],z3.Implies(z3.And(t<k,k<m),z3.Or(ra[k]!=r,ca[k]!=cc)),patterns=[ra[k],ca[k]])),
                  z3.And(t==-1,z3.ForAll([k],z3.Implies(z3.And(0<=k,k<m),z3.Or(ra[k]!=r,ca[k]!=cc)),patterns=[ra[k],ca[k]])))]
spec(kpos,lambda ts:[f for t in ts for f in def_kpos(t)])
GENAX[kpos.get_id()]=gen_axiom(kpos,def_kpos)
def kr(A): return A.data.arr('r')
def kc(A): return A.data.arr('c')
def kv(A): return A.data.arr('value')
def kp(A,r,cc,m=None): return kpos(kr(A),kc(A),n(A) if m is None else m,r,cc)
def klast(A,r,cc,m=None):
    p=kp(A,r,cc,m); return Ite(p>=0,kv(A)[p],rv(0))
def colmajor(A,strict=True,m=None):
    m=n(A) if m is None else m
    return ForAll(lambda i,j:Implies(And(0<=i,i<j,j<m),Or(kc(A)[i]<kc(A)[j],And(kc(A)[i]==kc(A)[j],(kr(A)[i]<kr(A)[j]) if strict else kr(A)[i]<=kr(A)[j]))),pats=lambda i,j:[[kc(A)[i],kc(A)[j]],[kr(A)[i],kr(A)[j]]])
c("sla::kmatrix::push_back(unsigned int, unsigned int, double)",['self','r','c','value'],modifies=mods('self'),
  ensures=[lambda o,v:{'count':n(v.self)==n(o.self)+1,'entry':And(kr(v.self)[n(o.self)]==o.r,kc(v.self)[n(o.self)]==o.c,kv(v.self)[n(o.self)]==o.value),'size':And(v.self.size1_==o.self.size1_,v.self.size2_==o.self.size2_),
     'kept':ForAll(lambda k:Implies(And(0<=k,k<n(o.self)),And(kr(v.self)[k]==kr(o.self)[k],kc(v.self)[k]==kc(o.self)[k],kv(v.self)[k]==kv(o.self)[k])))}],prop='C02')
c("sla::kmatrix::resize(unsigned int, unsigned int, double)",['self','r','c','value'],requires=[lambda v:v.value==0],modifies=mods('self'),
  ensures=[lambda o,v:{'size':And(v.self.size1_==o.r,v.self.size2_==o.c),'empty':n(v.self)==0}],prop='C02')
c("sla::kmatrix::operator()(unsigned int, unsigned int) const",['self','r','c'],requires=[lambda v:And(colmajor(v.self),0<=v.r,v.r<v.self.size1_,0<=v.c,v.c<v.self.size2_)],
  ensures=[lambda o,v:{'value':v.result==klast(o.self,o.r,o.c)}],
  templates=[T.every(lambda o,v,i:ForAll(lambda k:Implies(And(0<=k,k<i),Or(kr(o.self)[k]!=o.r,kc(o.self)[k]!=o.c)),pats=lambda k:[kr(o.self)[k]]))],prop='C01')
def KD(v): return v.self.data
kel=lambda L,f:L.arr(f)
c("sla::kmatrix::canonicalize()",['self'],modifies=mods('self'),
  ensures=[lambda o,v:{'C02 column-major, one entry per cell':colmajor(v.self),'C02 size':And(v.self.size1_==o.self.size1_,v.self.size2_==o.self.size2_),
     'C02 only pushed cells, last value':ForAll(lambda k:Implies(And(0<=k,k<n(v.self)),And(kp(o.self,kr(v.self)[k],kc(v.self)[k])>=0,kv(v.self)[k]==klast(o.self,kr(v.self)[k],kc(v.self)[k])))),
     'C02 every pushed cell kept':ForAll(lambda k:Implies(And(0<=k,k<n(o.self)),kp(v.self,kr(o.self)[k],kc(o.self)[k])>=0))}],
  templates=[T.local("std::vector",lambda o,v,L:ForAll(lambda i,j:Implies(And(0<=i,i<j,j<L.len),Or(kel(L,'c')[i]<kel(L,'c')[j],And(kel(L,'c')[i]==kel(L,'c')[j],kel(L,'r')[i]<kel(L,'r')[j]))),pats=lambda i,j:[[kel(L,'c')[i],kel(L,'c')[j]],[kel(L,'r')[i],kel(L,'r')[j]]])),
     T.local_every("std::vector",lambda o,v,L,i:Implies(i>0,And(L.len>0,kel(L,'c')[L.len-1]==kc(v.self)[i-1],kel(L,'r')[L.len-1]==kr(v.self)[i-1])),
        lambda o,v,L,i:Implies(i==0,L.len==0),
        lambda o,v,L,i:ForAll(lambda k:Implies(And(0<=k,k<L.len),And(kp(v.self,kel(L,'r')[k],kel(L,'c')[k],i)>=0,kel(L,'value')[k]==kv(v.self)[kp(v.self,kel(L,'r')[k],kel(L,'c')[k],i)])),pats=lambda k:[kel(L,'r')[k],kel(L,'c')[k],kel(L,'value')[k]]),
        lambda o,v,L,i:ForAll(lambda k:Implies(And(0<=k,k<i),kpos(kel(L,'r'),kel(L,'c'),L.len,kr(v.self)[k],kc(v.self)[k])>=0),pats=lambda k:[kr(v.self)[k]]))],prop='C02')
# ---- cmatrix
c("sla::cmatrix::resize(unsigned int, unsigned int, unsigned int)",['self','r','c','nz'],requires=[lambda v:v.nz==0],modifies=mods('self'),
  ensures=[lambda o,v:{'size':And(v.self.size1_==o.r,v.self.size2_==o.c),'empty':n(v.self)==0,'starts':And(v.self.col_starts.len==o.c+1,ForAll(lambda k:Implies(And(0<=k,k<=o.c),cs(v.self)[k]==0),pats=lambda k:[cs(v.self)[k]]))}],
  templates=[T.every(lambda o,v,i:ForAll(lambda k:Implies(And(0<=k,k<i),cs(v.self)[k]==0),pats=lambda k:[cs(v.self)[k]])),T.always(lambda o,v:And(v.self.size2_==o.c,v.self.size1_==o.r,v.self.col_starts.len==o.c+1))],prop='C02')
c("sla::cmatrix::push_back(unsigned int, unsigned int, double)",['self','r','c','value'],requires=[lambda v:And(0<=v.c,v.c<v.self.size2_,v.self.col_starts.len==v.self.size2_+1)],modifies=mods('self'),
  ensures=[lambda o,v:{'size':And(v.self.size1_==o.self.size1_,v.self.size2_==o.self.size2_,v.self.col_starts.len==o.self.col_starts.len),'count':n(v.self)==n(o.self)+1,
     'entry':And(ci(v.self)[n(o.self)]==o.r,cvl(v.self)[n(o.self)]==o.value),'kept':ForAll(lambda k:Implies(And(0<=k,k<n(o.self)),And(ci(v.self)[k]==ci(o.self)[k],cvl(v.self)[k]==cvl(o.self)[k]))),
     'starts':ForAll(lambda k:Implies(And(0<=k,k<v.self.col_starts.len),cs(v.self)[k]==Ite(k==o.c+1,n(o.self)+1,cs(o.self)[k])))}],prop='C02')
# ---- comparisons
def ge(o,j): return at(o.x,j)>=at(o.y,j)-o.eps
c(f"sla::dominates({DV}, {DV}, double)",['x','y','eps'],requires=[lambda v:D(v.x)==D(v.y)],
  ensures=[lambda o,v:{'sound':Implies(v.result,ForAll(lambda j:Implies(And(0<=j,j<D(o.x)),dat(o.x)[j]>=dat(o.y)[j]-o.eps))),
      'complete':Implies(Not(v.result),Exists(lambda j:And(0<=j,j<D(o.x),dat(o.x)[j]<dat(o.y)[j]-o.eps)))}],
  templates=[T.every(lambda o,v,i:ForAll(lambda j:Implies(And(0<=j,j<i),dat(o.x)[j]>=dat(o.y)[j]-o.eps),pats=lambda j:[dat(o.x)[j]]))],prop='C03')
domt=[T.merge(f"{CE}+0"),T.copyof(f"{CE}+0"),T.every(lambda o,v,i:ForAll(lambda k:Implies(And(0<=k,k<i),ge(o,ci(o.x)[k])),pats=lambda k:[ci(o.x)[k]]),
             lambda o,v,i:ForAll(lambda k:Implies(And(0<=k,k<i),ge(o,ci(o.y)[k])),pats=lambda k:[ci(o.y)[k]]))]
c(f"sla::dominates({CV}, {CV}, double)",['x','y','eps'],requires=[lambda v:v.x.size_==v.y.size_,lambda v:WF(v.x),lambda v:WF(v.y),lambda v:v.eps>=0],
  ensures=[lambda o,v:{'sound':Implies(v.result,ForAll(lambda j:Implies(And(0<=j,j<o.x.size_),ge(o,j))))}],templates=domt,prop='C03')
c(f"sla::mask_subset({CV}, sla::cvector const&)",['x','m'],requires=[lambda v:v.x.size_==v.m.size_,lambda v:WF(v.x),lambda v:WF(v.m)],
  ensures=[lambda o,v:{'sound':Implies(v.result,ForAll(lambda k:Implies(And(0<=k,k<n(o.x)),has(o.m,ci(o.x)[k]))))}],
  templates=[T.merge(f"{CE}+0"),T.every(lambda o,v,i:ForAll(lambda k:Implies(And(0<=k,k<i),has(o.m,ci(o.x)[k])),pats=lambda k:[ci(o.x)[k]]))],prop='C03')
c(f"sla::mask_dominates({CV}, {CV}, double, {CV}, {CV})",['x','y','eps','xm','ym'],
  requires=[lambda v:v.x.size_==v.y.size_,lambda v:v.xm.size_==v.ym.size_,lambda v:And(WF(v.x),WF(v.y),WF(v.xm),WF(v.ym)),lambda v:v.eps>=0],
  ensures=[lambda o,v:{'sound':Implies(v.result,And(ForAll(lambda j:Implies(And(0<=j,j<o.x.size_),ge(o,j))),ForAll(lambda k:Implies(And(0<=k,k<n(o.ym)),has(o.xm,ci(o.ym)[k])))))}],prop='C03')
# ---- masks
c("sla::mask_set_all(sla::cvector&, int)",['result_','sz'],requires=[lambda v:v.sz>=0],modifies=[MR],ensures=[res_sparse(lambda o:o.sz,lambda o,j:rv(1)),lambda o,v:{'count':n(v.result_)==o.sz}],
  templates=[T.always(lambda o,v:ForAll(lambda k:Implies(And(0<=k,k<n(v.result_)),And(ci(v.result_)[k]==k,cvl(v.result_)[k]==1)),pats=lambda k:[ci(v.result_)[k],cvl(v.result_)[k]]),rsz(lambda o:o.sz)),
     T.every(lambda o,v,i:n(v.result_)==i)],prop='C02')
c("sla::mask_set_to_one(sla::cvector&, sla::cvector const&)",['result_','m'],requires=[lambda v:WF(v.m)],modifies=[MR],
  ensures=[lambda o,v:{'shape':And(v.result_.size_==o.m.size_,n(v.result_)==n(o.m)),'value':ForAll(lambda k:Implies(And(0<=k,k<n(o.m)),And(ci(v.result_)[k]==ci(o.m)[k],cvl(v.result_)[k]==1))),'C02 well-formed':WF(v.result_)}],
  templates=[T.every(lambda o,v,i:ForAll(lambda k:Implies(And(0<=k,k<i),cvl(v.result_)[k]==1),pats=lambda k:[cvl(v.result_)[k]])),
     T.always(lambda o,v:ForAll(lambda k:ci(v.result_)[k]==ci(o.m)[k],pats=lambda k:[ci(v.result_)[k]]))],prop='C02')
c(f"sla::mask_copy(sla::cvector&, {DV}, {CV})",['result_','x','m'],requires=[lambda v:D(v.x)==v.m.size_,lambda v:WF(v.m)],modifies=[MR],
  ensures=[res_sparse(lambda o:D(o.x),lambda o,j:Ite(has(o.m,j),dat(o.x)[j],rv(0)))],
  templates=[T.always(rincr,rrange(lambda o:D(o.x)),rsz(lambda o:D(o.x))),
     T.every(lambda o,v,i:And(n(v.result_)==i,ForAll(lambda k:Implies(And(0<=k,k<i),And(ci(v.result_)[k]==ci(o.m)[k],cvl(v.result_)[k]==dat(o.x)[ci(o.m)[k]])),pats=lambda k:[ci(v.result_)[k],ci(o.m)[k]])))],prop='C02')
c(f"sla::mask_copy(sla::cvector&, {CV}, {CV})",['result_','x','m'],requires=[lambda v:v.x.size_==v.m.size_,lambda v:WF(v.m),lambda v:WF(v.x)],modifies=[MR],
  ensures=[res_sparse(xs,lambda o,j:Ite(has(o.m,j),at(o.x,j),rv(0)))],
  templates=[T.always(rincr,rrange(xs),rsz(xs),lambda o,v:ForAll(lambda k:Implies(And(0<=k,k<n(v.result_)),And(cvl(v.result_)[k]==at(o.x,ci(v.result_)[k]),has(o.m,ci(v.result_)[k]))),pats=lambda k:[ci(v.result_)[k]])),T.merge(f"{CE}+0"),
     T.every(rlast_below(X_),lambda o,v,i:ForAll(lambda k:Implies(And(0<=k,k<i,has(o.m,ci(o.x)[k])),has(v.result_,ci(o.x)[k])),pats=lambda k:[ci(o.x)[k]]))],prop='C02')

# ---- arg max
c("MatrixUtils::argmax_elt(sla::dvector const&)",['v_'],requires=[lambda v:D(v.v_)>0],
  ensures=[lambda o,v:{'in range':And(0<=v.result,v.result<D(o.v_)),'largest':ForAll(lambda k:Implies(And(0<=k,k<D(o.v_)),dat(o.v_)[k]<=dat(o.v_)[v.result]))}],
  templates=[T.real_any(lambda o,v,i,r:ForAll(lambda k:Implies(And(0<=k,k<i),dat(o.v_)[k]<=r),pats=lambda k:[dat(o.v_)[k]]),lambda o,v,i,r:dat(o.v_)[i]==r),T.every(lambda o,v,i:And(0<=i,i<D(o.v_)))],prop='C01')
c("MatrixUtils::argmax_elt(sla::cvector const&)",['v_'],requires=[lambda v:And(v.v_.size_>0,WF(v.v_))],
  ensures=[lambda o,v:{'in range':And(0<=v.result,v.result<o.v_.size_),'largest':ForAll(lambda k:Implies(And(0<=k,k<o.v_.size_),at(o.v_,k)<=at(o.v_,v.result)))}],
  templates=[T.real_any(lambda o,v,i,r:ForAll(lambda k:Implies(And(0<=k,k<i),cvl(o.v_)[k]<=r),pats=lambda k:[cvl(o.v_)[k]]),lambda o,v,i,r:at(o.v_,i)==r),
    T.every_all(lambda o,v,i:And(0<=i,i<o.v_.size_)),
    T.any2(lambda o,v,i,p:And(ForAll(lambda k:Implies(And(0<=k,k<p),ci(o.v_)[k]==k),pats=lambda k:[ci(o.v_)[k]]),Implies(p>0,i==p-1)),
      lambda o,v,i,p:And(ForAll(lambda k:Implies(And(0<=k,k<p),ci(o.v_)[k]==k),pats=lambda k:[ci(o.v_)[k]]),i==p-1))],
  pre=lambda v:[spread(v.v_)],prop='C01')
tp=lambda A,r,cc:kpos(kc(A),kr(A),n(A),r,cc)     # last position of cell (cc,r): the transposed cell
c("sla::kmatrix_transpose_in_place(sla::kmatrix&)",['A'],modifies=mods('A'),
  ensures=[lambda o,v:{'C02 column-major, one entry per cell':colmajor(v.A),'size':And(v.A.size1_==o.A.size2_,v.A.size2_==o.A.size1_),
     'only transposed cells, last value':ForAll(lambda k:Implies(And(0<=k,k<n(v.A)),And(tp(o.A,kr(v.A)[k],kc(v.A)[k])>=0,kv(v.A)[k]==kv(o.A)[tp(o.A,kr(v.A)[k],kc(v.A)[k])]))),
     'every cell kept':ForAll(lambda k:Implies(And(0<=k,k<n(o.A)),kp(v.A,kc(o.A)[k],kr(o.A)[k])>=0))}],
  templates=[T.every(lambda o,v,i:And(n(v.A)==n(o.A),ForAll(lambda k:Implies(And(0<=k,k<n(o.A)),And(kr(v.A)[k]==Ite(k<i,kc(o.A)[k],kr(o.A)[k]),kc(v.A)[k]==Ite(k<i,kr(o.A)[k],kc(o.A)[k]),kv(v.A)[k]==kv(o.A)[k])),pats=lambda k:[kr(v.A)[k],kc(v.A)[k],kv(v.A)[k],kr(o.A)[k]])))],prop='C01 C02')
c("sla::cmatrix::canonicalize()",['self'],requires=[lambda v:And(v.self.size2_>=0,v.self.col_starts.len==v.self.size2_+1)],modifies=mods('self'),
  ensures=[lambda o,v:{'C02 non-decreasing':ForAll(lambda k:Implies(And(0<=k,k<o.self.size2_),cs(v.self)[k]<=cs(v.self)[k+1]),pats=lambda k:[cs(v.self)[k]]),
     'C02 only raised':ForAll(lambda k:Implies(And(0<=k,k<=o.self.size2_),Or(cs(v.self)[k]==cs(o.self)[k],And(cs(v.self)[k]>cs(o.self)[k],k>0,cs(v.self)[k]==cs(v.self)[k-1]))),pats=lambda k:[cs(v.self)[k]]),
     'C02 entries kept':And(n(v.self)==n(o.self),v.self.size1_==o.self.size1_,v.self.size2_==o.self.size2_,v.self.col_starts.len==o.self.col_starts.len,ForAll(lambda k:And(ci(v.self)[k]==ci(o.self)[k],cvl(v.self)[k]==cvl(o.self)[k]),pats=lambda k:[ci(v.self)[k],cvl(v.self)[k]]))}],
  templates=[T.every(lambda o,v,i:ForAll(lambda k:Implies(And(0<=k,k<i),cs(v.self)[k]<=cs(v.self)[k+1]),pats=lambda k:[cs(v.self)[k]]),
      lambda o,v,i:ForAll(lambda k:Implies(And(i<k,k<=o.self.size2_),cs(v.self)[k]==cs(o.self)[k]),pats=lambda k:[cs(v.self)[k]]),
      lambda o,v,i:ForAll(lambda k:Implies(And(0<=k,k<=i),Or(cs(v.self)[k]==cs(o.self)[k],And(cs(v.self)[k]>cs(o.self)[k],k>0,cs(v.self)[k]==cs(v.self)[k-1]))),pats=lambda k:[cs(v.self)[k]])),
      T.always(lambda o,v:And(v.self.size2_==o.self.size2_,v.self.col_starts.len==o.self.col_starts.len))],prop='C02')
