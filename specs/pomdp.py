"""Contracts of src/pomdpCore/Pomdp.cc (C04)."""
from sla import *
import sla
DEPS=['sla']
FILES=['pomdpCore/Pomdp.cc']
C=[]
def c(*a,**k):
    x=Contract(*a,**k); C.append(x); return x
BV="sla::cvector const&"
def isterm(v,i): return v.self.isTerminalState.arr()[i]
def WFV(vec): 
    """every matrix of a vector<cmatrix> is well formed"""
    return None
def Tb(o,j): return Sum(n(o.b),lambda k:cvl(o.b)[k]*col(o.self.Ttr[o.a],ci(o.b)[k],j))
okT=lambda v:And(0<=v.a,v.a<v.self.Ttr.len,v.self.Ttr.len==v.self.O.len,v.self.Ttr[v.a].size1_==v.self.Ttr[v.a].size2_,v.self.Ttr[v.a].size2_==v.b.size_,v.self.O[v.a].size1_==v.b.size_)
wfT=lambda v:WFM(v.self.Ttr[v.a])
wfO=lambda v:WFM(v.self.O[v.a])
wfb=lambda v:WF(v.b)
c(f"zmdp::Pomdp::getObsProbVector(sla::dvector&, {BV}, int) const",['self','result_','b','a'],requires=[okT,wfT,wfO,wfb],modifies=[MR],
  ensures=[lambda o,v:{'C04 size':D(v.result_)==o.self.O[o.a].size2_,
    'C04 probability of each observation':ForAll(lambda j:Implies(And(0<=j,j<o.self.O[o.a].size2_),dat(v.result_)[j]==Sum(o.b.size_,lambda i:Tb(o,i)*col(o.self.O[o.a],j,i))),pats=lambda j:[dat(v.result_)[j]])}],prop='C04',opts={'timeout':40000})
def E_(o,j): return col(o.self.O[o.a],o.o,j)*thr(Tb(o,j))
def nb_hints(o,v,calls):
    r=[x for x in calls if 'emult_column' in x[0]][0][2].result_; S=[x for x in calls if x[0].endswith('sum')][0][2].result
    tmp=[x for x in calls if x[0].endswith('mult') and 'emult' not in x[0]][0][2].result_
    return [('prediction',ForAll(lambda j:Implies(And(0<=j,j<o.b.size_),at(tmp,j)==thr(Tb(o,j))),pats=lambda j:[at(tmp,j)])),
       ('product',ForAll(lambda j:Implies(And(0<=j,j<o.b.size_),at(r,j)==col(o.self.O[o.a],o.o,j)*at(tmp,j)),pats=lambda j:[at(r,j)])),
       ('element-wise product',ForAll(lambda j:Implies(And(0<=j,j<o.b.size_),at(r,j)==E_(o,j)),pats=lambda j:[at(r,j)])),
       ('its sum',S==Z_(o)),
       ('scaled',ForAll(lambda j:Implies(And(0<=j,j<o.b.size_),at(v.result_,j)==at(r,j)*(rv(1)/S)),pats=lambda j:[at(v.result_,j)]))]
def Z_(o): return Sum(o.b.size_,lambda i:E_(o,i))
c(f"zmdp::Pomdp::getNextBelief(sla::cvector&, {BV}, int, int) const",['self','result_','b','a','o'],requires=[okT,wfT,wfO,wfb,lambda v:And(0<=v.o,v.o<v.self.O[v.a].size2_,Z_(v)!=0)],modifies=[MR],
  ensures=[lambda o,v:{'C04 well-formed':WF(v.result_),'C04 size':v.result_.size_==o.b.size_,
    'C04 product of prediction and likelihood over its sum':ForAll(lambda j:Implies(And(0<=j,j<o.b.size_),at(v.result_,j)==E_(o,j)*(rv(1)/Z_(o))))}],hints=nb_hints,prop='C04')
c(f"zmdp::Pomdp::getReward({BV}, int)",['self','b','a'],requires=[wfb,lambda v:WFM(v.self.R),lambda v:And(v.self.R.size1_==v.b.size_,0<=v.a,v.a<v.self.R.size2_)],
  ensures=[lambda o,v:{'C04 expected reward':v.result==Sum(o.b.size_,lambda i:col(o.self.R,o.a,i)*at(o.b,i))}],prop='C04')
def nonterm(o,m): return Sum(m,lambda k:Ite(o.self.isTerminalState.arr()[ci(o.s)[k]]!=0,rv(0),cvl(o.s)[k]))
c(f"zmdp::Pomdp::getIsTerminalState({BV})",['self','s'],requires=[lambda v:WF(v.s),lambda v:v.self.isTerminalState.len==v.s.size_],
  ensures=[lambda o,v:{'C04 terminal iff no weight on non-terminal states':v.result==(nonterm(o,n(o.s))<rv(1e-10))}],
  templates=[T.accum(lambda o,v,i,r:r==nonterm(o,i))],prop='C04')
