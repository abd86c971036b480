"""Contracts of src/bounds: point-bound backups, cached action values, outcome sampling (C05, C12, C18)."""
from sla import *
import sla
DEPS=['sla']
FILES=['bounds/PointLowerBound.cc','bounds/PointUpperBound.cc','bounds/BoundPair.cc','bounds/BoundPairCore.cc']
C=[]
OPTS=dict(nl=False,defd=True,cand_timeout=350)
def c(*a,**k):
    x=Contract(*a,**k); C.append(x); return x
NEG=-99e+20
def nA(cn): return cn.Q.len
def nO(cn,a): return cn.Q[a].outcomes.len
def edge(cn,a,k): return cn.Q[a].outcomes[k]
def disc(v): return v.self.problem.discount
def exp_(cn,a,fld,m=None):
    """probability-weighted sum of the successors' values over the outcomes that have an edge"""
    return Sum(nO(cn,a) if m is None else m,lambda k:Ite(edge(cn,a,k).ref!=0,edge(cn,a,k).obsProb*getattr(edge(cn,a,k).nextState,fld),rv(0)))
def QV(v,fld): return comp(lambda a:v.cn.Q[a].immediateReward+disc(v)*exp_(v.cn,a,fld))
def qv(v,a,fld): return QV(v,fld)[a]
ref0=lambda v:And(ForAll(lambda a,k:Implies(And(0<=a,a<nA(v.cn),0<=k,k<nO(v.cn,a)),edge(v.cn,a,k).ref>=0),pats=lambda a,k:[edge(v.cn,a,k).ref]))
def upto(o,v,i,fld): return ForAll(lambda a:Implies(And(0<=a,a<i),getattr(v.cn.Q[a],fld)==qv(o,a,fld)),pats=lambda a:[getattr(v.cn.Q[a],fld),qv(o,a,fld)])
def stored(v,fld): return comp(lambda a:getattr(v.cn.Q[a],fld))
def best(v,i,r,fld,bot=NEG):
    """r is the largest of the first i stored action values (and of the starting value)"""
    return And(r>=rv(bot),ForAll(lambda a:Implies(And(0<=a,a<i),getattr(v.cn.Q[a],fld)<=r),pats=lambda a:[getattr(v.cn.Q[a],fld)]))
def attained(v,i,r,fld,bot=NEG): return Or(r==rv(bot),And(i>0,r==maxto(stored(v,fld),i)))
def backup(o,v,fld):
    d={f'{fld} of every action':ForAll(lambda a:Implies(And(0<=a,a<nA(o.cn)),getattr(v.cn.Q[a],fld)==qv(o,a,fld)),pats=lambda a:[getattr(v.cn.Q[a],fld)])}
    new=getattr(v.cn,fld); old=getattr(o.cn,fld); q=lambda a:getattr(v.cn.Q[a],fld)
    if fld=='lbVal':
        d['lower bound never lowered']=new>=old
        d['lower bound at least every action value']=ForAll(lambda a:Implies(And(0<=a,a<nA(o.cn)),new>=q(a)),pats=lambda a:[q(a)])
        d['lower bound is the old value or an action value']=Or(new==old,And(nA(o.cn)>0,new==maxto(stored(v,fld),nA(o.cn))))
    else:
        d['upper bound never raised']=new<=old
        d['upper bound is the smaller of the old value and the best action value']=And(nA(o.cn)>0,new==Min(old,maxto(stored(v,fld),nA(o.cn))))
    return d
def act(o,v,fld):
    r=v.maxUBActionP.v; q=lambda a:getattr(v.cn.Q[a],fld)
    return {'reported action is best':And(And(0<=r,r<nA(o.cn),ForAll(lambda a:Implies(And(0<=a,a<nA(o.cn)),q(a)<=q(r)),pats=lambda a:[q(a)])))}
inner=lambda fld:T.accumc(lambda o,v,i,a,r:Implies(And(0<=a,a<nA(o.cn)),r==exp_(o.cn,a,fld,i)))
def outer(fld): return [T.every(lambda o,v,i:upto(o,v,i,fld)),T.accum(lambda o,v,i,r:best(v,i,r,fld),lambda o,v,i,r:attained(v,i,r,fld)),inner(fld),
    T.every(lambda o,v,i:ForAll(lambda a:Implies(And(i<=a,a<nA(o.cn)),getattr(v.cn.Q[a],fld)==getattr(o.cn.Q[a],fld)),pats=lambda a:[getattr(v.cn.Q[a],fld)]))]
argmax=lambda fld:T.accumx(lambda o,v,i,b,r:Or(And(b==-1,r==rv(NEG)),And(0<=b,b<i,getattr(v.cn.Q[b],fld)==r)))
def okvals(fld): return lambda v:And(nA(v.cn)>0,qv(v,iv(0),fld)>rv(NEG),ForAll(lambda a:Implies(And(0<=a,a<nA(v.cn)),qv(v,a,fld)>rv(NEG)),pats=lambda a:[qv(v,a,fld)]))
def mQ(fld): return lambda v:MHeap('zmdp::MDPNode','Q')
HK={'cn':'heap','maxUBActionP':'cell'}
QW=[lambda v:[MField(v.cn,'lbVal'),MFieldQ(v.cn,'lbVal')]]
class MFieldQ:
    """one field of every element of cn.Q"""
    def __init__(s,cn,*flds): s.cn=cn; s.f=flds
    def _keys(s,ex):
        p=s.cn._p if s.cn._dt.kind!='ptr' else s.cn.deref._p; t=s.cn._dt if s.cn._dt.kind!='ptr' else s.cn._dt.to
        o,off,t2,_=t.find('Q'); p=p.step(f"{cname(o.name)}+{off}").index(iv(0))
        et=ex.p.di.targ(t2,0); r=[]
        for f in s.f:
            o,off,t3,_=et.find(f); q=p.step(f"{cname(o.name)}+{off}"); r.append((q,t3))
        return r
    def havoc(s,ex,st,site):
        for q,t3 in s._keys(ex):
            base=R if t3.kind=='real' else I; key=q.key(); t0=ex.leafterm(st,key,base)
            d=q.alldims()[:-1]
            n=z3.Const(f"mod:{site}|{'/'.join(key[1])}",seln(t0,d).sort())
            st.mem[key]=storen(t0,d,n); st.w.add(key)
    def covers(s,ex,key): return False
    def exempt(s,ex,key):
        for q,t3 in s._keys(ex):
            if key==q.key():
                d=q.alldims()[:-1]
                return lambda ix,d=d:And(*[a==b for a,b in zip(ix,d)])
        return None
c("zmdp::PointLowerBound::update(zmdp::MDPNode&)",['self','cn'],kinds=HK,requires=[ref0,lambda v:v.cn.lbVal>rv(NEG)],
  modifies=[lambda v:[MField(v.cn,'lbVal'),MFieldQ(v.cn,'lbVal')]],ensures=[lambda o,v:backup(o,v,'lbVal')],templates=outer('lbVal'),prop='C05 C18')
c("zmdp::PointUpperBound::getNewUBValueQ(zmdp::MDPNode&, int)",['self','cn','a'],kinds=HK,requires=[ref0,lambda v:And(0<=v.a,v.a<nA(v.cn))],
  modifies=[lambda v:MFieldQ(v.cn,'ubVal')],
  ensures=[lambda o,v:{'value':v.result==qv(o,o.a,'ubVal'),'stored':v.cn.Q[o.a].ubVal==qv(o,o.a,'ubVal'),'others kept':ForAll(lambda b:Implies(And(0<=b,b<nA(o.cn),b!=o.a),v.cn.Q[b].ubVal==o.cn.Q[b].ubVal),pats=lambda b:[v.cn.Q[b].ubVal])}],
  templates=[T.accum(lambda o,v,i,r:r==exp_(o.cn,o.a,'ubVal',i))],prop='C05')
c("zmdp::PointUpperBound::updateSimple(zmdp::MDPNode&, int*)",['self','cn','maxUBActionP'],kinds=HK,requires=[ref0,okvals('ubVal')],
  modifies=[lambda v:[MField(v.cn,'ubVal'),MFieldQ(v.cn,'ubVal'),MScalar(v.maxUBActionP)]],ensures=[lambda o,v:backup(o,v,'ubVal'),lambda o,v:act(o,v,'ubVal')],
  templates=outer('ubVal')+[argmax('ubVal')],prop='C05 C18')
c("zmdp::BoundPairCore::getMaxUBAction(zmdp::MDPNode&)",['cn'],kinds={'cn':'heap'},requires=[lambda v:And(nA(v.cn)>0,ForAll(lambda a:Implies(And(0<=a,a<nA(v.cn)),v.cn.Q[a].ubVal>rv(NEG)),pats=lambda a:[v.cn.Q[a].ubVal]))],
  ensures=[lambda o,v:{'in range':And(0<=v.result,v.result<nA(o.cn)),'best':ForAll(lambda a:Implies(And(0<=a,a<nA(o.cn)),o.cn.Q[a].ubVal<=o.cn.Q[v.result].ubVal))}],
  templates=[T.accum2(lambda o,v,i,b,r:And(Implies(i==0,r==rv(NEG)),Implies(i>0,And(0<=b,b<i,o.cn.Q[b].ubVal==r)),r>=rv(NEG))),T.accum(lambda o,v,i,r:And(r>=rv(NEG),ForAll(lambda a:Implies(And(0<=a,a<i),o.cn.Q[a].ubVal<=r),pats=lambda a:[o.cn.Q[a].ubVal])))],prop='C05 C09 C18')
dual=lambda o,v:dict(list(backup(o,v,'lbVal').items())+list(backup(o,v,'ubVal').items())+list(act(o,v,'ubVal').items()))
c("zmdp::BoundPair::updateDualPointBounds(zmdp::MDPNode&, int*)",['self','cn','maxUBActionP'],kinds=HK,requires=[ref0,okvals('ubVal'),lambda v:v.cn.lbVal>rv(NEG)],
  modifies=[lambda v:[MField(v.cn,'lbVal'),MField(v.cn,'ubVal'),MFieldQ(v.cn,'lbVal','ubVal'),MScalar(v.maxUBActionP)]],ensures=[dual],
  templates=outer('ubVal')+outer('lbVal')+[argmax('ubVal')],prop='C05 C18')
