"""Inductive proofs (base case and step, by z3) of the lemmas the verifier uses as axioms about sums, maxima, sorted indices.
The defining equations are S(A,n)=0 for n<=0 and S(A,n+1)=S(A,n)+A[n] for n>=0."""
import z3
I=z3.IntSort(); R=z3.RealSort(); AI=z3.ArraySort(I,I); AR=z3.ArraySort(I,R)
S=z3.Function('S',AR,I,R)
A,B=z3.Consts('A B',AR); n,m,k,i,j,c=z3.Ints('n m k i j c')
def unf(X,t): return z3.And(S(X,0)==0,z3.Implies(t>=0,S(X,t+1)==S(X,t)+X[t]))
def valid(hyps,goal):
    s=z3.Solver(); s.set('timeout',20000); s.set('random_seed',1)
    for h in hyps: s.add(h)
    s.add(z3.Not(goal)); return s.check()==z3.unsat
def induct(P,extra,lo=None):
    """P(lo) and, for n>=lo, P(n) -> P(n+1)"""
    lo=z3.IntVal(0) if lo is None else lo
    return valid(extra(lo),P(lo)) and valid(extra(n)+[n>=lo,P(n)],P(n+1))
def fa(vs,b): return z3.ForAll(vs,b)
LEMMAS={}
def lemma(f): LEMMAS[f.__name__]=f; return f
@lemma
def sum_congruence():
    "(forall k in [0,n): A[k]=B[k]) -> S(A,n)=S(B,n)"
    return induct(lambda t:z3.Implies(fa(k,z3.Implies(z3.And(0<=k,k<t),A[k]==B[k])),S(A,t)==S(B,t)),lambda t:[unf(A,t),unf(B,t)])
@lemma
def sum_zero():
    return induct(lambda t:z3.Implies(fa(k,z3.Implies(z3.And(0<=k,k<t),A[k]==0)),S(A,t)==0),lambda t:[unf(A,t)])
@lemma
def sum_nonneg():
    return induct(lambda t:z3.Implies(fa(k,z3.Implies(z3.And(0<=k,k<t),A[k]>=0)),S(A,t)>=0),lambda t:[unf(A,t)])
@lemma
def sum_zero_tail():
    "0<=m<=n, A zero on [m,n) -> S(A,n)=S(A,m)"
    return induct(lambda t:z3.Implies(z3.And(0<=m,m<=t,fa(k,z3.Implies(z3.And(m<=k,k<t),A[k]==0))),S(A,t)==S(A,m)),lambda t:[unf(A,t),unf(A,m),z3.Implies(m==0,S(A,m)==S(A,0))])
@lemma
def sum_scale():
    "(forall k in [0,n): B[k]=c*A[k]) -> S(B,n)=c*S(A,n)"
    q=z3.Real('q')
    return induct(lambda t:z3.Implies(fa(k,z3.Implies(z3.And(0<=k,k<t),B[k]==q*A[k])),S(B,t)==q*S(A,t)),lambda t:[unf(A,t),unf(B,t)])
@lemma
def sum_monotone():
    return induct(lambda t:z3.Implies(fa(k,z3.Implies(z3.And(0<=k,k<t),A[k]<=B[k])),S(A,t)<=S(B,t)),lambda t:[unf(A,t),unf(B,t)])
@lemma
def max_attained():
    "M(A,1)=A[0], M(A,n+1)=max(M(A,n),A[n]): attained and an upper bound"
    M=z3.Function('M',AR,I,R)
    d=lambda t:[M(A,1)==A[0],z3.Implies(t>=1,M(A,t+1)==z3.If(A[t]>M(A,t),A[t],M(A,t)))]
    return induct(lambda t:z3.And(z3.Exists(k,z3.And(0<=k,k<t,A[k]==M(A,t))),fa(k,z3.Implies(z3.And(0<=k,k<t),A[k]<=M(A,t)))),d,z3.IntVal(1))
@lemma
def spread():
    "strictly increasing indices in [0,size): idx[k]>=k and idx[k]<=size-n+k"
    X=z3.Const('X',AI); sz=z3.Int('sz')
    h=[fa([i,j],z3.Implies(z3.And(0<=i,i<j,j<m),X[i]<X[j])),fa(i,z3.Implies(z3.And(0<=i,i<m),z3.And(0<=X[i],X[i]<sz)))]
    a=induct(lambda t:z3.Implies(t<m,X[t]>=t),lambda t:h+[z3.Implies(z3.And(0<=t,t+1<m),X[t]<X[t+1])])
    b=induct(lambda t:z3.Implies(t<m,X[m-1-t]<=sz-1-t),lambda t:h+[z3.Implies(z3.And(0<=t,t+1<m),X[m-2-t]<X[m-1-t])])
    return a and b
@lemma
def spread_full():
    "n increasing indices below n: idx[k]=k (so every index occurs)"
    X=z3.Const('X',AI)
    h=[fa(i,z3.Implies(z3.And(0<=i,i<m),z3.And(X[i]>=i,X[i]<=m-m+i)))]
    return valid(h+[0<=k,k<m],X[k]==k)
@lemma
def sparse_dense_sum():
    """idx strictly increasing in [lo,hi) with values in [0,size):  sum over stored entries of W[k] equals the dense sum of D[i],
       where D[idx[k]]=W[k] for the stored ones and D[i]=0 for every other i"""
    X=z3.Const('X',AI); W,D=z3.Consts('W D',AR); lo,hi=z3.Ints('lo hi')
    h=[0<=lo,lo<=hi,fa([i,j],z3.Implies(z3.And(lo<=i,i<j,j<hi),X[i]<X[j])),fa(k,z3.Implies(z3.And(lo<=k,k<hi),z3.And(X[k]>=0,D[X[k]]==W[k]))),
       fa(i,z3.Or(D[i]==0,z3.Exists(k,z3.And(lo<=k,k<hi,X[k]==i))))]
    def inv(t,p): return z3.And(lo<=p,p<=hi,fa(k,z3.Implies(z3.And(lo<=k,k<p),X[k]<t)),fa(k,z3.Implies(z3.And(p<=k,k<hi),X[k]>=t)),S(W,p)-S(W,lo)==S(D,t))
    p=z3.Int('p')
    base=valid(h+[unf(D,z3.IntVal(0))],inv(z3.IntVal(0),lo))
    # step: t=n, cut p; the entry at p is stored for i=n or n is not stored
    st=h+[n>=0,inv(n,p),unf(D,n),unf(W,p),p>=0]
    s1=valid(st+[p<hi,X[p]==n],inv(n+1,p+1))
    s2=valid(st+[z3.Not(z3.And(p<hi,X[p]==n)),fa(k,z3.Implies(z3.And(lo<=k,k<hi),X[k]!=n))],inv(n+1,p))
    s3=valid(st+[z3.Not(z3.And(p<hi,X[p]==n)),lo<=k,k<hi,X[k]==n],z3.BoolVal(False))
    sz=z3.Int('sz')
    fin=valid(h+[sz>=0,inv(sz,p),fa(k,z3.Implies(z3.And(lo<=k,k<hi),X[k]<sz))],p==hi)
    return base and s1 and s2 and s3 and fin
def run():
    out=[]
    for nm,f in LEMMAS.items():
        try: ok=bool(f())
        except z3.Z3Exception: ok=False
        out.append((nm,ok))
    return out
if __name__=='__main__':
    for r in run(): print(*r)
