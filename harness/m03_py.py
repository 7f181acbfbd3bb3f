# M03 (Python): agama.solveOpt - every partition of the constraints into stacked matrices, data type, memory layout and argument set
# against the solution of the same problem given as one C-ordered double matrix and against vertex enumeration (scipy HiGHS is not used).
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import itertools, numpy as np, agama
from pyh import *
# the messages of GLPK (C stdio) must not mix with the protocol output
out=os.dup(1); nul=os.open('/dev/null',os.O_WRONLY); os.dup2(nul,1); sys.stdout=os.fdopen(out,'w')
init()
def compositions(n):
    if n==0: yield (); return
    for k in range(1,n+1):
        for r in compositions(n-k): yield (k,)+r
LAY={'C':lambda a:np.ascontiguousarray(a),'F':lambda a:np.asfortranarray(a),'strided':lambda a:np.repeat(np.repeat(a,2,0),3,1)[::2,::3],'rev':lambda a:a[::-1,::-1].copy()[::-1,::-1],'T':lambda a:np.ascontiguousarray(a.T).T,'ro':None}
def ro(a): a=a.copy(); a.setflags(write=False); return a
LAY['ro']=ro
def best(A,b,L,lo,hi,pen):
    # vertices of the polytope of (x,p,q): enumerate
    m,n=A.shape; cols=[A[:,j] for j in range(n)]; c=list(L); l=list(lo); h=list(hi)
    for i in range(m):
        if pen is not None and np.isfinite(pen[i]):
            for s in (1,-1):
                e=np.zeros(m); e[i]=s; cols.append(e); c.append(pen[i]); l.append(0); h.append(np.inf)
    N=len(cols); M=np.array(cols).T; bestf=np.inf; c=np.array(c)
    for B in itertools.combinations(range(N),m):
        nb=[j for j in range(N) if j not in B]
        if abs(np.linalg.det(M[:,B]))<1e-9: continue
        for at in itertools.product(*[[l[j]]+([h[j]] if np.isfinite(h[j]) else []) for j in nb]):
            x=np.zeros(N); x[nb]=at; x[list(B)]=np.linalg.solve(M[:,B],b-M[:,nb].dot(at))
            if np.all(x>=np.array(l)-1e-9) and np.all(x<=np.array(h)+1e-9): bestf=min(bestf,float(c.dot(x)))
    return bestf
def F(A,b,L,pen,x): 
    r=b-A.dot(x); f=np.dot(L,x)
    if pen is not None: f+=sum(pen[i]*abs(r[i]) for i in range(len(b)) if np.isfinite(pen[i]))
    return f, max([abs(r[i]) for i in range(len(b)) if pen is None or not np.isfinite(pen[i])]+[0])
nk=0
for seed in range(6 if S.thorough else 3):
  for m in (1,2,3):
    n=4; k=np.arange(m*n).reshape(m,n)
    A=((k*7+seed*5+k//n)%5-1.).astype(float)
    for ib in range(3):
        b=A.dot(np.array([1.,2,.5,0])) if ib==0 else ((np.arange(m)*3+seed+ib)%4-1.)
        for iL,ilo,ihi,ip in itertools.product((0,1),(0,1),(0,1),(0,1,2)):
            if ib and not ip: continue
            L=np.array([1.,2,3,.5]) if iL else np.zeros(n); lo=np.array([-1.,0,-.5,0]) if ilo else np.zeros(n); hi=np.array([4.,5,3,2]) if ihi else np.full(n,np.inf)
            nk+=1
            pen=None if not ip else np.ones(m)*2+np.arange(m) if ip==1 else np.where(np.arange(m)%2==0,2.,np.inf)
            if ib and ip==2 and m>1: continue    # the exact rows may be infeasible
            for comp in compositions(m):
              for lay in LAY:
                for dt in (np.float64,np.float32):
                  for cont in (tuple,list):
                    if not S.thorough and cont is list and lay!='C': continue
                    if not begin('solveOpt s%d m%d b%d L%d lo%d hi%d p%d %s %s %s %s'%(seed,m,ib,iL,ilo,ihi,ip,comp,lay,dt.__name__,cont.__name__), key=nk): continue
                    S.transitions+=1
                    parts=np.split(np.arange(m),np.cumsum(comp)[:-1])
                    mats=cont([LAY[lay](A[p].astype(dt)) for p in parts]); rhs=cont([b[p] for p in parts])
                    kw={}
                    if iL: kw['xpenl']=L
                    if ilo: kw['xmin']=lo
                    if ihi: kw['xmax']=hi
                    if ip: kw['rpenl']=cont([pen[p] for p in parts])
                    if len(comp)==1 and cont is list: mats,rhs=mats[0],rhs[0]; kw.update({'rpenl':pen} if ip else {})
                    try: x=np.array(agama.solveOpt(mats,rhs,**kw))
                    except Exception as e: x=e
                    ref=best(A,b,L,lo,hi,pen)
                    if isinstance(x,Exception): check(False,'refused: %r; optimum %g A=%s b=%s'%(x,ref,A.tolist(),b.tolist())); continue
                    f,v=F(A,b,L,pen,x)
                    check(v<1e-6 and np.all(x>=lo-1e-9) and np.all(x<=hi+1e-9) and abs(f-ref)<1e-5*(1+abs(ref)),'x=%s F=%g instead of %g, violation %g; A=%s b=%s'%(x.tolist(),f,ref,v,A.tolist(),b.tolist()))
                    outcome('p%d %s'%(ip,lay))
# argument errors are exceptions, and an argument with None or wrong length never crashes
if begin('bad'):
    A=np.ones((2,3)); b=np.ones(2); V=[None,np.ones(1),np.ones(2),np.full(3,.25),np.ones(0),(np.ones(1),np.ones(1)),'nosuch',1.,np.ones((2,2)),(),np.array([1,np.nan])]
    for i,r in enumerate(V):
        for name,ln in (('rhs',2),('xpenl',3),('xmin',3),('xmax',3),('rpenl',2)):
            kw=dict(rhs=b); kw[name]=r; S.transitions+=1
            try: x=np.array(agama.solveOpt(A,kw.pop('rhs'),**kw)); ok=True
            except Exception as e: ok=False
            good=isinstance(r,np.ndarray) and r.shape==(ln,)
            if not good: check(not ok,'%s=%r accepted'%(name,r))
            elif name!='xmax' and np.all(r==r): check(ok,'%s=%r refused'%(name,r))
    for mat in (None,1.,np.ones(3),np.ones((2,3),int),(A,np.ones((1,2))),(A,b),(),[],np.ones((2,0)),np.ones((0,3)),np.ones((2,3,1)),(A,None),'abc'):
        S.transitions+=1
        try: agama.solveOpt(mat,b); ok=True
        except Exception as e: ok=False
        check(not ok,'matrix %r accepted'%(mat,))
    for kw in (dict(xpenq=np.ones(3)),dict(rpenq=np.ones(2)),dict(xpenq=np.ones(3),rpenl=np.ones(2))):
        S.transitions+=1
        try: x=np.array(agama.solveOpt(A,b,**kw)); ok=True
        except Exception as e: ok=False
        check(not ok,'quadratic problem solved without a quadratic solver: %r'%(kw,))
finish()
