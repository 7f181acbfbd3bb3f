# G02: agama.Target(type='LOSVD'|'KinemShell') and agama.ghMoments: every way of passing apertures and PSF, units, threads, array layouts, composition with an independent projection
import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from pyh import *
import numpy as np, agama, itertools
init()
from numpy.polynomial.legendre import leggauss
def basis(g,N):
    t=[g[0]]*N+list(g)+[g[-1]]*N; n=len(g)+N-1
    def rec(i,k,x):
        if k==0: return np.where((x>=t[i])&((x<t[i+1])|((t[i+1]==g[-1])&(x==g[-1])&(t[i]<t[i+1]))),1.,0.)
        a=t[i+k]-t[i]; b=t[i+k+1]-t[i+1]
        return ((x-t[i])/a*rec(i,k-1,x) if a>0 else 0)+((t[i+k+1]-x)/b*rec(i+1,k-1,x) if b>0 else 0)
    return lambda x: np.array([rec(i,N,np.asarray(x,float)) for i in range(n)])
gx=[-2.,-1,0,1,2]; gv=[-3.,-1.2,0,1.2,3]
AP=[np.array([[-1,-1],[1,-1],[1,1],[-1,1.]]),np.array([[0,0],[1.5,0],[.2,1.3]]),np.array([[-2,-2],[2,-2],[2,2],[-2,2.]])]
L=[-.7,.45,1.3]; P=np.array([[x,y,z,.8*z-.3,-.2+.1*x,.5-.9*y] for x in L for y in L for z in L])+.013*np.arange(6); M=1+.1*np.arange(len(P))
def kw(N,**k):
    d=dict(type='LOSVD',degree=N,alpha=.5,beta=1.,gamma=-.3,gridx=gx,gridv=gv,apertures=AP,symmetry='t'); d.update(k); return d
for N in range(4):
    for units in range(2):
        if not begin('losvd N%d units%d'%(N,units)): continue
        if units: agama.setUnits(mass=2.,length=3.,velocity=.5)
        else: agama.setUnits()
        t=agama.Target(**kw(N)); nb=len(gv)+N-1; check(len(t)==3*nb,'length %d'%len(t)); names=list(t); check(len(names)==len(t) and len(set(names))==len(t),'iteration over the target'); S.states+=len(P)
        one=np.array([np.array(t((P[i:i+1],M[i:i+1]))) for i in range(len(P))]); ref=one.sum(axis=0); sc=abs(ref).max()
        for n in (1,2,3,7,len(P)):
            for thr in (1,2,3,8):
                for lay in range(3):
                    a,m=P[:n],M[:n]
                    if lay==1: a=np.asfortranarray(a)
                    if lay==2: a=a[::-1]; m=m[::-1]
                    with agama.setNumThreads(thr): r=np.array(t((a,m))); r2=np.array(t((a,m)))
                    S.transitions+=1; check(np.array_equal(r,r2),'not reproducible'); check(abs(r-one[:n].sum(axis=0)).max()<5e-6*sc,'n=%d threads=%d layout=%d'%(n,thr,lay))
        # integral over velocity of the LOSVD in the aperture covering everything = mass inside, in the units in force
        tk=[gv[0]]*N+gv+[gv[-1]]*N; w=np.array([(tk[i+N+1]-tk[i])/(N+1) for i in range(nb)])
        ca,sa,cb,sb,cg,sg=np.cos(.5),np.sin(.5),np.cos(1.),np.sin(1.),np.cos(-.3),np.sin(-.3)
        R=np.array([[cg,sg,0],[-sg,cg,0],[0,0,1.]]).dot(np.array([[1,0,0],[0,cb,sb],[0,-sb,cb]])).dot(np.array([[ca,sa,0],[-sa,ca,0],[0,0,1.]]))
        for i in range(len(P)):
            ins=0
            for f in (1,-1):
                p=P[i].copy(); p[2]*=f; p[5]*=f; X=R.dot(p[:3]); V=R.dot(p[3:])
                ins+=.5*(abs(X[0])<2 and abs(X[1])<2 and abs(V[2])<3)
            check(abs(one[i][2*nb:].dot(w)-ins*M[i])<(2e-2 if N==3 else 2e-5)*M[i],'point %d: mass %.7g instead of %.7g'%(i,one[i][2*nb:].dot(w),ins*M[i]))
        den=agama.Density(type='Plummer',mass=1.5,scaleRadius=.8); d=np.array(t(den)); check(len(d)==3,'density projection'); xq,wq=leggauss(40); sq=[1.5*.64/np.pi*(h*h*wq[:,None]*wq/(.64+h*h*(xq[:,None]**2+xq**2))**2).sum() for h in (1,2)]; check(abs(d[0]-sq[0])<.1*sq[0] and abs(d[2]-sq[1])<5e-3*sq[1],'masses in apertures %s, expected %s'%(d,sq))
        # equivalent ways to specify the same target
        alt=[kw(N,apertures=tuple(AP)),kw(N,apertures=[a.tolist() for a in AP]),kw(N,gridy=gx),kw(N,gridx=np.array(gx)),kw(N,psf=0.),kw(N,velpsf=0),kw(N,symmetry='triaxial'),kw(N,type='losvd'),kw(N,psf=[[0.,1.]])]
        for ia,k in enumerate(alt): S.transitions+=1; check(np.array_equal(np.array(agama.Target(**k)((P,M))),np.array(t((P,M)))),'variant %d of the same target differs'%ia)
        A3=np.array([AP[0],AP[2]]); check(np.array_equal(np.array(agama.Target(**kw(N,apertures=A3))((P,M))),np.concatenate([np.array(t((P,M)))[:nb],np.array(t((P,M)))[2*nb:]])),'3d array of apertures')
        one_ap=[np.array(agama.Target(**kw(N,apertures=[a]))((P,M))) for a in AP]; check(np.allclose(np.concatenate(one_ap),np.array(t((P,M))),rtol=1e-6,atol=1e-7*sc),'apertures influence each other')
        # composite PSF = weighted sum of single ones; convolution keeps the velocity-integrated total away from the edges
        c=[np.array(agama.Target(**kw(N,psf=s))((P,M))) for s in (.3,.9)]; m=np.array(agama.Target(**kw(N,psf=[[.3,.6],[.9,.4]]))((P,M))); check(np.allclose(m,.6*c[0]+.4*c[1],atol=1e-5*sc),'composite PSF')
        # all symmetries accepted; the symmetric model does not depend on the sign of coordinates of the input
        tt=np.array(t((P,M)))
        for f in ((-1,-1,-1),(1,1,-1),(-1,-1,1)): check(np.allclose(np.array(t((P*np.array(f+f),M))),tt,atol=3e-6*sc),'reflection %s'%(f,))
        for s in ('a','s','axisymmetric','spherical','none','n'):
            try: r=np.array(agama.Target(**kw(N,symmetry=s))((P,M))); check(np.all(np.isfinite(r)),'symmetry '+s)
            except Exception as e: check(s=='n','symmetry %s: %s'%(s,e))
        # orbit: the target collects the same as its trajectory treated as particles with equal time steps
        pot=agama.Potential(type='Plummer',mass=1.,scaleRadius=1.)
        ic=np.array([1.,.1,.3,.1,.6,.2]); T=20.; d1,tr=agama.orbit(potential=pot,ic=ic,time=T,targets=t,trajsize=4001)
        x=tr[1]; ww=np.ones(len(x)); ww[0]=ww[-1]=.5; r=np.array(t((x,ww/ww.sum()))); check(abs(np.array(d1).reshape(-1)-r).max()<(.05 if N==0 else .02)*abs(r).max(),'orbit target differs from the sum over its trajectory by %g (%g)'%(abs(np.array(d1).reshape(-1)-r).max(),abs(r).max()))
        agama.setUnits()
for N in range(4):
    if not begin('errors N%d'%N): continue
    bad=[dict(apertures=[]),dict(apertures=[AP[0][:2]]),dict(apertures=[AP[0]*3]),dict(apertures=[AP[0],AP[0]+5]),dict(apertures=5),dict(apertures=[np.zeros((4,3))]),dict(degree=4),dict(degree=-1),dict(gridx=[1.]),dict(gridx=[1.,0]),dict(gridv=[]),dict(psf=[1,2,3]),dict(psf=[[1,2,3]]),dict(symmetry='qq'),dict(typo=3),dict(apertures=[AP[0],None]),dict(gridv=[0,0,1])]
    for i,b in enumerate(bad):
        S.transitions+=1
        try: agama.Target(**kw(N,**b)); check(False,'accepted %r'%b)
        except (RuntimeError,ValueError,TypeError) as e: outcome(str(i))
    k=agama.Target(type='KinemShell',gridr=[0,1,2],degree=N)
    try: k(agama.Density(type='Plummer')); check(False,'density projection of KinemShell')
    except RuntimeError: pass
    check(len(list(k))==len(k),'iteration over KinemShell')
    check(np.all(np.isfinite(np.array(k((np.array([[0,0,0,1,2,3.]]),np.array([1.])))))),'point at origin')
def H(n,x):
    a=np.ones_like(x); b=2**.5*x
    if n==0: return a
    for k in range(1,n): a,b=b,(2**.5*x*b-k**.5*a)/(k+1)**.5
    return b
for N in range(4):
    for order in (2,4,6):
        for na in (1,2,3):
            for nc in (0,1,3):
                if not begin('gh N%d order%d apertures%d components%d'%(N,order,na,nc)): continue
                g=np.linspace(-3,3,9); nb=len(g)+N-1; B=basis(list(g),N); tk=np.array([g[0]]*N+list(g)+[g[-1]]*N); ctr=np.array([tk[i:i+N+2].mean() for i in range(nb)])
                rows=[[np.exp(-.5*((ctr-.2*a+.1*r)/(.8+.1*a))**2)*(1+a)*(1+.1*np.arange(nb)%2) for a in range(na)] for r in range(max(nc,1))]
                mat=np.array(rows).reshape(max(nc,1),na*nb).astype(np.float32); mat=mat if nc else mat[0]
                gb=np.array([[1.+a,.3-.2*a,.9+.1*a] for a in range(na)])
                xl,wl=leggauss(30); X=np.concatenate([.5*(g[i]+g[i+1])+.5*(g[i+1]-g[i])*xl for i in range(len(g)-1)]); W=np.concatenate([.5*(g[i+1]-g[i])*wl for i in range(len(g)-1)]); BX=B(X)
                def want(row,a,p): return np.array([(2**.5/p[0]*W*np.exp(-.5*((X-p[1])/p[2])**2)*H(n,(X-p[1])/p[2])*row[a*nb:(a+1)*nb].dot(BX)).sum() for n in range(order+1)])
                m2=np.atleast_2d(mat).astype(float); ref=np.array([[want(m2[r],a,gb[a]) for a in range(na)] for r in range(len(m2))]).reshape(len(m2),-1)
                for lay in range(5):
                    m=mat
                    if lay==1: m=np.asfortranarray(mat)
                    if lay==2: m=mat.astype(float)
                    if lay==3: m=mat.tolist()
                    if lay==4: m=np.repeat(mat,2,axis=-1)[...,::2]
                    for thr in (1,4):
                        with agama.setNumThreads(thr): r=np.array(agama.ghMoments(degree=N,gridv=g,matrix=m,ghorder=order,ghbasis=gb))
                        S.transitions+=1; check(r.shape==((nc,na*(order+1)) if nc else (na*(order+1),)),'shape %s'%(r.shape,)); check(abs(np.atleast_2d(r)-ref).max()<2e-3*abs(ref).max(),'moments differ from integrals by %g'%abs(np.atleast_2d(r)-ref).max())
                        with agama.setNumThreads(thr): f=np.array(agama.ghMoments(degree=N,gridv=g,matrix=m,ghorder=order))
                        check(f.shape==((nc,na*(order+4)) if nc else (na*(order+4),)),'shape %s'%(f.shape,)); f=np.atleast_2d(f).reshape(len(m2),na,order+4)
                        for q in range(len(m2)):
                            for a in range(na):
                                check(abs(f[q,a,3]-1)<2e-2 and abs(f[q,a,4])<2e-2 and abs(f[q,a,5])<2e-2,'fit: moments %s'%f[q,a,3:6]); u=want(m2[q],a,f[q,a,:3]); check(abs(u-f[q,a,3:]).max()<5e-3,'fit: moments differ from the integrals by %g'%abs(u-f[q,a,3:]).max())
if begin('gh errors'):
    g=np.linspace(-3,3,9)
    for b in (dict(degree=4),dict(degree=-1),dict(ghorder=-1),dict(gridv=[1.]),dict(matrix=np.zeros(7)),dict(matrix=np.zeros((2,2,8))),dict(matrix='x'),dict(ghbasis=np.zeros((2,3))),dict(ghbasis=np.zeros(3)),dict(ghbasis='y'),dict(ghorder=1),dict(gridv=None),dict(matrix=None)):
        k=dict(degree=0,gridv=g,matrix=np.exp(-.5*(g[1:]-.4)**2),ghorder=4); k.update(b); S.transitions+=1
        try: agama.ghMoments(**k); check(False,'accepted %r'%b)
        except (RuntimeError,ValueError,TypeError) as e: outcome(str(b)[:9])
finish()
