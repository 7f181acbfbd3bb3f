# G01: agama.Target applied to arrays of particles: every type x layout x number of threads x order and grouping; bad points are reported as errors
import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from pyh import *
import numpy as np, agama, itertools
init()
TY=[dict(type='DensityClassicTopHat',gridr=[0,.5,1,2],stripsPerPane=2),dict(type='DensityClassicLinear',gridr=[.5,1,2],stripsPerPane=3,axisRatioY=.9,axisRatioZ=.7),dict(type='DensitySphHarm',gridr=[.5,1,2],lmax=4,mmax=2),
    dict(type='DensityCylindricalTopHat',gridr=[0,.5,1,2],gridz=[0,.3,2],mmax=2),dict(type='DensityCylindricalLinear',gridr=[0,.5,1,2],gridz=[.3,1,2],mmax=4),dict(type='KinemShell',gridr=[.3,.5,1,2],degree=0),dict(type='KinemShell',gridr=[.3,.5,1,2],degree=2)]
L=[.0,.4,-1.1]; P=[[x,y,z,.3,-.2+.1*x,.5] for x in L for y in L for z in L]; P=np.array(P); P+=np.arange(6)*.013+np.arange(len(P))[:,None]*.001
M=1+.1*np.arange(len(P))
for it,kw in enumerate(TY):
    for units in range(2):
        if not begin('particles %d units%d'%(it,units)): continue
        if units: agama.setUnits(mass=2.,length=3.,velocity=.5)
        else: agama.setUnits()
        t=agama.Target(**kw); one=np.array([np.array(t((P[i:i+1],M[i:i+1]))) for i in range(len(P))]); S.states+=len(P); S.transitions+=len(P)
        ref=one.sum(axis=0); sc=abs(ref).max()
        check(np.all(np.isfinite(one)) and len(t)==len(ref),'values')
        if it in (0,): check(np.allclose(one.max(axis=1),np.where(np.sqrt((P[:,:3]**2).sum(axis=1))<2,M,0),rtol=1e-6),'one cell per point')
        if it==1: check(np.allclose(one.sum(axis=1),np.where(np.sqrt((P[:,0]**2+(P[:,1]/.9)**2+(P[:,2]/.7)**2))*(.63)**(1./3)<2,M,0),rtol=1e-5),'partition of unity')
        for n in list(range(1,9))+[len(P)]:
            for thr in (1,2,3,8):
                for lay in range(4):
                    a=P[:n]; m=M[:n]
                    if lay==1: a=np.asfortranarray(a)
                    if lay==2: a=np.repeat(a,2,axis=0)[::2]
                    if lay==3: a=a[::-1]; m=m[::-1]
                    with agama.setNumThreads(thr): r=np.array(t((a,m))); r2=np.array(t((a,m)))
                    S.transitions+=1
                    check(np.array_equal(r,r2),'not reproducible n=%d threads=%d'%(n,thr)); d=abs(r-one[:n].sum(axis=0)).max()
                    check(d<3e-6*sc,'n=%d threads=%d layout=%d differs by %g from the sum over points'%(n,thr,lay,d))
        for pm in itertools.permutations(range(5)):
            r=np.array(t((P[list(pm)],M[list(pm)]))); S.transitions+=1; check(abs(r-one[:5].sum(axis=0)).max()<3e-6*sc,'order matters')
        for g in range(64):
            s=[i for i in range(6) if g>>i&1]; q=[i for i in range(6) if not g>>i&1]; r=sum(np.array(t((P[k],M[k]))) for k in (s,q) if k); S.transitions+=1; check(abs(r-one[:6].sum(axis=0)).max()<3e-6*sc,'grouping matters')
        agama.setUnits(); outcome(t.__class__.__name__+str(it))
    # points that cannot be assigned: an error or no contribution, never a crash or a hang, in any position and for any number of threads
    for pos in range(6):
        for thr in (1,2,8):
            for ib,bad in enumerate((np.nan,np.inf,-np.inf,1e300)):
                if not begin('bad %d pos%d thr%d %d'%(it,pos,thr,ib)): continue
                t=agama.Target(**kw); good=np.array(t((np.delete(P[:6],pos,axis=0),np.delete(M[:6],pos))))
                for k in range(3):
                    a=P[:6].copy(); a[pos,k]=bad; S.transitions+=1
                    with agama.setNumThreads(thr):
                        try: r=np.array(t((a,M[:6]))); e=None
                        except Exception as ex: e=ex
                    if e is None: check(ib==0 or not np.all(np.isfinite(r)) or abs(r-good).max()<1e-5*abs(good).max(),'bad point contributes %s'%abs(r-good).max())
                    else: check(isinstance(e,(RuntimeError,ValueError)),repr(e)); outcome('error')
                    r=np.array(t((np.delete(P[:6],pos,axis=0),np.delete(M[:6],pos)))); check(np.array_equal(r,good),'the target is damaged by an error')
# projection of a density = sum over a fine set of points for histogram-type grids: agrees with mass in the cells; units
for it,kw in enumerate(TY[:5]):
    for units in range(3):
        for ds in range(2):
            if not begin('density %d units%d %d'%(it,units,ds)): continue
            if units==0: agama.setUnits()
            if units==1: agama.setUnits(mass=2.,length=3.,velocity=.5)
            if units==2: agama.setUnits(mass=1e10,length=1,velocity=200)
            d=agama.Density(type='Plummer',mass=1.5,scaleRadius=.8) if ds==0 else agama.Density(type='Spheroid',gamma=0,beta=4,axisRatioY=.9,axisRatioZ=.6,densityNorm=.3)
            t=agama.Target(**kw); r=np.array(t(d)); agama.setUnits(); S.states+=1; S.transitions+=1
            d0=agama.Density(type='Plummer',mass=1.5,scaleRadius=.8) if ds==0 else agama.Density(type='Spheroid',gamma=0,beta=4,axisRatioY=.9,axisRatioZ=.6,densityNorm=.3)
            r0=np.array(agama.Target(**kw)(d0)); check(np.allclose(r,r0,rtol=1e-9,atol=1e-12),'projection depends on units: %g'%abs(r-r0).max())
            p=agama.Potential(type='Plummer',mass=1.5,scaleRadius=.8)
            if ds==0: check(np.allclose(np.array(agama.Target(**kw)(p)),r0,rtol=1e-6,atol=1e-9),'potential and density give different projections')
            outcome('density%d'%it)
# projection of a model = projection of its density
if begin('model'):
    p=agama.Potential(type='Plummer'); df=agama.DistributionFunction(type='QuasiSpherical',potential=p); gm=agama.GalaxyModel(p,df)
    for it,kw in enumerate(TY[:5:4] if not S.thorough else TY[:5]):
        t=agama.Target(**kw); a=np.array(t(gm)); b=np.array(t(p)); S.transitions+=1; check(abs(a-b).max()<5e-3*abs(b).max(),'projection of the model differs by %g of %g'%(abs(a-b).max(),abs(b).max()))
finish()
