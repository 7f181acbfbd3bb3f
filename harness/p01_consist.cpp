// P01: potential, force, force derivatives, density agree everywhere, in every coordinate system, for every subset of outputs
#include "models.h"
#include <limits>
using namespace vh; using namespace coord;
typedef std::vector<double> V;
struct Full { double p; double g[3]; double h[6]; };   // cartesian
static std::string pt(const double x[3],double t) { return fmt("x=(%.17g,%.17g,%.17g) t=%g",x[0],x[1],x[2],t); }
static bool fin(const double* a,int n) { for(int i=0;i<n;i++) if(!std::isfinite(a[i])) return false; return true; }
static Full evalc(const potential::BasePotential& P,const double x[3],double t) { Full f; GradCar g; HessCar h; P.eval(PosCar(x[0],x[1],x[2]),&f.p,&g,&h,t); f.g[0]=g.dx; f.g[1]=g.dy; f.g[2]=g.dz; f.h[0]=h.dx2; f.h[1]=h.dy2; f.h[2]=h.dz2; f.h[3]=h.dxdy; f.h[4]=h.dydz; f.h[5]=h.dxdz; return f; }
static void gradc(const potential::BasePotential& P,const double x[3],double t,double g[3]) { GradCar gc; P.eval(PosCar(x[0],x[1],x[2]),NULL,&gc,NULL,t); g[0]=gc.dx; g[1]=gc.dy; g[2]=gc.dz; }
// evaluate in any system with any subset; arrays: value, gradient(3), hessian(6)
static void evalAny(const potential::BasePotential& P,int sys,const double q[3],int mask,double t,double out[10]) {
    double v=NAN; for(int i=0;i<10;i++) out[i]=-777;
    if(sys==0) { GradCar g; HessCar h; g.dx=g.dy=g.dz=-777; h.dx2=h.dy2=h.dz2=h.dxdy=h.dydz=h.dxdz=-777; P.eval(PosCar(q[0],q[1],q[2]),mask&1?&v:NULL,mask&2?&g:NULL,mask&4?&h:NULL,t); out[1]=g.dx; out[2]=g.dy; out[3]=g.dz; out[4]=h.dx2; out[5]=h.dy2; out[6]=h.dz2; out[7]=h.dxdy; out[8]=h.dydz; out[9]=h.dxdz; }
    if(sys==1) { GradCyl g; HessCyl h; g.dR=g.dz=g.dphi=-777; h.dR2=h.dz2=h.dphi2=h.dRdz=h.dzdphi=h.dRdphi=-777; P.eval(PosCyl(q[0],q[1],q[2]),mask&1?&v:NULL,mask&2?&g:NULL,mask&4?&h:NULL,t); out[1]=g.dR; out[2]=g.dz; out[3]=g.dphi; out[4]=h.dR2; out[5]=h.dz2; out[6]=h.dphi2; out[7]=h.dRdz; out[8]=h.dzdphi; out[9]=h.dRdphi; }
    if(sys==2) { GradSph g; HessSph h; g.dr=g.dtheta=g.dphi=-777; h.dr2=h.dtheta2=h.dphi2=h.drdtheta=h.dthetadphi=h.drdphi=-777; P.eval(PosSph(q[0],q[1],q[2]),mask&1?&v:NULL,mask&2?&g:NULL,mask&4?&h:NULL,t); out[1]=g.dr; out[2]=g.dtheta; out[3]=g.dphi; out[4]=h.dr2; out[5]=h.dtheta2; out[6]=h.dphi2; out[7]=h.drdtheta; out[8]=h.dthetadphi; out[9]=h.drdphi; }
    out[0]= mask&1? v : -777;
}
struct Stat { double maxrel; unsigned long meaningful,total; } st;
int main(int argc,char** argv) {
    init(argc,argv); utils::msg=models::silent; models::auxFiles();
    V radii; double rr[]={0,1e-12,1e-8,1e-5,1e-3,0.02,0.11,0.3,0.7,1,1.6,2.7,6,15,40,200,1e4,1e6,7e8}; radii.assign(rr,rr+19);
    if(thorough()) for(double r=1e-4;r<1e4;r*=1.37) radii.push_back(r);
    double dirs[][3]={{1,0,0},{-1,0,0},{0,1,0},{0,-1,0},{0,0,1},{0,0,-1},{1,1,0},{0,0.6,-0.8},{-0.6,0,0.8},{0.48,0.6,0.64},{-0.48,0.6,-0.64},{0.36,-0.48,0.8},{1e-9,0,1},{1e-4,3e-4,1},{3e-6,-2e-6,-1},{0.8,0.6,1e-9},{-0.8,0.6,-1e-9},{-0.05,0.03,1},{0.9,-0.3,0.01}}; int ND=19;
    for(int m=0;m<models::N;m++) { const models::M& mod=models::list[m]; potential::PtrPotential P; double Pscale=0;
      bool timedep = strchr(mod.spec,'@') || strstr(mod.spec,"binary") || strstr(mod.spec,"rotation"); double times[]={0,0.7,2.2};
      for(size_t ir=0;ir<radii.size();ir++) { double r=radii[ir]; if(!strncmp(mod.spec,"type=Dehnen",11) && mod.tol>0 && r>50) continue; /* documented as inaccurate at large distances */ if(!begin(fmt("%s r=%.3g",mod.spec,r))) continue;
        if(!P) { P=models::pot(mod.spec); Pscale=0; for(double u=0.01;u<200;u*=2.3) { double v=P->value(PosCar(0.6*u,0.48*u,0.64*u)); if(std::isfinite(v)) Pscale=fmax(Pscale,fabs(v)); } }
        for(int id=0;id<ND;id++) for(int it=0;it<(timedep?3:1);it++) { if(r==0 && id>0) break; double t=times[it]; /*n*/ double n=sqrt(dirs[id][0]*dirs[id][0]+dirs[id][1]*dirs[id][1]+dirs[id][2]*dirs[id][2]); double x[3]; for(int i=0;i<3;i++) x[i]=r*dirs[id][i]/n;
            S.states++; Full f=evalc(*P,x,t);
            // --- finite wherever the model is
            bool vf=std::isfinite(f.p);
            if(r>0) { check(!std::isnan(f.p),"%s: potential is NaN at %s",mod.spec,pt(x,t).c_str()); if(vf && r>=1e-8) check(fin(f.g,3),"%s: force %g,%g,%g is not finite at %s (potential %g)",mod.spec,f.g[0],f.g[1],f.g[2],pt(x,t).c_str(),f.p); 
                if(vf && r>=1e-5) check(fin(f.h,6),"%s: force derivatives %g,%g,%g,%g,%g,%g are not finite at %s",mod.spec,f.h[0],f.h[1],f.h[2],f.h[3],f.h[4],f.h[5],pt(x,t).c_str()); }
            else check(f.p==f.p,"%s: potential is NaN at the origin",mod.spec);
            outcome(fmt("%s %d%d%d",P->name().c_str(),vf,fin(f.g,3),fin(f.h,6)));
            // --- any subset of outputs, any coordinate system
            PosCar pc(x[0],x[1],x[2]); PosCyl py(toPosCyl(pc)); PosSph ps(toPosSph(pc)); double Q[3][3]={{x[0],x[1],x[2]},{py.R,py.z,py.phi},{ps.r,ps.theta,ps.phi}}; double all[3][10];
            for(int sys=0;sys<3;sys++) { evalAny(*P,sys,Q[sys],7,t,all[sys]);
                for(int mask=0;mask<7;mask++) { double o[10]; evalAny(*P,sys,Q[sys],mask,t,o); S.transitions++;
                    double gs=0,hs=0; for(int i=1;i<4;i++) gs=fmax(gs,fabs(all[sys][i])); for(int i=4;i<10;i++) hs=fmax(hs,fabs(all[sys][i])); 
                    for(int i=0;i<10;i++) { int bit= i==0?1:i<4?2:4; double sc= i==0?fabs(all[sys][0]):i<4?gs:hs; if(mask&bit) { if(!close(o[i],all[sys][i],1e-13+mod.tol*1e-2,(1e-13+mod.tol*1e-2)*sc)) { fail(fmt("%s: output %d is %.17g when requesting subset %d and %.17g when requesting everything, system %d, %s",mod.spec,i,o[i],mask,all[sys][i],sys,pt(x,t).c_str())); break; } S.nchecks++; }
                        else if(o[i]!=-777) { fail(fmt("%s: output %d was modified though not requested (subset %d)",mod.spec,i,mask)); break; } } } }
            check(close(all[1][0],f.p,1e-12+mod.tol*0.1,1e-13)||!(r>0),"%s: potential in cylindrical coordinates %.17g differs from cartesian %.17g at %s",mod.spec,all[1][0],f.p,pt(x,t).c_str()); check(close(all[2][0],f.p,1e-12+mod.tol*0.1,1e-13)||!(r>0),"%s: potential in spherical coordinates %.17g differs from cartesian %.17g at %s",mod.spec,all[2][0],f.p,pt(x,t).c_str());
            double fs=fmax(fabs(f.g[0]),fmax(fabs(f.g[1]),fabs(f.g[2]))), hs=0; for(int i=0;i<6;i++) hs=fmax(hs,fabs(f.h[i]));
            double nh=0; if(mod.expansion && r>0) { nh=4e-15*fabs(f.p)/r/r + (py.R>0? 1e-15*r/py.R*hs + (isZRotSymmetric(P->symmetry())?0:4e-16*fabs(f.p)/py.R/py.R) :0); } double R=py.R,z=py.z,cp=R>0?x[0]/R:1,sp=R>0?x[1]/R:0, ct=r>0?z/ps.r:1, sth=r>0?R/ps.r:0;
            if(r>0 && fin(f.g,3) && fin(f.h,6)) { double Hm[3][3]={{f.h[0],f.h[3],f.h[5]},{f.h[3],f.h[1],f.h[4]},{f.h[5],f.h[4],f.h[2]}};
              for(int sys=1;sys<3;sys++) { double J[3][3], D2[6][3]; memset(D2,0,sizeof D2); double L[3]; // J[a][i] = dx_i/dq_a ; D2 in order 00,11,22,01,12,02
                if(sys==1) { double j[3][3]={{cp,sp,0},{0,0,1},{-R*sp,R*cp,0}}; memcpy(J,j,sizeof J); D2[2][0]=-R*cp; D2[2][1]=-R*sp; D2[5][0]=-sp; D2[5][1]=cp; L[0]=1; L[1]=1; L[2]=R; }
                else { double j[3][3]={{sth*cp,sth*sp,ct},{ps.r*ct*cp,ps.r*ct*sp,-ps.r*sth},{-R*sp,R*cp,0}}; memcpy(J,j,sizeof J); D2[1][0]=-ps.r*sth*cp; D2[1][1]=-ps.r*sth*sp; D2[1][2]=-ps.r*ct; D2[2][0]=-R*cp; D2[2][1]=-R*sp; D2[3][0]=ct*cp; D2[3][1]=ct*sp; D2[3][2]=-sth; D2[4][0]=-ps.r*ct*sp; D2[4][1]=ps.r*ct*cp; D2[5][0]=-sth*sp; D2[5][1]=sth*cp; L[0]=1; L[1]=ps.r; L[2]=R; }
                static const int ia[]={0,1,2,0,1,0}, ib[]={0,1,2,1,2,2};
                for(int a=0;a<3;a++) { double e=0; for(int i=0;i<3;i++) e+=J[a][i]*f.g[i]; check(fabs(e-all[sys][1+a])<=((1e-10+mod.tol)*fs+1e-15*hs*r+nh*r)*L[a]+1e-300,"%s: gradient component %d in %s coordinates is %.17g instead of %.17g at %s",mod.spec,a,sys==1?"cylindrical":"spherical",all[sys][1+a],e,pt(x,t).c_str()); }
                for(int k=0;k<6;k++) { double e=0; for(int i=0;i<3;i++) { for(int j=0;j<3;j++) e+=J[ia[k]][i]*J[ib[k]][j]*Hm[i][j]; e+=D2[k][i]*f.g[i]; } double s2=0; for(int i=0;i<3;i++) s2=fmax(s2,fabs(D2[k][i])); double tol=(nh+(R>0?2e-14*r/R*hs:0))*L[ia[k]]*L[ib[k]]+(1e-9+mod.tol)*(hs*L[ia[k]]*L[ib[k]]+s2*fs)+1e-300; if(mod.expansion && sys==2 && R<1e-4*r) tol+=1e-4*hs*L[ia[k]]*L[ib[k]]; if(sys==2 && z!=0) tol*=1+1e-5*r/fabs(z); 
                    if(R<1e-6*r) tol+=1e-9*(hs*(ia[k]==2?r:L[ia[k]])*(ib[k]==2?r:L[ib[k]]))*0 + 1e-8*s2*fs;   // close to the polar axis
                    check(fabs(e-all[sys][4+k])<=tol,"%s: second derivative %d in %s coordinates is %.17g instead of %.17g at %s",mod.spec,k,sys==1?"cylindrical":"spherical",all[sys][4+k],e,pt(x,t).c_str()); } } }
            // --- density
            double d0=P->density(pc,t), d1=P->density(py,t), d2=P->density(ps,t);
            if(r>0 && vf) { double lap=(f.h[0]+f.h[1]+f.h[2])/(4*M_PI); double tol=(1e-10+mod.tol)*hs+nh+1e-300; if(r>=1e-5 && fin(f.h,6)) { check(std::isfinite(d0),"%s: density %g is not finite at %s",mod.spec,d0,pt(x,t).c_str()); check(fabs(d0-lap)<=tol+1e-9*fabs(d0),"%s: density is %.15g but the Laplacian/4pi is %.15g at %s (force derivatives ~%g)",mod.spec,d0,lap,pt(x,t).c_str(),hs); }
                double zt= z!=0 ? 1+1e-5*r/fabs(z) : 1; check(close(d1,d0,1e-10,1e-11*hs+nh)&&close(d2,d0,1e-10*zt,1e-11*hs+nh),"%s: density differs between coordinate systems: %.15g %.15g %.15g at %s",mod.spec,d0,d1,d2,pt(x,t).c_str());
                double dm; P->evalmanyDensityCar(1,&pc,&dm,t); bool okm=close(dm,d0,1e-10,1e-12*hs); P->evalmanyDensityCyl(1,&py,&dm,t); okm&=close(dm,d1,1e-10,1e-12*hs); P->evalmanyDensitySph(1,&ps,&dm,t); okm&=close(dm,d2,1e-10,1e-12*hs); check(okm,"%s: vectorised density differs at %s",mod.spec,pt(x,t).c_str()); }
            // --- derivatives against finite differences with automatically estimated error
            if(vf && r>=1e-5 && fin(f.g,3)) { double Lc=fmin(r,0.3);
                for(int i=0;i<3;i++) { double best=NAN,err=INFINITY; double Dprev=INFINITY,Gprev[3]={INFINITY,INFINITY,INFINITY}; double hb[3],herr[3]={INFINITY,INFINITY,INFINITY};
                    for(int k=0;k<5;k++) { double h=Lc*pow(10.,-1.5-0.75*k); double D[2],G[2][3]; bool ok=true;
                        for(int q=0;q<2;q++) { double hh=h*(q?0.5:1), v[4],g[4][3]; static const double s[]={-2,-1,1,2}; for(int u=0;u<4;u++) { double y[3]={x[0],x[1],x[2]}; y[i]+=s[u]*hh; v[u]=P->value(PosCar(y[0],y[1],y[2]),t); gradc(*P,y,t,g[u]); if(!std::isfinite(v[u])||!fin(g[u],3)) ok=false; }
                            volatile double xa=x[i]+hh, xb=x[i]-hh; double he=(xa-xb)/2; D[q]=(v[0]-8*v[1]+8*v[2]-v[3])/(12*he); for(int j=0;j<3;j++) G[q][j]=(g[0][j]-8*g[1][j]+8*g[2][j]-g[3][j])/(12*he); }
                        if(!ok) continue; double rx=1e-15*fabs(x[i])/h; double e=fabs(D[0]-D[1])+rx*fabs(f.g[i])+2e-16*(fabs(f.p)+Pscale)/h*4 + mod.tol*fabs(f.p)/h; if(ok&&k>0) e+=fabs(D[1]-Dprev); if(ok) Dprev=D[1]; if(e<err) { err=e; best=D[1]; }
                        for(int j=0;j<3;j++) { double eh=fabs(G[0][j]-G[1][j])+rx*hs+2e-15*(fs)/h+mod.tol*fs/h + nh*r/h + (k>0?fabs(G[1][j]-Gprev[j]):0); Gprev[j]=G[1][j]; if(eh<herr[j]) { herr[j]=eh; hb[j]=G[1][j]; } } }
                    if(err<INFINITY) { st.total++; if(err<1e-4*fs) st.meaningful++; check(fabs(best-f.g[i])<=3*err+(1e-9+mod.tol)*fs+nh*r+(mod.expansion?1e-7*fs:0),"%s: force component %d: gradient is %.15g, finite difference of the potential %.15g +- %.2g at %s",mod.spec,i,f.g[i],best,err,pt(x,t).c_str()); }
                    static const int hidx[3][3]={{0,3,5},{3,1,4},{5,4,2}}; if(fin(f.h,6) && !(py.R<1e-3*r && (strstr(mod.spec,"offcyl")||strstr(mod.spec,"offmul")))) /* second derivatives of 2d interpolating splines with m!=0 terms are not continuous at the axis */ for(int j=0;j<3;j++) if(herr[j]<INFINITY) { st.total++; if(herr[j]<1e-4*hs) st.meaningful++; check(fabs(hb[j]-f.h[hidx[i][j]])<=3*herr[j]+(1e-8+mod.tol)*hs+nh+(mod.expansion?(py.R<1e-3*r?1e-2:2e-6)*hs:0),"%s: force derivative %d%d is %.15g, finite difference of the force %.15g +- %.2g at %s",mod.spec,i,j,f.h[hidx[i][j]],hb[j],herr[j],pt(x,t).c_str()); } } }
        }
        // enclosed mass from the flux of the force for spherical models
        if(isSpherical(P->symmetry()) && r>1e-5) { GradSph g; double ph; P->eval(PosSph(r,1.0,0.3),&ph,&g); double M=P->enclosedMass(r); if(std::isfinite(ph)) check(close(M,g.dr*r*r,1e-6,1e-12),"%s: enclosed mass %.12g, from force %.12g at r=%g",mod.spec,M,g.dr*r*r,r); }
      }
    }
    S.extra["n_fd_comparisons"]=st.total; S.extra["n_fd_comparisons_meaningful"]=st.meaningful;
    return finish();
}
