// R01: Raga: every task sees every orbit segment once and in order; captures, masses, black hole parameters,
// samples for the potential update and output times agree with an independent integration of the same orbits
#include "vh.h"
#include "raga_core.h"
#include "potential_multipole.h"
#include "potential_factory.h"
#include "potential_composite.h"
#include "particles_io.h"
#include <algorithm>
#include <sstream>
#include "utils.h"
#include <cmath>
#include <map>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <fstream>
using namespace vh; using namespace raga;
static void silent(utils::VerbosityLevel,const char*,const std::string&){}
typedef std::vector<std::pair<double,double> > Seg;
struct Rec; struct RecFnc: public orbit::BaseRuntimeFnc { Seg& s; std::vector<coord::PosVelCar>& e; RecFnc(orbit::BaseOrbitIntegrator& o,Seg& _s,std::vector<coord::PosVelCar>& _e): orbit::BaseRuntimeFnc(o),s(_s),e(_e){}
    virtual bool processTimestep(double a,double b) { s.push_back(std::make_pair(a,b)); e.push_back(orbint.getSol(b)); return true; } };
struct RecTask: public BaseRagaTask { int starts,ends; double t0,len; std::map<unsigned,Seg> seg; std::map<unsigned,std::vector<coord::PosVelCar> > pts; RecTask(): starts(0),ends(0){}
    virtual void createRuntimeFnc(orbit::BaseOrbitIntegrator& o,unsigned i) {
#pragma omp critical(rectask)
        { o.addRuntimeFnc(orbit::PtrRuntimeFnc(new RecFnc(o,seg[i],pts[i]))); } }
    virtual void startEpisode(double t,double l) { starts++; t0=t; len=l; seg.clear(); pts.clear(); }
    virtual void finishEpisode() { ends++; } virtual const char* name() const { return "Recorder"; } };
static particles::ParticleArrayAux sample(int n,double m,double mtot) { particles::ParticleArrayAux p; for(int i=0;i<n;i++) { double u=(i+.5)/n, r=1/sqrt(pow(u,-2./3)-1), a=2.4*i, ct=fmod(.61803*i+.13,1)*2-1, st=sqrt(1-ct*ct), v=.8*pow(1+r*r,-.25)*(.2+.7*fmod(.377*i,1)), b=1.7*i+.3, cb=fmod(.7548*i+.37,1)*2-1, sb=sqrt(1-cb*cb);
        coord::PosVelCar x(r*st*cos(a),r*st*sin(a),r*ct,v*sb*cos(b),v*sb*sin(b),v*cb); p.add(particles::ParticleAux(x,m,1e-4*(1+i%3)),mtot/n); } return p; }
struct Cap { bool cap; bool unsure; double t,rp,E; int b; coord::PosVelCar x; };
// independent detection of captures: dense scan of the trajectory for local minima of the distance to each hole
struct Scan: public orbit::BaseRuntimeFnc { const potential::KeplerBinaryParams& bh; const double* rc; Cap& c; int nb; Scan(orbit::BaseOrbitIntegrator& o,const potential::KeplerBinaryParams& _bh,const double* _rc,Cap& _c): orbit::BaseRuntimeFnc(o),bh(_bh),rc(_rc),c(_c) { nb=bh.sma>0?2:1; c.cap=c.unsure=false; }
    double dist(int b,double t,double* rv=NULL,double* v2=NULL) { double X[2],Y[2],VX[2],VY[2]; bh.keplerOrbit(t,X,Y,VX,VY); coord::PosVelCar p=orbint.getSol(t); if(rv) *rv=(p.x-X[b])*(p.vx-VX[b])+(p.y-Y[b])*(p.vy-VY[b])+p.z*p.vz; if(v2) *v2=pow_2(p.vx-VX[b])+pow_2(p.vy-VY[b])+p.vz*p.vz; return sqrt(pow_2(p.x-X[b])+pow_2(p.y-Y[b])+p.z*p.z); }
    virtual bool processTimestep(double a,double e) { if(c.cap||c.unsure) return false; for(int b=0;b<nb;b++) { const int N=16; double prev=0; for(int k=0;k<=N;k++) { double t=a+(e-a)*k/N, rv; dist(b,t,&rv); if(k>0 && prev<=0 && rv>0) {
                double lo=a+(e-a)*(k-1)/N, hi=t; for(int i=0;i<60;i++) { double m=(lo+hi)/2,r; dist(b,m,&r); if(r<=0) lo=m; else hi=m; }
                double v2, d=dist(b,lo,NULL,&v2); 
                // several minima in one step or distance close to the threshold: the outcome is not specified sharply
                if(fabs(d/rc[b]-1)<.05) { c.unsure=true; return false; }
                if(d<rc[b] && !c.cap) { c.cap=true; c.t=lo; c.rp=d; c.b=b; c.E=.5*v2-bh.mass*(nb==1?1:(b==0?1:bh.q)/(1+bh.q))/d; c.x=orbint.getSol(lo); } } prev=rv; } }
        return !c.cap; } };
static std::vector<std::string> ls(const std::string& d) { std::vector<std::string> r; DIR* D=opendir(d.c_str()); while(dirent* e=readdir(D)) if(e->d_name[0]!='.') r.push_back(e->d_name); closedir(D); std::sort(r.begin(),r.end()); return r; }
int main(int argc,char** argv) {
    init(argc,argv); utils::msg=silent; bool T=thorough();
    char tmpl[]="/tmp/vr01_XXXXXX"; std::string dir=mkdtemp(tmpl); auto clean=[&]() { for(auto& f: ls(dir)) unlink((dir+"/"+f).c_str()); };
    struct BH { const char* n; double m,q,a,e,ph; } bhs[]={{"none",0,0,0,0,0},{"single",.05,0,0,0,0},{"single q",.05,.5,0,0,0},{"equal",.06,1,.1,0,.4},{"unequal",.08,.25,.15,.5,2},{"zero q",.05,0,.1,0,0}};
    // episodes with every subset of tasks
    const double caps[]={1,.3,0}; const double lens[]={.3,.7,1.1}; const int samp[]={1,7,11,44};
    for(auto& B: bhs) for(int mask=0;mask<8;mask++) for(int il=0;il<3;il++) for(int is=0;is<4;is++) for(int ic=0;ic<3;ic++) {
        bool upd=mask&1, traj=mask&2, relax=mask&4; if(!upd && is!=1) continue; if(B.m==0 && ic) continue; if(!T && il!=((mask+is+ic)%3) && !(upd && is==il+1)) continue; if(relax && !T && is>1) continue; if(relax && B.m==0 && ic) continue;
        if(!vh::begin(fmt("bh=%s update=%d trajectory=%d relaxation=%d length=%g samples=%d fraction=%g",B.n,upd,traj,relax,lens[il],samp[is],caps[ic]))) continue;
        clean(); int np=relax?60:24; double len=lens[il], c=4.;
        utils::KeyValueMap cfg("symmetry=t lmax=2 gridSizeR=12 rmin=.1 rmax=20"); cfg.set("Mbh",B.m); cfg.set("binary_q",B.q); cfg.set("binary_sma",B.a); cfg.set("binary_ecc",B.e); cfg.set("binary_phase",B.ph); cfg.set("timeInit",2.5); cfg.set("timeTotal",10.); cfg.set("updatePotential",upd); cfg.set("numSamplesPerEpisode",samp[is]); cfg.set("captureMassFraction",caps[ic]); cfg.set("speedOfLight",c); cfg.set("outputInterval",len*(1+mask%2)); cfg.set("fileLog",dir+"/log"); cfg.set("fileOutputLosscone",dir+"/lc");
        if(traj) cfg.set("fileOutput",dir+"/snap"); if(relax) { cfg.set("coulombLog",.5); cfg.set("gridSizeDF",8); }
        RagaCore core; core.init(cfg); core.particles=sample(np,.01,B.a>0?1e-3:1); core.ptrPot.reset(new potential::Plummer(1,1)); 
        // stars that start close to (inside or outside the capture radius of) each of the holes, moving outwards or inwards, on bound and unbound orbits
        if(B.m>0 && B.a>0 && B.q>0) { double X[2],Y[2],VX[2],VY[2]; core.bh.keplerOrbit(0,X,Y,VX,VY); for(int b=0;b<2;b++) for(int k=0;k<6;k++) { int i=b*6+k; particles::ParticleAux x=core.particles.point(i); double Mb=B.m/(1+B.q)*(b?B.q:1), rc=fmax(8*Mb/c/c, x.stellarRadius*pow(Mb/x.stellarMass,1./3)), d=rc*(k<4?.5:1.6), v=sqrt(Mb/d)*(k&1?2.1:.9), ct=(k&2?-.6:.6), st=.8, ph=1.1*k+2*b; 
                x.x=X[b]+d*cos(ph); x.y=Y[b]+d*sin(ph); x.z=0; x.vx=VX[b]+v*(ct*cos(ph)-st*.8*sin(ph)); x.vy=VY[b]+v*(ct*sin(ph)+st*.8*cos(ph)); x.vz=v*st*.6; core.particles[i].first=x; } }
        check(core.bh.mass==B.m && core.bh.q==B.q && core.bh.sma==B.a && core.bh.ecc==B.e && core.bh.phase==B.ph, "black hole parameters differ from the configuration");
        check(core.particles.size()==(size_t)np, "%d particles remain",(int)core.particles.size());
        check((int)core.tasks.size()==(B.m>0)+(B.m>0&&B.a>0&&B.q>0)+upd+relax+traj, "%d tasks",(int)core.tasks.size());
        shared_ptr<RecTask> rec(new RecTask), first(new RecTask); core.tasks.push_back(rec); core.tasks.insert(core.tasks.begin(),first);
        double t=2.5, massTot=0; for(int i=0;i<np;i++) massTot+=core.particles.mass(i);
        std::map<std::string,particles::ParticleArrayAux> snaps; double lastOut=-INFINITY; std::string lcExp; int nlines=0;
        auto snap=[&](double tt) { if(traj && tt>=lastOut+len*(1+mask%2)*.999999) { snaps["snap"+utils::toString(tt)]=core.particles; lastOut=tt; } };
        for(int ep=0;ep<3;ep++) {
            particles::ParticleArrayAux before=core.particles; potential::KeplerBinaryParams bh0=core.bh; potential::PtrPotential pot0=core.ptrPot; snap(t);
            core.doEpisode(len); S.transitions++;
            check(fabs(core.paramsRaga.timeCurr-(t+len))<1e-12, "time %g after the episode",core.paramsRaga.timeCurr); check(rec->starts==ep+1&&rec->ends==ep+1&&rec->t0==t&&rec->len==len, "task was started %d and finished %d times",rec->starts,rec->ends);
            // segments
            for(int i=0;i<np;i++) { bool alive=before.mass(i)!=0; Seg& s=first->seg[i]; check(alive==!s.empty(), "particle %d with mass %g has %d segments",i,before.mass(i),(int)s.size()); if(!alive) { check(core.particles.mass(i)==0 && core.particles.point(i).x==before.point(i).x, "inactive particle %d was changed",i); continue; }
                bool ok=s[0].first==0; for(size_t k=1;k<s.size();k++) ok&=s[k].first==s[k-1].second; for(auto& g: s) ok&=g.second>g.first; check(ok, "segments of particle %d are not contiguous (%d, last %.17g - %.17g)",i,(int)s.size(),s.back().first,s.back().second); bool captured=core.particles.mass(i)==0; if(!captured) check(s.back().second==len, "particle %d is followed until %.17g, not %g",i,s.back().second,len);
                Seg& l=rec->seg[i]; check(l.size()==s.size()-(captured?1:0), "last task saw %d segments, first task %d",(int)l.size(),(int)s.size()); bool same=true; for(size_t k=0;k<l.size()&&k<s.size();k++) same&=l[k]==s[k]; check(same, "tasks saw different segments of particle %d",i);
                if(!captured && !rec->pts[i].empty()) { const coord::PosVelCar& e=rec->pts[i].back(); const coord::PosVelCar& f=first->pts[i].back(); const particles::ParticleAux& z=core.particles.point(i); check(e.x==z.x&&e.y==z.y&&e.z==z.z&&e.vx==z.vx&&e.vy==z.vy&&e.vz==z.vz, "particle %d: state after the episode is not the one seen by the last task",i); if(relax) check(fabs(f.vx-z.vx)+fabs(f.vy-z.vy)+fabs(f.vz-z.vz)>0 && fabs(f.x-z.x)+fabs(f.y-z.y)+fabs(f.z-z.z)<1e-9*(1+fabs(z.x)), "particle %d: no perturbation in the last timestep, or a change of position",i); }
                const particles::ParticleAux& p=core.particles.point(i); check(p.stellarMass==before.point(i).stellarMass&&p.stellarRadius==before.point(i).stellarRadius, "attributes of particle %d changed",i); }
            // independent integration (no relaxation)
            double rc0[2]; double capM[2]={0,0}; int ncap=0; bool unsure=false; std::vector<Cap> cp(np); particles::ParticleArray<coord::PosCyl> smp;
            orbit::OrbitIntParams oip; std::vector<potential::PtrPotential> pc; pc.push_back(pot0); if(B.m) pc.push_back(potential::PtrPotential(new potential::KeplerBinary(bh0))); potential::Composite comp(pc); const potential::BasePotential& tot=B.m?(const potential::BasePotential&)comp:*pot0;
            if(!relax) for(int i=0;i<np;i++) if(before.mass(i)!=0) {
                double M[2]={bh0.mass,0}; if(bh0.sma>0) { M[0]=bh0.mass/(1+bh0.q); M[1]=M[0]*bh0.q; }
                for(int b=0;b<2;b++) rc0[b]=fmax(8*M[b]/c/c, before.point(i).stellarRadius*pow(M[b]/before.point(i).stellarMass,1./3));
                orbit::OrbitIntegrator<coord::Car> oi(tot,0,oip); if(B.m) oi.addRuntimeFnc(orbit::PtrRuntimeFnc(new Scan(oi,bh0,rc0,cp[i])));
                std::vector<std::pair<coord::PosVelCar,double> > tr; cp[i].cap=cp[i].unsure=false; oi.init(before.point(i));
                struct Smp: public orbit::BaseRuntimeFnc { std::vector<coord::PosCyl>& v; double L; int n,k; Smp(orbit::BaseOrbitIntegrator& o,std::vector<coord::PosCyl>& _v,double _L,int _n): orbit::BaseRuntimeFnc(o),v(_v),L(_L),n(_n),k(1){} virtual bool processTimestep(double a,double b) { while(k<=n && (L*k/n<=b || (k==n && b==L))) { v.push_back(toPosCyl(orbint.getSol(L*k/n))); k++; } return true; } };
                std::vector<coord::PosCyl> v; oi.addRuntimeFnc(orbit::PtrRuntimeFnc(new Smp(oi,v,len,samp[is])));
                coord::PosVelCar end=oi.run(len); if(cp[i].unsure) { unsure=true; continue; }
                const coord::PosVelCar& p=core.particles.point(i);
                if(cp[i].cap) { ncap++; capM[cp[i].b]+=before.mass(i); check(core.particles.mass(i)==0, "particle %d comes within %g < %g of hole %d at t=%g but was not captured",i,cp[i].rp,rc0[cp[i].b],cp[i].b,cp[i].t); check(fabs(p.x-cp[i].x.x)+fabs(p.y-cp[i].x.y)+fabs(p.z-cp[i].x.z)<1e-2, "captured particle %d is stored at %g,%g,%g instead of %g,%g,%g",i,p.x,p.y,p.z,cp[i].x.x,cp[i].x.y,cp[i].x.z); }
                else { check(core.particles.mass(i)==before.mass(i), "mass of particle %d changed from %g to %g without reason",i,before.mass(i),core.particles.mass(i)); check(p.x==end.x&&p.y==end.y&&p.z==end.z&&p.vx==end.vx&&p.vy==end.vy&&p.vz==end.vz, "particle %d: final position %.17g,%.17g,%.17g instead of %.17g,%.17g,%.17g",i,p.x,p.y,p.z,end.x,end.y,end.z);
                    check((int)v.size()==samp[is], "harness: %d samples",(int)v.size()); for(auto& q: v) smp.add(q,before.mass(i)/samp[is]); }
            }
            // masses
            double m1=0, dead[2]={0,0}; for(int i=0;i<np;i++) m1+=core.particles.mass(i); double lost=0; for(int i=0;i<np;i++) lost+=before.mass(i)-core.particles.mass(i);
            check(fabs(core.bh.mass-bh0.mass-lost*caps[ic])<1e-13, "black hole grew by %.12g instead of %.12g",core.bh.mass-bh0.mass,lost*caps[ic]);
            if(!relax && !unsure) { check(fabs(lost-capM[0]-capM[1])<1e-13, "captured mass %g instead of %g",lost,capM[0]+capM[1]); if(bh0.sma>0) { double M0=bh0.mass/(1+bh0.q)+capM[0]*caps[ic], M1=bh0.mass*bh0.q/(1+bh0.q)+capM[1]*caps[ic]; check(fabs(core.bh.q-M1/M0)<1e-10, "mass ratio %.10g instead of %.10g",core.bh.q,M1/M0); } else check(core.bh.q==bh0.q, "mass ratio of a single black hole changed"); }
            // loss cone file: one line per captured particle, sorted by time
            { std::ifstream f((dir+"/lc").c_str()); std::string l; std::vector<std::string> L; while(std::getline(f,l)) if(l[0]!='#') L.push_back(l); int nd=0; for(int i=0;i<np;i++) nd+=core.particles.mass(i)==0; check((int)L.size()==nd, "%d lines about %d captured particles",(int)L.size(),nd);
                if(!relax && !unsure) { double pt=-1; for(size_t k=nlines;k<L.size();k++) { double v[9]; std::istringstream ss(L[k]); for(int j=0;j<9;j++) ss>>v[j]; int i=(int)v[4]; if(i<0||i>=np||!cp[i].cap) { check(false, "line about particle %d",i); continue; } check(v[0]>=pt, "lines not in order of time"); pt=v[0]; check(fabs(v[0]-t-cp[i].t)<2e-3*(1+len), "capture time %g instead of %g",v[0],t+cp[i].t); check(v[1]==before.mass(i)||fabs(v[1]/before.mass(i)-1)<1e-6, "mass %g",v[1]); check(fabs(v[2]-cp[i].rp)<=.02*cp[i].rp+1e-5, "pericenter %g instead of %g",v[2],cp[i].rp); check((int)v[5]==cp[i].b, "hole %g instead of %d",v[5],cp[i].b); check(fabs(v[3]-cp[i].E)<.02*fabs(cp[i].E)+.05*bh0.mass/cp[i].rp, "energy %g instead of %g",v[3],cp[i].E); check(fabs(v[7]/before.point(i).stellarRadius-1)<1e-6&&fabs(v[8]/before.point(i).stellarMass-1)<1e-6, "stellar radius or mass"); } }
                nlines=L.size(); }
            // potential
            if(!upd) check(core.ptrPot==pot0, "potential changed though its update is off");
            else { check(core.ptrPot!=pot0, "potential was not updated"); if(!relax && !unsure) { potential::PtrPotential q=potential::Multipole::create(smp,core.paramsPotential.symmetry,2,2,12,.1,20); for(int k=0;k<5;k++) { coord::PosCyl x(.2*(k+1)*(k+1),.3*k,.5*k); double a=core.ptrPot->value(x),b=q->value(x); check(fabs(a-b)<1e-4*fabs(b), "updated potential %.10g instead of %.10g",a,b); } } 
                   double mm=-core.ptrPot->value(coord::PosCyl(1e4,0,0))*1e4; (void)mm; }
            // log
            { std::ifstream f((dir+"/log").c_str()); std::string l; int n=0; while(std::getline(f,l)) n+=l[0]!='#'; check(n==(ep+1)*(1+(int)core.tasks.size()), "%d lines in the log after %d episodes with %d tasks",n,ep+1,(int)core.tasks.size()); }
            t+=len; t=core.paramsRaga.timeCurr; snap(t); outcome(fmt("%s %d %d",B.n,mask,ncap)); S.states++;
        }
        // snapshots
        int nf=0; for(auto& f: ls(dir)) if(f.compare(0,4,"snap")==0) { nf++; if(!snaps.count(f)) { check(false, "unexpected snapshot %s",f.c_str()); continue; } particles::ParticleArrayAux q=particles::readSnapshot(dir+"/"+f), &p=snaps[f]; check(q.size()==p.size(), "%d particles in %s",(int)q.size(),f.c_str()); for(size_t i=0;i<q.size()&&i<p.size();i++) check(fabs(q.point(i).x-p.point(i).x)<1e-6*(1+fabs(p.point(i).x))&&fabs(q.point(i).vz-p.point(i).vz)<1e-6*(1+fabs(p.point(i).vz))&&fabs(q.mass(i)-p.mass(i))<1e-6*q.mass(i)+1e-20, "%s particle %d: %g %g %g instead of %g %g %g",f.c_str(),(int)i,q.point(i).x,q.point(i).vz,q.mass(i),p.point(i).x,p.point(i).vz,p.mass(i)); }
        check(nf==(int)snaps.size(), "%d snapshots instead of %d",nf,(int)snaps.size()); S.traces++;
    }
    clean(); rmdir(dir.c_str());
    return finish();
}
