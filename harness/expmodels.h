// models defined directly by their expansion coefficients, shared by several harnesses
#pragma once
#include "models.h"
#include <cmath>
namespace expmodels {
using namespace potential;
typedef std::vector<double> V; typedef std::vector<V> VV; typedef math::Matrix<double> Mat; typedef std::vector<Mat> VM;
inline double amp(int i,int mag) { static const double a[]={0.1,-0.07,0.05,0.13,-0.02,0.03,-0.11,0.017,0.06}; double v=a[i%9]; if(mag==1) v*=(i%3==0?1e-7:i%3==1?1e-5:1); return v; }
inline PtrDensity mkMul(int lmax,unsigned mask,int nr,int mag,double rmin,double rmax) { V r; for(int i=0;i<nr;i++) r.push_back(rmin*pow(rmax/rmin,nr>1?i*1./(nr-1):0)); int n=(lmax+1)*(lmax+1); VV P(n),D(n); for(int c=0;c<n;c++) { int l=(int)sqrt(c+1e-9); double A=c==0?-1:(mask>>(c-1)&1)?amp(c,mag):0; for(int i=0;i<nr;i++) { double x=r[i],q=1+x*x; double v=A*pow(x,l)*pow(q,-0.5-l),d=v*(l/x-(1+2*l)*x/q); if(c==0&&mag==2) { v=-pow(x,-0.3)/(1+x); d=v*(-0.3/x-1/(1+x)); } P[c].push_back(v); D[c].push_back(d); } } return PtrDensity(new Multipole(r,P,D)); }
inline PtrDensity mkBSE(int lmax,unsigned mask,int nmax,int mag,double eta,double r0) { int n=(lmax+1)*(lmax+1); VV P(n); for(int c=0;c<n;c++) for(int k=0;k<=nmax;k++) P[c].push_back(c==0?(k==0?-1:0.3/k*(k%2?1:-1)*(mag==1?1e-9:1)):(mask>>(c-1)&1)?amp(c+k,mag):0); return PtrDensity(new BasisSet(eta,r0,P)); }
inline PtrDensity mkDSH(int lmax,unsigned mask,int nr,int mag,double rmin,double rmax) { V r; for(int i=0;i<nr;i++) r.push_back(rmin*pow(rmax/rmin,nr>1?i*1./(nr-1):0)); int n=(lmax+1)*(lmax+1); VV P(n); for(int c=0;c<n;c++) { int l=(int)sqrt(c+1e-9); double A=c==0?1:(mask>>(c-1)&1)?amp(c,mag):0; for(int i=0;i<nr;i++) { double x=r[i],q=1+x*x; double v=A*pow(x,l)*pow(q,-2.-l*0.5); if(c==0&&mag==2) v*=(1-0.7*x); P[c].push_back(v); } } return PtrDensity(new DensitySphericalHarmonic(r,P)); }
inline void cylgrid(int nR,int nz,bool half,V& R,V& z) { R.clear(); z.clear(); for(int i=0;i<nR;i++) R.push_back(i==0?0:0.2*pow(2.1,i)); for(int i=half?0:-nz+1;i<nz;i++) z.push_back(i==0?0:(i<0?-1:1)*0.15*pow(2.3,abs(i))*(half||i>0?1:1.1)); }
inline PtrDensity mkCyl(int mmax,unsigned mask,int nR,int nz,bool half,int deriv,int mag,bool dens) { V R,z; cylgrid(nR,nz,half,R,z); VM P(2*mmax+1),A(2*mmax+1),B(2*mmax+1);
    for(int m=-mmax;m<=mmax;m++) { int bit=m==0?-1:m<0?m+mmax:m+mmax-1; if(bit>=0&&!(mask>>bit&1)) continue; Mat p(R.size(),z.size(),0),a(R.size(),z.size(),0),b(R.size(),z.size(),0); double am=m==0?(dens?1:-1):amp(m+mmax,mag); int M=abs(m);
        for(size_t i=0;i<R.size();i++) for(size_t k=0;k<z.size();k++) { double x=R[i],y=z[k],q=1+x*x+2*y*y+(half?0:0.2*y); double e=dens?-2-M:-0.5-M; double v=am*pow(x,M)*pow(q,e); p(i,k)=v; a(i,k)=am*((M?M*pow(x,M-1)*pow(q,e):0)+pow(x,M)*e*pow(q,e-1)*2*x); b(i,k)=am*pow(x,M)*e*pow(q,e-1)*(4*y+(half?0:0.2)); }
        P[m+mmax]=p; A[m+mmax]=a; B[m+mmax]=b; }
    if(dens) return PtrDensity(new DensityAzimuthalHarmonic(R,z,P)); return deriv ? PtrDensity(new CylSpline(R,z,P,A,B)) : PtrDensity(new CylSpline(R,z,P)); }
}
