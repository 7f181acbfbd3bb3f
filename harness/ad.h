// forward-mode automatic differentiation, second order, three independent variables, long double: an oracle for derivatives
#pragma once
#include <cmath>
namespace ad {
typedef long double L;
static const int IX[6]={0,1,2,0,1,0}, IY[6]={0,1,2,1,2,2};   // xx,yy,zz,xy,yz,xz: the order of dx2,dy2,dz2,dxdy,dydz,dxdz
struct D { L v,g[3],h[6]; D(L x=0): v(x) { for(int i=0;i<3;i++) g[i]=0; for(int i=0;i<6;i++) h[i]=0; }
    L H(int i,int j) const { if(i>j) { int t=i; i=j; j=t; } return i==j? h[i] : i==0&&j==1? h[3] : i==1? h[4] : h[5]; } };
inline D var(L x,int k) { D d(x); d.g[k]=1; return d; }
inline D chain(const D& a,L f,L f1,L f2) { D r(f); for(int i=0;i<3;i++) r.g[i]= a.g[i]==0?0:f1*a.g[i]; for(int k=0;k<6;k++) { L q=a.g[IX[k]]*a.g[IY[k]]; r.h[k]=(a.h[k]==0?0:f1*a.h[k])+(q==0?0:f2*q); } return r; }
inline D operator+(const D& a,const D& b) { D r(a.v+b.v); for(int i=0;i<3;i++) r.g[i]=a.g[i]+b.g[i]; for(int i=0;i<6;i++) r.h[i]=a.h[i]+b.h[i]; return r; }
inline D operator-(const D& a) { return chain(a,-a.v,-1,0); }
inline D operator-(const D& a,const D& b) { return a+(-b); }
inline D operator*(const D& a,const D& b) { D r(a.v*b.v); for(int i=0;i<3;i++) r.g[i]=a.g[i]*b.v+a.v*b.g[i];
    for(int k=0;k<6;k++) r.h[k]=a.h[k]*b.v+a.v*b.h[k]+a.g[IX[k]]*b.g[IY[k]]+a.g[IY[k]]*b.g[IX[k]]; return r; }
inline D inv(const D& a) { return chain(a,1/a.v,-1/(a.v*a.v),2/(a.v*a.v*a.v)); }
inline D operator/(const D& a,const D& b) { return a*inv(b); }
inline D sqrt(const D& a) { L s=sqrtl(a.v); return chain(a,s,0.5L/s,-0.25L/(s*a.v)); }
inline D sin(const D& a) { return chain(a,sinl(a.v),cosl(a.v),-sinl(a.v)); }
inline D cos(const D& a) { return chain(a,cosl(a.v),-sinl(a.v),-cosl(a.v)); }
inline D exp(const D& a) { L e=expl(a.v); return chain(a,e,e,e); }
inline D log(const D& a) { return chain(a,logl(a.v),1/a.v,-1/(a.v*a.v)); }
inline D atan(const D& a) { L q=1/(1+a.v*a.v); return chain(a,atanl(a.v),q,-2*a.v*q*q); }
inline D tanh(const D& a) { L t=tanhl(a.v); return chain(a,t,1-t*t,-2*t*(1-t*t)); }
inline D asinh(const D& a) { L q=1+a.v*a.v; return chain(a,asinhl(a.v),1/sqrtl(q),-a.v/(q*sqrtl(q))); }
inline D pow(const D& a,L p) { return chain(a,powl(a.v,p),p*powl(a.v,p-1),p*(p-1)*powl(a.v,p-2)); }
inline D atan2(const D& y,const D& x) { D r; if(fabsl(x.v)>fabsl(y.v)) r=atan(y/x); else r=-atan(x/y); r.v=atan2l(y.v,x.v); return r; }
inline D abs(const D& a) { return a.v<0?-a:a; }
inline L lap(const D& a) { return a.h[0]+a.h[1]+a.h[2]; }
}
