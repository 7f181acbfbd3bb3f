// I02: snapshot files.  Enumerates particle kinds x formats x units x headers x values (round trip, independent
// parsers of both formats), layouts of hand-written text files, all truncations and malformations, and all write/read
// fault points (every byte limit, every write()/read() call).
#include "vh.h"
#include "iofault.h"
#include "particles_io.h"
#include "coord.h"
#include "utils.h"
#include <limits>
#include <cstring>
using namespace vh;
using namespace particles;
typedef std::vector<double> row;
typedef std::vector<row> table;
static std::string F;
static const double U[][3] = { {1,1,1}, {1000,1,1}, {1,1e3,2.5}, {0.125,3,1e10}, {206264.8,0.01,7} };
static units::ExternalUnits mkunits(int u) {
    if(u==0) return units::ExternalUnits();
    static units::InternalUnits iu(units::Kpc, units::Myr);
    return units::ExternalUnits(iu, U[u][0]*units::pc, U[u][1]*units::kms, U[u][2]*units::Msun);
}
static const int NK=7;
static const char* KN[NK] = {"PosCar","PosCyl","PosSph","PosVelCar","PosVelCyl","PosVelSph","Aux"};
static int ncols(int k) { return k<3?4:k<6?7:9; }
// particle data as 9 internal-unit Cartesian numbers x,y,z,vx,vy,vz,m,sm,sr
static ParticleAux aux(const row& p) { return ParticleAux(coord::PosVelCar(p[0],p[1],p[2],p[3],p[4],p[5]),p[7],p[8]); }
static void put(const std::string& f, int kind, const table& t, const char* format, const units::ExternalUnits& u,
    const std::string& hdr, double time, bool app)
{
#define W(T,expr) { ParticleArray<T> a; for(size_t i=0;i<t.size();i++) { const row& p=t[i]; a.add(expr, p[6]); } writeSnapshot(f,a,format,u,hdr,time,app); return; }
    switch(kind) {
    case 0: W(coord::PosCar, coord::PosCar(p[0],p[1],p[2]))
    case 1: W(coord::PosCyl, coord::PosCyl(sqrt(p[0]*p[0]+p[1]*p[1]),p[2],atan2(p[1],p[0])))
    case 2: W(coord::PosSph, coord::PosSph(sqrt(p[0]*p[0]+p[1]*p[1]+p[2]*p[2]),atan2(sqrt(p[0]*p[0]+p[1]*p[1]),p[2]),atan2(p[1],p[0])))
    case 3: W(coord::PosVelCar, coord::PosVelCar(p[0],p[1],p[2],p[3],p[4],p[5]))
    case 4: W(coord::PosVelCyl, coord::PosVelCyl(sqrt(p[0]*p[0]+p[1]*p[1]),p[2],atan2(p[1],p[0]),
        (p[0]*p[3]+p[1]*p[4])/sqrt(p[0]*p[0]+p[1]*p[1]), p[5], (p[0]*p[4]-p[1]*p[3])/sqrt(p[0]*p[0]+p[1]*p[1])))
    case 5: W(coord::PosVelSph, (coord::toPosVelSph(coord::PosVelCar(p[0],p[1],p[2],p[3],p[4],p[5]))))
    case 6: W(ParticleAux, aux(p))
    }
#undef W
}
// ---- independent parsers: return rows of file numbers ----
static bool parseText(const std::string& c, table& t, std::vector<std::string>& comments) {
    size_t b=0; if(!c.empty() && c[c.size()-1]!='\n') return false;
    while(b<c.size()) { size_t e=c.find('\n',b); std::string l=c.substr(b,e-b); b=e+1;
        if(l.empty()) return false;
        if(l[0]=='#') { comments.push_back(l); continue; }
        row r; const char* p=l.c_str(); while(1) { char* q; double v=strtod(p,&q); if(q==p) return false; r.push_back(v); p=q; if(*p==0) break; if(*p!='\t') return false; p++; }
        t.push_back(r); }
    return true;
}
struct Nemo { // recursive descent over the NEMO structured binary format
    const std::string& c; size_t i; bool ok; std::vector<std::string> path;
    struct Item { std::string name; char type; std::vector<int> dim; std::string data; };
    std::vector<Item> items;
    Nemo(const std::string& s): c(s), i(0), ok(true) { while(ok && i<c.size()) item(); if(!path.empty()) ok=false; }
    std::string z() { std::string s; while(i<c.size() && c[i]) s+=c[i++]; if(i>=c.size()) { ok=false; return s; } i++; return s; }
    void item() {
        if(i+4>c.size() || (unsigned char)c[i]!=0x92) { ok=false; return; }
        int sec=(unsigned char)c[i+1]; // plural 11 / singular 9
        char ty=c[i+2]; i+=3;
        if(ty==')') { if(i>=c.size()||c[i]!=0||path.empty()) { ok=false; return; } i++; path.pop_back(); return; }
        if(c[i]!=0) { ok=false; return; } i++;
        std::string nm=z(); if(!ok) return;
        if(ty=='(') { path.push_back(nm); return; }
        Item it; it.type=ty; for(size_t k=0;k<path.size();k++) it.name+=path[k]+"/"; it.name+=nm;
        size_t n=1, sz= ty=='i'||ty=='f'?4:ty=='d'?8:ty=='c'?1:0; if(!sz) { ok=false; return; }
        if(sec==11) while(1) { if(i+4>c.size()) { ok=false; return; } int d; memcpy(&d,&c[i],4); i+=4; if(d==0 && (it.dim.size()>=2 || (it.dim.size()==1 && it.dim[0]!=0))) break;
                if(d==0 && it.dim.size()==1) break; it.dim.push_back(d); n*=d; if(it.dim.size()>3) { ok=false; return; } }
        else if(sec!=9) { ok=false; return; }
        if(i+n*sz>c.size()) { ok=false; return; }
        it.data=c.substr(i,n*sz); i+=n*sz; items.push_back(it);
    }
    const Item* find(const std::string& n, size_t from=0) const { for(size_t k=from;k<items.size();k++) if(items[k].name==n) return &items[k]; return NULL; }
};
static double fl(const std::string& d, size_t k) { float f; memcpy(&f,&d[k*4],4); return f; }
static bool nemoTable(const Nemo& n, int kind, size_t N, table& t, size_t from=0) {
    const Nemo::Item *nb=n.find("SnapShot/Parameters/Nobj",from), *cs=n.find("SnapShot/Particles/CoordSystem",from), *p=n.find("SnapShot/Particles/Position",from),
        *v=n.find("SnapShot/Particles/Velocity",from), *m=n.find("SnapShot/Particles/Mass",from), *a=n.find("SnapShot/Particles/Aux",from), *e=n.find("SnapShot/Particles/Eps",from);
    if(!nb||!cs||!p||!m||(kind>=3)!=(v!=NULL)||(kind==6)!=(a!=NULL&&e!=NULL)) return false;
    int x; memcpy(&x,nb->data.data(),4); if(x!=(int)N) return false;
    memcpy(&x,cs->data.data(),4); if(x!=66306) return false;
    if(p->type!='f'||p->data.size()!=N*12||m->data.size()!=N*4||(v&&v->data.size()!=N*12)||(a&&(a->data.size()!=N*4||e->data.size()!=N*4))) return false;
    if(N) { if(p->dim.size()!=2||p->dim[0]!=(int)N||p->dim[1]!=3||m->dim.size()!=1||m->dim[0]!=(int)N) return false; }
    for(size_t i=0;i<N;i++) { row r; for(int k=0;k<3;k++) r.push_back(fl(p->data,i*3+k)); if(v) for(int k=0;k<3;k++) r.push_back(fl(v->data,i*3+k)); r.push_back(fl(m->data,i)); if(a) { r.push_back(fl(a->data,i)); r.push_back(fl(e->data,i)); } t.push_back(r); }
    return true;
}
// expected file numbers for a particle
static row expect(const row& p, int kind, const units::ExternalUnits& u) {
    row r; for(int k=0;k<3;k++) r.push_back(p[k]/u.lengthUnit);
    if(kind>=3) for(int k=3;k<6;k++) r.push_back(p[k]/u.velocityUnit);
    r.push_back(p[6]/u.massUnit);
    if(kind==6) { r.push_back(p[7]/u.massUnit); r.push_back(p[8]/u.lengthUnit); }
    return r; }
static double norm3(const row& r, int o) { return sqrt(r[o]*r[o]+r[o+1]*r[o+1]+r[o+2]*r[o+2]); }
// tolerance per column: conversion through curvilinear coordinates costs eps*norm
static bool same(const row& a, const row& b, int kind, double rel) {
    if(a.size()!=b.size()) return false; bool conv = kind==1||kind==2||kind==4||kind==5;
    for(size_t k=0;k<a.size();k++) { double abst=0; if(conv && k<3) abst=1e-14*norm3(b,0); if(conv && b.size()>=7 && k>=3 && k<6) abst=1e-13*norm3(b,3);
        if(!close(a[k],b[k],rel,abst)) return false; }
    return true; }
static std::string show(const row& r) { std::string s; for(size_t i=0;i<r.size();i++) s+=fmt("%.9g ",r[i]); return s; }
static row fromAux(const ParticleArrayAux& a, size_t i) { const ParticleAux& p=a.point(i); row r; double d[9]={p.x,p.y,p.z,p.vx,p.vy,p.vz,a.mass(i),p.stellarMass,p.stellarRadius}; r.assign(d,d+9); return r; }

static table sampleTable(int N, int seed) { table t; const double pal[]={1.5,-2.25,0.3333333333333,-7.125e-5,1234567.89,0.1,-31.4159265,2e10,1e-12,5};
    for(int i=0;i<N;i++) { row r; for(int k=0;k<9;k++) r.push_back(pal[(i*3+k*7+seed)%10] * (k>=6?1:1)); r[6]=fabs(r[6]); r[7]=fabs(r[7]); r[8]=fabs(r[8]); t.push_back(r); } return t; }

static void roundtrip(int kind, int u, const table& t, const std::string& hdr, double time, bool nemo, bool app) {
    units::ExternalUnits conv=mkunits(u);
    unlink(F.c_str()); std::string before;
    if(app) { put(F,kind,t,nemo?"nemo":"text",conv,"first",NAN,false); before=iofault::slurp(F); }
    put(F,kind,t,nemo?"Nemo":"Text",conv,hdr,time,app);
    std::string c=iofault::slurp(F);
    S.states++;
    if(nemo) {
        if(app) { if(!check(c.size()>before.size() && c.compare(0,before.size(),before)==0,"append destroyed the existing content")) return; }
        Nemo n(c.substr(before.size())); if(!check(n.ok,"NEMO file is not well formed")) return;
        table q; if(!check(nemoTable(n,kind,t.size(),q),"NEMO file lacks items or has wrong sizes")) return;
        for(size_t i=0;i<t.size();i++) { row e=expect(t[i],kind,conv); check(same(q[i],e,kind,1e-7),"particle %d is %s, expected %s",(int)i,show(q[i]).c_str(),show(e).c_str()); }
        const Nemo::Item* tm=n.find("SnapShot/Parameters/Time"); check((tm!=NULL)==(bool)std::isfinite(time),"time stamp presence");
        if(tm) { double x=NAN; if(tm->data.size()==8) memcpy(&x,tm->data.data(),8); check(close(x,time/conv.timeUnit,1e-14),"time %g, expected %g",x,time/conv.timeUnit); }
        const Nemo::Item* hi=n.find("History"); check((hi!=NULL)==!hdr.empty() && (!hi || hi->data.compare(0,hdr.size(),hdr)==0),"header");
        bool thrown=false; try { readSnapshot(F,conv); } catch(std::exception&) { thrown=true; }
        check(thrown,"reading a NEMO file without UNSIO support did not raise an error");
        outcome(fmt("nemo%d%d",kind,(int)t.size()));
        return;
    }
    table q; std::vector<std::string> com;
    if(!check(parseText(c,q,com),"text file is not well formed")) return;
    if(!check(q.size()==t.size(),"text file has %d data lines instead of %d",(int)q.size(),(int)t.size())) return;
    for(size_t i=0;i<t.size();i++) { row e=expect(t[i],kind,conv); check(same(q[i],e,kind,6e-8),"file line %d is %s, expected %s",(int)i,show(q[i]).c_str(),show(e).c_str()); }
    if(!hdr.empty()) check(!com.empty() && com[0].substr(1)==hdr.substr(0,hdr.find('\n')),"header line '%s'",com.empty()?"":com[0].c_str());
    if(std::isfinite(time)) { bool f=false; for(size_t i=0;i<com.size();i++) if(com[i].find("time")!=std::string::npos) { const char* p=com[i].c_str()+com[i].find_first_of("0123456789-+."); if(close(strtod(p,NULL),time/conv.timeUnit,1e-5)) f=true; } check(f,"time stamp missing or wrong"); }
    ParticleArrayAux a=readSnapshot(F,conv);
    if(!check(a.size()==t.size(),"read back %d particles instead of %d",(int)a.size(),(int)t.size())) return;
    for(size_t i=0;i<t.size();i++) { row r=fromAux(a,i), e=t[i]; if(kind<3) e[3]=e[4]=e[5]=0; if(kind<6) { e[7]=e[6]; e[8]=0; }
        check(same(r,e,kind,1.2e-7),"particle %d read back as %s, written %s",(int)i,show(r).c_str(),show(e).c_str()); }
    outcome(fmt("text%d%d",kind,(int)t.size()));
}
static void part_roundtrip() {
    const char* H[]={"","hello world","a\n1 2 3 4 5 6 7\nb","#x"}; const double T[]={NAN,0,-2.5,1e6};
    for(int nemo=0;nemo<2;nemo++) for(int kind=0;kind<NK;kind++) for(int u=0;u<5;u++) for(int N=0;N<=4;N++) for(int h=0;h<4;h++) for(int tm=0;tm<4;tm++) for(int app=0;app<2;app++) {
        if(!begin(fmt("rt:%s:%s:u%d:N%d:h%d:t%d:a%d",nemo?"nemo":"text",KN[kind],u,N,h,tm,app))) continue;
        try { roundtrip(kind,u,sampleTable(N,u+h+tm),H[h],T[tm],nemo,app); } catch(std::exception& e) { check(false,"unexpected exception %s",e.what()); } }
    // every palette value in every column
    const double V[]={0,1,-1,1./3,-1./3,1e-30,-1e30,1e-300,1e300,123456789.123,0.99999999,99999999.5,-1e-5,1e5,0.1,1e8,1e7,std::numeric_limits<double>::max(),std::numeric_limits<double>::min(),-0.0};
    for(size_t v=0;v<sizeof(V)/sizeof(*V);v++) for(int col=0;col<9;col++) for(int kind=0;kind<NK;kind+=3) for(int nemo=0;nemo<2;nemo++) for(int u=0;u<2;u++) {
        if((kind==0 && col>=3 && col!=6) || (kind==3 && col>=7)) continue;
        if(nemo && fabs(V[v])>1e38) continue; if(nemo && fabs(V[v])<1e-37 && V[v]!=0) continue;
        if(u && fabs(V[v])>(nemo?1e28:1e290)) continue; if(u && V[v]!=0 && fabs(V[v])<(nemo?1e-25:1e-290)) continue;
        if(!begin(fmt("val:%d:c%d:%s:%d:u%d",(int)v,col,KN[kind],nemo,u))) continue;
        table t=sampleTable(2,1); t[1][col]=V[v];
        try { roundtrip(kind,u,t,"",NAN,nemo,false); } catch(std::exception& e) { check(false,"unexpected exception %s",e.what()); } }
    // non-finite values: the particle must not vanish silently
    const double X[]={NAN,INFINITY,-INFINITY};
    for(int x=0;x<3;x++) for(int col=0;col<9;col++) { if(!begin(fmt("nonfinite:%d:c%d",x,col))) continue;
        table t=sampleTable(3,2); t[1][col]=X[x]; put(F,6,t,"text",units::ExternalUnits(),"",NAN,false);
        try { ParticleArrayAux a=readSnapshot(F); if(check(a.size()==3,"%d particles instead of 3 read back",(int)a.size())) for(int i=0;i<3;i++) check(same(fromAux(a,i),t[i],3,1e-7),"particle %d is %s",i,show(fromAux(a,i)).c_str()); }
        catch(std::exception&) { outcome("nonfinite-error"); } }
}
static void part_layout() {
    const char* SEP[]={" ","\t",",",";","   "," , ","\t\t"}; const char* EOLS[]={"\n","\r\n"};
    const char* COM[]={"","#c 1 2 3\n","# 1 2 3 4 5 6 7\n","#\n",";\n","\n","x y z m\n","x\ty\tz\tvx\tvy\tvz\tmass\n","#x\ty\n\n#z\n"};
    const char* LEAD[]={""," ","\t"}; const char* TRAIL[]={""," "," # 5 note"};
    for(int nc=0;nc<4;nc++) for(int n=1;n<=3;n++) for(int s=0;s<7;s++) for(int e=0;e<2;e++) for(int fin=0;fin<2;fin++) for(int c=0;c<9;c++) for(int where=0;where<4;where++) for(int lead=0;lead<3;lead++) for(int tr=0;tr<3;tr++) {
        if(where && !COM[c][0]) continue; if(!thorough() && (s+lead+tr>3) && (s*lead*tr)) continue;
        static const int NC[4]={4,7,8,9};
        if(!begin(fmt("lay:%d:%d:s%d:e%d:f%d:c%d:w%d:l%d:t%d",NC[nc],n,s,e,fin,c,where,lead,tr))) continue;
        std::string txt; table exp; std::string com=COM[c]; if(e) { std::string r; for(size_t i=0;i<com.size();i++) { if(com[i]=='\n') r+='\r'; r+=com[i]; } com=r; }
        if(where==0||where==3) txt+=com;
        if(c==8 && where==0) {} 
        for(int i=0;i<n;i++) { row r(9,0.); txt+=LEAD[lead]; for(int k=0;k<NC[nc];k++) { static const char* VAL[]={"1.5","-2","+3e-1","-.25","4.",".5","7E2","0","-0.125"}; const char* v=VAL[(i*2+k+c)%9]; if(k) txt+=SEP[s]; txt+=v; double x=atof(v);
                int dst = NC[nc]==4 && k==3 ? 6 : k; r[dst]=x; }
            if(NC[nc]<8) r[7]=r[6]; txt+=TRAIL[tr]; if(i<n-1||!fin) txt+=EOLS[e]; if(where==1&&i==0&&n>1) txt+=com; exp.push_back(r); }
        if(where==2||where==3) { if(fin) txt+=EOLS[e]; std::string cc=com; if(fin && !cc.empty() && cc[cc.size()-1]=='\n') cc.erase(cc.size()-1); txt+=cc; }
        if(txt[0]<32 || (unsigned char)txt[0]>126) { // declared not to be a text file: must be an error
            iofault::spit(F,txt); bool th=false; try { readSnapshot(F); } catch(std::exception&) { th=true; }
            if(th) { outcome("layout-error"); check(true,""); continue; } }
        iofault::spit(F,txt);
        try { ParticleArrayAux a=readSnapshot(F); if(!check(a.size()==exp.size(),"%d particles read instead of %d from '%s'",(int)a.size(),(int)exp.size(),txt.c_str())) continue;
            for(size_t i=0;i<exp.size();i++) check(same(fromAux(a,i),exp[i],3,1e-15),"particle %d is %s, file says %s",(int)i,show(fromAux(a,i)).c_str(),show(exp[i]).c_str());
            outcome(fmt("lay%d%d",nc,n)); }
        catch(std::exception& ex) { check(false,"exception %s for '%s'",ex.what(),txt.c_str()); } }
}
static void part_malformed() {
    // every truncation of a file: an error, or all complete lines plus an un-terminated last line with all its fields present
    for(int kind=0;kind<NK;kind+=3) { table t=sampleTable(3,kind); put(F,kind,t,"text",units::ExternalUnits(),"head",1.,false); std::string c=iofault::slurp(F);
        for(size_t k=0;k<c.size();k++) { if(!begin(fmt("trunc:%s:%d",KN[kind],(int)k))) continue; std::string p=c.substr(0,k); iofault::spit(F,p);
            // number of data lines that are complete in the prefix (all columns present; the last field may be cut)
            size_t full=0; bool partial=false, comment=false, cutnum=false, undecidable=false; size_t b=0; while(b<p.size()) { size_t e=p.find('\n',b); bool nl=e!=std::string::npos; std::string l=p.substr(b,nl?e-b:std::string::npos); b=nl?e+1:p.size();
                if(l[0]=='#') { comment=true; continue; } int f=0; std::istringstream is(l); std::string w, last; while(is>>w) { f++; last=w; }  w=last; if(f==ncols(kind)) { full++; char* q; strtod(w.empty()?last.c_str():w.c_str(),&q); if(*q) cutnum=true; } else partial=f<4||full>0, undecidable=!partial; }
            (void)comment; if(undecidable) continue;  // indistinguishable from a valid file with fewer columns
            try { ParticleArrayAux a=readSnapshot(F); check(!partial,"a line cut in the middle was accepted silently"); check(a.size()==full,"%d particles read from a truncated file with %d complete lines",(int)a.size(),(int)full); outcome(fmt("trunc-ok%d",(int)full)); }
            catch(std::exception& e) { check(partial || cutnum || p.empty(),"error '%s' for a file with only complete lines",e.what()); outcome("trunc-err"); } }
        // every data field replaced by garbage, removed, or an extra one added; lines in all positions
        const char* G[]={"abc","1.5x","","--1","1e","1.2.3","0x","\x01","nanx","1D5","*****"};
        for(int line=0;line<3;line++) for(int f=0;f<ncols(kind);f++) for(size_t g=0;g<sizeof(G)/sizeof(*G);g++) { if(f==0 && !(G[g][0]=='1' || G[g][0]=='-' )) continue;  // a line not starting with a number is a header
            if(!begin(fmt("bad:%s:l%d:f%d:g%d",KN[kind],line,f,(int)g))) continue;
            std::string txt="#h\n"; for(int i=0;i<3;i++) { for(int k=0;k<ncols(kind);k++) { std::string v = i==line&&k==f ? G[g] : fmt("%d",i*10+k+1); if(v.empty()) continue; txt+=v; txt+=k==ncols(kind)-1?"":" "; } txt+="\n"; }
            iofault::spit(F,txt); bool th=false; size_t n=0; try { n=readSnapshot(F).size(); } catch(std::exception&) { th=true; }
            check(th,"malformed line accepted silently (%d particles): '%s'",(int)n,txt.c_str()); outcome("malformed"); }
    }
    // binary formats: every prefix of a NEMO file must be rejected in this configuration; also empty files, directories, missing files
    for(int kind=0;kind<NK;kind+=3) { put(F,kind,sampleTable(2,1),"nemo",units::ExternalUnits(),"h",1.,false); std::string c=iofault::slurp(F);
        for(size_t k=0;k<=c.size();k++) { if(!begin(fmt("nemoprefix:%s:%d",KN[kind],(int)k))) continue; iofault::spit(F,c.substr(0,k)); bool th=false; try { readSnapshot(F); } catch(std::exception&) { th=true; } check(th,"accepted"); } }
    for(int b=0;b<256;b++) for(int n=1;n<9;n+=7) { if(b>=32&&b<128) continue; if(!begin(fmt("byte:%d:%d",b,n))) continue; iofault::spit(F,std::string(n,(char)b)); bool th=false; try { readSnapshot(F); } catch(std::exception&) { th=true; } check(th,"accepted"); outcome("byte"); }
    if(begin("dir")) { bool th=false; try { readSnapshot(S.scratch); } catch(std::exception&) { th=true; } check(th,"reading a directory"); th=false; try { put(S.scratch,0,sampleTable(1,0),"text",units::ExternalUnits(),"",NAN,false); } catch(std::exception&) { th=true; } check(th,"writing to a directory");
        th=false; try { put(S.scratch,0,sampleTable(1,0),"nemo",units::ExternalUnits(),"",NAN,false); } catch(std::exception&) { th=true; } check(th,"writing to a directory"); }
    if(begin("missing")) { bool th=false; try { readSnapshot(S.scratch+"/nosuch"); } catch(std::exception&) { th=true; } check(th,"reading a missing file");
        for(int n=0;n<2;n++) { th=false; try { put(S.scratch+"/no/such/dir",0,sampleTable(1,0),n?"nemo":"text",units::ExternalUnits(),"",NAN,false); } catch(std::exception&) { th=true; } check(th,"writing into a missing directory"); } }
    const char* BADF[]={"","x","gadget","G"," text","1"}; for(int k=0;k<6;k++) if(begin(fmt("fmt:%d",k))) { bool th=false; unlink(F.c_str()); try { put(F,3,sampleTable(1,0),BADF[k],units::ExternalUnits(),"",NAN,false); } catch(std::exception&) { th=true; } check(th,"format '%s' accepted",BADF[k]); }
    if(begin("emptyname")) { bool th=false; try { put("",3,sampleTable(1,0),"text",units::ExternalUnits(),"",NAN,false); } catch(std::exception&) { th=true; } check(th,"empty file name"); }
}
static bool tryput(int kind, const table& t, int nemo, bool app, const std::string& hdr) { try { put(F,kind,t,nemo?"nemo":"text",units::ExternalUnits(),hdr,1.,app); return true; } catch(std::exception&) { return false; } }
static void part_faults() {
    iofault::init();
    const int NN[]={0,1,3,200};
    for(int nemo=0;nemo<2;nemo++) for(int app=0;app<=nemo;app++) for(int kind=0;kind<NK;kind+=3) for(int n=0;n<4;n++) {
        int N=NN[n]; table t=sampleTable(N,kind); std::string base=app?std::string("existing content "):"";
        std::string full; { iofault::spit(F,base); put(F,kind,t,nemo?"nemo":"text",units::ExternalUnits(),"hd",1.,app); full=iofault::slurp(F); }
        // (a) every byte limit
        for(size_t k=0;k<=full.size()+1;k++) { if(N>=200 && !thorough() && k%97 && k+3<full.size()) continue;
            if(!begin(fmt("lim:%s:%d:%s:N%d:%d",nemo?"nemo":"text",app,KN[kind],N,(int)k))) continue;
            iofault::spit(F,base); iofault::limit(k); bool ok=tryput(kind,t,nemo,app,"hd"); iofault::limit(-1);
            std::string c=iofault::slurp(F); S.transitions++;
            if(k>=full.size()) check(ok && c==full,"export failed although all bytes fit");
            else { check(!ok,"export of %d bytes reported success although only %d could be written",(int)full.size(),(int)k);
                if(app) check(c.compare(0,std::min(base.size(),c.size()),base,0,std::min(base.size(),c.size()))==0,"failed append damaged the old content"); }
            outcome(fmt("lim%d%d",nemo,ok)); }
        // (b) every write call: failing once or from then on, with several error codes; short; interrupted
        iofault::spit(F,base); iofault::arm(iofault::NONE,-1); tryput(kind,t,nemo,app,"hd"); long nw=iofault::disarm();
        const int ERR[]={ENOSPC,EIO,EDQUOT};
        for(long w=0;w<nw;w++) for(int m=0;m<5;m++) { if(!begin(fmt("wr:%s:%d:%s:N%d:%ld:%d",nemo?"nemo":"text",app,KN[kind],N,w,m))) continue;
            iofault::spit(F,base); if(m<3) iofault::arm(iofault::FAIL,w,ERR[m],m!=1); else if(m==3) iofault::arm(iofault::SHORT,w,0,true); else iofault::arm(iofault::INTR,w);
            bool ok=tryput(kind,t,nemo,app,"hd"); iofault::disarm(); std::string c=iofault::slurp(F); S.transitions++;
            check(iofault::w.fired>0,"fault was not delivered");
            check(!ok || c==full,"export reported success but the file is incomplete (%d of %d bytes) after a %s in write call %ld",(int)c.size(),(int)full.size(),m<3?"failure":"short write",w);
            if(m==3) check(ok,"short writes should be continued");
            outcome(fmt("wr%d%d",m,ok)); }
    }
    // reading: every read call fails or is short
    for(int kind=0;kind<NK;kind+=3) for(int n=0;n<5;n++) { static const int NR[]={0,1,3,200,2000}; int N=NR[n]; table t=sampleTable(N,kind); put(F,kind,t,"text",units::ExternalUnits(),"hd",1.,false);
        iofault::arm(iofault::NONE,-1,0,false,true); readSnapshot(F); long nr=iofault::disarm();
        for(long r=0;r<nr;r++) for(int m=0;m<4;m++) { if(!begin(fmt("rd:%s:N%d:%ld:%d",KN[kind],N,r,m))) continue;
            if(m<2) iofault::arm(iofault::FAIL,r,EIO,m==0,true); else if(m==2) iofault::arm(iofault::SHORT,r,0,true,true); else iofault::arm(iofault::INTR,r,0,false,true);
            bool ok=true; size_t got=0; try { got=readSnapshot(F).size(); } catch(std::exception&) { ok=false; } iofault::disarm(); S.transitions++;
            check(!ok || got==(size_t)N,"read error in call %ld silently gave %d particles instead of %d",r,(int)got,N);
            if(m==2) check(ok,"short reads should be continued"); outcome(fmt("rd%d%d",m,ok)); } }
}
int main(int argc,char** argv) { init(argc,argv); F=S.scratch+"/snap";
    part_roundtrip(); part_layout(); part_malformed(); part_faults();
    return finish(); }
