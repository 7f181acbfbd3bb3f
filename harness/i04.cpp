// I04: strings, maps, argument lists and INI files specify the same model; GalPot files
#include "models.h"
#include "df_factory.h"
#include "utils.h"
#include <cmath>
#include <functional>
#include <algorithm>
using namespace vh;
typedef std::vector<double> V; typedef utils::KeyValueMap KV;
static V fp(const potential::BasePotential& p) { V r; const double P[][3]={{0.3,0.2,0.1},{-1.1,0.4,0.7},{2,-1.5,-0.3},{0.05,-0.02,0.6},{4,3,2}}; for(auto& x:P) for(double t:{0.,0.7}) { double f; coord::GradCar g; coord::HessCar h; p.eval(coord::PosCar(x[0],x[1],x[2]),&f,&g,&h,t); const double a[]={f,g.dx,g.dy,g.dz,h.dx2,h.dy2,h.dz2,h.dxdy,h.dydz,h.dxdz,p.density(coord::PosCar(x[0],x[1],x[2]),t)}; r.insert(r.end(),a,a+11); } return r; }
static bool same(const V& a, const V& b) { if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if(!(a[i]==b[i]||(a[i]!=a[i]&&b[i]!=b[i]))) return false; return true; }
static std::string up(std::string s,int m) { for(auto& c:s) c= m==0?tolower(c):m==1?toupper(c):isupper(c)?tolower(c):toupper(c); return s; }
typedef std::vector<std::pair<std::string,std::string>> L;
static L items(const std::string& spec) { L l; for(auto& f:utils::splitString(spec," ")) { size_t q=f.find('='); l.push_back({f.substr(0,q),f.substr(q+1)}); } return l; }
static std::string comp(const std::string& c) { std::string r; for(char x:c) if(x=='@') r+=S.scratch; else r+=x; return r; }
static void specs() {
    for(int im=0;im<models::N;im++) { std::string spec=models::list[im].spec; if(!vh::begin("spec "+spec)) continue;
        std::vector<L> cs; { std::string t=comp(spec); size_t p=0; while(p<=t.size()) { size_t q=t.find(';',p); if(q==std::string::npos) q=t.size(); cs.push_back(items(t.substr(p,q-p))); p=q+1; } }
        V ref; try { ref=fp(*models::pot(spec)); } catch(std::exception& e) { vh::fail(std::string("reference: ")+e.what()); continue; }
        S.states++;
        auto cmp=[&](const std::string& what, std::function<potential::PtrPotential()> f) { S.transitions++; try { check(same(fp(*f()),ref),"%s: a different model",what.c_str()); } catch(std::exception& e) { vh::fail(what+": "+e.what()); } };
        bool comma=spec.find(',')!=std::string::npos;
        for(int k=0;k<4;k++) { if(!thorough()&&models::list[im].expansion&&k!=3) continue; const char* sep[]={" ","   ","\t",", "}; if(k==3&&comma) continue;
            cmp(fmt("string with separator %d",k),[&]{ std::vector<KV> v; for(auto& c:cs) { std::string s; for(auto& i:c) s+=(s.empty()?"":sep[k])+i.first+"="+i.second; v.push_back(k==3? KV(s): KV(s," \t")); } return potential::createPotential(v); }); }
        for(int cse=0;cse<3;cse++) for(int rot=0;rot<6;rot++) { if(!thorough()&&(models::list[im].expansion? rot!=3 && rot!=1 || rot%3!=cse : rot%3!=cse)) continue;
            auto perm=[&](L c) { int n=c.size(); if(rot&1) std::reverse(c.begin(),c.end()); std::rotate(c.begin(),c.begin()+(rot/2)%n,c.end()); for(auto& i:c) i.first=up(i.first,cse); return c; };
            cmp(fmt("map, case %d order %d",cse,rot),[&]{ std::vector<KV> v; for(auto& c:cs) { KV m; for(auto& i:perm(c)) m.set(i.first,i.second); v.push_back(m); } return potential::createPotential(v); });
            cmp(fmt("arguments, case %d order %d",cse,rot),[&]{ std::vector<KV> v; for(auto& c:cs) { std::vector<std::string> a; for(auto& i:perm(c)) a.push_back(i.first+"="+i.second); std::vector<const char*> q; for(auto& s:a) q.push_back(s.c_str()); v.push_back(KV(q.size(),&q[0])); } return potential::createPotential(v); });
            cmp(fmt("INI file, case %d order %d",cse,rot),[&]{ std::string t; int n=0; for(auto& c:cs) { t+=fmt("[%s%d]\n",cse==1?"POTENTIAL":"Potential",n++); for(auto& i:perm(c)) t+=i.first+(rot%2?" = ":"=")+i.second+"\n"; } models::writeFile("i04.ini",t); return potential::readPotential(S.scratch+"/i04.ini"); }); }
        if(cs.size()>1) for(int r=1;r<(int)cs.size();r++) { auto cr=cs; std::rotate(cr.begin(),cr.begin()+r,cr.end()); S.transitions++;
            try { std::vector<KV> v; for(auto& c:cr) { KV m; for(auto& i:c) m.set(i.first,i.second); v.push_back(m); } V o=fp(*potential::createPotential(v)); bool ok=o.size()==ref.size(); for(size_t i=0;i<o.size()&&ok;i++) { double sc=0; for(size_t k=i/11*11;k<i/11*11+11;k++) sc=std::max(sc,fabs(ref[k])); ok= fabs(o[i]-ref[i])<=1e-12*sc || (o[i]!=o[i]&&ref[i]!=ref[i]) || o[i]==ref[i]; } check(ok,"order of components %d changes the model",r); } catch(std::exception& e) { vh::fail(e.what()); } }
        outcome(spec.substr(0,18)); }
}
static const char* DISK[3][5]={{"1.5","2","0.3","0","0"},{"0.7","1.2","-0.2","0.4","0.1"},{"0.3","3","0.1","0","0.2"}};
static const char* SPH[3][6]={{"0.5","0.7","0.5","3.5","1.5","10"},{"0.2","1","1","4","3","0"},{"0.9","0.8","0","5","1","0"}};
static void galpot() {
    utils::msg=models::silent;
    const units::InternalUnits iu(2.5*units::Kpc,3*units::Myr); const units::ExternalUnits conv(iu,1*units::Kpc,1*units::kms,1e6*units::Msun);
    for(int nd=0;nd<3;nd++) for(int ns=0;ns<3;ns++) if(nd+ns) for(int style=0;style<4;style++) { if(!begin(fmt("galpot %d disks %d spheroids style %d",nd,ns,style))) continue;
        const char* sp= style&1?" \t ":" "; std::vector<std::vector<std::string>> ln; std::vector<KV> v;
        ln.push_back({fmt("%d",nd)}); for(int i=0;i<nd;i++) { ln.push_back(std::vector<std::string>(DISK[i],DISK[i]+5)); KV m; m.set("type","Disk"); const char* k[]={"surfaceDensity","scaleRadius","scaleHeight","innerCutoffRadius","modulationAmplitude"}; for(int j=0;j<5;j++) m.set(k[j],DISK[i][j]); v.push_back(m); }
        ln.push_back({fmt("%d",ns)}); for(int i=0;i<ns;i++) { ln.push_back(std::vector<std::string>(SPH[i],SPH[i]+6)); KV m; m.set("type","Spheroid"); const char* k[]={"densityNorm","axisRatioZ","gamma","beta","scaleRadius","outerCutoffRadius"}; for(int j=0;j<6;j++) if(j<5||std::string(SPH[i][j])!="0") m.set(k[j],SPH[i][j]); v.push_back(m); }
        V ref=fp(*potential::createPotential(v,conv));
        // every cut of the file: number of complete lines x fields of the last one x end of line
        for(size_t nl=0;nl<=ln.size();nl++) for(size_t nf=0;nf<=(nl<ln.size()?ln[nl].size()-1:0);nf++) for(int eol=0;eol<3;eol++) {
            std::string t; for(size_t i=0;i<=nl&&i<ln.size();i++) { std::string l; for(size_t k=0;k<ln[i].size();k++) if(i<nl||k<nf) l+=(k?sp:"")+ln[i][k]; if((style&2)&&!l.empty()) l+=" # comment"; t+=l; if(i+1<nl|| (i+1==nl&&(nf>0||eol)) || (i==nl&&eol)) t+= "\n"; if(i==nl&&eol==2) t+="\n"; }
            models::writeFile("gp.txt",t); S.transitions++; bool complete=nl==ln.size();
            try { V o=fp(*potential::readGalaxyPotential(S.scratch+"/gp.txt",conv)); check(complete&&same(o,ref),"%s file (%d lines, %d fields, end of line %d): %s",complete?"complete":"truncated",int(nl),int(nf),eol,complete?"wrong model":"accepted"); }
            catch(std::exception& e) { check(!complete,"complete file rejected (end of line %d): %s",eol,e.what()); } }
        outcome(fmt("galpot %d %d",nd,ns)); }
    if(begin("galpot missing")) { bool th=false; try { potential::readGalaxyPotential(S.scratch+"/nofile",conv); } catch(std::exception&) { th=true; } check(th,"missing file accepted"); }
}
static void dfs() {
    const char* specs[]={"type=DoublePowerLaw mass=2 J0=1.5 slopeIn=1 slopeOut=5 rotFrac=0.5","type=DoublePowerLaw norm=2 J0=1 slopeIn=1.5 slopeOut=4.5 steepness=1.5 coefJrIn=0.8 coefJzIn=1.2 coefJrOut=1.1 Jcore=0.1 Jcutoff=10","type=Exponential mass=1 Jr0=0.2 Jz0=0.1 Jphi0=1 addJden=0.1 addJvel=0.2","type=QuasiIsothermal Sigma0=1 Rdisk=1 Hdisk=0.2 sigmar0=0.4 Rsigmar=2 coefJr=0.5","type=QuasiIsothermal mass=3 Rdisk=1 sigmaz0=0.2 Rsigmaz=2 sigmar0=0.4 Rsigmar=2 Jmin=0.1","type=QuasiSpherical beta0=0.3 r_a=3"};
    potential::PtrPotential pot=models::pot("type=Plummer");
    for(const char* sp:specs) { if(!begin(std::string("df ")+sp)) continue; L c=items(sp); std::string s0=sp; bool need=s0.find("Quasi")!=std::string::npos;
        auto val=[&](const KV& m) { auto f=df::createDistributionFunction(m,need?pot.get():NULL); V r; for(double a:{0.,0.1,1.}) for(double b:{0.,0.3}) for(double d:{-1.,0.,0.5}) { df::DerivByActions q; double x; f->evalDeriv(actions::Actions(a,b,d),&x,&q); r.push_back(x); r.push_back(q.dbyJr); r.push_back(q.dbyJz); r.push_back(q.dbyJphi); } r.push_back(f->totalMass()); return r; };
        V ref=val(KV(s0)); S.states++; int n=c.size(); std::vector<int> idx(n); for(int i=0;i<n;i++) idx[i]=i; int np=0;
        do { if(n>5&&np%(thorough()?97:1499)) { np++; continue; } np++; for(int cse=0;cse<3;cse++) { KV m; std::string st; std::vector<std::string> a; for(int i:idx) { std::string k=up(c[i].first,cse); m.set(k,c[i].second); st+=(st.empty()?"":", ")+k+"="+c[i].second; a.push_back(k+"="+c[i].second); } std::vector<const char*> q; for(auto& x:a) q.push_back(x.c_str());
            S.transitions+=3; check(same(val(m),ref),"map: order or case matters (%s)",st.c_str()); check(same(val(KV(st)),ref),"string: %s",st.c_str()); check(same(val(KV(q.size(),&q[0])),ref),"arguments: %s",st.c_str()); }
        } while(std::next_permutation(idx.begin(),idx.end()) && np<(thorough()?40000:6000));
        outcome(s0.substr(0,12)); }
}
int main(int argc,char** argv) { init(argc,argv); utils::msg=models::silent; models::auxFiles(); specs(); galpot(); dfs(); return finish(); }
