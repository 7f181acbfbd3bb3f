// I05: number and string conversions, compared with independent reference implementations
#include "vh.h"
#include "utils.h"
#include <climits>
#include <cfloat>
#include <limits>
using namespace vh; using std::string; typedef std::vector<string> VS;
static string vis(const string& s) { string r="\""; for(size_t i=0;i<s.size();i++) { if(s[i]=='\t') r+="\\t"; else r+=s[i]; } return r+"\""; }
// ---- reference decimal parser: optional blanks, sign, digits with at most one point and at least one digit, optional exponent with at least one digit
static bool refNum(const string& s, long double& v) {
    size_t i=0,n=s.size(); while(i<n&&(s[i]==' '||s[i]=='\t')) i++; bool neg=false; if(i<n&&(s[i]=='+'||s[i]=='-')) { neg=s[i]=='-'; i++; }
    long double m=0; int dig=0,dec=0; while(i<n&&isdigit(s[i])) { m=m*10+(s[i]-'0'); dig++; i++; } if(i<n&&s[i]=='.') { i++; while(i<n&&isdigit(s[i])) { m=m*10+(s[i]-'0'); dig++; dec++; i++; } }
    if(!dig) return false; long e=0; if(i<n&&(s[i]=='e'||s[i]=='E')) { size_t j=i+1; bool en=false; if(j<n&&(s[j]=='+'||s[j]=='-')) { en=s[j]=='-'; j++; } if(j<n&&isdigit(s[j])) { while(j<n&&isdigit(s[j])) { if(e<100000) e=e*10+(s[j]-'0'); j++; } if(en) e=-e; } else e=0; }
    e-=dec; if(m!=0) { if(e>5000) m=INFINITY; else if(e<-5000) m=0; else m*=powl(10.L,(long double)e); } v=neg?-m:m; return true; }
template<class F> static bool thrown(F f) { try { f(); return false; } catch(std::invalid_argument&) { return true; } }
static void number(const string& s) {
    long double r=0; bool ok=refNum(s,r); bool empty=s.empty();
    double d=0; bool td=false; try { d=utils::toDouble(s); } catch(std::invalid_argument&) { td=true; }
    check(td==(!ok&&!empty),"toDouble(%s) %s",vis(s).c_str(),td?"is rejected":"is accepted"); double rd=(double)r;
    if(!td) check(close(d,empty?0:rd,3e-16,5e-324),"toDouble(%s)=%.17g instead of %.17g",vis(s).c_str(),d,rd);
    float f=0; bool tf=false; try { f=utils::toFloat(s); } catch(std::invalid_argument&) { tf=true; }
    check(tf==(!ok&&!empty),"toFloat(%s) %s",vis(s).c_str(),tf?"is rejected":"is accepted");
    if(!tf) check(close(f,empty?0:(float)r,2e-7,2e-45),"toFloat(%s)=%.9g instead of %.9g",vis(s).c_str(),f,(float)r);
    int i=0; bool ti=false; try { i=utils::toInt(s); } catch(std::invalid_argument&) { ti=true; }
    bool fin=std::isfinite(rd); check(ti==((!ok||!fin)&&!empty),"toInt(%s) %s",vis(s).c_str(),ti?"is rejected":"is accepted");
    if(!ti) { int ri= empty?0: rd>=2147483647.?INT_MAX: rd<=-2147483648.?INT_MIN:(int)truncl(r+(r>0?1e-12L*fabsl(r):-1e-12L*fabsl(r))); check(i==ri,"toInt(%s)=%d instead of %d",vis(s).c_str(),i,ri); }
    outcome(fmt("%d%d%d ",td,tf,ti)+fmt("%.3g",d));
}
static void boolean(const string& s) {
    size_t i=0; while(i<s.size()&&(s[i]==' '||s[i]=='\t')) i++; int r= i==s.size()?0: strchr("0nNfF",s[i])?0: strchr("1yYtT",s[i])?1:-1;
    int b=-2; try { b=utils::toBool(s); } catch(std::invalid_argument&) { b=-1; }
    check(b==r,"toBool(%s)=%d instead of %d (-1 means rejected)",vis(s).c_str(),b,r); outcome(fmt("b%d",b)); }
static void split(const string& s,const string& delim) {
    VS r; string cur; for(size_t i=0;i<=s.size();i++) { if(i==s.size()||delim.find(s[i])!=string::npos) { if(!cur.empty()) r.push_back(cur); cur=""; } else cur+=s[i]; }
    VS a=utils::splitString(s,delim); check(a==r,"splitString(%s,%s) gives %d items instead of %d, or different ones",vis(s).c_str(),vis(delim).c_str(),(int)a.size(),(int)r.size());
    if(!delim.empty()) { string j; for(size_t i=0;i<a.size();i++) j+=(i?string(1,delim[0]):"")+a[i]; check(utils::splitString(j,delim)==r,"joining and splitting again changes the items of %s",vis(s).c_str()); }
    outcome(fmt("s%d",(int)a.size())); }
static void cmp(const string& a,const string& b) {
    bool e=a.size()==b.size(); for(size_t i=0;e&&i<a.size();i++) { char x=a[i],y=b[i]; if(x>='A'&&x<='Z') x+=32; if(y>='A'&&y<='Z') y+=32; if(x!=y) e=false; }
    check(utils::stringsEqual(a,b)==e,"stringsEqual(%s,%s)!=%d",vis(a).c_str(),vis(b).c_str(),e); check(utils::stringsEqual(a,b.c_str())==e,"stringsEqual(%s,char* %s)!=%d",vis(a).c_str(),vis(b).c_str(),e);
    bool w=a.size()>=b.size() && a.substr(a.size()-b.size())==b; check(utils::endsWithStr(a,b)==w,"endsWithStr(%s,%s)!=%d",vis(a).c_str(),vis(b).c_str(),w); outcome(fmt("c%d%d",e,w)); }
static void all(const string& alpha,int maxlen,void (*f)(const string&)) { // every string up to maxlen
    std::vector<string> lev(1,""); f(""); for(int l=1;l<=maxlen;l++) { std::vector<string> n; for(size_t i=0;i<lev.size();i++) for(size_t k=0;k<alpha.size();k++) { string s=lev[i]+alpha[k]; f(s); if(l<maxlen) n.push_back(s); } lev.swap(n); } }
static std::vector<string>* coll; static void collect(const string& s) { coll->push_back(s); }
static std::vector<string> words(const string& alpha,int n) { std::vector<string> w; coll=&w; all(alpha,n,collect); return w; }
// ---- pretty printing
static void pretty(double x,unsigned int w) {
    string p=utils::pp(x,w); unsigned int W=w>31?31:w;
    if(!check(p.size()==W,"pp(%.17g,%u)='%s' has length %d",x,w,p.c_str(),(int)p.size())) return;
    if(w==0) return;
    if(std::isnan(x)||std::isinf(x)) { string r=std::isnan(x)?"NAN":x>0?"+INF":"-INF"; r.resize(W,' '); check(p==r,"pp(%g,%u)='%s'",x,w,p.c_str()); return; }
    bool neg=std::signbit(x); unsigned int a=W-(neg?1:0);   // characters available for the magnitude
    bool hash=p.find('#')!=string::npos;
    if(x==0) { check(!hash && (p=="-"||utils::toDouble(p)==0) ,"pp(%g,%u)='%s'",x,w,p.c_str()); return; }
    if(neg) { if(!check(p[0]=='-'||hash,"pp(%.17g,%u)='%s' lacks the sign",x,w,p.c_str())) return; }
    if(neg&&W==1) return;
    double ax=fabs(x); int e=(int)floor(log10(ax)); if(ax>=1 && std::pow(10.,e+1)<=ax) e++;
    int lexp= e<=-100?5:e<=-10?4:e<0?3:e<10?2:e<100?3:4;
    bool fitsFixed = e>=0 && (int)a>=e+1, fitsExp=(int)a>=lexp+1, fitsSmall = e<0 && ((int)a>=2-e || (ax>=0.5&&a>=1));
    bool canGrow = ax/std::pow(10.,e)>=(e<0?0.9:9.);   // rounding up may change the length
    if(hash) { check((!fitsFixed&&!fitsExp&&!fitsSmall)||canGrow,"pp(%.17g,%u)='%s' although the number fits",x,w,p.c_str()); for(size_t i=0;i<p.size();i++) check(p[i]=='#'||(neg&&i==0&&p[i]=='-'),"pp(%.17g,%u)='%s' mixes # with digits",x,w,p.c_str()); outcome("hash"); return; }
    // precision displayed
    string m=p.substr(neg?1:0); size_t ie=m.find('e'); string man=m.substr(0,ie); int ex= ie==string::npos?0:atoi(m.c_str()+ie+1);
    for(size_t i=0;i<man.size();i++) if(!check(isdigit(man[i])||man[i]=='.',"pp(%.17g,%u)='%s' is not a number",x,w,p.c_str())) return;
    size_t dot=man.find('.'); int dec= dot==string::npos?0:(int)(man.size()-dot-1); long double unit=std::pow(10.L,(long double)ex-dec)+ (ax<1e-307?1e-14L*1e-307L/ax*ax:0);
    long double v; if(!check(refNum(p,v),"pp(%.17g,%u)='%s' cannot be parsed",x,w,p.c_str())) return;
    check(fabsl(v-x)<=unit*(0.5L+1e-9L)+fabsl(x)*1e-14L+(ax<3e-308?3e-323L:0) || (a<=2&&fabsl(v-x)<=unit*1.0001),"pp(%.17g,%u)='%s' is off by %.4Lg units of the last digit",x,w,p.c_str(),fabsl(v-x)/unit);
    // significant digits not fewer than what the documented layouts allow (one digit of slack for rounding up to the next power of ten)
    int digF= e>=0 ? ((int)a>e+1?(int)a-1:(int)a) : (int)a-1+e, digE=(int)a-lexp-1>1?(int)a-lexp-1:1; int best= e>=0&&fitsFixed?digF:std::max(digE,e<0?digF:0);
    if(best>15) best=15; if(best>=1) check(fabsl(v-x)<=0.500001L*std::pow(10.L,(long double)(e-best+2))+unit*0.5001L*(canGrow?10:0)*0+fabsl(x)*1e-14L+(ax<3e-308?3e-323L:0),"pp(%.17g,%u)='%s' shows fewer digits than fit",x,w,p.c_str());
    outcome(fmt("%d%d%d",ie!=string::npos,dec,(int)m.size()));
}
static void roundtrip(double x) {
    string s=utils::toString(x,17); check(utils::toDouble(s)==x,"toString(%.17g,17)='%s' reads back as %.17g",x,s.c_str(),utils::toDouble(s));
    for(unsigned p=1;p<=17;p++) { string t=utils::toString(x,p); double y=utils::toDouble(t); if(!std::isfinite(y)) { check(fabs(x)>1e308,"toString(%.17g,%u)='%s' overflows",x,p,t.c_str()); continue; } check(fabs(y-x)<=0.5000001*std::pow(10.,floor(log10(fabs(x)))-p+1)*1.0001+5e-324+fabs(x)*1e-15,"toString(%.17g,%u)='%s' has lower precision",x,p,t.c_str()); }
    string t=utils::toString(x); check(t==utils::toString(x,6),"toString(%.17g) differs from precision 6",x);
    float f=(float)x; if(std::isfinite(f)) { string u=utils::toString(f,9); check(utils::toFloat(u)==f,"toString(float %.9g,9)='%s' reads back as %.9g",f,u.c_str(),utils::toFloat(u)); }
    outcome(s.substr(0,3)+fmt("%d",(int)s.size())); }
template<class T> static void integers(const char* name) { T v[]={0,1,9,10,99,std::numeric_limits<T>::max(),std::numeric_limits<T>::min(),(T)(std::numeric_limits<T>::max()-1),(T)(std::numeric_limits<T>::min()+1),(T)-1,(T)-10};
    for(size_t i=0;i<sizeof(v)/sizeof(T);i++) { std::ostringstream o; o<<v[i]; check(utils::toString(v[i])==o.str(),"toString(%s %s)='%s'",name,o.str().c_str(),utils::toString(v[i]).c_str()); } }
int main(int argc,char** argv) { init(argc,argv); bool T=thorough();
    { string al="019+-.e q"; for(size_t i=0;i<al.size();i++) for(size_t j=0;j<al.size();j++) if(begin("numbers starting with "+vis(string(1,al[i])+al[j]))) { std::vector<string> w=words(al,T?5:4); string pre=string(1,al[i])+al[j]; for(size_t k=0;k<w.size();k++) number(pre+w[k]); }
      if(begin("short numbers")) { number(""); std::vector<string> w=words("019+-.eE\tq ",2); for(size_t k=0;k<w.size();k++) number(w[k]); const char* big[]={"2147483647","2147483648","-2147483648","-2147483649","2147483646.9","1e400","-1e400","1e-400","123456789012345678901234567890","0.000000000000000000001e25","  \t 42"}; for(size_t k=0;k<sizeof(big)/sizeof(*big);k++) number(big[k]); } }
    if(begin("booleans")) { all("yYtT1nNfF0 \tqa2-",3,boolean); }
    { std::vector<string> w=words("ab ,",T?9:7); const char* del[]={" ",","," ,","b","b ,","ab ,","x",""}; for(int d=0;d<8;d++) if(begin(fmt("split on '%s'",del[d]))) for(size_t k=0;k<w.size();k++) split(w[k],del[d]); }
    { std::vector<string> w=words("aAb[{",T?4:3); for(int part=0;part<8;part++) if(begin(fmt("comparisons %d",part))) for(size_t i=part;i<w.size();i+=8) for(size_t j=0;j<w.size();j++) cmp(w[i],w[j]); 
      std::vector<string> u; for(int c=1;c<128;c++) u.push_back(string(1,(char)c)); if(begin("comparisons of single characters")) for(size_t i=0;i<u.size();i++) for(size_t j=0;j<u.size();j++) { cmp(u[i],u[j]); cmp("x"+u[i],u[j]); } }
    { // numbers d.ddd x 10^e over the whole exponent range
      std::vector<double> man; int step=T?1:7; for(int m=1000;m<10000;m+=step) man.push_back(m/1000.); double sp[]={9.9995,9.995,9.95,9.5,9.9999999,1.0000001,9.999999999999999,4.5,0.95,5.5,1.5,9.4999,2.2250738585072014}; man.insert(man.end(),sp,sp+13);
      for(int e=-323;e<=308;e++) { if(!begin(fmt("numbers d.ddd x 10^%d",e))) continue; bool near= e>-34&&e<34; int st= T?1:near?5:40;
        for(size_t i=0;i<man.size();i+= (i+13>=man.size()?1:st)) { double x=strtod(fmt("%.17ge%d",man[i],e).c_str(),NULL); if(x==0||!std::isfinite(x)) continue; 
          for(unsigned w=0;w<=(near||T?33u:14u);w++) { pretty(x,w); pretty(-x,w); } roundtrip(x); roundtrip(-x); } } 
      if(begin("special numbers")) { double z[]={0.,-0.,NAN,INFINITY,-INFINITY,DBL_MAX,-DBL_MAX,DBL_MIN,5e-324,-5e-324}; for(int i=0;i<10;i++) for(unsigned w=0;w<40;w++) pretty(z[i],w); roundtrip(DBL_MAX); roundtrip(DBL_MIN); roundtrip(5e-324);
        check(utils::toString(true)=="true"&&utils::toString(false)=="false","toString(bool)"); check(utils::toString(0.)=="0","toString(0.)=%s",utils::toString(0.).c_str()); integers<int>("int"); integers<unsigned int>("unsigned"); integers<long>("long"); integers<unsigned long>("unsigned long"); integers<long long>("long long"); integers<unsigned long long>("unsigned long long"); } }
    if(begin("vectors")) { double v[]={0,1,-2.5,1e10,1e-10,123456}; for(int n=0;n<=4;n++) { int tot=1; for(int k=0;k<n;k++) tot*=6; for(int c=0;c<tot;c++) { std::vector<double> x; int q=c; for(int k=0;k<n;k++) { x.push_back(v[q%6]); q/=6; } 
        const char sep[]={',',' ',';'}; for(int s=0;s<3;s++) { string t=utils::toString(x,sep[s]); std::vector<double> y=utils::toDoubleVector(utils::splitString(t,string(1,sep[s]))); check(x==y,"vector of %d numbers printed as '%s' reads back differently",n,t.c_str()); } } } 
        for(int c=0;c<256;c++) check(utils::isComment((char)c)==(c=='#'||c==';'),"isComment(%d)",c); }
    return finish(); }
