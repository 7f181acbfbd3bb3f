// I01: INI configuration store vs. a boring reference model, exhaustively over short files and short operation sequences
#include "vh.h"
#include "utils_config.h"
#include "utils.h"
#include <fstream>
#include <cctype>
#include <algorithm>
using std::string; using std::vector; using std::pair;
typedef pair<string,string> SS;

static string lower(string s) { for(size_t i=0;i<s.size();i++) s[i]=tolower(s[i]); return s; }
static string trim(const string& s) { size_t a=0,b=s.size(); while(a<b && strchr(" \t\r\n",s[a])) a++; while(b>a && strchr(" \t\r\n",s[b-1])) b--; return s.substr(a,b-a); }

// ---------- reference model ----------
struct Map {   // ordered items; key "" = opaque line
    vector<SS> it; bool mod; Map():mod(false){}
    int find(const string& k) const { for(size_t i=0;i<it.size();i++) if(!it[i].first.empty() && lower(it[i].first)==lower(k)) return i; return -1; }
    bool add(const string& line) {   // false = duplicate -> exception
        string l = line; size_t a=0; while(a<l.size() && strchr(" \t\r\n",l[a])) a++;
        bool blank = a==l.size();
        string body = blank ? l : l.substr(a);
        size_t eq = body.find('=');
        if(!blank && eq!=string::npos && eq>0 && body[0]!='#' && body[0]!=';') {
            string k=trim(body.substr(0,eq)), v=trim(body.substr(eq+1));
            if(find(k)>=0) return false;
            it.push_back(SS(k,v));
        } else {
            size_t e=body.find_first_of("\r\n"); it.push_back(SS("", e==string::npos?body:body.substr(0,e)));
        }
        return true;
    }
    void set(const string& k, const string& v) { mod=true; int i=find(k); if(i>=0) it[i].second=v; else it.push_back(SS(k,v)); }
    bool unset(const string& k) { int i=find(k); if(i<0) return false; it.erase(it.begin()+i); mod=true; return true; }
    string get(const string& k, const string& d) const { int i=find(k); return i<0?d:it[i].second; }
};
struct File {
    vector<pair<string,Map> > secs;
    int find(const string& s) const { for(size_t i=0;i<secs.size();i++) if(lower(secs[i].first)==lower(s)) return i; return -1; }
    Map& sec(const string& s) { int i=find(s); if(i>=0) return secs[i].second;
        if(s.empty()) { secs.insert(secs.begin(), pair<string,Map>(s,Map())); return secs[0].second; }
        secs.push_back(pair<string,Map>(s,Map())); return secs.back().second; }
    bool parse(const string& text) {
        size_t p=0; int cur=-1;
        while(p<text.size()) {
            size_t e=text.find('\n',p); if(e==string::npos) e=text.size();
            string line=text.substr(p,e-p); p=e+1;
            string t=trim(line); size_t rb;
            if(!t.empty() && t[0]=='[' && (rb=t.find(']'))!=string::npos) {
                string name=trim(t.substr(1,rb-1)); if(name.empty()) continue;
                cur=find(name); if(cur<0) { secs.push_back(pair<string,Map>(name,Map())); cur=secs.size()-1; }
            } else {
                if(secs.empty()) { secs.push_back(pair<string,Map>("",Map())); cur=0; }
                if(!secs[cur].second.add(line)) return false;
            }
        }
        return true;
    }
    bool modified() const { for(size_t i=0;i<secs.size();i++) if(secs[i].second.mod) return true; return false; }
};

static const char* PROBE[]={"a","A","b","key","zz",NULL};
static void compareMap(const utils::KeyValueMap& m, const Map& r, const string& where) {
    for(int i=0; PROBE[i]; i++) {
        vh::check(m.contains(PROBE[i])==(r.find(PROBE[i])>=0), "%s: contains(%s)", where.c_str(), PROBE[i]);
        string g=m.getString(PROBE[i],"<def>"), x=r.get(PROBE[i],"<def>");
        vh::check(g==x, "%s: getString(%s)='%s', expected '%s'", where.c_str(), PROBE[i], g.c_str(), x.c_str());
    }
    vector<string> k=m.keys(), kr, d=m.dumpLines(), dr; string sl;
    for(size_t i=0;i<r.it.size();i++) {
        if(!r.it[i].first.empty()) { kr.push_back(r.it[i].first); dr.push_back(r.it[i].first+"="+r.it[i].second); sl+=r.it[i].first+"="+r.it[i].second+" "; }
        else dr.push_back(r.it[i].second);
    }
    vh::check(k==kr, "%s: keys() differ", where.c_str());
    vh::check(d==dr, "%s: dumpLines() differ: got %s expected %s", where.c_str(), utils::toString((int)d.size()).c_str(), utils::toString((int)dr.size()).c_str());
    vh::check(m.dumpSingleLine()==sl, "%s: dumpSingleLine '%s' expected '%s'", where.c_str(), m.dumpSingleLine().c_str(), sl.c_str());
    vh::check(m.isModified()==r.mod, "%s: isModified()=%d", where.c_str(), (int)m.isModified());
    vh::outcome(sl+(r.mod?"*":""));
}
static void writeFile(const string& fn, const string& s) { std::ofstream f(fn.c_str(), std::ios::binary); f<<s; }
static bool readFile(const string& fn, string& s) { std::ifstream f(fn.c_str(), std::ios::binary); if(!f) return false; std::stringstream ss; ss<<f.rdbuf(); s=ss.str(); return true; }
static void compareFile(const utils::ConfigFile& c, const File& r, const string& where) {
    vector<string> l=c.listSections(); 
    if(!vh::check(l.size()==r.secs.size(), "%s: %d sections, expected %d", where.c_str(), (int)l.size(), (int)r.secs.size())) return;
    for(size_t i=0;i<l.size();i++) {
        if(!vh::check(l[i]==r.secs[i].first, "%s: section %d is '%s', expected '%s'", where.c_str(), (int)i, l[i].c_str(), r.secs[i].first.c_str())) continue;
        string nm = l[i]; for(size_t j=0;j<nm.size();j++) nm[j] = (j%2) ? toupper(nm[j]) : tolower(nm[j]);   // section lookup ignores case
        compareMap(c.findSection(nm), r.secs[i].second, where+"["+l[i]+"]");
    }
    bool thrown=false; try{ c.findSection("no such section"); } catch(std::runtime_error&) { thrown=true; }
    vh::check(thrown, "%s: missing section must be reported", where.c_str());
}
// content that must survive a save/load cycle: non-empty sections, with their key=value pairs in order, comments in order (blank lines may be added between sections)
static string canon(const File& f) {
    string s;
    for(size_t i=0;i<f.secs.size();i++) { string b; 
        for(size_t j=0;j<f.secs[i].second.it.size();j++) { const SS& x=f.secs[i].second.it[j]; if(x.first.empty() && x.second.empty()) continue; b+=x.first+"\x01"+x.second+"\x02"; }
        bool any=!b.empty(); if(any) s+="\x03"+lower(f.secs[i].first)+"\x04"+b; }
    return s;
}
static bool canonReal(const string& fn, string& out) {   // the same through the real parser
    try { utils::ConfigFile c(fn); const utils::ConfigFile& cc=c; vector<string> l=c.listSections(); out.clear();
        for(size_t i=0;i<l.size();i++) { string b; const utils::KeyValueMap& m=cc.findSection(l[i]); vector<string> d=m.dumpLines(), k=m.keys(); size_t ik=0;
            for(size_t j=0;j<d.size();j++) { if(d[j].empty()) continue;
                if(ik<k.size() && d[j].substr(0,k[ik].size()+1)==k[ik]+"=") { b+=k[ik]+"\x01"+m.getString(k[ik])+"\x02"; ik++; } else b+="\x01"+d[j]+"\x02"; }
            if(!b.empty()) out+="\x03"+lower(l[i])+"\x04"+b; }
        return true; } catch(std::exception&) { return false; }
}
// ---------- part 1: all short files ----------
static const char* LINES[]={"[S]","[ t T ] ;x","a=1","A = 2 ","b=x y","#c=3",";","","  key =v;w","noval","a=","[s]","zz=\t\r","[]","=5"," [","b==1"};
static const int NLINES=sizeof(LINES)/sizeof(*LINES);
static void oneFile(const string& text, bool modify) {
    string fn=vh::S.scratch+"/f.ini"; writeFile(fn,text);
    File r; bool ok=r.parse(text), got=true; string what;
    try {
        utils::ConfigFile* c=new utils::ConfigFile(fn);
        if(ok) compareFile(*c, r, "after load");
        if(ok && modify) { c->findSection("S").set("new","7"); r.sec("S").set("new","7"); }
        delete c;
    } catch(std::exception& e) { got=false; what=e.what(); }
    vh::check(got==ok, "duplicate-key detection: load %s, expected %s (%s)", got?"succeeded":"failed", ok?"success":"failure", what.c_str());
    string now; readFile(fn,now);
    if(!ok || !modify) { vh::check(now==text, "file was rewritten although nothing was modified"); return; }
    string a=canon(r), b; bool rl=canonReal(fn,b);
    vh::check(rl && a==b, "saved file does not reproduce the content: expected {%s} got {%s}", a.c_str(), b.c_str());
    vh::outcome(a);
}
static void files() {
    int maxlen = vh::thorough()?4:3; string lastnl[2]={"\n",""};
    for(int len=0; len<=maxlen; len++) {
        long n=1; for(int i=0;i<len;i++) n*=NLINES;
        for(long code=0; code<n; code++) for(int nl=0; nl<2; nl++) for(int mod=0; mod<2; mod++) {
            if(len==0 && nl) continue;
            string id="file"; long c=code; string text;
            for(int i=0;i<len;i++) { id+=vh::fmt(":%ld",c%NLINES); text+=LINES[c%NLINES]; text+= i<len-1?"\n":lastnl[nl]; c/=NLINES; }
            id+=vh::fmt("/nl%d/mod%d",nl,mod);
            if(vh::begin(id)) oneFile(text, mod);
        }
    }
    const char* eols[]={"\r\n"}; (void)eols;
}
// ---------- part 2: all operation sequences on a map ----------
struct Op { int kind; string k,v; };
static vector<Op> OPS() { vector<Op> o; const char* K[]={"a","A","b","key"}; Op x;
    for(int i=0;i<4;i++) { x.kind=0; x.k=K[i]; x.v="1"; o.push_back(x); x.v=""; o.push_back(x); x.kind=1; o.push_back(x); }
    x.kind=2; x.k=""; x.v="b = q "; o.push_back(x); x.v=" A=w"; o.push_back(x); x.v="#a=1"; o.push_back(x); 
    x.kind=3; x.k="a"; x.v="d"; o.push_back(x); x.kind=4; x.k="a"; x.v="b"; o.push_back(x); x.kind=5; o.push_back(x); return o; }
static string opname(const Op& o) { const char* n[]={"set","unset","add","pop","getAlt","popAlt"}; return string(n[o.kind])+"("+o.k+","+o.v+")"; }
static void apply(utils::KeyValueMap& m, Map& r, const Op& o) {
    switch(o.kind) {
        case 0: m.set(o.k,o.v); r.set(o.k,o.v); break;
        case 1: vh::check(m.unset(o.k)==r.unset(o.k), "unset(%s) return value", o.k.c_str()); break;
        case 2: { bool e=false; try { m.add(o.v.c_str()); } catch(std::runtime_error&) { e=true; } vh::check(e==!r.add(o.v), "add('%s'): duplicate detection", o.v.c_str()); break; }
        case 3: { string g=m.popString(o.k,o.v), x=r.get(o.k,o.v); r.unset(o.k); vh::check(g==x,"popString(%s)='%s' expected '%s'",o.k.c_str(),g.c_str(),x.c_str()); break; }
        case 4: case 5: { bool e=false; string g; bool both=r.find(o.k)>=0 && r.find(o.v)>=0;
            try { g = o.kind==4 ? m.getStringAlt(o.k,o.v,"dd") : m.popStringAlt(o.k,o.v,"dd"); } catch(std::runtime_error&) { e=true; }
            vh::check(e==both, "synonym conflict detection (%s,%s)", o.k.c_str(), o.v.c_str());
            if(!both) { string x = r.find(o.k)>=0 ? r.get(o.k,"") : r.get(o.v,"dd"); if(!e) vh::check(g==x,"value of synonyms: '%s' expected '%s'",g.c_str(),x.c_str());
                if(o.kind==5) { r.unset(o.k); r.unset(o.v); } }
            break; }
    }
    vh::S.transitions++;
}
static void opseq() {
    vector<Op> ops=OPS(); const int n=ops.size(); int maxlen=vh::thorough()?5:4;
    for(int init=0; init<3; init++)
    for(int len=1; len<=maxlen; len++) {
        long tot=1; for(int i=0;i<len;i++) tot*=n;
        for(long code=0; code<tot; code++) {
            // one case = one sequence
            if(vh::S.haveOnly || (long)(vh::S.ncase % vh::S.nshards)==vh::S.shard) {
                string id=vh::fmt("seq%d",init); long c=code; for(int i=0;i<len;i++) { id+=vh::fmt(":%ld",c%n); c/=n; }
                if(!vh::begin(id)) continue;
                utils::KeyValueMap m; Map r;
                if(init==1) { m=utils::KeyValueMap("b=2 #x, key=z"); r.add("b=2"); r.add("#x"); r.add("key=z"); }
                if(init==2) { const char* p[]={"A=5","B = 6"}; m=utils::KeyValueMap(2,p); r.add(p[0]); r.add(p[1]); }
                c=code; string tr; for(int i=0;i<len;i++) { apply(m,r,ops[c%n]); c/=n; }
                compareMap(m,r,"after sequence"); vh::S.traces++;
                string st; for(size_t i=0;i<r.it.size();i++) st+=r.it[i].first+"="+r.it[i].second+"|"; st+=r.mod?"1":"0"; vh::state(st);
            } else vh::S.ncase++;
        }
    }
}
// ---------- part 3: sessions: open, edit, close (x2), reopen ----------
static void sessions() {
    const char* INIT[]={NULL, "", "a=1\n#c\n", "[S]\na=1\nb=2\n", "x=0\n[S]\na=1\n\n[T]\n;cc\nA=2", "[T]\n[S]\nB=1\n", "[s]\r\na=1\r\nb=\r\n[T]\r\nkey=q\r\n"};
    struct SOp { const char* sec; int kind; const char* key; const char* val; };
    static const SOp O[]={ {"S",0,"a","9"},{"s",0,"new","n v"},{"S",1,"A",""},{"T",0,"key","k"},{"T",1,"a",""},{"",0,"g","1"},{"U",2,"",""},{"U",0,"u","2"},{"S",3,"",""},{"T",0,"b",""} };
    const int n=sizeof(O)/sizeof(*O), ni=sizeof(INIT)/sizeof(*INIT); int maxlen=vh::thorough()?4:3;
    for(int in=0; in<ni; in++) for(int len=0; len<=maxlen; len++) { long tot=1; for(int i=0;i<len;i++) tot*=n;
        for(long code=0; code<tot; code++) for(int split=0; split<=len; split+=(len>0?len:1)) {   // split: position at which the file is closed and reopened (0: never; len: at the end)
            string id=vh::fmt("sess%d/split%d",in,split); long c=code; for(int i=0;i<len;i++) { id+=vh::fmt(":%ld",c%n); c/=n; }
            if(!vh::begin(id)) continue;
            string fn=vh::S.scratch+"/s.ini"; remove(fn.c_str()); if(INIT[in]) writeFile(fn,INIT[in]);
            bool thrown=false; try { utils::ConfigFile x(fn,true); } catch(std::runtime_error&) { thrown=true; } vh::check(thrown==(INIT[in]==NULL), "mustExist");
            File r; if(INIT[in]) r.parse(INIT[in]);
            string prev=canon(r);
            utils::ConfigFile* f=new utils::ConfigFile(fn,false); c=code;
            for(int i=0;i<len;i++, c/=n) {
                const SOp& o=O[c%n];
                if(o.kind==0) { f->findSection(o.sec).set(o.key,o.val); r.sec(o.sec).set(o.key,o.val); }
                else if(o.kind==1) { bool a=f->findSection(o.sec).unset(o.key), b=r.sec(o.sec).unset(o.key); vh::check(a==b,"unset"); }
                else if(o.kind==2) { f->findSection(o.sec); r.sec(o.sec); }
                else { // close and reopen
                    bool mod=r.modified(); string before, after; bool ex=readFile(fn,before); delete f; bool ex2=readFile(fn,after);
                    if(!mod) vh::check(ex==ex2 && before==after, "unmodified file changed on closing");
                    f=new utils::ConfigFile(fn,false);
                    string g; bool rl=canonReal(fn,g); string x=canon(r); vh::check((rl && g==x) || (!rl && x.empty()), "after close: file content differs from the edits: {%s} vs {%s}", g.c_str(), x.c_str());
                    File r2; if(ex2) r2.parse(after); r=r2; vh::S.traces++;
                }
                compareFile(*f, r, "session"); vh::S.transitions++;
            }
            delete f; string g; bool rl=canonReal(fn,g); string x=canon(r);
            vh::check((rl && g==x) || (!rl && x.empty() && INIT[in]==NULL), "final content of the file differs from the edits: {%s} vs {%s}", g.c_str(), x.c_str());
            vh::outcome(x);
        } }
}
// ---------- part 4: typed accessors ----------
static void typed() {
    static const char* V[]={"","0","1","-3","2.5","1e3","1e99","-1e99","inf","nan","x","true","No","  7","5 apples","y","Fine","\t1","1,2, 3","1,,x"};
    for(size_t i=0;i<sizeof(V)/sizeof(*V);i++) for(int how=0; how<2; how++) {
        if(!vh::begin(vh::fmt("typed:%d:%d",(int)i,how))) continue;
        utils::KeyValueMap m; string v=V[i];
        if(how==0) m.set("Kk",v); else { m.add(("kK="+v).c_str()); v=trim(v); }
        char* e; double d=strtod(v.c_str(),&e); bool num=e!=v.c_str();
        for(int alt=0; alt<2; alt++) {
            int ex=0; double gd=0; try { gd= alt? m.getDoubleAlt("zz","kk",42) : m.getDouble("kk",42); } catch(std::exception&) { ex=1; }
            vh::check(ex==(!v.empty()&&!num), "getDouble('%s') exception=%d",v.c_str(),ex); if(!ex) vh::check(vh::close(gd, v.empty()?42:d, 0), "getDouble('%s')=%g",v.c_str(),gd);
            ex=0; int gi=0; try { gi= alt? m.getIntAlt("zz","kk",42) : m.getInt("kk",42); } catch(std::exception&) { ex=1; }
            bool bad=!v.empty() && (!num || !std::isfinite(d)); vh::check(ex==bad, "getInt('%s') exception=%d",v.c_str(),ex);
            int xi = v.empty()?42 : d>=2147483647.?2147483647 : d<=-2147483648.?-2147483647-1 : bad?0:(int)d; if(!ex) vh::check(gi==xi,"getInt('%s')=%d expected %d",v.c_str(),gi,xi);
            size_t p=0; while(p<v.size()&&(v[p]==' '||v[p]=='\t')) p++; int xb = p==v.size()?0: strchr("1yYtT",v[p])?1: strchr("0nNfF",v[p])?0:-1;
            for(int def=0; def<2; def++) { ex=0; int gb=0; try { gb= alt? m.getBoolAlt("zz","kk",def) : m.getBool("kk",def); } catch(std::exception&) { ex=1; }
                vh::check(ex==(xb<0), "getBool('%s') exception=%d",v.c_str(),ex); if(!ex) vh::check(gb==xb,"getBool('%s')=%d",v.c_str(),gb);
                vh::check(m.getBool("absent",def)==(bool)def && m.getInt("absent",3+def)==3+def && m.getDouble("absent",1.5+def)==1.5+def, "default values"); }
        }
        { vector<double> def(1,8.), g; int ex=0; try { g=m.getDoubleVector("kk",def); } catch(std::exception&) { ex=1; }
          vector<double> x; bool bad=false; if(v.empty()) x=def; else { string t=v; for(size_t j=0;j<t.size();j++) if(t[j]==',') t[j]=' '; std::vector<string> w; string cur; for(size_t j=0;j<=t.size();j++) { if(j==t.size()||t[j]==' ') { if(!cur.empty()) w.push_back(cur); cur=""; } else cur+=t[j]; }
              for(size_t j=0;j<w.size();j++) { char* ee; double y=strtod(w[j].c_str(),&ee); if(ee==w[j].c_str()) bad=true; x.push_back(y); } }
          vh::check(ex==bad,"getDoubleVector('%s') exception=%d",v.c_str(),ex); if(!ex) { bool same=g.size()==x.size(); for(size_t j=0;same&&j<x.size();j++) same=vh::close(g[j],x[j],0); vh::check(same,"getDoubleVector('%s')",v.c_str()); } }
        int which[3]={0,1,2}; (void)which;
        { utils::KeyValueMap p=m; double y=0; int ex=0; try { y=p.popDouble("kk",42); } catch(std::exception&) { ex=1; } if(!ex) { vh::check(vh::close(y,v.empty()?42:d,0)&&!p.contains("kk"),"popDouble"); } else vh::check(p.contains("kk"),"failed pop must keep the value"); }
        { utils::KeyValueMap p=m; int ex=0; try { p.popDoubleAlt("zz","KK",42); } catch(std::exception&) { ex=1; } vh::check(p.contains("kk")==(bool)ex,"popDoubleAlt removes"); }
        { utils::KeyValueMap p=m; int ex=0; try { p.popInt("kk",42); } catch(std::exception&) { ex=1; } vh::check(p.contains("kk")==(bool)ex,"popInt removes"); }
        { utils::KeyValueMap p=m; int ex=0; try { p.popIntAlt("kk","zz",42); } catch(std::exception&) { ex=1; } vh::check(p.contains("kk")==(bool)ex,"popIntAlt removes"); }
        { utils::KeyValueMap p=m; int ex=0; try { p.popBool("kk",true); } catch(std::exception&) { ex=1; } vh::check(p.contains("kk")==(bool)ex,"popBool removes"); }
        { utils::KeyValueMap p=m; int ex=0; try { p.popBoolAlt("kk","zz",true); } catch(std::exception&) { ex=1; } vh::check(p.contains("kk")==(bool)ex,"popBoolAlt removes"); }
        vh::outcome(v);
    }
    // set(typed) followed by get(typed)
    double D[]={0,1,-2.5,1e-30,123456.5,1e300,0.1};
    for(int i=0;i<7;i++) for(int w=1;w<=17;w++) { if(!vh::begin(vh::fmt("settyped:%d:%d",i,w))) continue; utils::KeyValueMap m; m.set("k",D[i],(unsigned)w);
        vh::check(vh::close(m.getDouble("K"),D[i],0.5*pow(10.,1-w)*1.0000001), "set/get double %g width %d -> %g",D[i],w,m.getDouble("K")); 
        m.set("k",(int)-77); vh::check(m.getInt("k")==-77,"int"); m.set("K",3000000000u); vh::check(m.getString("k")=="3000000000","unsigned");
        m.set("k",true); vh::check(m.getBool("k",false)==true,"bool"); m.set("k",false); vh::check(m.getBool("k",true)==false,"bool"); m.set("k","text"); vh::check(m.getString("k")=="text","char*"); vh::check(m.keys().size()==1,"one key"); }
}
int main(int argc, char** argv) { vh::init(argc,argv); opseq(); files(); sessions(); typed(); return vh::finish(); }
