// Common protocol of the exhaustive C++ harnesses (see lib/vcheck.py for the driver side).
// A harness enumerates a finite, deterministic sequence of cases; every case has a textual id which suffices to
// re-run it alone (--only ID).  Sharding: case number k is executed by shard k % nshards.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <cmath>
#include <sstream>
#include <stdexcept>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>

namespace vh {
struct State {
    int shard, nshards; bool thorough; std::string only; bool haveOnly; std::string scratch;
    unsigned long ncase, nrun, nchecks, nfail, states, transitions, traces;
    std::set<unsigned long> outcomes, stateset; std::string cur; char* prog; int nsample;
    std::map<std::string, double> extra;
    State(): shard(0), nshards(1), thorough(false), haveOnly(false), ncase(0), nrun(0), nchecks(0), nfail(0),
        states(0), transitions(0), traces(0), prog(NULL), nsample(0) {}
};
static State S;
inline bool thorough() { return S.thorough; }
inline unsigned long hashs(const std::string& s) { unsigned long h=1469598103934665603UL; for(size_t i=0;i<s.size();i++){h^=(unsigned char)s[i];h*=1099511628211UL;} return h; }
inline std::string fmt(const char* f, ...) { char b[4096]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
inline std::string oneline(std::string s) { for(size_t i=0;i<s.size();i++) if(s[i]=='\n'||s[i]=='\r'||s[i]=='\t') s[i]=' '; return s; }
inline void setprog(const std::string& id) { if(S.prog) { size_t n = id.size()<4000?id.size():4000; memcpy(S.prog, id.data(), n); S.prog[n]=0; } }
/// announce a case; returns whether this process should run it
inline bool begin(const std::string& id) {
    unsigned long k = S.ncase++;
    if(S.haveOnly) { if(id != S.only) return false; }
    else if((int)(k % S.nshards) != S.shard) return false;
    S.cur = id; S.nrun++; setprog(id);
    if(S.nsample < 2 && !S.haveOnly) { printf("SAMPLE %s\n", oneline(id).c_str()); S.nsample++; }
    return true;
}
inline void outcome(const std::string& s) { S.outcomes.insert(hashs(s)); }
inline void state(const std::string& s) { S.stateset.insert(hashs(s)); }
inline void fail(const std::string& what) { S.nfail++; if(S.nfail<=(getenv("VH_MAXFAIL")?(unsigned long)atol(getenv("VH_MAXFAIL")):50) || S.haveOnly) { printf("FAIL %s\t%s\n", S.cur.c_str(), oneline(what).c_str()); fflush(stdout); } }
inline bool check(bool ok, const char* f, ...) { S.nchecks++; if(ok) return true; char b[4096]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); fail(b); return false; }
inline bool isfin(double x) { return std::isfinite(x); }
/// relative-absolute comparison; NaN equals NaN, inf equals same inf
inline bool close(double a, double b, double rel, double abs=0) {
    if(a==b) return true; if(std::isnan(a)&&std::isnan(b)) return true;
    if(!std::isfinite(a)||!std::isfinite(b)) return false;
    return fabs(a-b) <= abs + rel*fmax(fabs(a),fabs(b)); }
inline void init(int argc, char** argv) {
    for(int i=1;i<argc;i++) { std::string a=argv[i];
        if(a=="--shard" && i+2<argc) { S.shard=atoi(argv[i+1]); S.nshards=atoi(argv[i+2]); i+=2; }
        else if(a=="--thorough") S.thorough=true;
        else if(a=="--only" && i+1<argc) { S.only=argv[++i]; S.haveOnly=true; }
        else if(a=="--scratch" && i+1<argc) { S.scratch=argv[++i]; }
        else if(a=="--progress" && i+1<argc) { int fd=open(argv[++i],O_RDWR|O_CREAT|O_TRUNC,0600); if(fd>=0){ if(ftruncate(fd,4096)==0) S.prog=(char*)mmap(NULL,4096,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); if(S.prog==MAP_FAILED) S.prog=NULL; ::close(fd);} }
    }
}
inline int finish() {
    for(std::set<unsigned long>::iterator i=S.outcomes.begin(); i!=S.outcomes.end(); ++i) printf("OUT %lx\n", *i);
    for(std::set<unsigned long>::iterator i=S.stateset.begin(); i!=S.stateset.end(); ++i) printf("ST %lx\n", *i);
    printf("STAT cases %lu\nSTAT run %lu\nSTAT checks %lu\nSTAT fails %lu\nSTAT states %lu\nSTAT transitions %lu\nSTAT traces %lu\n",
        S.ncase, S.nrun, S.nchecks, S.nfail, S.states, S.transitions, S.traces);
    for(std::map<std::string,double>::iterator i=S.extra.begin(); i!=S.extra.end(); ++i) printf("EXTRA %s %.17g\n", i->first.c_str(), i->second);
    setprog(""); printf("DONE\n"); fflush(stdout);
    return 0;
}
}
