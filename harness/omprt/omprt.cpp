#include "omprt.h"
#include <ucontext.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <set>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
#include <errno.h>
#include <malloc.h>
#include <link.h>

extern "C" void* __libc_malloc(size_t); extern "C" void __libc_free(void*); extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_calloc(size_t,size_t); extern "C" void* __libc_memalign(size_t,size_t);
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals(); }

namespace omprt {
enum { MAXT = 4, STK = 8<<20 };
typedef uint32_t Clk;
struct VC { Clk c[MAXT]; VC() { memset(c,0,sizeof c); } void join(const VC& o) { for(int i=0;i<MAXT;i++) if(o.c[i]>c[i]) c[i]=o.c[i]; } };
struct Lock { int owner; VC vc; Lock(): owner(-1) {} };
struct WS { long next, end, incr, chunk; long dispatch; int arrived, left; long orderedNext; bool isOrdered; VC ordVC; WS(): next(0),end(0),incr(1),chunk(1),dispatch(0),arrived(0),left(0),orderedNext(0),isOrdered(false) {} };
enum St { RUN, LOCKWAIT, BARRIER, ORDWAIT, DONE };
struct Thr { ucontext_t ctx; char* stack; St st; void* waiting; VC vc; int nws; long curIter, staticNext; bool pendingFirst; long eh[2]; int nested; int singles; long ordIndex; char* frame; Thr(): stack(0) {} };
static Thr T[MAXT];
static int nthr=1, curT=0; static bool inRegion=false, serialMode=false, raceOn=true;
static int wantThreads=2; static int policyBit=-1;
static void (*regFn)(void*); static void* regData;
static std::vector<WS*> wss; static std::map<void*,Lock*> locks; static std::map<unsigned long,VC> syncvars; static VC barVC;
static int singleCount;
static std::vector<int> prefix; static std::vector<Point> points; static std::vector<int> trace;
static ExecResult cur; static bool dead=false;
static std::vector<void*> quarantine; static bool inRT=false;
static std::vector<Race> raceList; static std::set<std::pair<unsigned long,unsigned long> > raceSet; static std::set<unsigned long> promoted;
// thread-local variables of the executable: every fiber has its own copy, swapped in and out on a switch
static char *tlsBase=NULL; static size_t tlsSize=0, tlsFile=0; static const char* tlsInit=NULL; static bool tlsKnown=false; static char* tlsCopy[8];
static int tlsCb(struct dl_phdr_info* i, size_t, void*) { for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_TLS) { tlsBase=(char*)i->dlpi_tls_data; tlsSize=i->dlpi_phdr[k].p_memsz; tlsFile=i->dlpi_phdr[k].p_filesz; tlsInit=(const char*)(i->dlpi_addr+i->dlpi_phdr[k].p_vaddr); } return 1; /* main program only */ }
static void tlsSetup() { if(tlsKnown) return; tlsKnown=true; dl_iterate_phdr(tlsCb,NULL); if(!tlsBase) tlsSize=0; }
static void tlsFresh(int i) { if(!tlsSize || tlsCopy[i]) return; tlsCopy[i]=(char*)__libc_calloc(1,tlsSize); if(i>0) memcpy(tlsCopy[i],tlsInit,tlsFile); }
static inline void rawCopy(void* d, const void* s, size_t n) { asm volatile("rep movsb":"+D"(d),"+S"(s),"+c"(n)::"memory"); }
static inline void tlsSwap(int o,int n) { if(!tlsSize) return; rawCopy(tlsCopy[o],tlsBase,tlsSize); rawCopy(tlsBase,tlsCopy[n],tlsSize); }
static ucontext_t mainCtx; static std::set<unsigned long> regionFns;

// ---------------- shadow memory ----------------
struct Slot { Clk clk; uint32_t pc; uint8_t tid, mask, w, used; };
enum { NS = 6 };
struct Cell { uintptr_t key; uint32_t gen; Slot s[NS]; };
static Cell* tab=NULL; static size_t tabN=0, tabUsed=0; static uint32_t gen=1;
static Cell* mapTab(size_t n) { void* p=mmap(NULL,n*sizeof(Cell),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED) { fprintf(stderr,"omprt: no memory\n"); _exit(70);} return (Cell*)p; }
static inline size_t hsh(uintptr_t k) { return (k>>3)*0x9E3779B97F4A7C15UL>>20; }
static void grow() {
    size_t on=tabN; Cell* ot=tab; tabN= on? on*2 : (1<<16); tab=mapTab(tabN);
    for(size_t i=0;i<on;i++) if(ot[i].gen==gen) { size_t h=hsh(ot[i].key)&(tabN-1); while(tab[h].gen==gen) h=(h+1)&(tabN-1); tab[h]=ot[i]; }
    if(ot) munmap(ot,on*sizeof(Cell));
}
static inline Cell* cell(uintptr_t k) {
    if(tabUsed*2>=tabN) grow();
    size_t h=hsh(k)&(tabN-1);
    while(tab[h].gen==gen) { if(tab[h].key==k) return &tab[h]; h=(h+1)&(tabN-1); }
    tab[h].gen=gen; tab[h].key=k; tabUsed++; for(int i=0;i<NS;i++) tab[h].s[i].used=0; return &tab[h];
}
static void schedPoint();
static void report(const Slot& o, bool w, uintptr_t addr, int size, unsigned long pc) {
    if(size==1) { promoted.insert(pc); promoted.insert(o.pc); return; }   // unsynchronised flag: becomes a scheduling point; the result decides
    unsigned long a=pc<o.pc?pc:o.pc, b=pc<o.pc?o.pc:pc;
    if(raceSet.insert(std::make_pair(a,b)).second) { Race r; r.pc1=o.pc; r.pc2=pc; r.w1=o.w; r.w2=w; r.addr=addr; r.size=size; raceList.push_back(r); }
}
static inline void acc1(uintptr_t k, uint8_t mask, bool w, unsigned long pc, int size) {
    Cell* c=cell(k); Thr& t=T[curT]; Clk now=t.vc.c[curT]; int freeI=-1, oldI=-1; bool stored=false;
    for(int i=0;i<NS;i++) { Slot& s=c->s[i];
        if(!s.used) { if(freeI<0) freeI=i; continue; }
        if(s.tid==curT) { if(s.w==w && s.mask==mask) { s.clk=now; s.pc=pc; stored=true; } else if(oldI<0) oldI=i; continue; }
        if((s.mask&mask) && (w||s.w) && s.clk>t.vc.c[s.tid]) report(s,w,k,size,pc);
    }
    if(!stored) { int i = freeI>=0?freeI : oldI>=0?oldI : 0; Slot& s=c->s[i]; s.used=1; s.tid=curT; s.w=w; s.mask=mask; s.clk=now; s.pc=pc; }
}
static inline void access(const void* p, size_t n, bool w, unsigned long pc) {
    if(!inRegion || inRT || nthr<2 || !raceOn || dead) return;
    uintptr_t a=(uintptr_t)p;
    { Thr& t=T[curT]; // own stack below the region frame is private unless someone else got a pointer to it (impossible here: fibers are joined before the frame dies)
      char* q=(char*)a; if(curT>0 ? (q>=t.stack && q<t.stack+STK) : (q<t.frame && q>t.frame-STK)) return; }
    if(a>=(uintptr_t)tlsBase && a<(uintptr_t)tlsBase+tlsSize) return;   // thread-local storage
    cur.accesses++;
    if(n==1 && !promoted.empty() && promoted.count(pc)) schedPoint();
    inRT=true;
    uintptr_t e=a+n;
    for(uintptr_t k=a&~7UL; k<e; k+=8) {
        int lo = k<a ? a-k : 0, hi = e-k<8 ? e-k : 8;
        acc1(k, (uint8_t)(((1<<hi)-1) & ~((1<<lo)-1)), w, pc, (int)(n<1000?n:1000));
    }
    inRT=false;
}
// ---------------- scheduling ----------------
typedef long __attribute__((may_alias)) along;
static void save_eh(Thr& t) { volatile along* g=(along*)__cxxabiv1::__cxa_get_globals(); ((volatile along*)t.eh)[0]=g[0]; ((volatile along*)t.eh)[1]=g[1]; }
static void load_eh(Thr& t) { volatile along* g=(along*)__cxxabiv1::__cxa_get_globals(); g[0]=((volatile along*)t.eh)[0]; g[1]=((volatile along*)t.eh)[1]; }
static bool enabled(int i) {
    Thr& t=T[i];
    switch(t.st) { case RUN: return true; case DONE: return false;
        case LOCKWAIT: return ((Lock*)t.waiting)->owner<0;
        case BARRIER: return false;
        case ORDWAIT: return ((WS*)t.waiting)->orderedNext==t.ordIndex; }
    return false;
}
static void switchTo(int n) {
    if(n==curT) return;
    int o=curT; save_eh(T[o]); tlsSwap(o,n); curT=n; load_eh(T[n]);
    int e=errno; swapcontext(&T[o].ctx,&T[n].ctx); errno=e;
}
static void die(const char* why) { cur.error=why; fprintf(stderr,"omprt: %s\n",why); fflush(stdout); _exit(71); }
static int pick() {   // choose the next thread among the enabled ones; curT may or may not be enabled
    int opt[MAXT], n=0; bool ce=enabled(curT); if(ce) opt[n++]=curT;
    for(int i=0;i<nthr;i++) if(i!=curT && enabled(i)) opt[n++]=i;
    cur.points++;
    if(n==0) return -1;
    if(n==1) return opt[0];
    size_t k=trace.size(); int ch=0;
    if(k<prefix.size()) { ch=prefix[k]; if(ch>=n) { cur.diverged=true; ch=0; } }
    trace.push_back(ch); Point p; p.nopt=n; p.curEnabled=ce; p.chosen=ch; points.push_back(p);
    return opt[ch];
}
static void schedPoint() {
    if(!inRegion || nthr<2 || dead || inRT) return;
    if(policyBit>=0) return;
    inRT=true; int n=pick(); inRT=false;
    if(n>=0) switchTo(n);
}
static void blockCur() {     // current thread cannot continue: hand over
    inRT=true; int n=pick(); inRT=false;
    if(n<0) { cur.deadlock=true; die("deadlock: no enabled thread"); }
    switchTo(n);
}
static void release(VC& to) { Thr& t=T[curT]; to.join(t.vc); t.vc.c[curT]++; }
static void acquire(const VC& from) { T[curT].vc.join(from); }
static void fiberMain(int id) {
    // started by switchTo; the exception globals were loaded already
    regFn(regData);
    T[id].st=DONE;
    if(id==0) return;
    inRT=true; int n=pick(); inRT=false;
    if(n<0) n=0;     // thread 0 waits for everybody in GOMP_parallel
    tlsSwap(id,n); curT=n; load_eh(T[n]); setcontext(&T[n].ctx);
}
static void flushQuarantine() { inRT=true; for(size_t i=0;i<quarantine.size();i++) __libc_free(quarantine[i]); quarantine.clear(); inRT=false; }
static void __attribute__((noinline)) runRegion(void (*fn)(void*), void* data, unsigned nt) {
    cur.regions++; regionFns.insert((unsigned long)fn);
    inRT=true;
    nthr=nt; regFn=fn; regData=data; gen++; tabUsed=0; if(!tab) grow();
    for(size_t i=0;i<wss.size();i++) delete wss[i]; wss.clear();
    for(std::map<void*,Lock*>::iterator i=locks.begin();i!=locks.end();++i) { i->second->owner=-1; i->second->vc=VC(); }
    syncvars.clear(); barVC=VC(); singleCount=0;
    for(int i=0;i<nthr;i++) { Thr& t=T[i]; t.st=RUN; t.waiting=0; t.vc=VC(); t.vc.c[i]=1; t.nws=0; t.nested=0; t.singles=0; t.pendingFirst=false; memset(t.eh,0,16); t.ordIndex=-1;
        if(i>0) { if(!t.stack) t.stack=(char*)mmap(NULL,STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
            getcontext(&t.ctx); t.ctx.uc_stack.ss_sp=t.stack; t.ctx.uc_stack.ss_size=STK; t.ctx.uc_link=NULL; makecontext(&t.ctx,(void(*)())fiberMain,1,i); } }
    tlsSetup(); for(int i=0;i<nthr;i++) tlsFresh(i);
    save_eh(T[0]); curT=0; T[0].frame=(char*)__builtin_frame_address(0);
    inRT=false; inRegion=true;
    schedPoint();            // any thread may start first
    fiberMain(0);
    while(true) { bool all=true; for(int i=1;i<nthr;i++) if(T[i].st!=DONE) all=false; if(all) break; 
        inRT=true; int n=pick(); inRT=false; if(n<0) { cur.deadlock=true; die("deadlock: no enabled thread at join"); } switchTo(n); }
    inRegion=false; nthr=1; curT=0;
    flushQuarantine();
}
ExecResult execute(void (*body)(void*), void* arg, int nt, const std::vector<int>& pre, int policy) {
    wantThreads=nt; prefix=pre; points.clear(); trace.clear(); cur=ExecResult(); policyBit=policy; dead=false;
    body(arg);
    cur.trace=trace; if(trace.size()<prefix.size()) cur.diverged=true;
    policyBit=-1; return cur;
}
const std::vector<Point>& lastPoints() { return points; }
const std::vector<Race>& races() { return raceList; }
void clearRaces() { raceList.clear(); raceSet.clear(); }
long numPromoted() { return promoted.size(); }
void setRaceDetection(bool on) { raceOn=on; }
void serial(bool on) { serialMode=on; }
std::string symbolize(unsigned long pc) {
    char exe[512]; ssize_t n=readlink("/proc/self/exe",exe,511); if(n<0) return "?"; exe[n]=0;
    char cmd[700]; snprintf(cmd,700,"addr2line -s -e %s 0x%lx 2>/dev/null",exe,pc-1); FILE* f=popen(cmd,"r"); char b[300]="?"; if(f) { if(!fgets(b,300,f)) strcpy(b,"?"); pclose(f);} b[strcspn(b,"\n")]=0; return b;
}
std::string regionsSeen() { std::set<std::string> n; for(std::set<unsigned long>::iterator i=regionFns.begin();i!=regionFns.end();++i) { std::string t=symbolize(*i+1); n.insert(t.substr(0,t.find(' '))); } std::string r; for(std::set<std::string>::iterator i=n.begin();i!=n.end();++i) r+=(r.empty()?"":" ")+*i; return r; }
std::string formatSchedule(const std::vector<int>& t, int nt, int policy) { char b[64]; snprintf(b,64,"threads=%d,policy=%d,choices=",nt,policy); std::string s=b; size_t e=t.size(); while(e>0 && t[e-1]==0) e--; for(size_t i=0;i<e;i++) { snprintf(b,64,"%d",t[i]); s+=b; } return s; }
static bool judge(ExploreStats& st, const ExecResult& r, std::string (*check)(void*), void* arg, int nt, int policy) {
    std::string e;
    if(r.diverged) e="replay diverged (uncontrolled nondeterminism)";
    if(e.empty() && !raceList.empty()) { const Race& q=raceList[0]; char b[64]; snprintf(b,64," (%d bytes)",q.size); e=std::string("data race: ")+(q.w1?"write":"read")+" at "+symbolize(q.pc1)+" vs "+(q.w2?"write":"read")+" at "+symbolize(q.pc2)+b; }
    if(e.empty()) e=check(arg);
    if(e.empty()) return true;
    st.error=e; st.errtrace=r.trace; st.errthreads=nt; st.errpolicy=policy; return false;
}
ExploreStats explore(void (*body)(void*), std::string (*check)(void*), void* arg, int nt, int bound, long maxexec) {
    ExploreStats st; st.executions=st.points=st.maxpoints=st.accesses=0; st.complete=true; st.errthreads=nt; st.errpolicy=-1; st.distinctTraces=0;
    // promoted flag accesses change the set of scheduling points, hence restart when a new one has been found
restart:
    long prom=promoted.size(); std::vector<int> pre; std::vector<Point> stack;
    while(true) {
        clearRaces();
        ExecResult r=execute(body,arg,nt,pre); st.executions++; st.points+=r.points; st.accesses+=r.accesses; if((long)points.size()>st.maxpoints) st.maxpoints=points.size();
        if((long)promoted.size()!=prom) { if(!r.diverged && !judge(st,r,check,arg,nt,-1)) return st; goto restart; }
        if(!judge(st,r,check,arg,nt,-1)) return st;
        // next schedule: deepest point that can be incremented within the preemption bound
        std::vector<Point> P=points; long i=(long)P.size()-1;
        std::vector<int> used(P.size()+1,0); for(size_t k=0;k<P.size();k++) used[k+1]=used[k]+((P[k].curEnabled&&P[k].chosen>0)?1:0);
        for(;i>=0;i--) { int nx=P[i].chosen+1; if(nx>=P[i].nopt) continue; int cost=used[i]+(P[i].curEnabled?1:0); if(cost>bound) continue; break; }
        if(i<0) { break; }
        if(st.executions>=maxexec) { st.complete=false; break; }
        pre.assign(trace.begin(),trace.begin()+i); pre.push_back(P[i].chosen+1);
    }
    st.distinctTraces=st.executions; return st;
}
ExploreStats explorePairs(void (*body)(void*), std::string (*check)(void*), void* arg, int nt, int nbits) {
    ExploreStats st; st.executions=st.points=st.maxpoints=st.accesses=0; st.complete=true; st.errthreads=nt; st.errpolicy=-1; st.distinctTraces=0;
    for(int b=0;b<nbits;b++) { clearRaces(); ExecResult r=execute(body,arg,nt,std::vector<int>(),b); st.executions++; st.points+=r.points; st.accesses+=r.accesses; if(!judge(st,r,check,arg,nt,b)) return st; }
    return st;
}
static Lock* lockOf(void* k) { inRT=true; Lock*& l=locks[k]; if(!l) l=new Lock; Lock* r=l; inRT=false; return r; }
static void lockAcq(void* k) {
    if(!inRegion||nthr<2) return; Thr& t=T[curT]; (void)t;
    schedPoint(); Lock* l=lockOf(k); int me=curT;
    while(l->owner>=0 && l->owner!=me) { T[me].st=LOCKWAIT; T[me].waiting=l; blockCur(); T[me].st=RUN; }
    if(l->owner==me) die("self-deadlock: thread re-enters a critical section it holds");
    l->owner=me; acquire(l->vc);
}
static void lockRel(void* k) { if(!inRegion||nthr<2) return; Lock* l=lockOf(k); l->vc=VC(); release(l->vc); l->owner=-1; schedPoint(); }
static WS* wsOf(Thr& t) { inRT=true; while((int)wss.size()<t.nws) wss.push_back(new WS); WS* w=wss[t.nws-1]; inRT=false; return w; }
static bool dispatch(WS* w, long* s, long* e) {
    if(inRegion && nthr>1) {
        if(policyBit>=0 && !w->isOrdered) {   // chunk k belongs to a fixed thread; rotate until the owner is running
            while(true) { if(w->incr>0 ? w->next>=w->end : w->next<=w->end) return false;
                int owner=(int)((w->dispatch>>policyBit)&1)%nthr; if(owner==curT) break;
                if(T[owner].st!=RUN) { owner=curT; break; } switchTo(owner); }
        } else schedPoint();
    }
    if(w->incr>0 ? w->next>=w->end : w->next<=w->end) return false;
    *s=w->next; long n=w->chunk*w->incr; *e=*s+n; if(w->incr>0 ? *e>w->end : *e<w->end) *e=w->end; w->next=*e; w->dispatch++; return true;
}
}
using namespace omprt;
#define PC ((unsigned long)__builtin_return_address(0))
extern "C" {
int omp_get_thread_num() { return inRegion && T[curT].nested==0 ? curT : 0; }
int omp_get_num_threads() { return inRegion && T[curT].nested==0 ? nthr : 1; }
int omp_get_max_threads() { return MAXT; }
void omp_set_num_threads(int n) { }
int omp_in_parallel() { return inRegion; }
int omp_get_num_procs() { return MAXT; }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) {
    if(inRegion) { T[curT].nested++; int sv=T[curT].nws; fn(data); T[curT].nws=sv; T[curT].nested--; return; }
    if(serialMode) { nt=1; } else { nt = nt==0||(int)nt>wantThreads ? wantThreads : nt; }
    runRegion(fn,data,nt);
}
// nested (single-thread) work sharing keeps a private descriptor
static WS nestedWS[8];
static bool loopStart(long s, long e, long incr, long chunk, long* is, long* ie, bool ord) {
    if(!inRegion || T[curT].nested) { WS* w=&nestedWS[(curT&3)*2]; *w=WS(); w->next=s; w->end=e; w->incr=incr; w->chunk=chunk; *is=s; *ie=e; w->next=e; return incr>0? s<e : s>e; }
    Thr& t=T[curT]; t.nws++; WS* w=wsOf(t); if(w->arrived++==0) { w->next=s; w->end=e; w->incr=incr; w->chunk=chunk<1?1:chunk; w->isOrdered=ord; }
    return dispatch(w,is,ie);
}
static int nestedComb;
static bool loopNext(long* is, long* ie) { if(!inRegion || T[curT].nested) { if(!nestedComb) return false; WS* w=&nestedWS[(curT&3)*2]; nestedComb=0; *is=w->next; *ie=w->end; return w->incr>0? *is<*ie : *is>*ie; } return dispatch(wsOf(T[curT]),is,ie); }
static void barrier() {
    if(!inRegion || nthr<2 || T[curT].nested) return;
    inRT=true; release(barVC); int n=0; for(int i=0;i<nthr;i++) if(T[i].st==BARRIER) n++; inRT=false;
    if(n==nthr-1) { VC v=barVC; for(int i=0;i<nthr;i++) { T[i].vc.join(v); if(T[i].st==BARRIER) T[i].st=RUN; } schedPoint(); }
    else { int me=curT; T[me].st=BARRIER; blockCur(); T[me].st=RUN; }
}
bool GOMP_loop_nonmonotonic_dynamic_start(long s,long e,long i,long c,long* is,long* ie) { return loopStart(s,e,i,c,is,ie,false); }
bool GOMP_loop_dynamic_start(long s,long e,long i,long c,long* is,long* ie) { return loopStart(s,e,i,c,is,ie,false); }
bool GOMP_loop_nonmonotonic_guided_start(long s,long e,long i,long c,long* is,long* ie) { return loopStart(s,e,i,c,is,ie,false); }
bool GOMP_loop_guided_start(long s,long e,long i,long c,long* is,long* ie) { return loopStart(s,e,i,c,is,ie,false); }
bool GOMP_loop_runtime_start(long s,long e,long i,long* is,long* ie) { return loopStart(s,e,i,1,is,ie,false); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s,long e,long i,long* is,long* ie) { return loopStart(s,e,i,1,is,ie,false); }
bool GOMP_loop_nonmonotonic_runtime_start(long s,long e,long i,long* is,long* ie) { return loopStart(s,e,i,1,is,ie,false); }
bool GOMP_loop_static_start(long s,long e,long i,long c,long* is,long* ie) { return loopStart(s,e,i,c,is,ie,false); }
bool GOMP_loop_nonmonotonic_dynamic_next(long* is,long* ie) { return loopNext(is,ie); }
bool GOMP_loop_dynamic_next(long* is,long* ie) { return loopNext(is,ie); }
bool GOMP_loop_nonmonotonic_guided_next(long* is,long* ie) { return loopNext(is,ie); }
bool GOMP_loop_guided_next(long* is,long* ie) { return loopNext(is,ie); }
bool GOMP_loop_runtime_next(long* is,long* ie) { return loopNext(is,ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* is,long* ie) { return loopNext(is,ie); }
bool GOMP_loop_nonmonotonic_runtime_next(long* is,long* ie) { return loopNext(is,ie); }
bool GOMP_loop_static_next(long* is,long* ie) { return loopNext(is,ie); }
static bool ull(bool r, long a, long b, unsigned long long* is, unsigned long long* ie) { if(r) { *is=a; *ie=b; } return r; }
bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long c,unsigned long long* is,unsigned long long* ie) { long a,b; bool r=loopStart(s,e,i,c,&a,&b,false); return ull(r,a,b,is,ie); }
bool GOMP_loop_ull_dynamic_start(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long c,unsigned long long* is,unsigned long long* ie) { long a,b; bool r=loopStart(s,e,i,c,&a,&b,false); return ull(r,a,b,is,ie); }
bool GOMP_loop_ull_nonmonotonic_guided_start(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long c,unsigned long long* is,unsigned long long* ie) { long a,b; bool r=loopStart(s,e,i,c,&a,&b,false); return ull(r,a,b,is,ie); }
bool GOMP_loop_ull_nonmonotonic_dynamic_next(unsigned long long* is,unsigned long long* ie) { long a,b; bool r=loopNext(&a,&b); return ull(r,a,b,is,ie); }
bool GOMP_loop_ull_dynamic_next(unsigned long long* is,unsigned long long* ie) { long a,b; bool r=loopNext(&a,&b); return ull(r,a,b,is,ie); }
bool GOMP_loop_ull_nonmonotonic_guided_next(unsigned long long* is,unsigned long long* ie) { long a,b; bool r=loopNext(&a,&b); return ull(r,a,b,is,ie); }
// ordered loops: chunks are handed out in order; GOMP_ordered_start waits for the turn of the chunk
static bool ordGot(bool r, long a) { Thr& t=T[curT]; if(!inRegion||t.nested) return r; WS* w=wsOf(t); if(r) t.ordIndex=w->dispatch-1; else t.ordIndex=-1; return r; }
static void ordDone() { Thr& t=T[curT]; if(!inRegion||t.nested||t.ordIndex<0) return; WS* w=wsOf(t); if(w->orderedNext==t.ordIndex) { release(w->ordVC); w->orderedNext++; } t.ordIndex=-1; }
static void ordWaitTurn() { Thr& t=T[curT]; if(!inRegion||nthr<2||t.nested||t.ordIndex<0) return; WS* w=wsOf(t); int me=curT; schedPoint();
    while(w->orderedNext!=T[me].ordIndex) { T[me].st=ORDWAIT; T[me].waiting=w; blockCur(); T[me].st=RUN; } acquire(w->ordVC); }
bool GOMP_loop_ordered_static_start(long s,long e,long i,long c,long* is,long* ie) { if(c==0) { long n=(i>0?(e-s+i-1)/i:(e-s+i+1)/i); c=(n+omp_get_num_threads()-1)/omp_get_num_threads(); if(c<1)c=1; } bool r=loopStart(s,e,i,c,is,ie,true); return ordGot(r,*is); }
bool GOMP_loop_ordered_dynamic_start(long s,long e,long i,long c,long* is,long* ie) { bool r=loopStart(s,e,i,c,is,ie,true); return ordGot(r,*is); }
bool GOMP_loop_ordered_guided_start(long s,long e,long i,long c,long* is,long* ie) { bool r=loopStart(s,e,i,c,is,ie,true); return ordGot(r,*is); }
bool GOMP_loop_ordered_static_next(long* is,long* ie) { ordWaitTurn(); ordDone(); bool r=loopNext(is,ie); return ordGot(r,*is); }
bool GOMP_loop_ordered_dynamic_next(long* is,long* ie) { ordWaitTurn(); ordDone(); bool r=loopNext(is,ie); return ordGot(r,*is); }
bool GOMP_loop_ordered_guided_next(long* is,long* ie) { ordWaitTurn(); ordDone(); bool r=loopNext(is,ie); return ordGot(r,*is); }
void GOMP_ordered_start() { ordWaitTurn(); }
void GOMP_ordered_end() { Thr& t=T[curT]; if(!inRegion||nthr<2||t.nested) return; release(wsOf(t)->ordVC); schedPoint(); }
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() { barrier(); }
bool GOMP_single_start() { if(!inRegion||nthr<2||T[curT].nested) return true; Thr& t=T[curT]; t.singles++; if(t.singles>singleCount) { singleCount=t.singles; return true; } return false; }
static char critKey, atomKey, gilKey;
void GOMP_critical_start() { lockAcq(&critKey); }
void GOMP_critical_end() { lockRel(&critKey); }
void GOMP_critical_name_start(void** p) { lockAcq(p); }
void GOMP_critical_name_end(void** p) { lockRel(p); }
void GOMP_atomic_start() { lockAcq(&atomKey); }
void GOMP_atomic_end() { lockRel(&atomKey); }
// combined "parallel for": the work share is set up before the threads start, which then only ask for the next chunk
static bool combined=false; static long cS,cE,cI,cC; static void (*cFn)(void*); static void* cData;
static void combinedBody(void* d) {
    if(inRegion && T[curT].nested==0) { Thr& t=T[curT]; t.nws++; WS* w=wsOf(t); if(w->arrived++==0) { w->next=cS; w->end=cE; w->incr=cI; w->chunk=cC<1?1:cC; } }
    cFn(cData);
}
static void comb(void (*fn)(void*),void* d,unsigned nt,long s,long e,long i,long c,unsigned f) {
    if(inRegion || serialMode) { T[curT].nested++; WS* w=&nestedWS[(curT&3)*2]; *w=WS(); w->next=s; w->end=e; w->incr=i; w->chunk=e-s; nestedComb=1; fn(d); nestedComb=0; T[curT].nested--; return; }
    cS=s; cE=e; cI=i; cC=c; cFn=fn; cData=d; GOMP_parallel(combinedBody,d,nt,f);
}
#define COMB(name) void GOMP_parallel_loop_##name(void (*fn)(void*),void* d,unsigned nt,long s,long e,long i,long c,unsigned f) { comb(fn,d,nt,s,e,i,c,f); }
COMB(nonmonotonic_dynamic) COMB(dynamic) COMB(nonmonotonic_guided) COMB(guided) COMB(static)
void GOMP_parallel_loop_runtime(void (*fn)(void*),void* d,unsigned nt,long s,long e,long i,unsigned f) { comb(fn,d,nt,s,e,i,1,f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*),void* d,unsigned nt,long s,long e,long i,unsigned f) { comb(fn,d,nt,s,e,i,1,f); }
void omp_init_lock(void** l) {} void omp_destroy_lock(void** l) {} void omp_set_lock(void** l) { lockAcq(l); } void omp_unset_lock(void** l) { lockRel(l); }

// thread-local objects of fibers are never destroyed (they share one address)
int __cxa_thread_atexit_impl(void (*)(void*), void*, void*);
int __cxa_thread_atexit(void (*f)(void*), void* obj, void* dso) { if(inRegion && curT>0) return 0; return __cxa_thread_atexit_impl(f,obj,dso); }
// ---------------- thread-sanitizer call-outs ----------------
void __tsan_init() {}
void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p,n,false,PC); } void __tsan_write##n(void* p) { access(p,n,true,PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p,n,false,PC); } void __tsan_unaligned_write##n(void* p) { access(p,n,true,PC); } \
  void __tsan_volatile_read##n(void* p) { access(p,n,false,PC); } void __tsan_volatile_write##n(void* p) { access(p,n,true,PC); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p,n,false,PC); } void __tsan_unaligned_volatile_write##n(void* p) { access(p,n,true,PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p,n,false,PC); } void __tsan_write_range(void* p, size_t n) { access(p,n,true,PC); }
void __tsan_vptr_update(void** p, void* v) { if(*p!=v) access(p,8,true,PC); }
void __tsan_vptr_read(void** p) { access(p,8,false,PC); }
static void atomSync(void* a, bool sp=true) { if(!inRegion||nthr<2||inRT) return; if(sp) schedPoint(); inRT=true; VC& v=syncvars[(unsigned long)a]; acquire(v); release(v); inRT=false; }
static void atomLoad(const void* a) { if(!inRegion||nthr<2||inRT) return; inRT=true; std::map<unsigned long,VC>::iterator i=syncvars.find((unsigned long)a); if(i!=syncvars.end()) acquire(i->second); inRT=false; }
#define AT(N,TT) TT __tsan_atomic##N##_load(const volatile TT* a,int) { atomLoad((void*)a); return *a; } \
 void __tsan_atomic##N##_store(volatile TT* a,TT v,int) { atomSync((void*)a); *a=v; } \
 TT __tsan_atomic##N##_exchange(volatile TT* a,TT v,int) { atomSync((void*)a); TT o=*a; *a=v; return o; } \
 TT __tsan_atomic##N##_fetch_add(volatile TT* a,TT v,int) { atomSync((void*)a, N!=32); TT o=*a; *a=o+v; return o; } \
 TT __tsan_atomic##N##_fetch_sub(volatile TT* a,TT v,int) { atomSync((void*)a, N!=32); TT o=*a; *a=o-v; return o; } \
 TT __tsan_atomic##N##_fetch_or(volatile TT* a,TT v,int) { atomSync((void*)a); TT o=*a; *a=o|v; return o; } \
 TT __tsan_atomic##N##_fetch_and(volatile TT* a,TT v,int) { atomSync((void*)a); TT o=*a; *a=o&v; return o; } \
 int __tsan_atomic##N##_compare_exchange_strong(volatile TT* a,TT* c,TT v,int,int) { atomSync((void*)a); if(*a==*c) { *a=v; return 1; } *c=*a; return 0; } \
 int __tsan_atomic##N##_compare_exchange_weak(volatile TT* a,TT* c,TT v,int,int) { atomSync((void*)a); if(*a==*c) { *a=v; return 1; } *c=*a; return 0; } \
 TT __tsan_atomic##N##_compare_exchange_val(volatile TT* a,TT c,TT v,int,int) { atomSync((void*)a); TT o=*a; if(o==c) *a=v; return o; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int) {}
int __cxa_guard_acquire(uint64_t* g) { if(*(char*)g) return 0; lockAcq(g); if(*(char*)g) { lockRel(g); return 0; } return 1; }
void __cxa_guard_release(uint64_t* g) { *(char*)g=1; if(inRegion&&nthr>1) { inRT=true; release(syncvars[(unsigned long)g]); inRT=false; } lockRel(g); }
void __cxa_guard_abort(uint64_t* g) { lockRel(g); }
// ---------------- memory functions ----------------
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) { void* r=d; if(inRegion) { unsigned long pc=PC; access(s,n,false,pc); access(d,n,true,pc); } asm volatile("rep movsb":"+D"(d),"+S"(s),"+c"(n)::"memory"); return r; }
void* memmove(void* d, const void* s, size_t n) { void* r=d; if(inRegion) { unsigned long pc=PC; access(s,n,false,pc); access(d,n,true,pc); }
    if((char*)d<=(char*)s || (char*)d>=(char*)s+n) asm volatile("rep movsb":"+D"(d),"+S"(s),"+c"(n)::"memory");
    else { char* dd=(char*)d+n-1; const char* ss=(const char*)s+n-1; asm volatile("std; rep movsb; cld":"+D"(dd),"+S"(ss),"+c"(n)::"memory"); } return r; }
void* memset(void* d, int c, size_t n) { void* r=d; if(inRegion) access(d,n,true,PC); asm volatile("rep stosb":"+D"(d),"+c"(n):"a"(c):"memory"); return r; }
void* realloc(void* p, size_t n) {
    if(!inRegion || inRT || nthr<2 || !p) return __libc_realloc(p,n);
    size_t o=malloc_usable_size(p); void* q=__libc_malloc(n); if(!q) return q;
    access(p,o<n?o:n,false,PC); bool sv=inRT; inRT=true; { const void* s=p; void* d=q; size_t c=o<n?o:n; asm volatile("rep movsb":"+D"(d),"+S"(s),"+c"(c)::"memory"); } quarantine.push_back(p); inRT=sv; return q; }
void free(void* p) { if(inRegion && !inRT && nthr>1 && p) { inRT=true; quarantine.push_back(p); inRT=false; } else __libc_free(p); }
}
