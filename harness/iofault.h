// Fault injection for file output/input, independent of how the code under test writes its files:
//  (a) RLIMIT_FSIZE: the kernel lets exactly k bytes through, then every write fails (EFBIG) or is short;
//  (b) interposed write()/writev()/read(): the n-th call fails, is short, or is interrupted.
#pragma once
#include <sys/resource.h>
#include <sys/uio.h>
#include <dlfcn.h>
#include <signal.h>
#include <errno.h>
#include <unistd.h>
#include <string>
#include <fstream>
#include <sstream>

namespace iofault {
enum Mode { NONE, FAIL, SHORT, INTR };
struct St { Mode mode; long at, count; int err; bool sticky; bool rd; bool active; long fired; };
static St w = {NONE,-1,0,0,false,false,false,0};
inline void arm(Mode m, long at, int err=ENOSPC, bool sticky=true, bool rd=false) { w.mode=m; w.at=at; w.count=0; w.err=err; w.sticky=sticky; w.rd=rd; w.active=true; w.fired=0; }
inline long disarm() { w.active=false; return w.count; }
/// what to do with this call: 0 pass, 1 fail, 2 short
inline int decide(bool rd) {
    if(!w.active || w.rd!=rd) return 0;
    long c = w.count++;
    if(w.mode==NONE) return 0;
    if(w.mode==SHORT) { if(c==w.at || (w.sticky && c>=w.at)) { w.fired++; return 2; } return 0; }
    if(w.mode==INTR) { if(c==w.at) { w.fired++; errno=EINTR; return 1; } return 0; }
    if(c==w.at || (w.sticky && c>=w.at)) { w.fired++; errno=w.err; return 1; }
    return 0;
}
inline void limit(long k) { struct rlimit r; getrlimit(RLIMIT_FSIZE,&r); r.rlim_cur = k<0 ? r.rlim_max : (rlim_t)k; setrlimit(RLIMIT_FSIZE,&r); }
inline void init() { signal(SIGXFSZ, SIG_IGN); }
inline std::string slurp(const std::string& f) { std::ifstream s(f.c_str(), std::ios::binary); std::stringstream ss; ss<<s.rdbuf(); return ss.str(); }
inline void spit(const std::string& f, const std::string& c) { std::ofstream s(f.c_str(), std::ios::binary); s<<c; s.close(); }
}
extern "C" {
ssize_t write(int fd, const void* b, size_t n) {
    static ssize_t (*real)(int,const void*,size_t) = (ssize_t(*)(int,const void*,size_t))dlsym(RTLD_NEXT,"write");
    if(fd>2) switch(iofault::decide(false)) { case 1: return -1; case 2: return real(fd,b,n>1?n/2:n); }
    return real(fd,b,n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
    static ssize_t (*real)(int,const struct iovec*,int) = (ssize_t(*)(int,const struct iovec*,int))dlsym(RTLD_NEXT,"writev");
    if(fd>2) switch(iofault::decide(false)) { case 1: return -1; case 2: { struct iovec x=v[0]; if(x.iov_len>1) x.iov_len/=2; return real(fd,&x,1); } }
    return real(fd,v,c); }
ssize_t read(int fd, void* b, size_t n) {
    static ssize_t (*real)(int,void*,size_t) = (ssize_t(*)(int,void*,size_t))dlsym(RTLD_NEXT,"read");
    if(fd>2) switch(iofault::decide(true)) { case 1: return -1; case 2: return real(fd,b,n>1?n/2:n); }
    return real(fd,b,n); }
}
