// Controlled OpenMP runtime: replaces libgomp and libtsan.
//  * every OpenMP thread of a parallel region is a fiber; exactly one runs at a time;
//  * at every scheduling point (thread start/end, loop chunk dispatch, critical enter/leave, barrier, ordered, GIL, and
//    any one-byte access found to be unsynchronised) the explorer decides who runs next;
//  * all memory accesses of the instrumented code are checked for happens-before races.
#pragma once
#include <string>
#include <vector>
namespace omprt {
struct Race { unsigned long pc1, pc2, addr; bool w1, w2; int size; };
struct ExecResult {
    bool deadlock, diverged; std::string error;
    long points, choices, accesses, regions; std::vector<int> trace;
    ExecResult(): deadlock(false), diverged(false), points(0), choices(0), accesses(0), regions(0) {}
};
/// run body under the given thread count; `prefix` fixes the first choices (the rest default to 0)
/// policy: -1 = default (continue the running thread); b>=0: dispatch number k of a dynamically scheduled loop goes to thread ((k>>b)&1)%n
ExecResult execute(void (*body)(void*), void* arg, int nthreads, const std::vector<int>& prefix, int policy=-1);
struct Point { int nopt; bool curEnabled; int chosen; };
const std::vector<Point>& lastPoints();
const std::vector<Race>& races();
void clearRaces();
long numPromoted();
std::string regionsSeen();   ///< source positions of the parallel regions executed so far
void setRaceDetection(bool on);
void serial(bool on);       ///< run every parallel region on one thread (reference execution)
std::string symbolize(unsigned long pc);
struct ExploreStats { long executions, points, maxpoints, accesses; bool complete; std::string error; std::vector<int> errtrace; int errthreads; int errpolicy; long distinctTraces; };
/// depth-first enumeration of all schedules with at most `bound` preemptions
/// check(arg) is called after every execution and returns an error text or ""
ExploreStats explore(void (*body)(void*), std::string (*check)(void*), void* arg, int nthreads, int bound, long maxexec);
/// the family of pair-separating assignments (every two chunks of a dynamic loop run on different threads in at least one of them)
ExploreStats explorePairs(void (*body)(void*), std::string (*check)(void*), void* arg, int nthreads, int nbits);
std::string formatSchedule(const std::vector<int>& t, int nthreads, int policy);
}
