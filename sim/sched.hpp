// Seeded scheduler for several simulated threads.  Each runs on an OS thread of its own, but only
// the one holding the baton runs; the baton moves at yield points (instrumented memory accesses and
// function entries of the library and the loader, allocations, storage calls, locks, call
// boundaries) and only where the seed, or the switch list of a replay file, says so.
#pragma once
#include "disk.hpp"
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sched {
struct Switch { int from; long op; long y; int to; };
struct Policy {
   bool replay {};
   uint64_t seed { 1 };
   int pGlobal { 8 };   // one switch in so many accesses to static data
   long meanFunc { 500 };// function entries between switches
   int pAlloc { 200 }, pIo { 10 }, pOp { 3 }, pLock { 3 };
   std::map<std::pair<int, long>, std::map<long, int>> plan;// replay: (thread, call) -> yield number -> next thread
};
struct Outcome {
   std::string deadlock;
   std::vector<Switch> switches;
   long steps {};
   std::map<std::string, long> kinds;
};
Outcome run( const Policy &p, const std::vector<std::function<void()>> &bodies );
void opBoundary( long opId );       // called by a thread before each of its calls
int self();                         // index of the running simulated thread, -1 outside
bool stopping();                    // a violation was found: threads end at their next call
void stop();
extern bool libActive;              // watch for library code running while it is not loaded
extern int libOpen;                 // number of open handles of the library
extern std::string complaint;       // first violation seen inside a hook
extern void (*onSwitch)( const Switch & );
extern void (*onDeadlock)( const std::string & );
}
