// Simulated operating system: an in-memory disk behind the libc calls the library makes, with
// a fault plan.  Everything here is a pure function of the commands it is given.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sim {

struct Rng {// splitmix64 / xorshift: the only source of randomness in the simulator
   uint64_t s;
   explicit Rng( uint64_t seed = 1 ) : s( seed ^ 0xD1B54A32D192ED03ull ) { s = next() * 0xD6E8FEB86659FD93ull; s ^= s >> 32; }// neighbouring seeds give unrelated sequences
   uint64_t next() {
      uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
      z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
      z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
      return z ^ ( z >> 31 );
   }
   uint64_t below( uint64_t n ) { return n ? next() % n : 0; }
   long range( long a, long b ) { return a + (long) below( (uint64_t) ( b - a + 1 ) ); }
   bool chance( int num, int den ) { return (int) below( (uint64_t) den ) < num; }
   template<class T> const T &pick( const std::vector<T> &v ) { return v[below( v.size() )]; }
};

struct Bytes {
   std::vector<uint8_t> d;
   long holeAt {}, hole {};// a sparse file: `hole` bytes nobody stored follow the first holeAt bytes of d
   long size() const { return (long) d.size() + hole; }
   void get( void *to, long pos, size_t n ) const
   {
      for( size_t i {}; i < n; i++ ) {
         const long p = pos + (long) i;
         static_cast<uint8_t *>( to )[i] = hole && p >= holeAt ? p < holeAt + hole ? 0 : d[(size_t) ( p - hole )] : d[(size_t) p];
      }
   }
   void put( const void *from, long pos, size_t n )
   {
      for( size_t i {}; i < n; i++ ) {
         const long p = pos + (long) i;
         if( p >= holeAt && p < holeAt + hole ) continue;// lost: nothing reads it back
         d[(size_t) ( p >= holeAt ? p - hole : p )] = static_cast<const uint8_t *>( from )[i];
      }
   }
};
using File = std::shared_ptr<Bytes>;

struct Fault {
   std::string call, kind;// call: open read write lseek close fstat alloc ; kind: short eintr eio enospc eof crash ...
   long n {};             // fires on the n-th matching call after arming (0-based)
   long arg {};
   bool sticky {};        // every later matching call fails too
   bool done {};
};

struct Event { char kind; long len, res; };// one simulated storage call (for the dry-run trace)

struct Disk {
   std::map<std::string, File> files;
   struct Fd { File f; std::string path; long pos {}; int flags {}; int slot { -1 }; bool open {}; };
   std::vector<Fd> fds;
   std::vector<Fault> armed;
   // benign chaos: transfers split and interrupted, never failing
   uint64_t chaosSeed {}; int pShort {}, pEintr {}; Rng chaos { 1 };
   long cap {};            // largest transfer (0 = unlimited)
   bool sectorSplit {};    // short writes end at sector boundaries only (crash worlds: sectors are atomic)
   long quota { -1 };      // bytes the disk may hold (-1 = unlimited)
   bool dead {};           // the simulated process has crashed: nothing reaches the disk any more
   bool allPaths {};       // treat every path as simulated (tool runs)
   int curSlot { -1 };
   // accounting
   std::map<std::string, long> fired;
   long calls {}, bytesW {}, bytesR {}, opened {};
   uint64_t hash { 1469598103934665603ull };
   long hardFaults {};     // faults that must be visible to the caller, fired so far
   int hardSlot { -1 };    // slot whose call met the last hard fault
   std::vector<int> hardSlots;// all slots that met one (per event)
   bool record {}; std::vector<Event> trace;
   std::vector<std::string> commands;// handed to system()
   std::vector<long> sysRet; long sysDefault { 0 };
   bool watchSys {}; struct SysCall { long ret; std::map<std::string, std::vector<uint8_t>> files; std::vector<std::string> open; };
   std::vector<SysCall> sysCalls;   // what the disk looked like when each command was started
   std::map<std::string, std::string> env;
   long stepLimit { 4000000 }; bool overrun {};
   std::map<std::string, long> allocArm;

   void mix( uint64_t v ) { hash = ( hash ^ v ) * 1099511628211ull; }
   void reset();
   int openCount() const { int c {}; for( auto &f: fds ) if( f.open ) c++; return c; }
   long used() const { long u {}; for( auto &f: files ) u += (long) f.second->d.size(); return u; }
};
extern Disk D;

// memory: failing allocations and recognisable garbage
struct Mem {
   bool inApi {};
   long count {};       // allocations made inside API calls since arming
   long failAt { -1 };  // index of the allocation that fails (-1 none)
   bool fired {};
   int fill { -1 };     // fill pattern for fresh memory (-1 = leave)
   long live {};
};
extern Mem M;

extern void ( *yieldHook )( int kind );// threaded worlds: 0 allocation, 1 storage call
bool isSim( const char *path );
std::string norm( const char *path );
}// namespace sim
