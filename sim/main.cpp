// The library engine: one process, one thread, the library linked in.
#include "gen.hpp"
#include "cli.hpp"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <dlfcn.h>

using namespace sim;

// the loader loads "the library": here it is part of this program
extern "C" {
void *__real_dlopen( const char *, int );
void *__real_dlsym( void *, const char * );
int __real_dlclose( void * );
static int fakeLib;
void *__wrap_dlopen( const char *p, int f )
{
   if( p && strstr( p, "gdxcclib" ) ) return &fakeLib;
   return __real_dlopen( p, f );
}
void *__wrap_dlsym( void *h, const char *n ) { return __real_dlsym( h == &fakeLib ? RTLD_DEFAULT : h, n ); }
int __wrap_dlclose( void *h ) { return h == &fakeLib ? 0 : __real_dlclose( h ); }
}

namespace sim {
static FILE *saveFile;
static Result runOnce( const std::vector<Line> &lines, bool leakPass )
{
   Result r;
   D.reset(); M = Mem {};
   leakReset();
   cpuLimit( 30 );
   {
      Exec e;
      try {
         for( auto &l: lines ) e.run( l );
         e.finish();
      }
      catch( const Viol &v ) { r.viol = true; r.msg = v.what(); }
      r.script = e.script; r.hash = e.hash;
      if( !leakPass ) account( e );
   }
   cpuLimit( 0 );
   if( !r.viol && leakCount() > 0 && !M.fired ) {// (an exception that passes through the library may strand memory)
      if( leakPass ) { leakDump(); r.viol = true; r.msg = "end of scenario: " + std::to_string( leakCount() ) + " memory block(s) of the library were not released"; }
      else {
         Result r2 = runOnce( lines, true );// lazily created statics are not leaks: only what repeats counts
         if( r2.viol ) { r.viol = true; r.msg = r2.msg; }
      }
   }
   return r;
}

Result runScript( const std::vector<Line> &lines ) { return runOnce( lines, false ); }

void (*onLine)( const Line & );

// one seed: the fault-free scenario, then its faulty variants
Result runSeed( const std::string &prop, uint64_t seed, int only, const char *save )
{
   Result r;
   D.reset(); M = Mem {}; leakReset();
   std::vector<std::vector<Line>> plans;
   {
      Exec e;
      e.record = true;
      if( st ) { st->seed = seed; st->variant = -1; }
      if( save && only == -1 ) { saveFile = fopen( save, "w" ); fprintf( saveFile, "# property %s seed %llu variant -1\n", prop.c_str(), (unsigned long long) seed ); onLine = []( const Line &l ) { fprintf( saveFile, "%s\n", joinLine( l ).c_str() ); fflush( saveFile ); }; }
      cpuLimit( 30 );
      try { scenario( prop, seed, e ); e.finish(); }
      catch( const Viol &v ) { r.viol = true; r.msg = v.what(); }
      cpuLimit( 0 );
      if( saveFile ) { fclose( saveFile ); saveFile = nullptr; onLine = nullptr; }
      r.script = e.script; r.hash = e.hash;
      account( e );
      if( r.viol ) { if( st ) st->variant = -1; return r; }
      if( only == -1 && save ) return r;
      const int nv = planVariants( prop );
      for( int v = 0; v < nv; v++ ) plans.push_back( plan( prop, seed, e, v ) );
   }
   if( leakCount() > 0 ) { auto s = r.script; Result q = runOnce( s, true ); if( q.viol ) { q.script = s; if( st ) st->variant = -1; return q; } }
   for( int v = 0; v < (int) plans.size(); v++ ) {
      if( plans[(size_t) v].empty() || ( only >= 0 && only != v ) ) continue;
      if( st ) st->variant = v;
      if( save && only == v ) saveLines( save, prop, plans[(size_t) v], seed, v );
      Result q = runScript( plans[(size_t) v] );
      r.hash = ( r.hash ^ q.hash ) * 1099511628211ull;
      if( q.viol ) { q.script = plans[(size_t) v]; q.hash = r.hash; return q; }
   }
   return r;
}

}// namespace sim
