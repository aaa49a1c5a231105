#include "cli.hpp"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <dlfcn.h>

using namespace sim;

extern "C" {
const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_odr_violation=0:handle_abort=1:malloc_context_size=12"; }
const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=66"; }
}

namespace sim {
Status *st;
std::map<std::string, long> agg;
std::set<uint64_t> transSeen, worldSeen;
static void onTimer( int )
{
   const char m[] = "HANG: no progress within the CPU limit\n";
   (void) !write( 2, m, sizeof m - 1 );
   _exit( 77 );
}
void cpuLimit( int sec )
{
   struct itimerval it {};
   it.it_value.tv_sec = sec;
   setitimer( ITIMER_PROF, &it, nullptr );
}

void account( const Exec &e )
{
   for( auto &f: D.fired ) agg["fault " + f.first] += f.second;
   agg["worlds"]++;
   agg["calls compared"] += e.compared;
   agg["api calls"] += e.ops;
   agg["records written"] += e.recsW;
   agg["records read"] += e.recsR;
   agg["sessions"] += e.sessions;
   agg["verifications"] += e.verifies;
   agg["crashes"] += e.crashes;
   agg["storage calls"] += D.calls;
   agg["bytes written"] += D.bytesW;
   agg["bytes read"] += D.bytesR;
   for( auto t: e.trans ) transSeen.insert( t );
   worldSeen.insert( e.hash );
}

void saveLines( const char *file, const std::string &prop, const std::vector<Line> &l, uint64_t seed, int variant )
{
   FILE *f = fopen( file, "w" );
   if( !f ) return;
   fprintf( f, "# property %s seed %llu variant %d\n", prop.c_str(), (unsigned long long) seed, variant );
   for( auto &x: l ) fprintf( f, "%s\n", joinLine( x ).c_str() );
   fclose( f );
}

}// namespace sim

int main( int argc, char **argv )
{
   signal( SIGPROF, onTimer );
   std::vector<std::string> a( argv + 1, argv + argc );
   if( a.empty() ) return 2;
   if( a[0] == "run" ) {
      std::ifstream f( a[1] );
      std::vector<Line> l;
      std::string t;
      while( std::getline( f, t ) ) if( !t.empty() && t[0] != '#' ) l.push_back( splitLine( t ) );
      Result r = runScript( l );
      printf( "hash %016llx\n", (unsigned long long) r.hash );
      if( r.viol ) { printf( "VIOL %s\n", r.msg.c_str() ); return 1; }
      printf( "OK\n" );
      return 0;
   }
   if( a[0] == "seed" ) {// seed PROP SEED VARIANT SAVEFILE
      Result r = runSeed( a[1], strtoull( a[2].c_str(), nullptr, 10 ), a.size() > 3 ? atoi( a[3].c_str() ) : -2, a.size() > 4 ? a[4].c_str() : nullptr );
      printf( "hash %016llx\n", (unsigned long long) r.hash );
      if( r.viol ) { printf( "VIOL %s\n", r.msg.c_str() ); return 1; }
      printf( "OK\n" );
      return 0;
   }
   if( a[0] == "batch" ) {// batch PROP BASE OFFSET STRIDE MAXSEEDS SECONDS STATUSFILE SAVEFILE
      const std::string prop = a[1];
      const uint64_t base = strtoull( a[2].c_str(), nullptr, 10 ), off = strtoull( a[3].c_str(), nullptr, 10 ), stride = strtoull( a[4].c_str(), nullptr, 10 );
      const long maxSeeds = atol( a[5].c_str() );
      const double secs = atof( a[6].c_str() );
      int fd = ::open( a[7].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600 );
      (void) !ftruncate( fd, sizeof( Status ) );
      st = static_cast<Status *>( mmap( nullptr, sizeof( Status ), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ) );
      timespec t0; clock_gettime( CLOCK_MONOTONIC, &t0 );
      auto el = [&] { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return (double) ( t.tv_sec - t0.tv_sec ) + (double) ( t.tv_nsec - t0.tv_nsec ) * 1e-9; };
      long n {};
      uint64_t hx {};
      for( ; n < maxSeeds && el() < secs; n++ ) {
         const uint64_t seed = base * 1000003ull + off + stride * (uint64_t) n;
         Result r = runSeed( prop, seed, -2, nullptr );
         if( n < 3 ) hx = ( hx ^ r.hash ) * 1099511628211ull;
         if( n < 3 ) printf( "seedhash %llu %016llx\n", (unsigned long long) seed, (unsigned long long) r.hash );
         if( r.viol ) {
            saveLines( a[8].c_str(), prop, r.script, seed, st->variant );
            printf( "VIOLSEED %llu %d %s\n", (unsigned long long) seed, st->variant, r.msg.c_str() );
            break;
         }
      }
      st->state = 1;
      printf( "seeds %ld\n", n );
      for( auto &x: agg ) printf( "stat %ld %s\n", x.second, x.first.c_str() );
      printf( "distinct_transitions %zu\n", transSeen.size() );
      printf( "distinct_worlds %zu\n", worldSeen.size() );
      for( auto x: transSeen ) printf( "T %016llx\n", (unsigned long long) x );
      for( auto x: worldSeen ) printf( "W %016llx\n", (unsigned long long) x );
      printf( "wall %.2f\n", el() );
      return 0;
   }
   return 2;
}
