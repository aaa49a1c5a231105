// Scenario generator: decides every call, argument and fault from one seed.
#pragma once
#include "exec.hpp"

namespace sim {
struct Knobs {
   int misuse {};        // per cent of calls that do not belong to the phase
   int badArg { 4 };     // per cent of arguments that are unusable
   int steps { 25 };     // calls per session
   int big { 4 };        // per cent of symbols with many records
   int query { 6 };      // per cent of calls that compare every query
   bool rename { true }, errq { true }, badq {};
   bool unfinished {};   // sessions may be closed while a symbol or registration is in progress
   bool sectors {};      // transfers are split at sector boundaries only
   bool huge {};         // sizes past the largest thresholds of the tables
   long maxRecs { 60 };
};

struct Gen {
   Exec &e;
   Rng r;
   Knobs k;
   int symCtr {}, uelCtr {};
   bool hugeDone {};
   bool huge( uint64_t rare ) { if( !k.huge || hugeDone || !r.chance( 1, rare ) ) return false; hugeDone = true; return true; }// past the largest thresholds, once per scenario
   Gen( Exec &ex, uint64_t seed ) : e( ex ), r( seed ) {}

   void op( const std::string &t ) { e.runText( t ); }
   std::string uel( int slot );
   std::string newUel();
   std::string text();
   std::string symName( bool fresh, int slot );
   std::string vals( int slot, int type );
   void create( int slot ) { op( "create " + std::to_string( slot ) ); }
   void chaos( bool eintr = true );
   bool openW( int slot, const std::string &path, int compr = -1 );
   bool openA( int slot, const std::string &path );
   bool openR( int slot, const std::string &path, int mode = 0 );
   void close( int slot ) { op( "close " + std::to_string( slot ) ); }
   void stepWrite( int slot );
   void stepRead( int slot );
   void anyOp( int slot );   // any call at all, with any arguments
   void toIdle( int slot );  // finish whatever is in progress
   void writeSession( int slot, const std::string &path, int steps, bool append = false );
   void readSession( int slot, const std::string &path, int steps );
   void registerSome( int slot );
   void symbol( int slot, bool finish = true );
};
// runs the scenario of one property for one seed in a fresh world; throws Viol
struct Stats { std::map<std::string, long> n; };
void scenario( const std::string &prop, uint64_t seed, Exec &e );
// plans a faulty variant of a recorded fault-free run; empty when the run offers no place for one
std::vector<Line> plan( const std::string &prop, uint64_t seed, const Exec &dry, int variant );
void knobs( Gen &g, const std::string &p );
int planVariants( const std::string &prop );
}// namespace sim
