// Scenario executor: runs scenario lines against the real library (through the public loader
// API), against the reference model, on the simulated disk, and compares them call by call.
#pragma once
#include "disk.hpp"
#include "model.hpp"
#include <functional>
#include <sstream>
#include <stdexcept>
extern "C" {
#include "gdxcc.h"
}

namespace sim {

struct Viol : std::runtime_error { using std::runtime_error::runtime_error; };

std::string enc( const std::string &s );
std::string dec( const std::string &s );
std::string encD( double d );
double decD( const std::string &s );

using Line = std::vector<std::string>;
std::string joinLine( const Line &l );
Line splitLine( const std::string &s );

struct FileState {
   std::vector<model::Content> cand;// possible contents
   bool mayRefuse {};               // an open may be refused
   bool unknown {};                 // nothing is promised (a failed session was reported)
   bool foreign {};                 // written on a machine of the other byte order
   bool damaged {};                 // storage below is damaged: every call may fail, none may lie
   bool known() const { return !unknown && !damaged && !mayRefuse && cand.size() == 1; }
};

struct Slot {
   gdxHandle_t h {};
   model::Obj m;
   bool hard {};    // a storage or memory fault hit this session
   bool reported {};// the session told its user about a failure
   bool lost {};    // model and object may differ after a fault
   bool threw {}, lostBefore {};   // an allocation failure left the object
   bool skipped {};  // something the model does not know happened while lost
   bool damaged {}, noContent {};// noContent: what the file holds is not known
   long prevModel {}, prevReal {};// error totals after the previous call
   std::string file;
   std::optional<model::Content> base;// content before an append session
};

struct OpTrace { size_t line; std::vector<Event> ev; long allocs; };

struct Exec {
   static constexpr int NS = 10, VS = 9;// slots; the last one is used by verify
   Slot s[NS];
   std::map<std::string, FileState> fs;
   std::optional<std::vector<uint8_t>> preOpen;// the file before the open in progress
   std::vector<Line> script;// everything run so far
   bool record {};
   std::vector<OpTrace> traces;
   uint64_t hash { 14695981039346656037ull };
   std::set<uint64_t> trans;// distinct (phase, call, outcome) seen
   long ops {}, recsW {}, recsR {}, sessions {}, verifies {}, crashes {}, compared {};
   bool misuseOk { true };
   bool shared {};                  // other executors work on the same disk
   std::function<void()> before;    // called before each line
   bool convCheck {};   // compare the commands given to the operating system with what the environment asks for
   bool quietModel {};  // differential mode: do not compare with the model, only log results
   std::vector<std::string> *log {};// per-call observable log of one slot (differential checks)
   int logSlot { -1 };
   std::string curOp;
   size_t curLine {};

   Exec();
   ~Exec();
   void run( const Line &l );        // execute and append to the script
   void runText( const std::string &t ) { run( splitLine( t ) ); }
   void finish();                    // end of the scenario: free everything, conservation checks
   bool pathKnown( const std::string &p ) { auto it = fs.find( p ); return it != fs.end() && it->second.known(); }
   void verify( const std::string &path, uint64_t seed );

   [[noreturn]] void viol( const std::string &m );
   void mix( uint64_t v ) { hash = ( hash ^ v ) * 1099511628211ull; }
   void note( const std::string &t );

private:
   int api( int si, const std::function<int()> &f );
   bool res( int si, int real, bool mod );
   void crashNow( int closing );
   void dropThrown( int si, const Line &l );
   void doOpen( const Line &l );
   void resync( int si );
   void doClose( int si, bool viaFree );
   bool checkConvert( int si, size_t before, int rc, bool wr );
   void doRead( int si, long cnt );
   void writeRec( int si, const std::vector<int> &ik, const std::vector<std::string> &sk, const std::vector<double> &v );
   void wgen( int si, uint64_t seed, long n, int shape );
   void qall( int si );
   void post( int si );
   void fastRead( int si, const Line &l );
   void sliceOps( int si, const Line &l );
   void step( const Line &l );
   std::string realDump( int si ), modelDump( int si );
   void cmpKV( int si, const char *what, const std::vector<int> &rk, const std::vector<double> &rv, const model::Out &o, int dimFrst, bool cmpFrst );
   void silentEnd( int si );
};

}// namespace sim
