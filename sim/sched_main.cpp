// The scheduling engine: several simulated threads using the library and its loader (C08, C09).
#include "cli.hpp"
#include "gen.hpp"
#include "sched.hpp"
#include <cstring>
#include <dlfcn.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;
namespace sim { void ( *onLine )( const Line & ); }
struct Stop {};
static std::string S( long n ) { return std::to_string( n ); }

// ---- simulated dynamic loader
struct Loader {
   std::map<void *, bool> open;
   long opens {}, closes {}, gen {};
   long dlFail {};                          // so many dlopen calls fail
   std::string symFail; long symFailN {};   // this entry point is missing in the next loads
   std::map<int, long> fired;               // load faults met, per thread
   bool curMissing {};
};
static Loader L;
static char fakeLibs[4096];
static char dlMsg[256]; static bool dlErr;
static void complain( const std::string &m ) { if( sched::complaint.empty() ) sched::complaint = m; }
struct NoApi { bool s { M.inApi }; NoApi() { M.inApi = false; } ~NoApi() { M.inApi = s; } };
extern "C" {
void *__real_dlsym( void *, const char * );
void *__wrap_dlopen( const char *p, int )
{
   if( yieldHook && M.inApi ) yieldHook( 1 );
   NoApi q;
   if( !p || !strstr( p, "gdxcclib" ) ) { strcpy( dlMsg, "no such library" ); dlErr = true; return nullptr; }
   if( L.dlFail > 0 ) { L.dlFail--; L.fired[sched::self()]++; D.fired["dlopen:fail"]++; strcpy( dlMsg, "simulated: cannot open shared object file" ); dlErr = true; return nullptr; }
   if( sched::libOpen > 0 ) complain( "the library was loaded a second time while it was loaded" );
   void *h = fakeLibs + ( L.gen++ % 4096 );
   L.open[h] = true; L.opens++; sched::libOpen++;
   L.curMissing = false;
   dlErr = false;
   return h;
}
void *__wrap_dlsym( void *h, const char *n )
{
   NoApi q;
   if( (char *) h < fakeLibs || (char *) h >= fakeLibs + 4096 ) return __real_dlsym( h, n );
   if( !L.open.count( h ) ) { complain( "an entry point was looked up in a library that is not loaded" ); strcpy( dlMsg, "bad handle" ); dlErr = true; return nullptr; }
   if( L.symFailN > 0 && !strcasecmp( n, L.symFail.c_str() ) ) {
      if( !L.curMissing ) { L.fired[sched::self()]++; D.fired["dlsym:missing"]++; L.curMissing = true; }
      strcpy( dlMsg, "simulated: undefined symbol" ); dlErr = true; return nullptr;
   }
   void *s = __real_dlsym( RTLD_DEFAULT, n );
   dlErr = !s;
   if( !s ) strcpy( dlMsg, "undefined symbol" );
   return s;
}
int __wrap_dlclose( void *h )
{
   if( yieldHook && M.inApi ) yieldHook( 1 );
   NoApi q;
   if( !L.open.count( h ) ) { complain( "a library handle that is not open was closed" ); return -1; }
   L.open.erase( h ); L.closes++; sched::libOpen--;
   if( L.curMissing && L.symFailN > 0 ) { L.symFailN--; L.curMissing = false; }
   return 0;
}
char *__wrap_dlerror() { if( !dlErr ) return nullptr; dlErr = false; return dlMsg; }
}

// ---- C09: threads that create, use and free objects and try to unload the library
struct Live { bool creating {}, live {}, freeing {}; };
// a caller's message buffer with what lies around it
struct MsgBuf {
   int n; std::vector<char> b;
   explicit MsgBuf( int kind ) { static const int sz[] { 256, 0, 1, 2, 20, 40, 80, 257 }; n = sz[kind & 7]; b.assign( (size_t) n + 16, 0x5a ); if( n ) b[8] = 0; }
   char *data() { return b.data() + 8; }
   bool intact() const { for( int i = 0; i < 8; i++ ) if( b[(size_t) i] != 0x5a || b[(size_t) ( n + 8 + i )] != 0x5a ) return false; return n == 0 || std::memchr( b.data() + 8, 0, (size_t) n ); }
   std::string text() const { return n ? b.data() + 8 : ""; }
};
struct World9 {
   std::map<std::pair<int, int>, Live> objs;
   struct Un { std::vector<std::pair<int, int>> liveAtEntry; bool busy {}; };
   std::vector<Un *> unloads;
   std::map<std::pair<int, int>, long> born;// object incarnation
   long births {};
   bool busy() { for( auto &o: objs ) if( o.second.creating || o.second.live || o.second.freeing ) return true; return false; }
};
static World9 *W;

struct Ldr {// the executor of one thread
   int t;
   gdxHandle_t h[3] {};
   std::set<uint64_t> trans;
   uint64_t hash { 1469598103934665603ull };
   long ops {}, compared {};
   std::string cur;
   long line {};
   void mix( uint64_t v ) { hash = ( hash ^ v ) * 1099511628211ull; }
   [[noreturn]] void viol( const std::string &m ) { M.inApi = false; throw Viol( "line " + S( line ) + " (" + cur + "): " + m ); }
   template<class F> auto api( F f )
   {
      D.curSlot = t; M.inApi = true; ops++;
      auto r = f();
      M.inApi = false; D.curSlot = -1;
      mix( (uint64_t) r );
      if( !sched::complaint.empty() ) { auto m = sched::complaint; sched::complaint.clear(); viol( m ); }
      compared++;
      return r;
   }
   void use( int k, int n )
   {
      gdxHandle_t g = h[k];
      const std::string f = "/sim/l" + S( t ) + "_" + S( k ) + ".gdx";
      int err {};
      if( !api( [&] { return gdxOpenWriteEx( g, f.c_str(), "p", n & 1, &err ); } ) ) viol( "an object could not create its file" );
      if( !api( [&] { return gdxDataWriteStrStart( g, "sy", "text", 1, GMS_DT_PAR, 0 ); } ) ) viol( "an object could not start a symbol" );
      for( int i = 0; i < n; i++ ) {
         const std::string key = "k" + S( i );
         const char *keys[] { key.c_str() };
         double v[5] { i * 1.5 + t };
         if( !api( [&] { return gdxDataWriteStr( g, keys, v ); } ) ) viol( "an object could not write a record" );
      }
      if( !api( [&] { return gdxDataWriteDone( g ); } ) ) viol( "an object could not finish a symbol" );
      if( api( [&] { return gdxClose( g ); } ) ) viol( "an object could not close its file" );
      if( !api( [&] { return gdxOpenRead( g, f.c_str(), &err ); } ) ) viol( "an object could not open its own file" );
      int nr {};
      if( !api( [&] { return gdxDataReadRawStart( g, 1, &nr ); } ) || nr != n ) viol( "an object found " + S( nr ) + " records instead of " + S( n ) );
      for( int i = 0; i < n; i++ ) {
         int key[20], dim; double v[5];
         if( !api( [&] { return gdxDataReadRaw( g, key, v, &dim ); } ) || v[0] != i * 1.5 + t ) viol( "an object read a wrong record" );
      }
      api( [&] { return gdxDataReadDone( g ); } );
      if( api( [&] { return gdxClose( g ); } ) ) viol( "an object could not close its file" );
   }
   void step( const Line &l )
   {
      const std::string &op = l[0];
      cur = joinLine( l );
      auto I = [&]( size_t i ) { return i < l.size() ? atoi( l[i].c_str() ) : 0; };
      const int k = op == "mk" || op == "fr" || op == "use" ? I( 1 ) % 3 : 0;
      const std::pair<int, int> id { t, k };
      uint64_t out = 0;
      if( op == "dlfail" ) { L.dlFail += I( 1 ); return; }
      if( op == "symfail" ) { if( !L.curMissing ) { L.symFail = l[1]; L.symFailN = I( 2 ); } return; }
      if( op == "mk" || op == "ready" ) {
         if( op == "mk" && h[k] ) return;
         MsgBuf msg( I( op == "mk" ? 3 : 2 ) );
         const int ms = msg.n;
         const long f0 = L.fired[t];
         if( op == "mk" ) { W->objs[id].creating = true; for( auto *u: W->unloads ) u->busy = true; }
         const int how = I( op == "mk" ? 2 : 1 );
         const char *dir = "/opt/lib dir";
         int r;
         if( op == "ready" ) r = api( [&] { return how == 0 ? gdxGetReady( msg.data(), ms ) : how == 1 ? gdxGetReadyD( dir, msg.data(), ms ) : gdxGetReadyL( "/opt/lib dir/libgdxcclib64.so", msg.data(), ms ); } );
         else r = api( [&] { return how == 0 ? gdxCreate( &h[k], msg.data(), ms ) : how == 1 ? gdxCreateD( &h[k], dir, msg.data(), ms ) : how == 2 ? gdxCreateDD( &h[k], dir, msg.data(), ms ) : gdxCreateL( &h[k], "/opt/lib dir/libgdxcclib64.so", msg.data(), ms ); } );
         const bool fault = L.fired[t] != f0;
         out = (uint64_t) ( r != 0 ) + 2 * fault;
         if( op == "mk" ) W->objs[id].creating = false;
         if( !msg.intact() ) viol( "the message buffer was overrun" );
         if( r && fault ) viol( "loading the library failed but the call returned success" );
         if( !r && !fault ) viol( std::string( "the call failed although loading the library did not fail: " ) + msg.text() );
         if( !r && ms > 1 && msg.text().empty() ) viol( "the call failed without a message" );
         if( op == "mk" ) {
            if( r && !h[k] ) viol( "the call returned success without an object" );
            if( r ) { W->objs[id].live = true; W->born[id] = ++W->births; }
            else h[k] = nullptr;
         }
      }
      else if( op == "fr" ) {
         if( !h[k] ) return;
         W->objs[id].live = false; W->objs[id].freeing = true;
         const int r = api( [&] { return gdxFree( &h[k] ); } );
         W->objs[id].freeing = false;
         if( r != 1 || h[k] ) viol( "freeing an object failed" );
      }
      else if( op == "frnull" ) {// freeing what is not there must not count
         bool any {}; for( auto *x: h ) if( x ) any = true;
         if( !any ) return;
         gdxHandle_t z {};
         api( [&] { return gdxFree( &z ); } );
      }
      else if( op == "use" ) { if( !h[k] ) return; use( k, 1 + I( 2 ) % 5 ); }
      else if( op == "unload" ) {
         World9::Un u;
         for( auto &o: W->objs ) if( o.second.live ) u.liveAtEntry.push_back( o.first );
         auto bornAt = W->born;
         u.busy = W->busy();
         W->unloads.push_back( &u );
         int r {};
         try { r = api( [&] { return gdxLibraryUnload(); } ); } catch( ... ) { W->unloads.clear(); throw; }
         W->unloads.erase( std::find( W->unloads.begin(), W->unloads.end(), &u ) );
         out = (uint64_t) ( r != 0 ) + 2 * u.busy;
         if( r ) for( auto &o: u.liveAtEntry ) if( W->objs[o].live && W->born[o] == bornAt[o] ) viol( "the library was unloaded although an object was alive during the whole call" );
         if( !r && !u.busy ) viol( "unloading was refused although no object existed" );
      }
      else if( op == "loaded" ) {
         bool mine {}; for( auto *x: h ) if( x ) mine = true;
         const int r = api( [&] { return gdxLibraryLoaded(); } );
         out = (uint64_t) ( r != 0 ) + 2 * mine;
         if( mine && !r ) viol( "the library is reported as not loaded although an object is alive" );
      }
      else if( op == "ver" ) {
         MsgBuf msg( I( 1 ) );
         bool mine {}; for( auto *x: h ) if( x ) mine = true;
         const int r = api( [&] { return gdxCorrectLibraryVersion( msg.data(), msg.n ); } );
         out = (uint64_t) ( r != 0 );
         if( !msg.intact() ) viol( "the message buffer was overrun" );
         if( mine && !r ) viol( std::string( "the library version check failed: " ) + msg.text() );
      }
      else throw std::logic_error( "unknown op " + op );
      uint64_t q = out;
      for( char c: op ) q = q * 131 + (unsigned char) c;
      trans.insert( q * 16 + (uint64_t) sched::libOpen );
   }
};

// ---- running worlds
struct Shared { int n {}; std::string prop; };
struct Sink {// receives the script as it happens
   FILE *f {};
   std::vector<Line> script;
   void add( const Line &l ) { script.push_back( l ); if( f ) { fprintf( f, "%s\n", joinLine( l ).c_str() ); fflush( f ); } }
};
static Sink *sink;
static std::string violMsg;

static Line pre( int t, long id, const Line &l ) { Line r { S( t ) + "." + S( id ) }; r.insert( r.end(), l.begin(), l.end() ); return r; }
static std::map<std::string, long> stepName;

static const char *SYMS[] { "XCreate", "XCreateD", "XFree", "C__XCheck", "C__XAPIVersion", "C__gdxAcronymAdd", "C__gdxClose", "C__gdxOpenWrite", "C__gdxMapAcronymsToNaNSet" };

static Line op9( Rng &r )
{
   const int x = (int) r.below( 100 );
   if( x < 30 ) return { "mk", S( (long) r.below( 3 ) ), S( (long) r.below( 4 ) ), S( (long) ( r.chance( 1, 4 ) ? r.below( 8 ) : 0 ) ) };
   if( x < 52 ) return { "fr", S( (long) r.below( 3 ) ) };
   if( x < 64 ) return { "use", S( (long) r.below( 3 ) ), S( (long) r.below( 5 ) ) };
   if( x < 82 ) return { "unload" };
   if( x < 87 ) return { "loaded" };
   if( x < 91 ) return { "ready", S( (long) r.below( 3 ) ), S( (long) ( r.chance( 1, 4 ) ? r.below( 8 ) : 0 ) ) };
   if( x < 93 ) return { "ver", S( (long) ( r.chance( 1, 2 ) ? r.below( 8 ) : 0 ) ) };
   if( x < 95 ) return { "frnull" };
   if( x < 98 ) return { "dlfail", S( r.range( 1, 2 ) ) };
   return { "symfail", SYMS[r.below( sizeof SYMS / sizeof *SYMS )], "1" };
}

// lines of a replay file, or nothing: the seed generates them
static Result world( const std::string &prop, uint64_t seed, const std::vector<Line> *lines )
{
   Result res;
   D.reset(); M = Mem {}; leakReset();
   L = Loader {}; sched::libOpen = 0;
   World9 w; W = &w;
   Rng r( seed );
   sched::Policy pol;
   Sink own;
   if( !sink ) sink = &own;
   sink->script.clear();
   const bool nine = prop == "C09";
   std::vector<Line> wlines;
   std::map<int, std::vector<std::pair<long, Line>>> tl;
   int nt = 0;
   if( lines ) {
      pol.replay = true;
      for( auto &l: *lines ) {
         if( l[0] == "sw" ) pol.plan[{ atoi( l[1].c_str() ), atol( l[2].c_str() ) }][atol( l[3].c_str() )] = atoi( l[4].c_str() );
         else if( auto d = l[0].find( '.' ); d != std::string::npos ) { const int t = atoi( l[0].c_str() ); tl[t].emplace_back( atol( l[0].c_str() + d + 1 ), Line( l.begin() + 1, l.end() ) ); nt = std::max( nt, t + 1 ); }
         else if( l[0] == "threads" ) nt = std::max( nt, atoi( l[1].c_str() ) );
         else wlines.push_back( l );
      }
      if( nt == 0 ) nt = 1;
   }
   else {
      nt = (int) r.range( 2, 4 );
      pol.seed = r.next();
      static const int PG[] { 2, 4, 12, 40 };
      static const long MF[] { 20, 150, 1500, 20000 };
      pol.pGlobal = PG[r.below( 4 )]; pol.meanFunc = MF[r.below( 4 )];
      pol.pAlloc = r.chance( 1, 2 ) ? 60 : 1000; pol.pIo = r.chance( 1, 2 ) ? 3 : 30; pol.pOp = (int) r.range( 2, 5 ); pol.pLock = (int) r.range( 2, 5 );
      if( !nine && r.chance( 1, 2 ) ) wlines.push_back( splitLine( "chaos " + S( (long) r.below( 1000000 ) ) + " " + S( r.range( 0, 60 ) ) + " " + S( r.range( 0, 20 ) ) + " " + S( r.chance( 1, 2 ) ? 0 : r.range( 1, 900 ) ) ) );
   }
   sink->add( { "threads", S( nt ) } );
   gdxInitMutexes();
   std::vector<std::unique_ptr<Exec>> ex;
   std::vector<std::unique_ptr<Ldr>> ld;
   std::vector<std::unique_ptr<Gen>> gs;
   Exec worldExec; worldExec.shared = true;
   violMsg.clear();
   std::vector<std::function<void()>> bodies;
   std::vector<uint64_t> seeds;
   for( int i = 0; i < nt; i++ ) seeds.push_back( r.next() );
   sched::onSwitch = []( const sched::Switch &s ) { sink->add( { "sw", S( s.from ), S( s.op ), S( s.y ), S( s.to ) } ); };
   sched::onDeadlock = []( const std::string &m ) { printf( "VIOL %s\n", m.c_str() ); fflush( stdout ); };
   cpuLimit( 30 );
   try { for( auto &l: wlines ) { sink->add( l ); worldExec.run( l ); } } catch( const Viol &v ) { res.viol = true; res.msg = v.what(); }
   sched::libActive = nine;
   auto guard = [&]( const std::function<void()> &f ) {
      try { f(); }
      catch( const Viol &v ) { NoApi q; M.inApi = false; if( violMsg.empty() ) violMsg = v.what(); sched::stop(); }
      catch( const Stop & ) { M.inApi = false; }
   };
   for( int i = 0; i < nt; i++ ) {
      if( nine ) {
         ld.emplace_back( new Ldr { i } );
         Ldr *q = ld.back().get();
         if( lines ) bodies.push_back( [&, q, i] { guard( [&] { for( auto &x: tl[i] ) { if( sched::stopping() ) throw Stop {}; q->line = x.first; sched::opBoundary( x.first ); sink->add( pre( i, x.first, x.second ) ); q->step( x.second ); } } ); } );
         else bodies.push_back( [&, q, i] {
            guard( [&] {
               Rng rr( seeds[(size_t) i] );
               const int n = (int) rr.range( 3, 14 );
               for( int k = 0; k < n; k++ ) { if( sched::stopping() ) throw Stop {}; const Line l = op9( rr ); q->line = k; sched::opBoundary( k ); sink->add( pre( i, k, l ) ); q->step( l ); }
            } );
         } );
      }
      else {
         ex.emplace_back( new Exec );
         Exec *e = ex.back().get();
         e->shared = true;
         if( lines ) bodies.push_back( [&, e, i] { guard( [&] { for( auto &x: tl[i] ) { if( sched::stopping() ) throw Stop {}; sched::opBoundary( x.first ); sink->add( pre( i, x.first, x.second ) ); e->run( x.second ); } } ); } );
         else {
            gs.emplace_back( new Gen( *e, seeds[(size_t) i] ) );
            Gen *g = gs.back().get();
            bodies.push_back( [&, e, g, i] {
               guard( [&] {
                  knobs( *g, "C01" );
                  g->k.unfinished = false; g->k.big = 0; g->k.query = std::min( g->k.query, 4 );
                  const std::string f = "/sim/t" + S( i ) + ".gdx";
                  e->before = [e] { if( sched::stopping() ) throw Stop {}; sched::opBoundary( (long) e->script.size() ); };
                  g->create( i );
                  g->writeSession( i, f, (int) g->r.range( 1, 7 ) );
                  if( g->r.chance( 1, 4 ) ) g->writeSession( i, f, (int) g->r.range( 1, 4 ), true );
                  g->readSession( i, f, (int) g->r.range( 2, 9 ) );
                  if( g->r.chance( 1, 4 ) ) g->op( "openr " + S( i ) + " /sim/missing" + S( i ) + ".gdx 0" );
                  g->op( "free " + S( i ) );
               } );
            } );
         }
      }
   }
   if( !nine ) onLine = []( const Line &l ) { sink->add( l ); };
   // C08 lines carry their thread: rewritten here
   if( !nine && !lines ) onLine = []( const Line &l ) { const int t = sched::self(); sink->add( t < 0 ? l : pre( t, stepName["op" + S( t )]++, l ) ); };
   else onLine = nullptr;
   stepName.clear();
   sched::Outcome o;
   if( !res.viol ) o = sched::run( pol, bodies );
   onLine = nullptr;
   sched::onSwitch = nullptr;
   cpuLimit( 0 );
   if( !violMsg.empty() ) { res.viol = true; res.msg = violMsg; }
   if( !res.viol && !sched::complaint.empty() ) { res.viol = true; res.msg = sched::complaint; }
   // afterwards, without concurrency or faults: everything is given back and works
   L.dlFail = 0; L.symFailN = 0; L.curMissing = false;
   if( !res.viol && nine ) {
      cpuLimit( 30 );
      try {
         for( auto &q: ld ) for( int k = 0; k < 3; k++ ) if( q->h[k] ) { q->cur = "end: free"; q->step( { "fr", S( k ) } ); }
         Ldr q { 9 };
         for( const char *t: { "unload", "mk 0 0", "use 0 3", "unload", "loaded", "fr 0", "unload" } ) { q.step( splitLine( t ) ); q.line = 999; }
         q.cur = "end";
         if( gdxLibraryLoaded() ) q.viol( "the library is still reported as loaded after it was unloaded" );
         if( sched::libOpen != 0 ) q.viol( S( sched::libOpen ) + " library handle(s) were never closed" );
      }
      catch( const Viol &v ) { res.viol = true; res.msg = v.what(); }
      cpuLimit( 0 );
   }
   sched::libActive = false;
   if( !res.viol && !nine ) {
      cpuLimit( 30 );
      try {
         for( int i = 0; i < nt; i++ ) {
            const std::string f = "/sim/t" + S( i ) + ".gdx";
            ex[(size_t) i]->before = nullptr;
            ex[(size_t) i]->curOp = "end: verify " + f;
            ex[(size_t) i]->verify( f, 1 );
            ex[(size_t) i]->finish();
         }
         if( D.openCount() != 0 ) throw Viol( "end of scenario: " + S( D.openCount() ) + " file handle(s) still open" );
      }
      catch( const Viol &v ) { res.viol = true; res.msg = v.what(); }
      cpuLimit( 0 );
   }
   uint64_t sh = 99;
   for( auto &s: o.switches ) for( long v: { (long) s.from, s.op, s.y, (long) s.to } ) sh = ( sh ^ (uint64_t) v ) * 1099511628211ull;
   res.hash = sh ^ D.hash;
   for( auto &e: ex ) res.hash = ( res.hash ^ e->hash ) * 1099511628211ull;
   for( auto &e: ld ) res.hash = ( res.hash ^ e->hash ) * 1099511628211ull;
   agg["worlds"]++;
   agg["scheduler steps"] += o.steps;
   agg["context switches"] += (long) o.switches.size();
   for( auto &k: o.kinds ) agg["fault preemption: " + k.first] += k.second;
   for( auto &f: D.fired ) agg["fault " + f.first] += f.second;
   for( auto &e: ex ) { agg["calls compared"] += e->compared; agg["api calls"] += e->ops; agg["sessions"] += e->sessions; for( auto t: e->trans ) transSeen.insert( t ); }
   for( auto &e: ld ) { agg["calls compared"] += e->compared; agg["api calls"] += e->ops; for( auto t: e->trans ) transSeen.insert( t ); }
   agg["storage calls"] += D.calls;
   worldSeen.insert( res.hash );
   res.script = sink->script;
   if( res.viol ) for( auto &e: ex ) for( auto &s: e->s ) s.h = nullptr;// may be in any state
   sink = nullptr;
   W = nullptr;
   return res;
}

namespace sim {
static std::string propOf( const std::vector<Line> &lines )
{
   for( auto &l: lines ) if( l.size() > 1 && l[0].find( '.' ) != std::string::npos ) {
      static const std::set<std::string> n { "mk", "fr", "use", "unload", "loaded", "ready", "ver", "frnull", "dlfail", "symfail" };
      return n.count( l[1] ) ? "C09" : "C08";
   }
   return "C09";
}
Result runScript( const std::vector<Line> &lines ) { return world( propOf( lines ), 0, &lines ); }

static std::string packed( const Result &r )
{
   std::string o = std::string( r.viol ? "1" : "0" ) + " " + std::to_string( r.hash ) + "\n" + r.msg + "\n";
   for( auto &a: agg ) o += "A " + std::to_string( a.second ) + " " + a.first + "\n";
   for( auto t: transSeen ) o += "T " + std::to_string( t ) + "\n";
   for( auto t: worldSeen ) o += "W " + std::to_string( t ) + "\n";
   if( r.viol ) for( auto &l: r.script ) o += "L " + joinLine( l ) + "\n";
   return o;
}
Result runSeed( const std::string &prop, uint64_t seed, int only, const char *save )
{
   static bool pinned;
   if( !pinned ) {// one core per worker: handing over the baton is a local wake-up
      pinned = true;
      cpu_set_t c; CPU_ZERO( &c ); CPU_SET( (int) ( getpid() % std::max( 1L, sysconf( _SC_NPROCESSORS_ONLN ) ) ), &c );
      sched_setaffinity( 0, sizeof c, &c );
   }
   if( st ) { st->seed = seed; st->variant = -1; }
   if( !st ) {
      static Sink sk;
      if( save ) { sk.f = fopen( save, "w" ); fprintf( sk.f, "# property %s seed %llu variant -1\n", prop.c_str(), (unsigned long long) seed ); sink = &sk; }
      Result r = world( prop, seed, nullptr );
      if( sk.f ) fclose( sk.f );
      return r;
   }
   // every world starts in a fresh process image: lazily initialised data is part of the schedule
   int fd[2];
   if( pipe( fd ) ) abort();
   const pid_t p = fork();
   if( p == 0 ) {
      ::close( fd[0] );
      agg.clear(); transSeen.clear(); worldSeen.clear();
      std::string o = packed( world( prop, seed, nullptr ) );
      size_t k = 0;
      while( k < o.size() ) { const ssize_t n = ::write( fd[1], o.data() + k, o.size() - k ); if( n <= 0 ) break; k += (size_t) n; }
      _exit( 0 );
   }
   ::close( fd[1] );
   std::string in;
   char buf[65536];
   ssize_t n;
   while( ( n = ::read( fd[0], buf, sizeof buf ) ) > 0 ) in.append( buf, (size_t) n );
   ::close( fd[0] );
   int ws {};
   waitpid( p, &ws, 0 );
   if( !WIFEXITED( ws ) || WEXITSTATUS( ws ) != 0 ) { fflush( stdout ); _exit( WIFEXITED( ws ) ? WEXITSTATUS( ws ) : 71 ); }
   Result r;
   std::istringstream is( in );
   std::string l;
   std::getline( is, l );
   r.viol = l[0] == '1'; r.hash = strtoull( l.c_str() + 2, nullptr, 10 );
   std::getline( is, r.msg );
   while( std::getline( is, l ) ) {
      if( l.size() < 2 ) continue;
      if( l[0] == 'A' ) { char *e; const long v = strtol( l.c_str() + 2, &e, 10 ); agg[e + 1] += v; }
      else if( l[0] == 'T' ) transSeen.insert( strtoull( l.c_str() + 2, nullptr, 10 ) );
      else if( l[0] == 'W' ) worldSeen.insert( strtoull( l.c_str() + 2, nullptr, 10 ) );
      else if( l[0] == 'L' ) r.script.push_back( splitLine( l.substr( 2 ) ) );
   }
   return r;
}
}// namespace sim
