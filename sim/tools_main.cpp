// The tools engine: gdxmerge, gdxdiff and gdxdump run whole, each in a child process, on the simulated disk.
#include "cli.hpp"
#include "tools_model.hpp"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;
using tools::Outcome; using tools::Strs; using tools::World;
static std::string S( long n ) { return std::to_string( n ); }

extern "C" {
void *__real_dlopen( const char *, int );
void *__real_dlsym( void *, const char * );
int __real_dlclose( void * );
static int fakeLib;
void *__wrap_dlopen( const char *p, int f )
{
   if( p && strstr( p, "gdxcclib" ) ) return &fakeLib;
   return __real_dlopen( p, f );
}
void *__wrap_dlsym( void *h, const char *n ) { return __real_dlsym( h == &fakeLib ? RTLD_DEFAULT : h, n ); }
int __wrap_dlclose( void *h ) { return h == &fakeLib ? 0 : __real_dlclose( h ); }
ssize_t __real_write( int, const void *, size_t );
ssize_t __real_read( int, void *, size_t );
int __real_close( int );
int gdxmerge_main( int, const char ** );
int gdxdiff_main( int, const char ** );
int gdxdump_main( int, const char ** );
}
namespace sim { extern uint64_t dirSeed; void ( *onLine )( const Line & ); }

struct Run : Outcome {
   bool died {}; std::string how;
   std::map<std::string, long> fired, counts;
   long hard {}, calls {}, bytesR {}, bytesW {}, lines {};
   uint64_t hash {};
};

// ---- the child ---------------------------------------------------------------------------------
static int payload = -1;
static std::stringbuf *memOut, *memErr;
static std::filebuf *fileOut;
static const char *OUTNAME = "/sim/.stdout";
static void put( std::string &o, const std::string &s ) { o += S( (long) s.size() ) + ":" + s; }
static void childEnd( int code, void * )
{
   if( payload < 0 ) return;
   std::cout.flush(); std::cerr.flush();
   D.armed.clear();// the system closes the standard output, nobody sees whether that fails
   if( fileOut ) fileOut->close();
   std::string o;
   auto text = [&] {
      if( fileOut ) { auto it = D.files.find( OUTNAME ); return it == D.files.end() ? std::string() : std::string( it->second->d.begin(), it->second->d.end() ); }
      return memOut->str();
   };
   put( o, S( code & 255 ) ); put( o, text() ); put( o, memErr->str() );
   put( o, S( D.hardFaults ) ); put( o, S( D.calls ) ); put( o, S( D.bytesR ) ); put( o, S( D.bytesW ) ); put( o, S( (long) ( D.hash >> 1 ) ) );
   std::map<std::string, long> n;
   for( auto &e: D.trace ) n[std::string( 1, e.kind )]++;
   put( o, S( (long) n.size() ) ); for( auto &x: n ) { put( o, x.first ); put( o, S( x.second ) ); }
   put( o, S( (long) D.fired.size() ) ); for( auto &x: D.fired ) { put( o, x.first ); put( o, S( x.second ) ); }
   for( auto &f: D.files ) if( f.first != OUTNAME ) { put( o, f.first.substr( 5 ) ); put( o, std::string( f.second->d.begin(), f.second->d.end() ) ); }
   o += "!";
   for( size_t p {}; p < o.size(); ) { const ssize_t k = __real_write( payload, o.data() + p, o.size() - p ); if( k <= 0 ) break; p += (size_t) k; }
   _exit( 0 );
}
__attribute__( ( constructor( 102 ) ) ) static void hook() { on_exit( childEnd, nullptr ); }// runs after the tool's static objects are gone

static Run runTool( const World &w, const std::string &tool, const Strs &args, const std::vector<Line> &conds )
{
   Run r;
   int fd[2];
   if( pipe( fd ) ) abort();
   fflush( stdout );
   const pid_t pid = fork();
   if( !pid ) {
      cpuLimit( 20 );
      __real_close( fd[0] );
      payload = fd[1];
      const int nul = ::open( "/dev/null", O_WRONLY ); dup2( nul, 1 );
      if( tool == "quiet" ) dup2( nul, 2 );
      D.reset(); M = Mem {};
      for( auto &f: w.f ) { auto b = std::make_shared<Bytes>(); b->d = f.second.bytes; D.files["/sim/" + f.first] = b; }
      D.allPaths = true; D.record = true;
      dirSeed = w.dirSeed;
      memOut = new std::stringbuf; memErr = new std::stringbuf;
      bool toFile = tool == "dump";
      for( auto &a: args ) if( model::up( a ).compare( 0, 6, "OUTPUT" ) == 0 ) toFile = false;
      if( toFile ) { fileOut = new std::filebuf; fileOut->open( OUTNAME, std::ios::out | std::ios::trunc | std::ios::binary ); std::cout.rdbuf( fileOut ); }
      else std::cout.rdbuf( memOut );
      std::cerr.rdbuf( memErr ); std::clog.rdbuf( memErr );
      std::ios::sync_with_stdio( true );
      D.calls = D.bytesW = 0; D.trace.clear();
      for( auto &c: conds ) {
         if( c[0] == "fault" ) { Fault f; f.call = c[1]; f.kind = c[2]; f.n = atol( c[3].c_str() ); f.arg = atol( c[4].c_str() ); f.sticky = atoi( c[5].c_str() ); D.armed.push_back( f ); }
         else if( c[0] == "quota" ) D.quota = D.used() + atol( c[1].c_str() );
         else if( c[0] == "chaos" ) { D.chaosSeed = strtoull( c[1].c_str(), nullptr, 10 ) | 1; D.chaos = Rng( D.chaosSeed ); D.pShort = atoi( c[2].c_str() ); D.pEintr = atoi( c[3].c_str() ); D.cap = atol( c[4].c_str() ); }
      }
      std::vector<const char *> av { tool == "merge" ? "gdxmerge" : tool == "diff" ? "gdxdiff" : "gdxdump" };
      for( auto &a: args ) av.push_back( a.c_str() );
      const int n = (int) av.size();
      av.push_back( nullptr );
      exit( tool == "merge" ? gdxmerge_main( n, av.data() ) : tool == "diff" ? gdxdiff_main( n, av.data() ) : gdxdump_main( n, av.data() ) );
   }
   __real_close( fd[1] );
   std::string in; char b[65536]; ssize_t k;
   while( ( k = __real_read( fd[0], b, sizeof b ) ) > 0 ) in.append( b, (size_t) k );
   __real_close( fd[0] );
   int stt {};
   while( waitpid( pid, &stt, 0 ) < 0 && errno == EINTR ) {}
   if( in.empty() || in.back() != '!' ) {
      r.died = true;
      r.how = WIFSIGNALED( stt ) ? "the tool died from signal " + S( WTERMSIG( stt ) ) : WEXITSTATUS( stt ) == 66 ? "memory error in the tool" : WEXITSTATUS( stt ) == 77 ? "the tool does not come to an end" : "the tool ended abnormally with code " + S( WEXITSTATUS( stt ) );
      return r;
   }
   size_t p {};
   auto get = [&] { const size_t c = in.find( ':', p ); const long n = atol( in.c_str() + p ); std::string s = in.substr( c + 1, (size_t) n ); p = c + 1 + (size_t) n; return s; };
   auto num = [&] { return atol( get().c_str() ); };
   r.exit = (int) num(); r.out = get(); r.out += get();
   r.hard = num(); r.calls = num(); r.bytesR = num(); r.bytesW = num(); r.hash = (uint64_t) num();
   for( long n = num(); n > 0; n-- ) { auto x = get(); r.counts[x] = num(); }
   for( long n = num(); n > 0; n-- ) { auto x = get(); r.fired[x] = num(); }
   while( in[p] != '!' ) { auto x = get(); auto y = get(); r.files[x].assign( y.begin(), y.end() ); }
   return r;
}

// ---- one script: the world, a tool call, its conditions ------------------------------------------
namespace sim {
static std::string newLines( const std::string &was, const std::string &now )
{
   std::multiset<std::string> old; std::string r, t;
   std::istringstream a( was ); while( std::getline( a, t ) ) old.insert( t );
   std::istringstream b( now ); while( std::getline( b, t ) ) { auto i = old.find( t ); if( i != old.end() ) old.erase( i ); else r += t + "\n"; }
   return r;
}
static void note( const std::string &t ) { uint64_t h = 1469598103934665603ull; for( char c: t ) h = ( h ^ (uint8_t) c ) * 1099511628211ull; transSeen.insert( h ); }

struct Setup { World w; std::string tool; Strs args; std::vector<Line> conds; };
static Setup setup( const std::vector<Line> &lines )
{
   Setup s;
   for( auto &l: lines ) {
      if( l.empty() ) continue;
      if( l[0] == "tool" ) { s.tool = l[1]; s.args.clear(); for( size_t i = 2; i < l.size(); i++ ) s.args.push_back( dec( l[i] ) ); }
      else if( l[0] == "fault" || l[0] == "quota" || l[0] == "chaos" ) s.conds.push_back( l );
      else tools::worldLine( s.w, l );
   }
   tools::complete( s.w );
   return s;
}
static std::string check( const Setup &s, const Run &r, bool &same )
{
   same = false;
   if( s.tool == "merge" ) return tools::checkMerge( s.w, s.args, r );
   if( s.tool == "diff" ) return tools::checkDiff( s.w, s.args, r, same );
   return tools::checkDump( s.w, s.args, r );
}
static std::string outName( const Setup &s )
{
   if( s.tool == "diff" ) return tools::diffArgs( s.w, s.args ).out;
   std::string o = s.tool == "merge" ? "merged.gdx" : "";
   bool okArgs;
   for( auto &a: s.tool == "merge" ? tools::expand( s.w, s.args, okArgs ) : s.args ) { auto e = a.find( '=' ); if( e == std::string::npos ) continue; auto k = model::up( a.substr( 0, e ) ); if( k == "OUTPUT" || ( k == "O" && s.tool == "merge" ) ) { o = a.substr( e + 1 ); if( s.tool == "merge" && o.find( '.' ) == std::string::npos ) o += ".gdx"; } }
   return o;
}
static std::string inputsKept( const Setup &s, const Run &r )
{
   const auto o = outName( s );
   for( auto &f: s.w.f ) {
      if( f.first == o ) continue;
      auto it = r.files.find( f.first );
      if( it == r.files.end() ) return "the file " + f.first + " is gone";
      if( it->second != f.second.bytes ) return "the file " + f.first + " was changed";
   }
   return {};
}
static bool verbose() { static const bool v = getenv( "TOOLS_VERBOSE" ) != nullptr; return v; }
static void count( const Setup &s, const Run &r )
{
   agg["worlds"]++; agg["tool runs"]++; agg["storage calls"] += r.calls; agg["bytes read"] += r.bytesR; agg["bytes written"] += r.bytesW;
   for( auto &f: r.fired ) agg["fault " + f.first] += f.second;
   note( s.tool + " exit " + S( r.exit ) + ( r.hard ? " fault" : "" ) );
   for( auto &a: s.args ) note( s.tool + " option " + model::up( a.substr( 0, a.find( '=' ) ) ) + " exit " + S( r.exit ) );
   for( auto &f: r.fired ) note( s.tool + " " + f.first + " exit " + S( r.exit ) );
   uint64_t h = r.hash;
   for( char c: r.out ) h = ( h ^ (uint8_t) c ) * 1099511628211ull;
   worldSeen.insert( h );
}
static std::string cleanRun( const Setup &s, Run &r )
{
   r = runTool( s.w, s.tool, s.args, {} );
   if( verbose() ) fprintf( stderr, "--- exit %d\n%s---\n", r.exit, r.out.c_str() );
   if( r.died ) return r.how;
   count( s, r );
   bool same;
   agg["calls compared"]++;
   auto e = inputsKept( s, r );
   return e.empty() ? check( s, r, same ) : e;
}
static std::string faultRun( const Setup &s, const Run &clean, Run &r )
{
   r = runTool( s.w, s.tool, s.args, s.conds );
   if( verbose() ) fprintf( stderr, "--- with faults: exit %d hard %ld\n%s---\n", r.exit, r.hard, r.out.c_str() );
   if( r.died ) return "under a fault: " + r.how;
   count( s, r );
   bool same;
   auto e = inputsKept( s, r );
   if( !e.empty() ) return "under a fault: " + e;
   e = check( s, r, same );
   agg["calls compared"]++;
   if( e.empty() ) return {};
   if( !r.hard ) return "with split and interrupted transfers: " + e;
   const bool said = tools::saysError( newLines( clean.out, r.out ) );
   if( s.tool == "diff" ) {
      if( r.exit == 0 ) return "a storage fault and the exit code of equal files: " + e;
      if( r.exit == 1 && !said ) return "a storage fault, exit code 1, no error reported: " + e;
      return {};
   }
   if( r.exit == 0 && !said ) return "a storage fault, exit code 0, no error reported: " + e;
   return {};
}

Result runScript( const std::vector<Line> &lines )
{
   Result res;
   res.script = lines;
   const Setup s = setup( lines );
   if( s.tool.empty() ) return res;
   Run a, b;
   auto e = cleanRun( s, a );
   res.hash = a.hash;
   if( e.empty() && !s.conds.empty() ) { e = faultRun( s, a, b ); res.hash = ( res.hash ^ b.hash ) * 1099511628211ull; }
   if( !e.empty() ) { res.viol = true; res.msg = s.tool + ": " + e; }
   return res;
}

// ---- worlds --------------------------------------------------------------------------------------
struct TGen {
   Rng r; std::vector<Line> out;
   explicit TGen( uint64_t s ) : r( s ) {}
   void line( const std::string &t ) { out.push_back( splitLine( t ) ); }
   struct SymDef { std::string name, text; int dim, type, user; };
   bool parFile {};// a parameter file is used: it has no structure that would show a premature end
   std::vector<SymDef> syms; Strs uels, acrs;
   std::string junk( int max )// printable, one kind of quotes, no blanks at the ends
   {
      const std::string abc = std::string( "ab1 .,;/=()*$%&|:<>[]{}~!?_-+\\" ) + std::string( 4, r.chance( 1, 2 ) ? '"' : '\'' );
      std::string t;
      for( int n = (int) r.range( 1, max ); n > 0; n-- ) t += abc[r.below( abc.size() )];
      if( r.chance( 1, 4 ) ) t = abc.back() + t;
      while( !t.empty() && t.front() == ' ' ) t.erase( 0, 1 );
      while( !t.empty() && t.back() == ' ' ) t.pop_back();
      return t.empty() ? "a" : t;
   }
   std::string text()
   {
      if( r.chance( 1, 6 ) ) return junk( 14 );
      static const char *T[] { "", "some text", "with 'single' quotes", "with \"double\" quotes", "a/b, c;d", "  blanks  inside", "*star", "0", "x", "tab-free text (with) [brackets]", "Y", "yes & no", "end." };
      if( r.chance( 1, 20 ) ) return std::string( (size_t) r.range( 200, 255 ), 'z' );
      return T[r.below( 13 )];
   }
   std::string val()
   {
      const int k = (int) r.below( 16 );
      if( k < 5 ) return encD( (double) r.range( -9, 9 ) );
      if( k < 7 ) return encD( (double) r.range( -100000, 100000 ) / 8 );
      if( k < 9 ) return encD( (double) r.range( -1000000, 1000000 ) / 7 );
      if( k == 9 ) return encD( (double) r.range( 1, 999 ) * 1e-12 );
      if( k == 10 ) return encD( (double) r.range( 1, 999 ) * 1e40 / 3 );
      if( k == 11 && !acrs.empty() ) return "a" + r.pick( acrs );
      if( k == 12 ) return encD( 0 );
      if( k == 13 ) return encD( r.chance( 1, 2 ) ? 123456789012345678.0 : 0.1 );
      if( k == 14 ) return encD( (double) r.range( -9, 9 ) + 1e-7 );
      return "s" + S( (long) r.below( 5 ) );
   }
   std::string vals( int type, int user = -1 )
   {
      if( type >= 2 && user >= 0 && r.chance( 1, 8 ) ) {// the default record, of this type or of another one
         const double *d = tools::defRec( type, r.chance( 2, 3 ) ? user : type == 2 ? (int) r.range( 0, 9 ) : (int) r.range( 53, 59 ) );
         std::string v;
         for( int i = 0; i < 5; i++ ) v += ( i ? "," : "" ) + ( r.chance( 1, 25 ) ? val() : d[i] == 3e300 ? std::string( "s2" ) : d[i] == 4e300 ? std::string( "s3" ) : encD( d[i] ) );
         return v;
      }
      if( type == 0 ) return r.chance( 1, 2 ) ? "-" : enc( text() );
      if( type == 1 ) return val();
      std::string v;
      for( int i = 0; i < 5; i++ ) v += ( i ? "," : "" ) + ( i > 1 && r.chance( 1, 2 ) ? ( i == 2 ? ( r.chance( 1, 2 ) ? std::string( "s3" ) : encD( 0 ) ) : i == 3 ? std::string( "s2" ) : encD( 1 ) ) : val() );
      return v;
   }
   void pools( bool diff )
   {
      static const char *U[] { "i1", "i2", "j", "New York", "it's", "say \"hi\"", "a", "b", "ins1", "dif2", "Level", "1", "x.y", "z,w", "i10", "File1", "c d  e", "&", "%x%", "#" };
      const int n = (int) r.range( 2, 14 );
      for( int i = 0; i < n; i++ ) uels.push_back( r.chance( 1, 8 ) ? junk( 12 ) : std::string( U[r.below( 20 )] ) );
      if( r.chance( 1, 8 ) ) uels.push_back( std::string( 63, 'q' ) );
      static const char *A[] { "monday", "acr_b", "Zed" };
      if( r.chance( 1, 3 ) ) for( int i = 0; i < (int) r.range( 1, 3 ); i++ ) acrs.push_back( A[i] );
      if( !acrs.empty() && r.chance( 1, 4 ) ) acrs[r.below( acrs.size() )].clear();// one without a name
      static const char *N[] { "alpha", "Beta", "c", "cost_2", "d", "Eq1", "FLOW", "g7", "h", "Index_of_all" };
      std::vector<std::string> names( N, N + 10 );
      for( size_t i = names.size(); i > 1; i-- ) std::swap( names[i - 1], names[r.below( i )] );
      const int m = (int) r.range( 1, 6 );
      for( int i = 0; i < m; i++ ) {
         SymDef d; d.name = names[(size_t) i]; d.text = text();
         d.type = (int) r.below( 4 ); d.dim = r.chance( 1, 10 ) ? (int) r.range( r.chance( 1, 2 ) ? 18 : 4, 20 ) : r.chance( 1, 6 ) ? 0 : (int) r.range( 1, 3 );
         if( d.type == 0 && d.dim == 0 ) d.dim = 1;
         d.user = d.type == 2 ? (int) r.range( 0, 9 ) : d.type == 3 ? (int) r.range( 53, 59 ) : d.type == 0 ? (int) r.chance( 1, 10 ) : 0;
         syms.push_back( d );
      }
      if( r.chance( 1, 10 ) ) for( int i = 0; i < (int) r.range( 1, 3 ); i++ ) { SymDef d; d.name = diff ? ( r.chance( 1, 2 ) ? "FilesCompared" : "FilesCompared_1" ) : ( r.chance( 1, 2 ) ? "Merged_set_1" : "merged_set_2" ); d.type = 1; d.dim = 1; d.user = 0; bool have {}; for( auto &x: syms ) have |= model::up( x.name ) == model::up( d.name ); if( !have ) syms.push_back( d ); }
   }
   std::string keys( int dim )
   {
      if( !dim ) return "-";
      std::string k;
      for( int i = 0; i < dim; i++ ) k += ( i ? "," : "" ) + encKey( r.pick( uels ) );
      return k;
   }
   static std::string encKey( const std::string &s ) { std::string e; for( char c: enc( s ) ) if( c == ',' ) e += "%2c"; else e += c; return e; }
   int version() { return r.chance( 1, 8 ) ? (int) r.range( 5, 6 ) : 7; }
   // the content of one file
   std::vector<std::string> content( const std::string &f0, bool big, int ver )
   {
      std::vector<std::string> o;
      const std::string f = enc( f0 );
      std::set<long> acrNr;
      if( ver == 7 ) for( size_t i = 0; i < acrs.size(); i++ ) {
         const auto txt = enc( text() );
         long nr = r.chance( 1, 2 ) ? (long) i + 1 : 5 + (long) i * (long) r.range( 1, 3 );
         while( !acrNr.insert( nr ).second ) nr++;
         o.push_back( "acr " + f + " " + enc( r.chance( 1, 5 ) ? model::up( acrs[i] ) : acrs[i] ) + " " + txt + " " + S( nr ) );
      }
      if( r.chance( 1, 2 ) ) for( int i = 0; i < (int) r.range( 1, 6 ); i++ ) o.push_back( "uel " + f + " " + enc( r.pick( uels ) ) );
      std::vector<SymDef> mine;
      for( auto &s: syms ) if( !r.chance( 1, 5 ) ) mine.push_back( s );
      for( size_t i = mine.size(); i > 1; i-- ) if( r.chance( 1, 2 ) ) std::swap( mine[i - 1], mine[r.below( i )] );
      Strs sets;
      for( auto s: mine ) {
         if( r.chance( 1, 16 ) ) s.dim = s.type == 0 ? 1 + s.dim % 3 : ( s.dim + 1 ) % 4;
         if( r.chance( 1, 20 ) ) { s.type = (int) r.range( 1, 3 ); s.user = s.type == 2 ? 5 : s.type == 3 ? 53 : 0; }
         if( r.chance( 1, 20 ) && s.type == 2 ) s.user = (int) r.range( 1, 9 );
         if( r.chance( 1, 5 ) ) s.text = text();
         if( ver < 7 && s.dim > 10 ) s.dim = 2;
         const auto nm = r.chance( 1, 6 ) ? model::up( s.name ) : s.name;
         o.push_back( "sym " + f + " " + nm + " " + S( s.dim ) + " " + S( s.type ) + " " + S( s.user ) + " " + enc( s.text ) );
         if( r.chance( 1, 6 ) ) for( int i = 0; i < (int) r.range( 1, 3 ); i++ ) o.push_back( "com " + f + " " + nm + " " + enc( text() ) );
         if( s.dim > 0 && r.chance( 1, 3 ) ) {
            const bool rel = r.chance( 1, 2 ) || sets.empty();
            std::string d;
            for( int i = 0; i < s.dim; i++ ) d += ( i ? "," : "" ) + ( r.chance( 1, 3 ) ? std::string( "*" ) : rel ? ( r.chance( 1, 6 ) ? r.chance( 1, 2 ) ? "Dim" + S( r.range( 1, 4 ) ) : "dom" + S( (long) r.below( 2 ) ) + "_" + S( r.range( 1, 3 ) ) : "dom" + S( (long) r.below( 3 ) ) ) : r.pick( sets ) );
            if( rel && s.dim <= 6 && r.chance( 1, 3 ) ) {// names whose listing is about as long as a name may be
               int left = (int) r.range( 61, 66 ) - 2 * ( s.dim - 1 );
               d.clear();
               for( int i = 0; i < s.dim; i++ ) {
                  const int k = i + 1 == s.dim ? std::min( left, 63 ) : (int) r.range( 1, std::max( 1, left - ( s.dim - i - 1 ) ) );
                  d += ( i ? "," : "" ) + std::string( (size_t) std::max( 1, k ), (char) ( 'a' + i ) ); left -= k;
               }
            }
            o.push_back( "dom " + f + " " + nm + ( rel ? " x " : " r " ) + d );
         }
         const int n = s.dim == 0 ? (int) r.chance( 4, 5 ) : big && r.chance( 1, 2 ) ? 0 : r.chance( 1, 8 ) ? 0 : (int) r.range( 1, 14 );
         for( int i = 0; i < n; i++ ) o.push_back( "rec " + f + " " + nm + " " + keys( s.dim ) + " " + vals( s.type, s.user ) );
         if( big && s.dim > 0 && s.dim < 5 && r.chance( 1, 2 ) ) o.push_back( "bulk " + f + " " + nm + " " + S( r.range( 300, 3000 ) ) + " " + S( (long) r.below( 1000 ) ) );
         if( s.type == 0 && s.dim == 1 ) { sets.push_back( nm ); if( r.chance( 1, 5 ) ) o.push_back( "alias " + f + " al_" + nm + " " + nm ); }
      }
      if( r.chance( 1, 12 ) ) o.push_back( "alias " + f + " al_u *" );
      return o;
   }
   void file( const std::string &f, bool big )
   {
      const int v = version();
      line( "file " + enc( f ) + " " + S( v ) + " " + S( v > 5 && r.chance( 1, 2 ) ) + " " + S( r.chance( 1, 10 ) ) + " " + S( (long) r.below( 100000 ) ) );
      for( auto &x: content( f, big, v ) ) line( x );
   }
   std::string someNames()
   {
      std::string o;
      for( auto &s: syms ) if( r.chance( 1, 2 ) ) o += ( o.empty() ? "" : "," ) + ( r.chance( 1, 4 ) ? model::up( s.name ) : s.name );
      if( o.empty() ) o = syms[0].name;
      if( r.chance( 1, 5 ) ) for( int i = 0; i < (int) r.range( 10, 60 ); i++ ) o = "some_name_" + S( i ) + "," + o;// a long list
      return o;
   }
   // moves some of the parameters to a parameter file
   std::string intoFile( const std::string &t, size_t from, int rare )
   {
      auto l = splitLine( t );
      if( !r.chance( 1, (uint64_t) rare ) || l.size() <= from ) return t;
      const size_t a = from + r.below( l.size() - from ), b = a + 1 + r.below( l.size() - a );
      for( size_t i = a; i < b; i++ ) if( l[i].compare( 0, 1, "@" ) == 0 || l[i].compare( 0, 3, "%40" ) == 0 ) return t;
      std::string row; parFile = true;
      auto flush = [&] { line( "text pars.txt " + enc( row ) ); row.clear(); };
      if( r.chance( 1, 3 ) ) line( "text pars.txt " + enc( "* ignored.gdx" ) );
      if( r.chance( 1, 4 ) ) row = " ";
      for( size_t i = a; i < b; i++ ) {
         auto w = dec( l[i] );
         if( w.find( ' ' ) != std::string::npos ) { const auto e = w.find( '=' ); w = e == std::string::npos ? "\"" + w + "\"" : w.substr( 0, e + 1 ) + "\"" + w.substr( e + 1 ) + "\""; }
         row += w;
         if( r.chance( 1, 3 ) ) flush(); else row += r.chance( 1, 4 ) ? "  " : r.chance( 1, 6 ) ? "\t" : " ";
      }
      flush();
      if( r.chance( 1, 4 ) ) flush();
      std::string o;
      for( size_t i = 0; i < l.size(); i++ ) { if( i == a ) o += r.chance( 1, 2 ) ? "@pars.txt " : "@pars "; if( i < a || i >= b ) o += l[i] + " "; }
      return o;
   }
   // a limit at or next to the size of a symbol, all files together
   long nearSize()
   {
      std::map<std::string, long> size; std::map<std::string, std::pair<int, int>> head; std::set<std::string> seen;
      for( auto &l: out ) {
         const auto nm = model::up( l.size() > 2 ? l[2] : std::string{} );
         if( l[0] == "sym" ) head[l[1] + " " + nm] = { atoi( l[3].c_str() ) + 1, atoi( l[4].c_str() ) };
         if( l[0] != "rec" || !seen.insert( l[1] + " " + nm + " " + model::up( l[3] ) ).second ) continue;
         const auto h = head[l[1] + " " + nm];
         size[nm] += h.first * ( h.second >= 2 ? 4 : 1 );
      }
      if( size.empty() ) return 12;
      auto it = size.begin(); std::advance( it, (long) r.below( size.size() ) );
      return std::max( 1L, it->second + ( r.chance( 1, 3 ) ? 0 : r.range( -4, 5 ) ) );
   }
   void merge()
   {
      pools( false );
      const bool big = r.chance( 1, 6 );
      static const char *F[] { "a.gdx", "b.gdx", "c-2.gdx", "in one.gdx", "sub/a.gdx", "sub/d.gdx", "sub/x.y.gdx", "1.gdx", "i1.gdx", "File_2.gdx", "sub/file_1.gdx" };
      std::vector<std::string> names( F, F + 11 );
      names.push_back( std::string( (size_t) r.range( 60, 70 ), 'n' ) + ".gdx" );// too long for a key
      names.push_back( "sub/" + std::string( (size_t) r.range( 60, 70 ), 'n' ) + ".gdx" );
      for( size_t i = names.size(); i > 1; i-- ) std::swap( names[i - 1], names[r.below( i )] );
      const int n = r.chance( 1, 10 ) ? (int) r.range( 0, 1 ) : (int) r.range( 2, 4 );
      std::vector<std::string> have;
      for( int i = 0; i < n; i++ ) { file( names[(size_t) i], big ); have.push_back( names[(size_t) i] ); }
      if( r.chance( 1, 10 ) ) { line( "junk sub/junk.gdx " + S( r.range( 0, 600 ) ) + " " + S( (long) r.below( 1000 ) ) ); have.push_back( "sub/junk.gdx" ); }
      if( r.chance( 1, 12 ) && n ) line( "cut " + enc( names[0] ) + " " + S( r.range( 0, 999 ) ) );
      if( r.chance( 1, 12 ) && n ) line( "unnamed " + enc( names[r.below( (uint64_t) n )] ) + " " + S( r.range( 1, 5 ) ) );
      line( "order " + S( (long) r.below( 1000 ) ) );
      std::string o = "merged.gdx", t = "tool merge";
      if( r.chance( 1, 2 ) ) { static const char *O[] { "out.gdx", "res", "sub/out.gdx" }; o = O[r.below( 3 )]; t += " " + enc( std::string( r.chance( 1, 2 ) ? "output=" : r.chance( 1, 2 ) ? "O=" : "OUTPUT=" ) + o ); if( o == "res" ) o = "res.gdx"; }
      if( r.chance( 1, 5 ) ) { if( r.chance( 1, 2 ) ) line( "junk " + enc( o ) + " " + S( r.range( 1, 60 ) ) + " 3" ); else line( "file " + enc( o ) + " 7 0 0 1" ); }
      const int how = (int) r.below( 5 );
      if( how == 0 ) t += " *.gdx"; else if( how == 1 ) t += " *.gdx sub/*.gdx"; else if( how == 2 ) t += " sub/*.gdx *.gdx a.gdx";
      else for( auto &h: have ) { t += " " + enc( h ); if( r.chance( 1, 12 ) ) t += " " + enc( h ); }
      if( have.empty() || r.chance( 1, 15 ) ) t += " nothing*.gdx";
      if( r.chance( 1, 6 ) ) t += " " + enc( "id=" + someNames() ); 
      if( r.chance( 1, 6 ) ) t += " " + enc( "exclude=" + someNames() );
      if( r.chance( 1, 3 ) ) t += " big=" + S( r.chance( 1, 2 ) ? nearSize() : r.chance( 1, 2 ) ? r.range( 1, 30 ) : r.range( 100, 5000 ) );
      if( r.chance( 1, 8 ) ) t += r.chance( 3, 4 ) ? " strict=true" : " strict=false";
      if( r.chance( 1, 40 ) ) t += " output=other.gdx o=more.gdx";
      line( intoFile( t, 2, 8 ) );
   }
   void diff()
   {
      pools( true );
      const bool big = r.chance( 1, 6 );
      const int v = version(), v2 = r.chance( 1, 3 ) ? version() : v;
      line( "file one.gdx " + S( v ) + " " + S( v > 5 && r.chance( 1, 2 ) ) + " " + S( r.chance( 1, 10 ) ) + " 5" );
      auto c = content( "one.gdx", big, v );
      bool tol = r.chance( 1, 4 );
      std::map<std::string, int> types, users;
      for( auto &x: c ) {
         auto l = splitLine( x );
         if( l[0] == "sym" ) { types[l[2]] = atoi( l[4].c_str() ); users[l[2]] = atoi( l[5].c_str() ); }
         if( tol && l[0] == "rec" && types[l[2]] != 0 && r.chance( 1, 4 ) ) {// EPS in the first file
            auto vs = tools::splitAt( l[4], ',' );
            vs[r.below( vs.size() )] = "s4";
            x = l[0] + " " + l[1] + " " + l[2] + " " + l[3] + " ";
            for( size_t i = 0; i < vs.size(); i++ ) x += ( i ? "," : "" ) + vs[i];
         }
         line( x );
      }
      line( "file two.gdx " + S( v2 ) + " " + S( v2 > 5 && r.chance( 1, 2 ) ) + " " + S( r.chance( 1, 10 ) ) + " 5" );
      // the second file: the first one with a few changes, or with the elements in another order
      const int p = tol ? 40 : r.chance( 1, 3 ) ? 0 : r.chance( 1, 2 ) ? 3 : 20;// changes per hundred lines
      if( r.chance( 1, 2 ) ) for( auto &u: uels ) if( r.chance( 1, 2 ) ) line( "uel two.gdx " + enc( u ) );
      bool syms2 = r.chance( 1, 8 ), domChg = false;
      for( auto x: c ) {
         auto l = splitLine( x );
         if( l[0] == "acr" && v2 < 7 ) continue;
         l[1] = "two.gdx";
         if( l[0] == "uel" && r.chance( 1, 2 ) ) continue;
         if( syms2 && l[0] == "sym" && r.chance( 1, 6 ) ) { l[3] = S( ( atol( l[3].c_str() ) + 1 ) % 4 ); if( l[4] == "0" && l[3] == "0" ) l[3] = "2"; }
         if( syms2 && l[0] == "sym" && r.chance( 1, 6 ) ) l[2] += "_n";
         if( l[0] == "rec" && (int) r.below( 100 ) < p ) {
            if( r.chance( 1, 3 ) ) continue;
            if( l[4] == "-" || l[4].find( ',' ) == std::string::npos ) l[4] = l[4][0] == '-' || r.chance( 1, 2 ) ? l[4] : l[4];
            const auto d = splitLine( l[4] );
            auto vs = tools::splitAt( l[4], ',' );
            size_t k = r.below( vs.size() );
            for( size_t i = 0; i < vs.size(); i++ ) if( vs[i] == "s4" ) k = i;
            int ty = 1; for( auto &y: c ) { auto q = splitLine( y ); if( q[0] == "sym" && q[2] == l[2] ) ty = atoi( q[4].c_str() ); }
            if( ty == 0 ) {
               auto w = l[4] == "-" ? std::string{} : dec( l[4] );
               if( !w.empty() && r.chance( 1, 3 ) ) { for( auto &ch: w ) if( isalpha( (unsigned char) ch ) && r.chance( 1, 2 ) ) ch = (char) ( ch ^ 32 ); l[4] = enc( w ); }
               else l[4] = r.chance( 1, 2 ) ? "-" : enc( text() );
            }
            else if( r.chance( tol ? 4 : 1, 5 ) ) {// EPS against a number of any sign and size
               static const double N[] { 0, 1e-7, -1e-7, 0.4, -0.4, 0.5, -0.5, 3, -3, 7, -7, -1000 };
               vs[k] = vs[k] == "s4" ? encD( N[r.below( 12 )] ) : std::string( "s4" );
               l[4].clear(); for( auto &y: vs ) l[4] += ( l[4].empty() ? "" : "," ) + y;
            }
            else {
               if( vs[k][0] == 's' || vs[k][0] == 'a' || r.chance( 1, 3 ) ) vs[k] = val();
               else { const double d0 = decD( vs[k] ); vs[k] = encD( r.chance( 1, 2 ) ? d0 + 1e-7 * (double) r.range( -20, 20 ) : d0 * ( 1 + 1e-5 * (double) r.range( -5, 5 ) ) ); }
               l[4].clear(); for( auto &y: vs ) l[4] += ( l[4].empty() ? "" : "," ) + y;
            }
         }
         if( l[0] == "bulk" && r.chance( 1, 4 ) ) l[r.chance( 1, 2 ) ? 3 : 4] = S( r.range( 300, 900 ) );
         if( l[0] == "dom" && r.chance( 1, 4 ) ) {// other domains, or just spelled in another way
            domChg = true;
            if( r.chance( 1, 3 ) ) continue;
            auto ds = tools::splitAt( l[4], ',' );
            const size_t k = r.chance( 1, 2 ) ? ds.size() - 1 : r.below( ds.size() );
            if( l[3] == "r" || r.chance( 1, 2 ) ) ds[k] = ds[k] == "*" ? ds[k] : r.chance( 1, 2 ) ? model::up( ds[k] ) : "*";
            else ds[k] = "dom" + S( (long) r.below( 3 ) );
            l[4].clear(); for( auto &y: ds ) l[4] += ( l[4].empty() ? "" : "," ) + y;
         }
         auto more = l;// one more record, before or after
         const bool ins = l[0] == "rec" && r.chance( p, 150 ), before = r.chance( 1, 2 );
         if( ins ) {
            more[3] = keys( l[3] == "-" ? 0 : (int) tools::splitAt( l[3], ',' ).size() );
            if( r.chance( 2, 3 ) ) more[4] = vals( types[l[2]], users[l[2]] );
         }
         if( ins && before ) out.push_back( more );
         out.push_back( l );
         if( ins && !before ) out.push_back( more );
      }
      if( r.chance( 1, 10 ) ) { const long k = r.range( 1, 5 ); line( "unnamed one.gdx " + S( k ) ); line( "unnamed two.gdx " + S( r.chance( 1, 2 ) ? k : r.range( 0, 5 ) ) ); }
      if( r.chance( 1, 14 ) ) line( r.chance( 1, 2 ) ? "junk two.gdx 300 7" : "cut one.gdx " + S( r.range( 0, 999 ) ) );
      if( r.chance( 1, 8 ) ) line( r.chance( 1, 2 ) ? "junk diffile.gdx 30 7" : "file diffile.gdx 7 0 0 1" );
      std::string t = "tool diff one.gdx ";
      t += r.chance( 1, 3 ) ? "two" : r.chance( 1, 20 ) ? "missing.gdx" : "two.gdx";
      if( r.chance( 1, 3 ) ) t += r.chance( 1, 2 ) ? " res.gdx" : " sub/result";
      static const char *E[] { "1e-6", "0.0001", "0.5", "3", "1e-9" };
      if( r.chance( tol ? 3 : 1, 4 ) ) t += std::string( " Eps=" ) + E[r.below( 5 )];
      if( r.chance( 1, 4 ) ) t += std::string( " RelEps=" ) + E[r.below( 5 )];
      static const char *FL[] { "L", "M", "Lo", "Up", "Scale", "Prior", "All" };
      if( r.chance( 1, 4 ) ) { t += std::string( " Field=" ) + FL[r.below( 7 )]; if( r.chance( 1, 2 ) ) t += " FldOnly"; }
      bool wide = false; for( auto &y: syms ) wide |= y.type >= 2 && y.dim >= 18;
      if( r.chance( wide ? 3 : 1, 5 ) ) t += " DiffOnly";
      if( r.chance( 1, 6 ) ) t += " CmpDefaults";
      if( r.chance( domChg ? 3 : 1, 6 ) ) t += " CmpDomains";
      if( r.chance( 1, 8 ) ) t += " IgnoreOrder";
      if( r.chance( 1, 6 ) ) t += r.chance( 1, 2 ) ? " SetDesc=N" : " SetDesc=Y";
      if( r.chance( 1, 8 ) ) t += " " + enc( "ID=" + someNames() );
      if( r.chance( 1, 8 ) ) t += " " + enc( "SkipID=" + someNames() );
      if( r.chance( 1, 8 ) ) t += " MatrixFile";
      if( r.chance( 1, 20 ) ) t += r.chance( 1, 2 ) ? " IDE=Y" : " IDE=n";
      static const char *BAD[] { "Eps=-1", "Eps=abc", "RelEps=-0.1", "RelEps=1.2.3", "Field=X", "SetDesc=maybe", "FldOnly", "@nowhere.txt" };
      if( r.chance( 1, 20 ) ) t += std::string( " " ) + BAD[r.below( 8 )];
      line( intoFile( t, 2, 12 ) );
   }
   void dump()
   {
      pools( false );
      file( "in.gdx", r.chance( 1, 6 ) );
      if( r.chance( 1, 10 ) ) line( "unnamed in.gdx " + S( r.range( 1, 5 ) ) );
      if( r.chance( 1, 14 ) ) line( r.chance( 1, 2 ) ? "junk in.gdx 300 7" : "cut in.gdx " + S( r.range( 0, 999 ) ) );
      std::string t = "tool dump ";
      t += r.chance( 1, 5 ) ? "in" : r.chance( 1, 30 ) ? "missing.gdx" : "in.gdx";
      if( r.chance( 1, 2 ) ) t += " Output=out.txt";
      const int what = (int) r.below( 12 );
      const bool csv = what == 0 || what == 1 || what == 2;
      const std::string sy = r.chance( 1, 20 ) ? "not_there" : r.chance( 1, 60 ) ? std::string( (size_t) r.range( 250, 600 ), 'n' ) : r.pick( syms ).name;
      if( csv ) {
         t += " Symb=" + sy + " Format=csv";
         if( r.chance( 1, 3 ) ) t += " CSVAllFields";
         if( r.chance( 1, 3 ) ) t += " CSVSetText";
         if( r.chance( 1, 3 ) ) t += r.chance( 3, 4 ) ? " CDim=Y" : " CDim=N";
         if( r.chance( 1, 5 ) ) t += " " + enc( "Header=k1,k2" );
      }
      else if( what == 3 ) t += " Symbols"; else if( what == 4 ) t += " DomainInfo"; else if( what == 5 ) t += r.chance( 1, 2 ) ? " SymbolsAsSet" : " SymbolsAsSetDI"; else if( what == 6 ) t += r.chance( 3, 4 ) ? " SetText" : " -V";
      else if( what == 7 ) t += " Symb=" + sy;
      if( what > 6 && r.chance( 1, 8 ) ) t += " Format=gamsbas";
      else if( what > 6 && r.chance( 1, 10 ) ) t += " Format=normal";
      if( r.chance( 1, 8 ) && ( csv || what > 6 ) ) t += " UelTable=ue";
      static const char *DL[] { "comma", "period", "tab", "blank", "semicolon" };
      int dl = -1;
      if( r.chance( 1, 4 ) ) { dl = (int) r.below( 5 ); if( csv && dl == 1 ) dl = 4; t += std::string( " Delim=" ) + DL[dl]; }
      if( r.chance( 1, 6 ) && !( csv && ( dl == 0 || dl < 0 ) ) ) t += r.chance( 2, 3 ) ? " DecimalSep=comma" : " DecimalSep=period";
      if( r.chance( 1, 8 ) ) t += " NoHeader";
      if( r.chance( 1, 10 ) && what > 6 ) t += " NoData";
      if( r.chance( 1, 6 ) ) t += r.chance( 1, 2 ) ? " dFormat=hexponential" : " dFormat=hexBytes";
      if( r.chance( 1, 4 ) ) t += r.chance( 2, 3 ) ? " FilterDef=N" : " FilterDef=Y";
      if( r.chance( 1, 10 ) ) t += " EpsOut=myeps";
      if( r.chance( 1, 10 ) ) t += " NaOut=none";
      if( r.chance( 1, 10 ) ) t += " PinfOut=infty";
      if( r.chance( 1, 10 ) ) t += " MinfOut=minfty";
      if( r.chance( 1, 10 ) ) t += " UndfOut=undefined";
      if( r.chance( 1, 10 ) ) t += " ZeroOut=nil";
      if( r.chance( 1, 15 ) && what != 6 ) t += " IDE=Y";
      if( r.chance( 1, 15 ) ) {
         static const char *BAD[] { "Bogus", "Symb", "Symb=a Symb=b", "Delim=tab Delim=tab", "Delim=colon", "DecimalSep=tab", "DecimalSep=period DecimalSep=period", "Format=xml", "Format=csv Format=csv", "dFormat=hex", "Output=a.txt Output=b.txt", "UelTable=a UelTable=b", "IDE", "CDim", "NoHeader=Y", "Format=csv Symb=''", "Delim=comma DecimalSep=comma" };
         t += std::string( " " ) + BAD[r.below( 17 )];
      }
      auto l = splitLine( t );
      t = l[0] + " " + l[1] + " " + l[2];
      for( size_t i = 3; i < l.size(); i++ ) {
         const auto w = dec( l[i] ); const auto e = w.find( '=' );
         if( e == std::string::npos || e + 1 == w.size() || !r.chance( 1, 12 ) ) { t += " " + l[i]; continue; }
         const auto k = w.substr( 0, e ), v = w.substr( e + 1 );
         switch( r.below( 4 ) ) { case 0: t += " " + k + " " + enc( v ); break; case 1: t += " " + k + " " + enc( "=" + v ); break; case 2: t += " " + enc( k + "=" ) + " " + enc( v ); break; default: t += " " + k + " " + enc( "=" ) + " " + enc( v ); }
      }
      line( t );
   }
   // conditions for one more run, placed by what the undisturbed run did
   Line fault( const Run &c, int variant )
   {
      auto n = [&]( const char *k ) { auto it = c.counts.find( k ); return it == c.counts.end() ? 0L : it->second; };
      auto mk = [&]( const char *call, const char *kind, long at, long arg, bool sticky ) { return splitLine( std::string( "fault " ) + call + " " + kind + " " + S( at ) + " " + S( arg ) + " " + S( sticky ) ); };
      static const char *WK[] { "eio", "enospc", "edquot", "partial" };
      switch( variant ) {
         case 0: if( !n( "w" ) ) return {}; return mk( "write", WK[r.below( 4 )], (long) r.below( (uint64_t) n( "w" ) ), r.range( 0, 300 ), r.chance( 1, 2 ) );
         case 1: if( !n( "r" ) ) return {}; return mk( "read", r.chance( 1, 3 ) && !parFile ? "eof" : "eio", (long) r.below( (uint64_t) n( "r" ) ), 0, r.chance( 1, 2 ) );
         case 2: if( !n( "s" ) ) return {}; return mk( "lseek", "eio", (long) r.below( (uint64_t) n( "s" ) ), 0, r.chance( 1, 2 ) );
         case 3: {
            const int k = (int) r.below( 6 );
            if( k == 0 && n( "o" ) ) return mk( "open", r.chance( 1, 2 ) ? "eacces" : "emfile", (long) r.below( (uint64_t) n( "o" ) ), 0, r.chance( 1, 3 ) );
            if( k == 1 && n( "n" ) ) return mk( "rename", r.chance( 1, 2 ) ? "eacces" : "eio", (long) r.below( (uint64_t) n( "n" ) ), 0, 0 );
            if( k == 2 && n( "u" ) ) return mk( "unlink", "eacces", (long) r.below( (uint64_t) n( "u" ) ), 0, 0 );
            if( k == 3 ) return mk( "opendir", "eacces", (long) r.below( 2 ), 0, 0 );
            if( !n( "c" ) ) return {};
            return mk( "close", "eio", (long) r.below( (uint64_t) n( "c" ) ), r.chance( 1, 2 ) ? r.range( 1, 400 ) : 0, 0 );
         }
         case 4: if( !c.bytesW ) return {}; return splitLine( "quota " + S( (long) r.below( (uint64_t) c.bytesW ) ) );
         default: return splitLine( "chaos " + S( (long) r.below( 1000000 ) ) + " " + S( r.range( 0, 60 ) ) + " " + S( r.range( 0, 30 ) ) + " " + S( r.chance( 1, 3 ) ? r.range( 1, 600 ) : 0 ) );
      }
   }
};
constexpr int VARS = 6;

Result runSeed( const std::string &prop, uint64_t seed, int only, const char *save )
{
   Result res;
   TGen g( seed );
   if( st ) { st->seed = seed; st->variant = -1; }
   if( prop == "C15" ) g.merge(); else if( prop == "C16" ) g.diff(); else g.dump();
   const std::vector<Line> base = g.out;
   res.script = base;
   if( save && only == -1 ) { saveLines( save, prop, base, seed, -1 ); }
   Setup s = setup( base );
   Run clean;
   auto e = cleanRun( s, clean );
   res.hash = clean.hash;
   if( !e.empty() ) { res.viol = true; res.msg = s.tool + ": " + e; return res; }
   for( int v = 0; v < VARS; v++ ) {
      if( only == -2 && ( ( seed * 0x9E3779B97F4A7C15ull >> 32 ) + (uint64_t) v ) % 2 ) continue;// half of them per seed: more worlds
      g.r = Rng( seed * 7919 + (uint64_t) v );
      const Line f = g.fault( clean, v );
      if( f.empty() || ( only >= 0 && only != v ) ) continue;
      if( st ) st->variant = v;
      auto sc = base; sc.push_back( f );
      if( save && only == v ) saveLines( save, prop, sc, seed, v );
      s.conds = { f };
      Run r;
      e = faultRun( s, clean, r );
      res.hash = ( res.hash ^ r.hash ) * 1099511628211ull;
      if( !e.empty() ) { res.viol = true; res.msg = s.tool + ": " + e; res.script = sc; return res; }
   }
   return res;
}
}// namespace sim
