#include "exec.hpp"
#include "codec.hpp"
#include <cstdio>
#include <cstring>

using namespace model;
namespace sim {
extern void ( *onLine )( const Line & );

std::string enc( const std::string &s )
{
   if( s.empty() ) return "%";
   std::string r;
   char b[4];
   for( unsigned char c: s ) {
      if( isalnum( c ) || strchr( "_.*/-", c ) ) r += (char) c;
      else { snprintf( b, sizeof b, "%%%02x", c ); r += b; }
   }
   return r;
}
std::string dec( const std::string &s )
{
   std::string r;
   for( size_t i = 0; i < s.size(); i++ ) {
      if( s[i] == '%' ) {
         if( i + 2 < s.size() + 0 && isxdigit( (unsigned char) s[i + 1] ) ) { r += (char) strtol( s.substr( i + 1, 2 ).c_str(), nullptr, 16 ); i += 2; }
      }
      else r += s[i];
   }
   return r;
}
std::string encD( double d )
{
   char b[64];
   snprintf( b, sizeof b, "%.17g", d );
   if( bitsOf( strtod( b, nullptr ) ) == bitsOf( d ) ) return b;
   snprintf( b, sizeof b, "x%016llx", (unsigned long long) bitsOf( d ) );
   return b;
}
double decD( const std::string &s ) { return s[0] == 'x' ? dblOf( strtoull( s.c_str() + 1, nullptr, 16 ) ) : strtod( s.c_str(), nullptr ); }
std::string joinLine( const Line &l )
{
   std::string r;
   for( auto &t: l ) { if( !r.empty() ) r += ' '; r += t; }
   return r;
}
Line splitLine( const std::string &s )
{
   Line l; std::istringstream is( s ); std::string t;
   while( is >> t ) l.push_back( t );
   return l;
}
static std::vector<std::string> splitC( const std::string &s )
{
   std::vector<std::string> r;
   if( s == "-" ) return r;
   size_t p = 0;
   while( true ) {
      size_t q = s.find( ',', p );
      r.push_back( s.substr( p, q == std::string::npos ? q : q - p ) );
      if( q == std::string::npos ) break;
      p = q + 1;
   }
   return r;
}
static std::vector<std::string> decList( const std::string &s ) { auto v = splitC( s ); for( auto &x: v ) x = dec( x ); return v; }
static std::vector<int> intList( const std::string &s ) { std::vector<int> r; for( auto &x: splitC( s ) ) r.push_back( atoi( x.c_str() ) ); return r; }
static std::vector<double> dblList( const std::string &s ) { std::vector<double> r; for( auto &x: splitC( s ) ) r.push_back( decD( x ) ); return r; }
static std::string show( const std::vector<int> &k ) { std::string r = "("; for( int x: k ) r += std::to_string( x ) + ","; return r + ")"; }
static std::string show( const std::vector<double> &k ) { std::string r = "["; for( double x: k ) r += encD( x ) + ","; return r + "]"; }

struct StrBufs {// string arguments handed to the library; heap blocks so that overruns are seen
   std::vector<std::unique_ptr<char[]>> b;
   std::vector<char *> p;
   explicit StrBufs( int n, int len = 256 ) { for( int i = 0; i < n; i++ ) { b.emplace_back( new char[(size_t) len] ); p.push_back( b.back().get() ); memset( p.back(), 'Z', (size_t) len ); p.back()[len - 1] = 0; } }
   char **data() { return p.data(); }
};
static std::vector<const char *> cptr( const std::vector<std::string> &v ) { std::vector<const char *> r; for( auto &x: v ) r.push_back( x.c_str() ); return r; }

Exec::Exec() { misuseOk = true; }
Exec::~Exec()
{
   if( !shared ) { M.failAt = -1; D.armed.clear(); }
   for( auto &x: s ) if( x.h ) { try { gdxFree( &x.h ); } catch( ... ) {} }
}
void Exec::viol( const std::string &m ) { M.inApi = false; throw Viol( "line " + std::to_string( curLine + 1 ) + " (" + curOp + "): " + m ); }
void Exec::note( const std::string &t )
{
   for( unsigned char c: t ) mix( c );
   if( log ) log->push_back( t );
}

int Exec::api( int si, const std::function<int()> &f )
{
   const size_t h0 = D.hardSlots.size();
   D.curSlot = si;
   int r {};
   bool badAlloc {};
   std::string other;
   M.inApi = true;
   try { r = f(); }
   catch( const std::bad_alloc & ) { badAlloc = true; }
   catch( const std::exception &e ) { other = e.what(); if( other.empty() ) other = "exception"; }
   M.inApi = false;
   D.curSlot = -1;
   for( size_t i = h0; i < D.hardSlots.size(); i++ ) { int x = D.hardSlots[i] < 0 ? si : D.hardSlots[i]; s[x].hard = true; }
   if( D.overrun ) viol( "no progress: storage call limit exceeded" );
   if( !other.empty() ) viol( "exception left the library: " + other );
   if( badAlloc ) {
      if( !M.fired ) viol( "out-of-memory exception without a memory fault" );
      if( !s[si].threw ) s[si].lostBefore = s[si].lost;
      s[si].threw = s[si].hard = s[si].reported = s[si].lost = true;
      r = 0;
   }
   mix( (uint64_t) (int64_t) r );
   return r;
}

// compare a success flag; true if both succeeded (so the data can be compared)
bool Exec::res( int si, int real, bool mod )
{
   Slot &S = s[si];
   compared++;
   if( log && si == logSlot ) log->push_back( curOp.substr( 0, 60 ) + " -> " + std::to_string( real != 0 ) );
   uint64_t k = (uint64_t) S.m.mode * 64 + ( real ? 1 : 0 ) + ( S.hard ? 2 : 0 );
   for( char c: curOp ) { if( c == ' ' ) break; k = k * 131 + (unsigned char) c; }
   trans.insert( k );
   if( S.lost ) { if( !real ) S.reported = true; return false; }
   if( !!real == mod ) return real;
   if( S.hard && !real && mod ) { S.reported = S.lost = true; return false; }
   if( quietModel ) { S.lost = true; return false; }
   viol( std::string( "call returned " ) + ( real ? "success" : "failure" ) + ", expected " + ( mod ? "success" : "failure" ) );
}

void Exec::post( int si )
{// after a call: errors are counted exactly when a call fails (how many per call is not promised)
   Slot &S = s[si];
   if( !S.h || quietModel ) return;
   const int real = api( si, [&] { return gdxErrorCount( S.h ); } );
   const long md = S.m.errTotal - S.prevModel, rd = real - S.prevReal;
   S.prevModel = S.m.errTotal; S.prevReal = real;
   if( S.hard || S.lost || S.threw ) return;
   if( md < 0 ? real != S.m.errTotal : ( md > 0 ) != ( rd > 0 ) ) viol( "gdxErrorCount went from " + std::to_string( real - rd ) + " to " + std::to_string( real ) + ", the call should " + ( md > 0 ? "" : "not " ) + "have counted an error" );
}

void Exec::crashNow( int closing )
{// the simulated process died: only what reached the disk survives
   crashes++;
   for( int i = 0; i < NS; i++ ) {
      Slot &S = s[i];
      if( S.h && S.m.mode != NotOpen && S.m.writing && !S.threw ) {
         FileState f;
         f.mayRefuse = true;
         if( S.m.append && S.base ) f.cand.push_back( *S.base );
         if( i == closing ) { Obj c = S.m; f.cand.push_back( c.close() ); }
         if( S.lost || S.hard ) { f = FileState {}; f.unknown = true; }
         fs[S.file] = f;
      }
   }
   D.dead = true;
   M.failAt = -1;
   for( auto &S: s ) {
      if( !S.h ) continue;
      gdxFree( &S.h );
      S = Slot {};
   }
   D.dead = false;
   D.armed.clear();
   for( auto &f: D.fds ) { f.open = false; f.f.reset(); }
}

// memory ran out and the exception left the library: the caller drops the object
void Exec::dropThrown( int si, const Line &l )
{
   Slot &S = s[si];
   const std::string &op = l[0];
   FileState f;
   f.mayRefuse = true;
   std::string path;
   if( ( op == "openw" || op == "openw0" ) && S.m.mode == NotOpen ) {
      path = dec( l[2] );
      auto it = D.files.find( norm( path.c_str() ) );
      if( preOpen && it != D.files.end() && it->second->d == *preOpen ) path.clear();// failed before the file was touched
   }
   else if( op == "opena" && S.m.mode == NotOpen ) { path = dec( l[2] ); auto it = fs.find( path ); if( it != fs.end() ) { f = it->second; f.mayRefuse = true; } else path.clear(); }
   else if( S.m.mode != NotOpen && S.m.writing ) {
      path = S.file;
      if( S.m.append && S.base ) f.cand.push_back( *S.base );
      if( op == "close" ) { if( S.lostBefore ) { f = FileState {}; f.unknown = true; } else { Obj c = S.m; f.cand.push_back( c.close() ); } }
   }
   crashes++;
   const long fa = M.failAt; M.failAt = -1;
   D.curSlot = si; M.inApi = true;
   gdxFree( &S.h );
   M.inApi = false; D.curSlot = -1;
   M.failAt = fa;
   if( !path.empty() ) fs[path] = f;
   S = Slot {};
}

static bool envCompress()
{
   auto e = D.env.find( "GDXCOMPRESS" );
   return e != D.env.end() && !e->second.empty() && toupper( e->second[0] ) != 'N' && e->second[0] != '0';
}

// the words a POSIX shell passes on, or nothing when the line means anything more than one plain command
static std::optional<std::vector<std::string>> shellWords( const std::string &c )
{
   std::vector<std::string> w;
   std::string cur;
   bool in {};
   for( size_t i = 0; i < c.size(); i++ ) {
      const char x = c[i];
      if( x == '\'' ) { in = true; for( i++; i < c.size() && c[i] != '\''; i++ ) cur += c[i]; if( i >= c.size() ) return {}; }
      else if( x == '"' ) {
         in = true;
         for( i++; i < c.size() && c[i] != '"'; i++ ) {
            if( c[i] == '$' || c[i] == '`' ) return {};
            if( c[i] == '\\' && i + 1 < c.size() && strchr( "$`\"\\", c[i + 1] ) ) i++;
            cur += c[i];
         }
         if( i >= c.size() ) return {};
      }
      else if( x == '\\' ) { if( i + 1 >= c.size() ) return {}; cur += c[++i]; in = true; }
      else if( x == ' ' || x == '\t' ) { if( in ) w.push_back( cur ); cur.clear(); in = false; }
      else if( strchr( ";&|<>$`()*?[\n{", x ) || ( !in && ( x == '#' || x == '~' ) ) ) return {};
      else { cur += x; in = true; }
   }
   if( in ) w.push_back( cur );
   return w;
}

bool Exec::checkConvert( int si, size_t before, int rc, bool wr )
{// true: the converter was started during this close
   Slot &S = s[si];
   const size_t n = D.commands.size() - before;
   if( !convCheck ) return n > 0;
   auto trimUp = []( std::string x ) { while( !x.empty() && (unsigned char) x.front() <= ' ' ) x.erase( 0, 1 ); while( !x.empty() && (unsigned char) x.back() <= ' ' ) x.pop_back(); return model::up( x ); };
   auto e = D.env.find( "GDXCONVERT" );
   std::string conv = e == D.env.end() ? "" : trimUp( e->second );
   if( conv.empty() ) conv = "V7";
   const std::string flag = conv + ( conv == "V5" ? "" : envCompress() ? "C" : "U" );
   const bool want = wr && S.m.autoConvert && flag != std::string( "V7" ) + ( S.m.c.compr ? "C" : "U" );
   compared++;
   if( n > 1 ) viol( "the converter was started " + std::to_string( n ) + " times by one close" );
   if( S.noContent ) {// an earlier failed session left the file: its compression is not known
      if( n && D.sysCalls.back().ret != 0 && rc == 0 ) viol( "the converter failed but close returned 0" );
      return n > 0;
   }
   if( n && !want ) viol( "the converter was started (" + D.commands.back() + ") although no conversion is asked for" );
   if( !n && want && !S.hard && !S.lost ) viol( "the converter was not started although the environment asks for " + flag );
   if( !n ) return false;
   const auto &c = D.sysCalls.back();
   const auto w = shellWords( D.commands.back() );
   if( !w ) viol( "the command line <" + D.commands.back() + "> does not name one plain command for the file " + S.file );
   if( *w != std::vector<std::string> { "gdxcopy", "-" + flag, "-Replace", S.file } ) viol( "the command line <" + D.commands.back() + "> is not a conversion of " + S.file + " to " + flag );
   if( S.lost || ( S.hard && S.reported ) ) viol( "the converter was started on a file that was not written completely" );
   for( auto &o: c.open ) if( o == norm( S.file.c_str() ) ) viol( "the converter was started while the file was still open" );
   auto f = D.files.find( norm( S.file.c_str() ) ); auto q = c.files.find( norm( S.file.c_str() ) );
   if( f == D.files.end() || q == c.files.end() || f->second->d != q->second ) viol( "the file changed after the converter was started" );
   if( c.ret != 0 && rc == 0 ) viol( "the converter failed (status " + std::to_string( c.ret ) + ") but close returned 0" );
   if( c.ret == 0 && rc != 0 && !S.hard ) viol( "the converter succeeded but close returned " + std::to_string( rc ) );
   return true;
}

void Exec::doOpen( const Line &l )
{
   const int si = atoi( l[1].c_str() );
   Slot &S = s[si];
   const std::string path = dec( l[2] );
   const std::string op = l[0];
   int err = -12345, ok {};
   auto it = fs.find( path );
   if( S.m.mode == NotOpen && !S.threw ) { S.hard = S.lost = S.reported = false; S.damaged = S.noContent = S.skipped = false; }
   if( it != fs.end() && op != "openw" && op != "openw0" && ( it->second.cand.size() > 1 || ( it->second.mayRefuse && !it->second.cand.empty() ) ) && si != VS && S.m.mode == NotOpen ) {
      verify( path, 1 );
      it = fs.find( path );
   }
   const bool wasOpen = S.m.mode != NotOpen;
   preOpen.reset();
   if( M.failAt >= 0 ) if( auto q = D.files.find( norm( path.c_str() ) ); q != D.files.end() ) preOpen = q->second->d;
   if( op == "openw" ) { const std::string pr = dec( l[4] ); ok = api( si, [&] { return gdxOpenWriteEx( S.h, path.c_str(), pr.c_str(), atoi( l[3].c_str() ), &err ); } ); }
   else if( op == "openw0" ) { const std::string pr = dec( l[4] ); ok = api( si, [&] { return gdxOpenWrite( S.h, path.c_str(), pr.c_str(), &err ); } ); }
   else if( op == "opena" ) { const std::string pr = dec( l[3] ); ok = api( si, [&] { return gdxOpenAppend( S.h, path.c_str(), pr.c_str(), &err ); } ); }
   else { const int rm0 = atoi( l[3].c_str() ), rm = it != fs.end() && it->second.foreign && rm0 > 0 ? rm0 & ~1 : rm0; ok = rm < 0 ? api( si, [&] { return gdxOpenRead( S.h, path.c_str(), &err ); } ) : api( si, [&] { return gdxOpenReadEx( S.h, path.c_str(), rm, &err ); } ); }
   const bool good = ok && err == 0;
   if( log && si == logSlot ) log->push_back( op + " -> " + std::to_string( good ) );
   trans.insert( 7777 + (uint64_t) good + 2 * wasOpen + 4 * (uint64_t) S.hard + 8 * ( op == "openw" ) + 16 * ( op == "opena" ) );
   if( wasOpen ) {// opening an object that is in use
      if( S.lost || S.threw ) return;
      if( good ) viol( "open succeeded on an object that already has a file open" );
      if( err == 0 ) viol( "open failed but reported error number 0" );
      return;
   }
   if( S.threw ) return;
   if( !ok && err == 0 ) viol( "open failed but reported error number 0" );
   if( ok && err != 0 && err != -12345 ) { /* opened with a complaint: treated as refused below */ }
   const bool creating = op == "openw" || op == "openw0";
   if( !good ) {
      const bool h = S.hard;
      if( ok ) viol( "open returned success together with error number " + std::to_string( err ) );
      S.hard = S.lost = false;
      S.m.clearSession();
      S.m.anyError = true;
      S.m.errTotal = api( si, [&] { return gdxErrorCount( S.h ); } ); S.prevModel = S.prevReal = S.m.errTotal;// the open reports through ErrNr
      if( creating ) {
         if( h ) { FileState f; f.unknown = true; if( D.files.count( norm( path.c_str() ) ) ) fs[path] = f; }
         else if( !path.empty() ) viol( "creating a file failed with error " + std::to_string( err ) + " without a storage fault" );
         return;
      }
      if( h ) return;
      if( it == fs.end() ) return;// no such file
      FileState &f = it->second;
      if( f.unknown || f.damaged ) return;
      if( f.mayRefuse ) { f.cand.clear(); return; }
      if( f.cand.empty() ) return;
      if( op == "opena" && ( f.cand[0].version < 7 || f.foreign ) ) return;
      viol( "open of a valid file was refused with error " + std::to_string( err ) );
   }
   // opened
   sessions++;
   S.file = path;
   S.base.reset();
   if( creating ) {
      S.m.openWrite( path, op == "openw" && atoi( l[3].c_str() ) > 0, dec( l[4] ) );
      if( op == "openw0" ) { auto e = D.env.find( "GDXCOMPRESS" ); S.m.c.compr = envCompress(); }
      FileState f; f.mayRefuse = true;
      fs[path] = f;// nothing usable until the close
      return;
   }
   if( it == fs.end() ) viol( "open of a file that does not exist succeeded" );
   FileState &f = it->second;
   if( f.unknown ) { S.m.openFrom( path, Content {}, op == "opena", 0 ); S.lost = S.hard = S.noContent = true; if( op == "opena" ) S.m.writing = true; return; }
   if( f.cand.empty() ) viol( "a file that was never completely written opened successfully" );
   if( op == "opena" && f.cand[0].version < 7 ) viol( "append to an old-format file succeeded" );
   S.m.openFrom( path, f.cand[0], op == "opena", op == "opena" || l[3][0] == '-' ? 0 : f.foreign ? atoi( l[3].c_str() ) & ~1 : atoi( l[3].c_str() ) );
   if( op == "opena" ) { S.base = f.cand[0]; S.m.c.version = 7; }
   if( f.damaged ) S.damaged = S.hard = true;
}

void Exec::resync( int si )
{// after a fault the number of counted errors is whatever the object says
   Slot &S = s[si];
   S.prevModel = S.prevReal = S.m.errTotal = api( si, [&] { return gdxErrorCount( S.h ); } );
   S.m.nextAcr = api( si, [&] { return gdxAcronymNextNr( S.h, -1 ); } );// and so is how far a failing read got through its acronyms
}

void Exec::doClose( int si, bool )
{
   Slot &S = s[si];
   if( S.threw ) return;
   const bool open = S.m.mode != NotOpen, wr = S.m.writing, repBefore = S.reported;
   const size_t cmdBefore = D.commands.size();
   const int rc = api( si, [&] { return gdxClose( S.h ); } );
   if( log && si == logSlot ) log->push_back( "close -> " + std::to_string( open ? rc : 0 ) );
   trans.insert( 9999 + (uint64_t) ( rc != 0 ) + 2 * open + 4 * (uint64_t) S.hard + 8 * wr + 16 * (uint64_t) S.m.mode );
   if( D.dead ) return;// handled by the caller
   if( S.threw ) return;
   const bool ran = checkConvert( si, cmdBefore, rc, open && wr );
   if( !open ) return;
   if( rc != 0 ) S.reported = true;
   if( !wr ) {
      if( rc != 0 && !S.hard && !S.lost ) viol( "closing a read session returned " + std::to_string( rc ) );
      if( S.hard || S.lost ) resync( si );
      S.m.clearSession(); S.hard = S.lost = false;
      return;
   }
   const bool lost = S.lost, hard = S.hard;
   Content c = S.m.close();
   if( hard || lost ) resync( si );
   S.hard = S.lost = false;
   const bool convFailed = rc != 0 && ran && !D.sysCalls.empty() && D.sysCalls.back().ret != 0;
   if( !hard && !lost && rc != 0 && !convFailed && !quietModel ) viol( "close of a write session returned " + std::to_string( rc ) + " although nothing failed" );
   FileState f;
   if( lost || ( S.reported && ( !convFailed || repBefore ) ) ) { f.unknown = true; fs[S.file] = f; return; }
   f.cand.push_back( c );
   fs[S.file] = f;
   if( hard ) verify( S.file, 3 );// nothing was reported: everything must be there
}

void Exec::verify( const std::string &path, uint64_t seed )
{
   verifies++;
   auto armed = D.armed; D.armed.clear();
   const auto cs = D.chaosSeed; const auto cap = D.cap; const auto fa = M.failAt;
   D.chaosSeed = 0; D.cap = 0; M.failAt = -1;
   const auto op = curOp;
   const bool qm = quietModel;
   quietModel = false;
   auto it = fs.find( path );
   if( it != fs.end() ) {
      std::vector<Content> cands = it->second.cand;
      const FileState st = it->second;
      if( cands.empty() ) cands.emplace_back();
      std::string first;
      bool okc {};
      for( size_t ci = 0; ci < cands.size() && !okc; ci++ ) {
         FileState one = st;
         if( !st.cand.empty() ) one.cand = { cands[ci] };
         fs[path] = one;
         try {
            curOp = op + " [verify candidate " + std::to_string( ci ) + "]";
            Slot &S = s[VS];
            if( S.h ) { gdxFree( &S.h ); }
            S = Slot {};
            step( { "create", std::to_string( VS ) } );
            step( { "openr", std::to_string( VS ), enc( path ), "0" } );
            if( S.m.mode != NotOpen && !S.lost ) {
               qall( VS );
               const int n = (int) S.m.c.syms.size();
               for( int y = 0; y <= n; y++ ) {
                  step( { "rstart", std::to_string( VS ), ( seed + (uint64_t) y ) % 3 == 0 && y > 0 ? "str" : "raw", std::to_string( y ) } );
                  if( S.m.in( { RRaw, RStr } ) ) step( { "rnext", std::to_string( VS ), "-1" } );
                  else if( !S.hard ) viol( "reading symbol " + std::to_string( y ) + " could not be started" );
               }
               qall( VS );
            }
            if( S.m.mode != NotOpen ) step( { "close", std::to_string( VS ) } );
            step( { "free", std::to_string( VS ) } );
            okc = true;
         }
         catch( const Viol &v ) {
            if( first.empty() ) first = v.what();
            if( s[VS].h ) { try { gdxFree( &s[VS].h ); } catch( ... ) {} s[VS] = Slot {}; }
            fs[path] = st;
         }
      }
      if( !okc ) {
         std::string m = first;
         if( cands.size() > 1 ) m = "the file shows neither the content before nor the content after the session; " + m;
         throw Viol( m );
      }
   }
   curOp = op;
   quietModel = qm;
   D.armed = armed; D.chaosSeed = cs; D.cap = cap; M.failAt = fa;
}

static void ucheck( bool c, const char *m ) { if( !c ) throw std::logic_error( m ); }

std::string Exec::realDump( int si )
{
   gdxHandle_t h = s[si].h;
   std::ostringstream o;
   auto a = [&]( const std::function<int()> &f ) { return api( si, f ); };
   const bool open = s[si].m.mode != NotOpen;
   int x {}, y {}, z {}, sy {}, ue {};
   StrBufs b( 24 );
   char *t1 = b.p[20], *t2 = b.p[21];
   a( [&] { return gdxSystemInfo( h, &sy, &ue ); } );
   o << "system " << sy << ' ' << ue << '\n';
   a( [&] { return gdxFileInfo( h, &x, &y ); } );
   o << "file " << x << ' ' << y << '\n';
   if( open ) { a( [&] { return gdxFileVersion( h, t1, t2 ); } ); o << "producer " << t2 << '\n'; }
   x = y = -9;
   z = a( [&] { return gdxUMUelInfo( h, &x, &y ); } );
   o << "umuel " << z << ' ' << x << ' ' << y << '\n';
   const int um = std::max( 1, ue / 60 );
   for( int i = 1; i <= ue; i += i < 60 ? 1 : um ) {
      z = a( [&] { return gdxUMUelGet( h, i, t1, &x ); } );
      o << "uel " << i << ' ' << z << ' ' << t1 << ' ' << x;
      std::string nm = t1;
      y = x = -9;
      z = a( [&] { return gdxUMFindUEL( h, nm.c_str(), &x, &y ); } );
      o << " find " << z << ' ' << x << ' ' << y << '\n';
   }
   z = a( [&] { return gdxUMUelGet( h, ue + 1, t1, &x ); } );
   o << "uel+1 " << z << ' ' << x << '\n';
   for( int i = 1; i <= 5; i++ ) { t1[0] = 0; z = a( [&] { return gdxGetUEL( h, i, t1 ); } ); o << "getuel " << i << ' ' << z << ' ' << t1 << '\n'; }
   if( open ) {
      x = a( [&] { return gdxUELMaxLength( h ); } );
      y = a( [&] { return gdxSymbMaxLength( h ); } );
      o << "maxlen " << x << ' ' << y << '\n';
   }
   for( int i = 0; i <= sy + 1; i++ ) {
      x = y = -9;
      z = a( [&] { return gdxSymbolInfo( h, i, t1, &x, &y ); } );
      o << "sym " << i << ' ' << z << ' ' << t1 << ' ' << x << ' ' << y;
      std::string nm = t1;
      int dim = x;
      z = a( [&] { return gdxSymbolInfoX( h, i, &x, &y, t1 ); } );
      o << " x " << z << ' ' << x << ' ' << y << " [" << t1 << "]";
      z = a( [&] { return gdxSymbolDim( h, i ); } );
      o << " dim " << z << " txt " << a( [&] { return gdxSetHasText( h, i ); } );
      if( i >= 1 && i <= sy ) {
         x = -9;
         z = a( [&] { return gdxFindSymbol( h, nm.c_str(), &x ); } );
         o << " find " << z << ' ' << x;
         int dn[20];
         z = a( [&] { return gdxSymbolGetDomain( h, i, dn ); } );
         o << " dom " << z << ':';
         for( int d = 0; d < dim && z; d++ ) o << dn[d] << ',';
         z = a( [&] { return gdxSymbolGetDomainX( h, i, b.data() ); } );
         o << " domx " << z << ':';
         for( int d = 0; d < dim && z; d++ ) o << b.p[(size_t) d] << ',';
         for( int c = 1; a( [&] { return gdxSymbolGetComment( h, i, c, t1 ); } ); c++ ) o << " comment [" << t1 << "]";
      }
      o << '\n';
   }
   for( int i = 0; i < 400; i++ ) {
      z = a( [&] { return gdxGetElemText( h, i, t1, &x ); } );
      if( !z ) { o << "text end " << i << '\n'; break; }
      o << "text " << i << " [" << t1 << "] " << x << '\n';
   }
   const int ac = a( [&] { return gdxAcronymCount( h ); } );
   o << "acronyms " << ac << '\n';
   for( int i = 1; i <= ac; i++ ) {
      z = a( [&] { return gdxAcronymGetInfo( h, i, t1, t2, &x ); } );
      o << "acr " << i << ' ' << z << ' ' << t1 << " [" << t2 << "] " << x;
      int p, q, r;
      z = a( [&] { return gdxAcronymGetMapping( h, i, &p, &q, &r ); } );
      o << " map " << z << ' ' << p << ' ' << q << ' ' << r;
      z = a( [&] { return gdxAcronymName( h, SV_ACR * x, t1 ); } );
      o << " name " << z << ' ' << t1;
      if( x > 0 && x < 1000000 ) { double av {}; a( [&] { av = gdxAcronymValue( h, x ); return 0; } ); o << " value " << encD( av ) << ' ' << a( [&] { return gdxAcronymIndex( h, SV_ACR * x ); } ); }
      o << '\n';
   }
   double v[GMS_SVIDX_MAX] {};
   a( [&] { return gdxGetSpecialValues( h, v ); } );
   o << "sv";
   for( int i: { GMS_SVIDX_UNDEF, GMS_SVIDX_NA, GMS_SVIDX_PINF, GMS_SVIDX_MINF, GMS_SVIDX_EPS } ) { int sv = -9; z = a( [&] { return gdxMapValue( h, v[i], &sv ); } ); o << ' ' << encD( v[i] ) << ':' << z << ':' << sv; }
   o << '\n';
   o << "flags " << a( [&] { return gdxStoreDomainSets( h ); } ) << a( [&] { return gdxAllowBogusDomains( h ); } ) << a( [&] { return gdxMapAcronymsToNaN( h ); } ) << ' ' << a( [&] { return gdxAcronymNextNr( h, -1 ); } ) << '\n';
   o << "memory " << ( a( [&] { return gdxGetMemoryUsed( h ) >= 0 ? 1 : 0; } ) ) << '\n';
   if( s[si].m.in( { WDomRaw, WDomMap, WDomStr, WRaw, WMap, WStr, RRaw, RMap, RMapR, RStr } ) ) o << "dim " << a( [&] { return gdxCurrentDim( h ); } ) << '\n';
   const int ec = a( [&] { return gdxDataErrorCount( h ); } );
   o << "errors " << ec << '\n';
   static const std::set<Mode> em { RInit, WInit, RMap, RMapR, WRaw, WMap, WStr };
   if( em.count( s[si].m.mode ) )
      for( int i = 1; i <= ec; i++ ) {
         int k[20]; double ev[5] {};
         z = a( [&] { return gdxDataErrorRecordX( h, i, k, ev ); } );
         o << "err " << i << ' ' << z << ' ';
         const size_t dim = s[si].m.errs && !s[si].m.errs->empty() ? ( *s[si].m.errs )[0].k.size() : 0;
         for( size_t d = 0; d < dim; d++ ) o << k[d] << ',';
         o << ' ' << encD( ev[0] );
         int k2[20];
         z = a( [&] { return gdxDataErrorRecord( h, i, k2, ev ); } );
         o << " abs " << z << ' ';
         for( size_t d = 0; d < dim; d++ ) o << k2[d] << ',';
         o << '\n';
      }
   return o.str();
}

std::string Exec::modelDump( int si )
{
   Obj &m = s[si].m;
   std::ostringstream o;
   const bool open = m.mode != NotOpen;
   const int sy = (int) m.c.syms.size(), ue = m.c.uels.size();
   o << "system " << sy << ' ' << ue << '\n';
   o << "file " << ( open ? m.writing ? 7 : m.c.version : 0 ) << ' ' << ( open && m.c.compr ? 1 : 0 ) << '\n';
   if( open ) o << "producer " << m.c.producer.substr( 0, 255 ) << '\n';
   o << "umuel " << ( open ? 1 : 0 ) << ' ' << ue << ' ' << m.usrHigh << '\n';
   const int um = std::max( 1, ue / 60 );
   for( int i = 1; i <= ue; i += i < 60 ? 1 : um ) {
      o << "uel " << i << " 1 " << m.c.uels.at( i ) << ' ' << m.umap[(size_t) i];
      const int f = m.c.uels.find( rtrim( m.c.uels.at( i ) ) );
      o << " find " << ( f > 0 ) << ' ' << f << ' ' << ( f > 0 ? m.umap[(size_t) f] : -1 ) << '\n';
   }
   o << "uel+1 0 -1\n";
   for( int i = 1; i <= 5; i++ ) {
      const int e = m.entOf( i );
      o << "getuel " << i << ' ' << ( open && e > 0 ) << ' ' << ( !open ? "" : e > 0 ? m.c.uels.at( e ) : "?L__" + std::to_string( i ) ) << '\n';
   }
   if( open ) {
      size_t a {}, b {};
      for( auto &u: m.c.uels.v ) a = std::max( a, u.size() );
      for( auto &u: m.c.syms ) b = std::max( b, u.name.size() );
      o << "maxlen " << a << ' ' << b << '\n';
   }
   for( int i = 0; i <= sy + 1; i++ ) {
      if( i == 0 ) { o << "sym 0 1 * 1 0 x 1 " << ( open ? m.uelOrig : 0 ) << " 0 [Universe] dim 1 txt 0\n"; continue; }
      if( i > sy ) { o << "sym " << i << " 0  -1 0 x 0 0 0 [] dim -1 txt 0\n"; continue; }
      const Sym &S = m.sym( i );
      o << "sym " << i << " 1 " << S.name << ' ' << S.dim << ' ' << S.type << " x 1 " << ( S.dim == 0 ? 1 : i == m.cur ? 0 : (int) S.recs.size() ) << ' ' << S.user << " [" << S.text << "] dim " << S.dim << " txt " << ( S.hasText ? 1 : 0 );
      o << " find 1 " << i << " dom 1:";
      for( int d = 0; d < S.dim; d++ ) o << ( S.dom ? ( *S.dom )[(size_t) d] : 0 ) << ',';
      const int kind = S.domStr ? 2 : S.dom ? 3 : 1;
      o << " domx " << kind << ':';
      for( int d = 0; d < S.dim; d++ ) {
         int q = kind == 2 ? ( *S.domStr )[(size_t) d] : kind == 3 ? ( *S.dom )[(size_t) d] : 0;
         o << ( q == 0 ? std::string( "*" ) : kind == 2 ? m.c.domNames.at( q ) : m.sym( q ).name ) << ',';
      }
      for( auto &c: S.comments ) o << " comment [" << c << "]";
      o << '\n';
   }
   const bool tx = m.hasTexts();
   for( int i = 0; i < 400; i++ ) {
      if( !tx || i >= (int) m.c.texts.size() ) { o << "text end " << i << '\n'; break; }
      o << "text " << i << " [" << m.c.texts[(size_t) i] << "] " << ( m.node.count( i ) ? m.node[i] : 0 ) << '\n';
   }
   o << "acronyms " << m.c.acrs.size() << '\n';
   for( size_t i = 0; i < m.c.acrs.size(); i++ ) {
      auto &a = m.c.acrs[i];
      o << "acr " << i + 1 << " 1 " << a.name << " [" << a.text << "] " << a.map << " map 1 " << a.map << ' ' << a.readMap << ' ' << a.autoGen;
      const Acr *f {};
      for( auto &x: m.c.acrs ) if( x.map == a.map ) { f = &x; break; }
      o << " name " << ( a.map > 0 ) << ' ' << ( a.map > 0 ? f->name : "" );
      if( a.map > 0 && a.map < 1000000 ) o << " value " << encD( SV_ACR * a.map ) << ' ' << a.map;
      o << '\n';
   }
   o << "sv";
   static const int svk[5] { GMS_SV_UNDEF, GMS_SV_NA, GMS_SV_PINF, GMS_SV_MINF, GMS_SV_EPS };
   (void) svk;
   for( int i = 0; i < 5; i++ ) o << ' ' << encD( m.sv[i] ) << ":1:" << ( i == 0 ? GMS_SVIDX_UNDEF : i == 1 ? GMS_SVIDX_NA : i == 2 ? GMS_SVIDX_PINF : i == 3 ? GMS_SVIDX_MINF : GMS_SVIDX_EPS );
   o << '\n';
   o << "flags " << m.storeDom << m.bogus << m.acrNaN << ' ' << m.nextAcr << '\n';
   o << "memory 1\n";
   if( m.in( { WDomRaw, WDomMap, WDomStr, WRaw, WMap, WStr, RRaw, RMap, RMapR, RStr } ) ) o << "dim " << ( m.writing ? m.sym( m.cur ).dim : m.dimOf( m.rsym ) ) << '\n';
   const size_t ec = m.errs ? m.errs->size() : 0;
   o << "errors " << ec << '\n';
   static const std::set<Mode> em { RInit, WInit, RMap, RMapR, WRaw, WMap, WStr };
   if( em.count( m.mode ) )
      for( size_t i = 0; i < ec; i++ ) {
         auto &e = ( *m.errs )[i];
         o << "err " << i + 1 << " 1 ";
         for( int k: e.k ) o << k << ',';
         o << ' ' << encD( e.v[0] ) << " abs 1 ";
         for( int k: e.k ) o << std::abs( k ) << ',';
         o << '\n';
      }
   return o.str();
}

static std::string diffLine( const std::string &a, const std::string &b )
{
   std::istringstream x( a ), y( b );
   std::string p, q;
   while( true ) {
      bool f = (bool) std::getline( x, p ), g = (bool) std::getline( y, q );
      if( !f && !g ) return "";
      if( !f ) p = "<end>";
      if( !g ) q = "<end>";
      if( p != q ) return "got  {" + p + "}  expected  {" + q + "}";
   }
}

void Exec::qall( int si )
{
   Slot &S = s[si];
   if( S.threw ) return;
   std::string r = realDump( si );
   if( log && si == logSlot ) log->push_back( r );
   if( S.lost || quietModel ) return;
   compared++;
   std::string m = modelDump( si );
   if( r != m ) viol( "queries disagree: " + diffLine( r, m ) );
}

void Exec::writeRec( int si, const std::vector<int> &ik, const std::vector<std::string> &sk, const std::vector<double> &v )
{
   Slot &S = s[si];
   double vals[5] {};
   for( size_t i = 0; i < v.size() && i < 5; i++ ) vals[i] = v[i];
   int keys[20] {};
   std::vector<double> vv( vals, vals + 5 );
   recsW++;
   if( !sk.empty() || curOp.compare( 0, 4, "wstr" ) == 0 ) {
      auto k = sk; k.resize( 20 );
      auto p = cptr( k );
      const int r = api( si, [&] { return gdxDataWriteStr( S.h, p.data(), vals ); } );
      k.resize( (size_t) ( S.m.cur ? S.m.sym( S.m.cur ).dim : 0 ) );
      res( si, r, S.m.writeStr( k, vv ) );
      return;
   }
   for( size_t i = 0; i < ik.size() && i < 20; i++ ) keys[i] = ik[i];
   std::vector<int> k( keys, keys + ( S.m.cur ? S.m.sym( S.m.cur ).dim : 0 ) );
   if( curOp.compare( 0, 4, "wmap" ) == 0 || ( curOp.compare( 0, 4, "wgen" ) == 0 && S.m.in( { WMap, WDomMap } ) ) ) {
      const int r = api( si, [&] { return gdxDataWriteMap( S.h, keys, vals ); } );
      res( si, r, S.m.writeMap( k, vv ) );
   }
   else {
      const int r = api( si, [&] { return gdxDataWriteRaw( S.h, keys, vals ); } );
      res( si, r, S.m.writeRaw( k, vv ) );
   }
}

double genVal( Rng &r, const Obj &m, int type, int field )
{
   if( type == T_SET ) return r.chance( 1, 3 ) ? 0.0 : (double) r.below( m.c.texts.size() + ( r.chance( 1, 20 ) ? 3 : 0 ) );
   (void) field;
   switch( r.below( 12 ) ) {
      case 0: return 0.0;
      case 1: return 1.0;
      case 2: return (double) r.range( -100, 100 );
      case 3: return m.sv[r.below( 5 )];
      case 4: return dblOf( ( r.next() & 0xBFFFFFFFFFFFFFFFull ) & ~0x4000000000000000ull );// |x| < 2
      case 5: return (double) r.range( -1000000, 1000000 ) / 1024.0;
      case 6: return r.chance( 1, 12 ) ? SV_ACR * (double) r.range( 1, 40 ) : m.c.acrs.empty() || r.chance( 1, 2 ) ? 0.5 : SV_ACR * m.c.acrs[r.below( m.c.acrs.size() )].map;
      case 7: { static const double s[] { 5e-324, 2.2250738585072014e-308, 1.7976931348623157e299, -1.0, -0.0, 1e-300, -1e299, 123456789.0, 0.1, 1.0 / 3, 255.0, 65536.0, 4294967296.0 }; return s[r.below( 13 )]; }
      case 8: return r.chance( 1, 6 ) ? NAN : r.chance( 1, 6 ) ? INFINITY : r.chance( 1, 6 ) ? -INFINITY : -2.5;
      default: {
         double x = (double) ( (int64_t) r.next() >> 11 ) / 1048576.0;
         return x;
      }
   }
}

// many records from a seed, in the write mode in progress
void Exec::wgen( int si, uint64_t seed, long n, int shape )
{
   Slot &S = s[si];
   if( !S.m.cur ) return;
   Rng r( seed );
   const int dim = S.m.sym( S.m.cur ).dim, type = S.m.sym( S.m.cur ).type, nv = valCount( type );
   const bool raw = S.m.in( { WRaw, WDomRaw } ), str = S.m.in( { WStr, WDomStr } );
   const int ue = S.m.c.uels.size();
   std::vector<int> users;
   if( S.m.in( { WMap, WDomMap } ) ) for( auto &u: S.m.usr ) users.push_back( u.first );
   if( raw && ue == 0 && dim ) return;
   if( S.m.in( { WMap, WDomMap } ) && users.empty() && dim ) return;
   std::vector<int> k( (size_t) dim, 1 );
   bool first = true;
   for( long i = 0; i < n; i++ ) {
      std::vector<double> v;
      for( int f = 0; f < nv; f++ ) v.push_back( genVal( r, S.m, type, f ) );
      if( raw ) {
         if( dim == 0 ) { if( i ) break; }
         else {// next larger key, with jumps of every size
            if( first ) { for( auto &x: k ) x = (int) r.range( 1, std::max( 1, ue / ( shape % 3 + 1 ) / 4 ) ); }
            else {
               int d = shape % 4 == 0 ? dim - 1 : (int) r.below( (uint64_t) dim );
               while( d >= 0 && k[(size_t) d] >= ue ) d--;
               if( d < 0 ) break;
               const int room = ue - k[(size_t) d];
               k[(size_t) d] += shape % 5 == 0 ? 1 : (int) r.range( 1, std::min( room, r.chance( 1, 8 ) ? room : 3 ) );
               for( int e = d + 1; e < dim; e++ ) k[(size_t) e] = shape % 2 ? (int) r.range( 1, ue ) : 1;
            }
            first = false;
         }
         auto kk = k;
         if( shape >= 10 && dim && r.chance( 1, 15 ) ) kk[r.below( (uint64_t) dim )] = (int) r.range( 1, ue );// some out of order
         writeRec( si, kk, {}, v );
      }
      else if( str ) {
         std::vector<std::string> sk;
         for( int d = 0; d < dim; d++ ) sk.push_back( ue && r.chance( 3, 4 ) ? S.m.c.uels.at( (int) r.range( 1, S.m.c.uels.size() ) ) : "g" + std::to_string( r.below( (uint64_t) std::max( 3L, shape % 2 ? n : 12 ) ) ) );
         if( !dim && i ) break;
         const auto op = curOp;
         curOp = "wstr " + op;
         writeRec( si, {}, sk, v );
         curOp = op;
      }
      else {
         if( !dim && i ) break;
         std::vector<int> mk;
         for( int d = 0; d < dim; d++ ) mk.push_back( users[r.below( users.size() )] );
         writeRec( si, mk, {}, v );
      }
      if( S.threw || D.dead ) return;
   }
}

void Exec::cmpKV( int si, const char *what, const std::vector<int> &rk, const std::vector<double> &rv, const Out &o, int dimFrst, bool cmpFrst )
{
   compared++;
   std::string w = what;
   for( size_t d = 0; d < o.k.size(); d++ ) if( rk[d] != o.k[d] ) viol( w + ": keys " + show( rk ) + " expected " + show( o.k ) );
   for( size_t i = 0; i < o.v.size(); i++ )
      if( bitsOf( rv[i] ) != bitsOf( o.v[i] ) && !( std::isnan( rv[i] ) && std::isnan( o.v[i] ) ) ) viol( w + ": values " + show( rv ) + " expected " + show( o.v ) + " at keys " + show( o.k ) );
   // a scalar has no first changed position: files of older versions deliver 1, current ones 0
   if( o.k.empty() && ( dimFrst == 0 || dimFrst == 1 ) && s[si].m.c.version < 7 ) cmpFrst = false;
   if( cmpFrst && dimFrst != o.dimFrst ) viol( w + ": first changed dimension " + std::to_string( dimFrst ) + " expected " + std::to_string( o.dimFrst ) + " at keys " + show( o.k ) );
}

// the stream of records ended although there are more: this must be visible as an error
void Exec::silentEnd( int si )
{
   Slot &S = s[si];
   const int le = api( si, [&] { return gdxGetLastError( S.h ); } );
   const int ec = api( si, [&] { return gdxErrorCount( S.h ); } );
   if( le == 0 && ec == (int) S.m.errTotal ) viol( "the record stream ended early and no error is visible" );
   S.lost = S.reported = true;
}

void Exec::doRead( int si, long cnt )
{
   Slot &S = s[si];
   for( long i = 0; cnt < 0 || i < cnt; i++ ) {
      if( i > 3000000 ) viol( "record stream does not end" );
      std::vector<double> v( 5, 0.0 );
      std::vector<int> k( 20, -77 );
      int f = -99, ok {};
      const Mode md = S.m.mode;
      if( md == RStr ) {
         StrBufs b( 20, 64 );
         ok = api( si, [&] { return gdxDataReadStr( S.h, b.data(), v.data(), &f ); } );
         if( S.threw ) return;
         if( S.lost ) { if( !ok ) return; continue; }
         Out o = S.m.nextRaw( RStr );
         if( o.ok != !!ok ) { if( S.hard && !ok ) { silentEnd( si ); return; } viol( ok ? "an additional record was delivered" : "the record stream ended early" ); }
         if( log && si == logSlot && ok ) { std::string t = "str"; for( size_t d = 0; d < o.k.size(); d++ ) t += std::string( " " ) + b.p[d]; log->push_back( t + show( v ) ); }
         if( !ok ) break;
         recsR++;
         for( size_t d = 0; d < o.k.size(); d++ ) {
            const std::string e = o.k[d] >= 1 && o.k[d] <= S.m.c.uels.size() ? S.m.c.uels.at( o.k[d] ) : "?L__" + std::to_string( o.k[d] );
            if( e != b.p[d] ) viol( std::string( "string read: key " ) + b.p[d] + " expected " + e );
         }
         k.assign( o.k.begin(), o.k.end() );
         cmpKV( si, "string read", k, v, o, f, true );
      }
      else if( md == RRaw ) {
         ok = api( si, [&] { return gdxDataReadRaw( S.h, k.data(), v.data(), &f ); } );
         if( S.threw ) return;
         if( S.lost ) { if( !ok ) return; continue; }
         Out o = S.m.nextRaw( RRaw );
         if( o.ok != !!ok ) { if( S.hard && !ok ) { silentEnd( si ); return; } viol( ok ? "an additional record was delivered" : "the record stream ended early" ); }
         if( log && si == logSlot && ok ) log->push_back( "raw " + show( std::vector<int>( k.begin(), k.begin() + (long) o.k.size() ) ) + show( v ) );
         if( !ok ) break;
         recsR++;
         cmpKV( si, "raw read", k, v, o, f, true );
      }
      else if( md == RMap || md == RMapR ) {
         ok = api( si, [&] { return gdxDataReadMap( S.h, (int) i + 1, k.data(), v.data(), &f ); } );
         if( S.threw ) return;
         if( S.lost ) { if( !ok ) return; continue; }
         Out o = S.m.nextMap();
         if( o.ok != !!ok ) { if( S.hard && !ok ) { silentEnd( si ); return; } viol( ok ? "an additional record was delivered" : "the record stream ended early" ); }
         if( !ok && S.hard ) {// both at an end, but records may be missing among those the mapping rejects
            const int ec = api( si, [&] { return gdxDataErrorCount( S.h ); } );
            if( ec != (int) ( S.m.errs ? S.m.errs->size() : 0 ) ) { silentEnd( si ); return; }
         }
         if( log && si == logSlot && ok ) log->push_back( "map " + show( std::vector<int>( k.begin(), k.begin() + (long) o.k.size() ) ) + show( v ) );
         if( !ok ) break;
         recsR++;
         cmpKV( si, "mapped read", k, v, o, f, true );
      }
      else {// wrong phase: every read call must be refused
         ok = i % 3 == 0 ? api( si, [&] { return gdxDataReadRaw( S.h, k.data(), v.data(), &f ); } ) : i % 3 == 1 ? api( si, [&] { return gdxDataReadMap( S.h, 1, k.data(), v.data(), &f ); } )
                                                                                                                  : api( si, [&] { StrBufs b( 20, 64 ); return gdxDataReadStr( S.h, b.data(), v.data(), &f ); } );
         S.m.err();
         res( si, ok, false );
         if( i >= 2 ) break;
         if( cnt < 0 ) break;
      }
   }
}

struct CbRec { std::vector<int> k; std::vector<double> v; int first; };
static thread_local std::vector<CbRec> *g_cb; static thread_local int g_cbDim; static thread_local long g_cbStop;
static void cbPut( const int *k, const double *v, int f )
{
   const bool in = M.inApi; M.inApi = false;
   g_cb->push_back( { std::vector<int>( k, k + g_cbDim ), std::vector<double>( v, v + 5 ), f } );
   M.inApi = in;
}
static void GDX_CALLCONV cbPlain( const int k[], const double v[] ) { cbPut( k, v, -1 ); }
static int GDX_CALLCONV cbEx( const int k[], const double v[], int afdim, void * ) { cbPut( k, v, afdim ); return g_cbStop < 0 || (long) g_cb->size() < g_cbStop; }
static int GDX_CALLCONV cbFilt( const int k[], const double v[], void * ) { cbPut( k, v, -1 ); return g_cbStop < 0 || (long) g_cb->size() < g_cbStop; }
static thread_local std::vector<std::pair<int, int>> *g_dom;
static void GDX_CALLCONV cbDom( int raw, int map, void * ) { const bool in = M.inApi; M.inApi = false; g_dom->emplace_back( raw, map ); M.inApi = in; }

void Exec::fastRead( int si, const Line &l )
{
   Slot &S = s[si];
   Obj &m = S.m;
   const int n = atoi( l[2].c_str() );
   std::vector<CbRec> got;
   g_cb = &got; g_cbStop = -1;
   const int mr = n == 0 ? 0 : m.goodSy( n ) ? m.resolve( n ) : -1;
   g_cbDim = mr < 0 ? 0 : m.dimOf( mr );
   int real {}, nr = -5;
   std::vector<Out> exp;
   std::vector<std::string> filt( 20 );
   const std::string op = l[0];
   std::vector<int> en;
   bool goodF = true;
   if( op == "fastfilt" ) {
      auto fl = decList( l[3] );
      for( size_t i = 0; i < fl.size(); i++ ) filt[i] = fl[i];
      g_cbStop = atol( l[4].c_str() );
   }
   else if( op == "fastex" ) g_cbStop = atol( l[3].c_str() );
   // model first (start may be refused)
   int mn = -1;
   Obj before;
   const bool cmp = !S.lost;
   if( cmp ) {
      mn = m.readStart( RRaw, n, std::vector<int>( 20, -2 ) );
      if( mn >= 0 ) {
         if( op == "fastfilt" )
            for( int d = 0; d < m.curDim; d++ ) { en.push_back( filt[(size_t) d].empty() ? -1 : m.c.uels.find( filt[(size_t) d] ) ); if( !filt[(size_t) d].empty() && en.back() < 0 ) goodF = false; }
         if( goodF )
            while( true ) {
               Out o = m.nextRaw( RRaw );
               if( !o.ok ) break;
               if( op == "fastfilt" ) { bool in = true; for( size_t d = 0; d < o.k.size(); d++ ) in &= en[d] < 0 || en[d] == o.k[d]; if( !in ) continue; }
               exp.push_back( o );
               if( g_cbStop >= 0 && op != "fast" && (long) exp.size() >= g_cbStop ) break;
            }
         m.mode = RInit;
      }
   }
   if( op == "fast" ) real = api( si, [&] { return gdxDataReadRawFast( S.h, n, cbPlain, &nr ); } );
   else if( op == "fastex" ) real = api( si, [&] { return gdxDataReadRawFastEx( S.h, n, cbEx, &nr, nullptr ); } );
   else { auto p = cptr( filt ); real = api( si, [&] { return gdxDataReadRawFastFilt( S.h, n, p.data(), cbFilt ); } ); }
   if( S.threw || !cmp ) return;
   const bool modOk = mn >= 0 && goodF;
   if( S.hard && ( !real || got.size() < exp.size() ) ) {
      for( size_t i = 0; i < got.size(); i++ ) { if( i >= exp.size() ) viol( "callback read: additional record" ); cmpKV( si, "callback read", got[i].k, got[i].v, exp[i], 0, false ); }
      if( real && got.size() < exp.size() ) silentEnd( si );
      S.lost = S.reported = true;
      return;
   }
   if( log && si == logSlot ) { std::string t = op; for( auto &g: got ) t += show( g.k ) + show( g.v ); log->push_back( t ); }
   if( !res( si, real, modOk ) ) { if( !got.empty() && !S.lost ) viol( "refused callback read delivered records" ); return; }
   if( op != "fastfilt" && nr != mn ) viol( "callback read: record count " + std::to_string( nr ) + " expected " + std::to_string( mn ) );
   if( got.size() != exp.size() ) viol( "callback read delivered " + std::to_string( got.size() ) + " records, expected " + std::to_string( exp.size() ) );
   for( size_t i = 0; i < got.size(); i++ ) { recsR++; cmpKV( si, "callback read", got[i].k, got[i].v, exp[i], got[i].first, op == "fastex" ); }
}

void Exec::sliceOps( int si, const Line &l )
{
   Slot &S = s[si];
   Obj &m = S.m;
   const std::string op = l[0];
   if( op == "slicestart" ) {
      const int n = atoi( l[2].c_str() );
      std::vector<int> cnt( 20, -7 );
      const int real = api( si, [&] { return gdxDataReadSliceStart( S.h, n, cnt.data() ); } );
      if( S.threw || S.lost ) return;
      if( m.mode == RSlice ) m.mode = RSlice;// documented entry is from the idle read state only
      int mn = m.readStart( RRaw, n, std::vector<int>( 20, -2 ) );
      if( mn >= 0 ) {
         m.sliceSym = n; m.sliceDim = m.curDim; m.sliceElems.assign( (size_t) m.curDim, {} );
         m.sliceSel.assign( (size_t) m.curDim, "" );
         std::vector<std::set<int>> u( (size_t) m.curDim );
         for( size_t i = 0; i < m.recCount( m.rsym ); i++ ) { auto k = m.rawKey( m.rsym, i ); m.rawVals( m.rsym, i ); for( size_t d = 0; d < k.size(); d++ ) u[d].insert( k[d] ); }
         for( size_t d = 0; d < u.size(); d++ ) m.sliceElems[d].assign( u[d].begin(), u[d].end() );
         m.mode = RSlice;
      }
      if( S.hard && real ) { for( int d = 0; d < m.sliceDim; d++ ) if( cnt[(size_t) d] != (int) m.sliceElems[(size_t) d].size() ) { silentEnd( si ); return; } }
      if( !res( si, real, mn >= 0 ) ) return;
      for( int d = 0; d < m.sliceDim; d++ ) if( cnt[(size_t) d] != (int) m.sliceElems[(size_t) d].size() ) viol( "slice: element count " + std::to_string( cnt[(size_t) d] ) + " expected " + std::to_string( m.sliceElems[(size_t) d].size() ) );
   }
   else if( op == "slice" ) {
      auto f = decList( l[2] ); f.resize( 20 );
      auto p = cptr( f );
      std::vector<CbRec> got;
      g_cb = &got; g_cbStop = -1; int dimen = -3;
      std::vector<Out> exp;
      bool ok = m.mode == RSlice, good = true;
      int fd {};
      if( ok ) for( int d = 0; d < m.sliceDim; d++ ) { m.sliceSel[(size_t) d] = f[(size_t) d]; if( f[(size_t) d].empty() ) fd++; else if( m.c.uels.find( f[(size_t) d] ) < 0 ) good = false; }
      g_cbDim = fd;
      const int real = api( si, [&] { return gdxDataReadSlice( S.h, p.data(), &dimen, cbPlain ); } );
      if( S.threw || S.lost ) return;
      if( !ok ) { m.err(); res( si, real, false ); return; }
      if( !good ) { m.mode = RInit; if( res( si, real, false ) ) return; return; }
      m.errs.reset();// a slice read starts a new read
      for( size_t i = 0; i < m.recCount( m.rsym ); i++ ) {
         Out o; auto k = m.rawKey( m.rsym, i ); o.v = m.rawVals( m.rsym, i );
         bool in = true;
         for( int d = 0; d < m.sliceDim; d++ ) {
            if( f[(size_t) d].empty() ) { auto &e = m.sliceElems[(size_t) d]; o.k.push_back( (int) ( std::lower_bound( e.begin(), e.end(), k[(size_t) d] ) - e.begin() ) ); }
            else in &= m.c.uels.find( f[(size_t) d] ) == k[(size_t) d];
         }
         if( in ) exp.push_back( o );
      }
      if( m.curDim == 0 && m.recCount( m.rsym ) == 0 ) { Out o; o.v = m.defaultRec( m.c.syms[(size_t) m.rsym - 1] ); exp.push_back( o ); }
      if( S.hard && real && got.size() < exp.size() ) { silentEnd( si ); return; }
      if( !res( si, real, true ) ) return;
      if( dimen != fd ) viol( "slice: dimension " + std::to_string( dimen ) + " expected " + std::to_string( fd ) );
      if( got.size() != exp.size() ) viol( "slice delivered " + std::to_string( got.size() ) + " records, expected " + std::to_string( exp.size() ) );
      for( size_t i = 0; i < got.size(); i++ ) { recsR++; cmpKV( si, "slice", got[i].k, got[i].v, exp[i], 0, false ); }
   }
   else if( op == "sliceuels" ) {
      auto k = intList( l[2] ); k.resize( 20 );
      StrBufs b( 20 );
      const int real = api( si, [&] { return gdxDataSliceUELS( S.h, k.data(), b.data() ); } );
      if( S.threw || S.lost ) return;
      if( m.mode != RSlice ) m.err();
      if( !res( si, real, m.mode == RSlice ) ) return;
      size_t h = 0;
      for( int d = 0; d < m.sliceDim; d++ ) {
         std::string e;
         if( !m.sliceSel[(size_t) d].empty() ) e = m.sliceSel[(size_t) d];
         else { const int ix = k[h++]; e = ix < 0 || ix >= (int) m.sliceElems[(size_t) d].size() ? "?" : m.c.uels.at( m.sliceElems[(size_t) d][(size_t) ix] ); }
         if( e != b.p[(size_t) d] ) viol( std::string( "slice element name " ) + b.p[(size_t) d] + " expected " + e );
      }
   }
   else if( op == "domel" ) {// symbol, position, filter (-1 none), withCallback
      const int n = atoi( l[2].c_str() ), pos = atoi( l[3].c_str() ), fl = atoi( l[4].c_str() );
      const bool cb = l[5] == "1";
      std::vector<std::pair<int, int>> got;
      g_dom = &got;
      int cnt = -4;
      const int real = api( si, [&] { return gdxGetDomainElements( S.h, n, pos, fl, cb ? cbDom : nullptr, &cnt, nullptr ); } );
      if( S.threw || S.lost ) return;
      bool ok = true;
      if( !m.goodSy( n ) ) { m.err(); ok = false; }
      else if( m.sym( n ).dim == 0 ) ok = false;
      else if( pos < 1 || pos > m.sym( n ).dim ) { m.err(); ok = false; }
      else if( fl != -1 && ( m.mode == NotOpen || !m.filters.count( fl ) ) ) { m.err(); ok = false; }
      std::vector<std::pair<int, int>> exp;
      std::set<int> el;
      if( ok ) {
         if( m.readStart( RRaw, n, std::vector<int>( 20, -2 ) ) < 0 ) ok = false;
         else {
            for( size_t i = 0; i < m.recCount( m.rsym ); i++ ) {
               auto k = m.rawKey( m.rsym, i ); auto v = m.rawVals( m.rsym, i );
               const int e = k[(size_t) pos - 1];
               if( fl != -1 && !m.filters[fl].in.count( e <= m.c.uels.size() ? m.umap[(size_t) e] : -1 ) ) { k[(size_t) pos - 1] = -e; m.addDomErr( k, v ); continue; }
               el.insert( e );
            }
            m.mode = RInit;
            if( cb ) for( int e: el ) exp.emplace_back( m.newUsr( e ), e );
            std::sort( exp.begin(), exp.end() );
         }
      }
      if( S.hard && real && cnt < (int) el.size() ) { silentEnd( si ); return; }
      if( !res( si, real, ok ) ) return;
      if( cnt != (int) el.size() ) viol( "domain elements: " + std::to_string( cnt ) + " expected " + std::to_string( el.size() ) );
      if( cb ) {
         if( got.size() != exp.size() ) viol( "domain elements: callback count differs" );
         // ordered by user number; the order of elements that share one is not specified
         for( size_t i = 0, j; i < got.size(); i = j ) { for( j = i; j < got.size() && got[j].second == got[i].second; ) j++; std::sort( got.begin() + (long) i, got.begin() + (long) j ); }
         for( size_t i = 0; i < got.size(); i++ ) if( got[i].first != exp[i].second || got[i].second != exp[i].first ) viol( "domain elements: element (" + std::to_string( got[i].first ) + "," + std::to_string( got[i].second ) + ") expected (" + std::to_string( exp[i].second ) + "," + std::to_string( exp[i].first ) + ")" );
      }
   }
   else if( op == "idxmax" ) {
      const int n = atoi( l[2].c_str() );
      std::vector<int> len( 20, -1 ), exp( 20, 0 );
      const int real = api( si, [&] { return gdxSymbIndxMaxLength( S.h, n, len.data() ); } );
      if( S.threw || S.lost ) return;
      int e {};
      bool ok = m.mode == RInit;
      if( !ok ) m.err();
      else if( n < 0 || n > (int) m.c.syms.size() ) ok = false;
      if( ok ) {
         m.readStart( RRaw, n, std::vector<int>( 20, -2 ) );
         for( size_t i = 0; m.curDim > 0 && i < m.recCount( m.rsym ); i++ ) {
            auto k = m.rawKey( m.rsym, i ); m.rawVals( m.rsym, i );
            for( size_t d = 0; d < k.size(); d++ ) if( k[d] <= m.c.uels.size() ) exp[d] = std::max( exp[d], (int) m.c.uels.at( k[d] ).size() );
         }
         m.mode = RInit;
         for( int x: exp ) e = std::max( e, x );
      }
      if( S.hard && real != e ) { silentEnd( si ); return; }
      if( S.hard && real == 0 && ( api( si, [&] { return gdxErrorCount( S.h ); } ) != S.prevReal || api( si, [&] { return gdxGetLastError( S.h ); } ) ) ) { S.lost = S.reported = true; return; }// failed, which looks like the result here
      compared++;
      if( quietModel ) return;
      if( real != e ) viol( "maximal index length " + std::to_string( real ) + " expected " + std::to_string( e ) );
      if( ok ) for( size_t d = 0; d < 20; d++ ) if( len[d] != exp[d] ) viol( "maximal index length of a dimension differs" );
   }
}

void Exec::step( const Line &l )
{
   const std::string op = l[0];
   auto I = [&]( size_t i ) { return i < l.size() ? atoi( l[i].c_str() ) : 0; };
   // --- simulator commands
   if( op == "fault" ) {// fault call kind n arg sticky
      if( l[1] == "alloc" ) { M.failAt = M.count + I( 3 ); M.fired = false; return; }
      Fault f; f.call = l[1]; f.kind = l[2]; f.n = atol( l[3].c_str() ); f.arg = l.size() > 4 ? atol( l[4].c_str() ) : 0; f.sticky = l.size() > 5 && l[5] == "1";
      D.armed.push_back( f );
      return;
   }
   if( op == "disarm" ) { D.armed.clear(); M.failAt = -1; return; }
   if( op == "chaos" ) { D.chaosSeed = strtoull( l[1].c_str(), nullptr, 10 ); D.chaos = Rng( D.chaosSeed ); D.pShort = I( 2 ); D.pEintr = I( 3 ); D.cap = I( 4 ); D.sectorSplit = l.size() > 5; return; }
   if( op == "quota" ) { D.quota = atol( l[1].c_str() ) < 0 ? -1 : D.used() + atol( l[1].c_str() ); return; }
   if( op == "quotaabs" ) { D.quota = atol( l[1].c_str() ); return; }
   if( op == "crash" ) { crashNow( -1 ); return; }
   if( op == "convcheck" ) { convCheck = D.watchSys = true; return; }
   if( op == "unenv" ) { D.env.erase( l[1] ); return; }
   if( op == "env" ) { D.env[l[1]] = dec( l[2] ); return; }
   if( op == "sysret" ) { D.sysRet = { atol( l[1].c_str() ) }; return; }
   if( op == "truncate" || op == "flip" || op == "zero" ) {
      const std::string p = dec( l[1] );
      auto it = D.files.find( norm( p.c_str() ) );
      if( it == D.files.end() ) return;
      auto &d = it->second->d;
      const size_t n = (size_t) strtoull( l[2].c_str(), nullptr, 10 );
      if( op == "truncate" ) { if( n >= d.size() ) return; d.resize( n ); D.fired["file:truncated"]++; }
      else if( op == "flip" ) { if( n >= d.size() ) return; d[n] ^= (uint8_t) std::max( 1, I( 3 ) & 255 ); D.fired["file:flipped"]++; }
      else { for( size_t i = n; i < d.size() && i < n + (size_t) I( 3 ); i++ ) d[i] = 0; D.fired["file:zeroed"]++; }
      auto f = fs.find( p );
      if( f != fs.end() ) f->second.damaged = true;
      return;
   }
   if( op == "mark" ) return;
   if( op == "flipz" ) {// damage inside a compressed block
      const std::string p = dec( l[1] );
      auto it = D.files.find( norm( p.c_str() ) );
      auto f = fs.find( p );
      if( it == D.files.end() || f == fs.end() || !f->second.known() ) return;
      std::vector<codec::Range> z;
      try { codec::decode( it->second->d, &z, nullptr, it->second->holeAt, it->second->hole ); } catch( const codec::Bad & ) { return; }
      size_t n {};
      for( auto &r: z ) n += r.b - r.a;
      if( !n ) return;
      size_t k = (size_t) strtoull( l[2].c_str(), nullptr, 10 ) % n;
      for( auto &r: z ) { if( k < r.b - r.a ) { it->second->d[r.a + k] ^= (uint8_t) std::max( 1, I( 3 ) & 255 ); break; } k -= r.b - r.a; }
      D.fired["file:block damaged"]++;
      f->second.damaged = true;
      return;
   }
   if( op == "decode" ) {// the bytes on disk, read by the independent reader
      const std::string p = dec( l[1] );
      auto it = D.files.find( norm( p.c_str() ) );
      if( it == D.files.end() || !pathKnown( p ) || fs[p].foreign ) return;// made by the other encoder
      compared++; verifies++;
      std::string got, audit;
      try { got = codec::canon( codec::decode( it->second->d, nullptr, &audit, it->second->holeAt, it->second->hole ) ); }
      catch( const codec::Bad &b ) { viol( std::string( "the file does not follow the format: " ) + b.what() ); }
      const std::string want = codec::canon( fs[p].cand[0] );
      if( got != want ) viol( "the independent reader disagrees: " + diffLine( got, want ) );
      if( audit.find( "2001" ) == 15 ) viol( "the library identification is mistaken for a release of 2001" );
      return;
   }
   if( op == "encode" ) {// encode SRC DST version flip compr mixed dup old2001 widths seed [hole [dropacr]]
      const std::string a = dec( l[1] ), b = dec( l[2] );
      if( !pathKnown( a ) ) return;
      codec::Opt o;
      o.version = I( 3 ); o.flip = I( 4 ); o.compr = I( 5 ); o.mixed = I( 6 ); o.dupText = I( 7 ); o.old2001 = I( 8 ); o.widths = I( 9 ); o.seed = strtoull( l[10].c_str(), nullptr, 10 );
      if( l.size() > 11 ) o.hole = o.version > 5 ? atol( l[11].c_str() ) : 0;
      const bool dropAcr = l.size() > 12 && I( 12 );
      Content c = codec::reduce( fs[a].cand[0], o );
      // numbers that are no registered text must not meet the renumbering of repeated texts
      for( auto &y: c.syms ) if( y.type == T_SET ) for( auto &q: y.recs ) if( q.v[0].sv < 0 && q.v[0].d != 0 && std::abs( q.v[0].d ) < 1e9 ) {
         const double x = q.v[0].d, n = std::round( x );
         if( std::abs( x - n ) < 1e-9 && ( x != n || n < 0 || n >= (double) c.texts.size() ) ) o.dupText = false;
      }
      if( dropAcr ) for( size_t i = c.acrs.size(); i-- > 0; ) if( ( o.seed >> ( i % 16 ) ) & 1 ) c.acrs.erase( c.acrs.begin() + (long) i );// values whose acronym the file does not list
      auto nf = std::make_shared<Bytes>();
      nf->d = codec::encode( c, o, &nf->holeAt );
      nf->hole = o.hole;
      if( o.hole ) D.fired["file:sparse"]++;
      D.files[norm( b.c_str() )] = nf;
      FileState f; f.cand.push_back( c ); f.foreign = o.flip || o.dupText;
      fs[b] = f;
      D.fired[std::string( "file:encoded V" ) + l[3] + ( o.flip ? " other byte order" : "" )]++;
      return;
   }
   if( op == "fill" ) { M.fill = I( 1 ); return; }
   if( op == "same" ) {
      auto a = D.files.find( norm( dec( l[1] ).c_str() ) ), b = D.files.find( norm( dec( l[2] ).c_str() ) );
      if( a == D.files.end() || b == D.files.end() ) return;
      if( !pathKnown( dec( l[1] ) ) || !pathKnown( dec( l[2] ) ) ) return;
      auto &x = a->second->d, &y = b->second->d;
      size_t i = 0;
      while( i < x.size() && i < y.size() && x[i] == y[i] ) i++;
      compared++;
      for( size_t q = 0; q < x.size(); q++ ) mix( x[q] );
      if( i != x.size() || x.size() != y.size() ) viol( "the same calls produced different files: sizes " + std::to_string( x.size() ) + " and " + std::to_string( y.size() ) + ", first difference at byte " + std::to_string( i ) );
      return;
   }
   if( op == "rmfile" ) { D.files.erase( norm( dec( l[1] ).c_str() ) ); fs.erase( dec( l[1] ) ); return; }
   if( op == "copyfile" ) {
      auto it = D.files.find( norm( dec( l[1] ).c_str() ) );
      if( it == D.files.end() ) return;
      auto nf = std::make_shared<Bytes>(); *nf = *it->second;
      D.files[norm( dec( l[2] ).c_str() )] = nf;
      auto f = fs.find( dec( l[1] ) );
      if( f != fs.end() ) fs[dec( l[2] )] = f->second;
      return;
   }
   if( op == "verify" ) { verify( dec( l[1] ), strtoull( l[2].c_str(), nullptr, 10 ) ); return; }
   const int si = I( 1 );
   if( si < 0 || si >= NS ) return;
   Slot &S = s[si];
   Obj &m = S.m;
   if( op == "openjunk" ) {// a damaged file: may be refused, may not crash; closed again at once
      if( !S.h || S.threw || m.mode != NotOpen ) return;
      int err = -1;
      const std::string p = dec( l[2] );
      const int ok = I( 3 ) ? api( si, [&] { return gdxOpenAppend( S.h, p.c_str(), "x", &err ); } ) : api( si, [&] { return gdxOpenRead( S.h, p.c_str(), &err ); } );
      if( !ok && err == 0 ) viol( "open failed but reported error number 0" );
      api( si, [&] { return gdxClose( S.h ); } );
      if( ok && !err ) m.openFrom( p, Content {}, I( 3 ), 0 );
      m.clearSession(); S.hard = S.lost = false;
      m.errTotal = api( si, [&] { return gdxErrorCount( S.h ); } ); S.prevModel = S.prevReal = m.errTotal;
      m.anyError = true;
      api( si, [&] { return gdxGetLastError( S.h ); } ); m.anyError = false;
      return;
   }
   if( op == "create" ) {
      if( S.h ) return;
      char msg[256] {};
      S = Slot {};
      if( !api( si, [&] { return gdxCreate( &S.h, msg, sizeof msg ); } ) && !S.threw ) viol( std::string( "object could not be created: " ) + msg );
      if( S.threw ) { S = Slot {}; }
      return;
   }
   if( op == "free" ) {
      if( !S.h ) return;
      const bool wr = m.mode != NotOpen && m.writing && !S.threw;
      const bool hadFault = S.hard || S.lost;
      api( si, [&] { return gdxFree( &S.h ); } );
      S.h = nullptr;
      if( wr ) {// dropped without close: nothing is promised for an append, a creation must not open
         FileState f;
         if( S.m.append ) { f.mayRefuse = true; if( S.base ) f.cand.push_back( *S.base ); if( hadFault ) f.unknown = true; }
         else { f.mayRefuse = true; if( hadFault ) f.unknown = true; }
         fs[S.file] = f;
      }
      const bool thr = S.threw && m.mode != NotOpen && m.writing;
      if( thr ) {
         FileState f; f.mayRefuse = true;
         if( m.append && S.base ) f.cand.push_back( *S.base );
         fs[S.file] = f;
      }
      S = Slot {};
      return;
   }
   if( !S.h ) return;
   if( S.threw ) return;
   ops++;
   auto B = [&]( const std::function<int()> &f ) { return api( si, f ); };
   gdxHandle_t h = S.h;
   const bool gone = S.lost;
   const Mode before = m.mode;
   // --- sessions
   if( op == "openw" || op == "openw0" || op == "opena" || op == "openr" ) { doOpen( l ); }
   else if( op == "close" ) { doClose( si, false ); }
   // --- elements
   else if( op == "uraw_start" ) { int r = B( [&] { return gdxUELRegisterRawStart( h ); } ); res( si, r, !gone && m.regStart( RegRaw ) ); }
   else if( op == "ustr_start" ) { int r = B( [&] { return gdxUELRegisterStrStart( h ); } ); res( si, r, !gone && m.regStart( RegStr ) ); }
   else if( op == "umap_start" ) { int r = B( [&] { return gdxUELRegisterMapStart( h ); } ); res( si, r, !gone && m.regStart( RegMap ) ); }
   else if( op == "udone" ) { int r = B( [&] { return gdxUELRegisterDone( h ); } ); res( si, r, !gone && m.regDone() ); }
   else if( op == "uraw" ) { auto t = dec( l[2] ); int r = B( [&] { return gdxUELRegisterRaw( h, t.c_str() ); } ); res( si, r, !gone && m.regRaw( t ) ); }
   else if( op == "ustr" ) {
      auto t = dec( l[2] ); int nr = -9, mnr = -9;
      int r = B( [&] { return gdxUELRegisterStr( h, t.c_str(), &nr ); } );
      if( res( si, r, !gone && m.regStr( t, mnr ) ) && nr != mnr ) viol( "element number " + std::to_string( nr ) + " expected " + std::to_string( mnr ) );
   }
   else if( op == "umap" ) { auto t = dec( l[3] ); int r = B( [&] { return gdxUELRegisterMap( h, I( 2 ), t.c_str() ); } ); res( si, r, !gone && m.regMap( I( 2 ), t ) ); }
   else if( op == "umany" ) {// umany slot prefix from count: many raw/str/map registrations in the mode in progress
      auto t = dec( l[2] );
      for( int i = I( 3 ); i < I( 3 ) + I( 4 ) && !S.lost && !S.threw && !D.dead; i++ ) {
         const std::string nm = t + std::to_string( i );
         if( m.mode == RegStr ) { int nr = -9, mnr = -9; int r = B( [&] { return gdxUELRegisterStr( h, nm.c_str(), &nr ); } ); if( res( si, r, m.regStr( nm, mnr ) ) && nr != mnr ) viol( "element number differs" ); }
         else if( m.mode == RegMap ) { int r = B( [&] { return gdxUELRegisterMap( h, i + I( 5 ), nm.c_str() ); } ); res( si, r, m.regMap( i + I( 5 ), nm ) ); }
         else { int r = B( [&] { return gdxUELRegisterRaw( h, nm.c_str() ); } ); res( si, r, m.regRaw( nm ) ); }
      }
   }
   else if( op == "many" ) {// many slot texts|symbols|acronyms|aliases|comments prefix from count
      const std::string kind = l[2], pre = l[3], was = curOp, sl = l[1];
      auto str = []( long n ) { return std::to_string( n ); };
      for( int i = I( 4 ); i < I( 4 ) + I( 5 ) && !S.lost && !S.threw && !D.dead && S.h; i++ ) {
         const std::string nm = pre + str( i );
         curOp = was;
         if( kind == "texts" ) step( { "settext", sl, nm } );
         else if( kind == "acronyms" ) step( { "acradd", sl, nm, i % 3 ? "%" : "acronym%20text", str( i + 100 ) } );
         else if( kind == "aliases" ) step( { "alias", sl, i % 4 ? pre + str( I( 4 ) ) : "*", nm } );
         else if( kind == "comments" ) step( { "comment", sl, str( i % ( (int) m.c.syms.size() + 1 ) ), nm } );
         else {
            const int ty = i % 5 == 4 ? 1 : i % 5, dim = ( i / 3 ) % 4;
            const std::string md = i % 2 ? "str" : "raw";
            step( { "wstart", sl, md, nm, i % 7 ? "%" : "text", str( ty == T_SET && !dim ? 1 : dim ), str( ty ), str( ty == T_EQU ? 53 : ty == T_VAR ? i % 10 : 0 ) } );
            if( !m.cur || S.lost || S.threw || D.dead ) break;
            curOp = "wgen";
            if( i % 3 ) wgen( si, (uint64_t) i, i % 5 + 1, i % 10 );
            if( S.lost || S.threw || D.dead ) break;
            curOp = was;
            step( { "wdone", sl } );
         }
      }
      curOp = was;
   }
   else if( op == "rename" ) {
      auto a = dec( l[2] ), b = dec( l[3] );
      int r = B( [&] { return gdxRenameUEL( h, a.c_str(), b.c_str() ); } );
      if( !gone && !S.threw ) { int e = m.rename( a, b ); if( !quietModel && ( r == 0 ) != ( e == 0 ) ) viol( "rename returned " + std::to_string( r ) + " expected " + std::to_string( e ) ); }
   }
   // --- writing
   else if( op == "wstart" ) {// wstart slot mode name text dim type user [min max]
      auto n = dec( l[3] ), t = dec( l[4] );
      const int dim = I( 5 ), ty = I( 6 ), us = I( 7 );
      const std::string md = l[2];
      int r;
      if( md == "raw" ) r = B( [&] { return gdxDataWriteRawStart( h, n.c_str(), t.c_str(), dim, ty, us ); } );
      else if( md == "rawkb" ) {
         int lo[20], hi[20];
         for( int i = 0; i < 20; i++ ) lo[i] = I( 8 ), hi[i] = std::max( I( 8 ), I( 9 ) );
         r = B( [&] { return gdxDataWriteRawStartKeyBounds( h, n.c_str(), t.c_str(), dim, ty, us, lo, hi ); } );
      }
      else if( md == "map" ) r = B( [&] { return gdxDataWriteMapStart( h, n.c_str(), t.c_str(), dim, ty, us ); } );
      else r = B( [&] { return gdxDataWriteStrStart( h, n.c_str(), t.c_str(), dim, ty, us ); } );
      res( si, r, !gone && m.writeStart( md == "map" ? WDomMap : md == "str" ? WDomStr : WDomRaw, n, t, dim, ty, us ) );
   }
   else if( op == "setdom" ) { auto d = decList( l[2] ); d.resize( 20, "*" ); auto p = cptr( d ); int r = B( [&] { return gdxSymbolSetDomain( h, p.data() ); } ); res( si, r, !gone && m.setDomain( d ) ); }
   else if( op == "setdomx" ) { auto d = decList( l[3] ); d.resize( 20, "*" ); auto p = cptr( d ); int r = B( [&] { return gdxSymbolSetDomainX( h, I( 2 ), p.data() ); } ); res( si, r, !gone && m.setDomainX( I( 2 ), d ) ); }
   else if( op == "wraw" || op == "wmap" ) writeRec( si, intList( l[2] ), {}, dblList( l[3] ) );
   else if( op == "wstr" ) writeRec( si, {}, decList( l[2] ), dblList( l[3] ) );
   else if( op == "wgen" ) wgen( si, strtoull( l[2].c_str(), nullptr, 10 ), atol( l[3].c_str() ), I( 4 ) );
   else if( op == "wdone" ) { int r = B( [&] { return gdxDataWriteDone( h ); } ); res( si, r, !gone && m.writeDone() ); }
   else if( op == "alias" ) { auto a = dec( l[2] ), b = dec( l[3] ); int r = B( [&] { return gdxAddAlias( h, a.c_str(), b.c_str() ); } ); res( si, r, !gone && m.addAlias( a, b ) ); }
   else if( op == "settext" ) {
      auto t = dec( l[2] ); int nr = -9, mnr = -9;
      int r = B( [&] { return gdxAddSetText( h, t.c_str(), &nr ); } );
      bool ok = !gone && m.addText( t, mnr );
      if( res( si, r, ok ) && nr != mnr ) viol( "text number " + std::to_string( nr ) + " expected " + std::to_string( mnr ) );
   }
   else if( op == "setnode" ) { int r = B( [&] { return gdxSetTextNodeNr( h, I( 2 ), I( 3 ) ); } ); res( si, r, !gone && m.setNode( I( 2 ), I( 3 ) ) ); }
   else if( op == "comment" ) { auto t = dec( l[3] ); int r = B( [&] { return gdxSymbolAddComment( h, I( 2 ), t.c_str() ); } ); res( si, r, !gone && m.addComment( I( 2 ), t ) ); }
   else if( op == "acradd" ) {
      auto n = dec( l[2] ), t = dec( l[3] );
      int r = B( [&] { return gdxAcronymAdd( h, n.c_str(), t.c_str(), I( 4 ) ); } );
      if( !gone && !S.threw ) { int e = m.acrAdd( n, t, I( 4 ) ); if( r != e && !S.hard && !quietModel ) viol( "acronym add returned " + std::to_string( r ) + " expected " + std::to_string( e ) ); }
   }
   else if( op == "acrset" ) { auto n = dec( l[3] ), t = dec( l[4] ); int r = B( [&] { return gdxAcronymSetInfo( h, I( 2 ), n.c_str(), t.c_str(), I( 5 ) ); } ); res( si, r, !gone && m.acrSet( I( 2 ), n, t, I( 5 ) ) ); }
   else if( op == "svset" || op == "svread" ) {
      auto v = dblList( l[2] ); v.resize( 5 );
      double a[GMS_SVIDX_MAX] {};
      a[GMS_SVIDX_UNDEF] = v[0]; a[GMS_SVIDX_NA] = v[1]; a[GMS_SVIDX_PINF] = v[2]; a[GMS_SVIDX_MINF] = v[3]; a[GMS_SVIDX_EPS] = v[4];
      if( op == "svset" ) { int r = B( [&] { return gdxSetSpecialValues( h, a ); } ); res( si, r, m.setSv( v.data() ) ); }
      else { B( [&] { return gdxSetReadSpecialValues( h, a ); } ); memcpy( m.rsv, v.data(), sizeof m.rsv ); }
   }
   else if( op == "svreset" ) { B( [&] { return gdxResetSpecialValues( h ); } ); m.resetSv(); }
   else if( op == "flags" ) {// storeDom bogus acrNaN nextAcr
      B( [&] { gdxStoreDomainSetsSet( h, I( 2 ) ); gdxAllowBogusDomainsSet( h, I( 3 ) ); gdxMapAcronymsToNaNSet( h, I( 4 ) ); return gdxAcronymNextNr( h, I( 5 ) ); } );
      m.storeDom = I( 2 ); m.bogus = I( 3 ); m.acrNaN = I( 4 ); if( I( 5 ) >= 0 ) m.nextAcr = I( 5 );
   }
   else if( op == "trace" ) B( [&] { return gdxSetTraceLevel( h, I( 2 ), "tr" ); } );
   else if( op == "autoconv" ) { B( [&] { return gdxAutoConvert( h, I( 2 ) ); } ); m.autoConvert = I( 2 ); }
   // --- reading
   else if( op == "rstart" || op == "rfilt" ) {
      const int n = op == "rstart" ? I( 3 ) : I( 2 );
      int nr = -5, r, mn = -1;
      const std::string md = op == "rstart" ? l[2] : "filt";
      if( S.lost && !S.noContent && !S.skipped && ( md == "raw" || md == "str" ) && m.mode != NotOpen && !m.writing ) {// a fresh raw read brings model and object together again
         S.lost = false; m.mode = RInit; m.errTotal = B( [&] { return gdxErrorCount( h ); } ); S.prevModel = S.prevReal = m.errTotal;
         // how many acronyms the failing read met is the object's affair
         m.nextAcr = B( [&] { return gdxAcronymNextNr( h, -1 ); } );
         const int na = B( [&] { return gdxAcronymCount( h ); } );
         m.c.acrs.resize( (size_t) std::max( 0, std::min( na, (int) m.c.acrs.size() ) ) );
         for( int i = 1; i <= na; i++ ) {
            char nm[256] {}, tx[256] {}; int ix {}, org {}, nw {}, au {};
            B( [&] { return gdxAcronymGetInfo( h, i, nm, tx, &ix ); } ); B( [&] { return gdxAcronymGetMapping( h, i, &org, &nw, &au ); } );
            if( i > (int) m.c.acrs.size() ) m.c.acrs.push_back( { nm, tx, ix, -1, false } );
            m.c.acrs[(size_t) i - 1].readMap = nw; m.c.acrs[(size_t) i - 1].autoGen = au;
         }
      }
      if( !S.lost && quietModel && false ) return;
      if( md == "raw" ) { r = B( [&] { return gdxDataReadRawStart( h, n, &nr ); } ); if( !S.lost ) mn = m.readStart( RRaw, n, std::vector<int>( 20, -2 ) ); }
      else if( md == "str" ) { r = B( [&] { return gdxDataReadStrStart( h, n, &nr ); } ); if( !S.lost ) mn = m.readStart( RStr, n, std::vector<int>( 20, -2 ) ); }
      else if( md == "map" ) { r = B( [&] { return gdxDataReadMapStart( h, n, &nr ); } ); if( !S.lost ) mn = m.readStart( RMap, n, std::vector<int>( 20, 0 ) ); }
      else {
         auto f = intList( l[3] ); f.resize( 20, -2 );
         r = B( [&] { return gdxDataReadFilteredStart( h, n, f.data(), &nr ); } );
         if( !S.lost ) mn = m.readStart( RMap, n, f );
      }
      if( S.threw ) return;
      if( S.hard && r && mn >= 0 && nr < mn && !S.lost ) { silentEnd( si ); }
      else if( res( si, r, mn >= 0 ) && nr != mn ) viol( "record count " + std::to_string( nr ) + " expected " + std::to_string( mn ) );
   }
   else if( op == "rnext" ) doRead( si, atol( l[2].c_str() ) );
   else if( op == "rdone" ) { int r = B( [&] { return gdxDataReadDone( h ); } ); res( si, r, !gone && m.readDone() ); }
   else if( op == "fast" || op == "fastex" || op == "fastfilt" ) fastRead( si, l );
   else if( op == "slicestart" || op == "slice" || op == "sliceuels" || op == "domel" || op == "idxmax" ) sliceOps( si, l );
   else if( op == "fstart" ) {
      int r = B( [&] { return gdxFilterRegisterStart( h, I( 2 ) ); } );
      bool ok = !gone && m.mode == RInit && I( 2 ) >= 1;
      if( ok ) { Obj::Filt f; f.max = m.usrHigh; m.filters[I( 2 )] = f; m.curFilter = I( 2 ); m.mode = RegFilt; }
      else if( !gone ) m.err();
      res( si, r, ok );
   }
   else if( op == "freg" ) {
      int r = B( [&] { return gdxFilterRegister( h, I( 2 ) ); } );
      bool ok = !gone && m.mode == RegFilt && I( 2 ) >= 1 && I( 2 ) <= m.filters[m.curFilter].max && m.entOf( I( 2 ) ) > 0;
      if( ok ) m.filters[m.curFilter].in.insert( I( 2 ) );
      else if( !gone ) m.err();
      res( si, r, ok );
   }
   else if( op == "fdone" ) { int r = B( [&] { return gdxFilterRegisterDone( h ); } ); bool ok = !gone && m.mode == RegFilt; if( ok ) m.mode = RInit; else if( !gone ) m.err(); res( si, r, ok ); }
   else if( op == "fexists" ) { int r = B( [&] { return gdxFilterExists( h, I( 2 ) ); } ); bool rd = m.anyRead(); if( !rd && !gone ) m.err(); res( si, r, !gone && rd && m.filters.count( I( 2 ) ) > 0 ); }
   else if( op == "qall" ) qall( si );
   else if( op == "err" ) {
      const int r = B( [&] { return gdxGetLastError( h ); } );
      if( r && ( S.hard || S.lost ) ) S.reported = true;
      if( log && si == logSlot ) log->push_back( "err -> " + std::to_string( r ) );
      if( !S.hard && !S.lost && !S.threw && !quietModel ) {
         if( ( r != 0 ) != m.anyError ) viol( "gdxGetLastError returned " + std::to_string( r ) + ", an error was " + ( m.anyError ? "" : "not " ) + "expected" );
      }
      m.anyError = false;
      if( r ) { char msg[256] {}; B( [&] { return gdxErrorStr( nullptr, r, msg ); } ); }
   }
   else if( op == "badq" ) {// queries with unusable arguments, in whatever phase
      StrBufs b( 22 ); int x {}, y {}, z {};
      const int n = I( 2 ), sy = (int) m.c.syms.size();
      auto no = [&]( int r, bool ec, const char *w ) { if( S.lost || S.threw || quietModel ) return; if( r > 0 ) viol( std::string( w ) + " succeeded with an unusable argument" ); if( ec ) m.err(); };
      if( n < 1 || n > sy ) {
         int dn[20];
         if( n != 0 ) { no( B( [&] { return gdxSymbolInfo( h, n, b.p[0], &x, &y ); } ), false, "gdxSymbolInfo" ); no( B( [&] { return gdxSymbolInfoX( h, n, &x, &y, b.p[0] ); } ), false, "gdxSymbolInfoX" ); }
         no( B( [&] { return gdxSymbolGetDomain( h, n, dn ); } ), true, "gdxSymbolGetDomain" );
         no( B( [&] { return gdxSymbolGetDomainX( h, n, b.data() ); } ), true, "gdxSymbolGetDomainX" );
         no( B( [&] { return gdxSetHasText( h, n ); } ), false, "gdxSetHasText" );
         no( B( [&] { return gdxSymbolGetComment( h, n, 1, b.p[0] ); } ), false, "gdxSymbolGetComment" );
      }
      if( n < 1 || n > (int) m.c.acrs.size() ) {
         no( B( [&] { return gdxAcronymGetInfo( h, n, b.p[0], b.p[1], &x ); } ), false, "gdxAcronymGetInfo" );
         no( B( [&] { return gdxAcronymGetMapping( h, n, &x, &y, &z ); } ), true, "gdxAcronymGetMapping" );
         no( B( [&] { return gdxAcronymSetInfo( h, n, "zzz", "t", n ); } ), true, "gdxAcronymSetInfo" );
      }
      if( n < 1 || n > m.c.uels.size() ) no( B( [&] { return gdxUMUelGet( h, n, b.p[0], &x ); } ), false, "gdxUMUelGet" );
      if( m.entOf( n ) < 1 ) no( B( [&] { return gdxGetUEL( h, n, b.p[0] ); } ), false, "gdxGetUEL" );
      if( m.c.findSym( "no_such_symbol" ) < 0 ) no( B( [&] { return gdxFindSymbol( h, "no_such_symbol", &x ); } ), false, "gdxFindSymbol" );
      if( n < 0 || n >= (int) m.c.texts.size() ) no( B( [&] { return gdxGetElemText( h, n, b.p[0], &x ); } ), false, "gdxGetElemText" );
      if( m.mode == NotOpen ) { no( B( [&] { return gdxUELMaxLength( h ); } ), false, "gdxUELMaxLength" ); no( B( [&] { return gdxSymbMaxLength( h ); } ), false, "gdxSymbMaxLength" ); B( [&] { return gdxAcronymName( h, SV_ACR, b.p[0] ); } ); }
      std::vector<int> k( 20 ); double v[5];
      if( !m.errs || n < 1 || n > (int) m.errs->size() ) {
         static const std::set<Mode> em { RInit, WInit, RMap, RMapR, WRaw, WMap, WStr };
         no( B( [&] { return gdxDataErrorRecord( h, n, k.data(), v ); } ), !em.count( m.mode ) || m.errs, "gdxDataErrorRecord" );
      }
   }
   else ucheck( false, ( "unknown op " + op ).c_str() );
   if( D.dead ) { crashNow( op == "close" ? si : -1 ); return; }
   if( S.threw ) { dropThrown( si, l ); return; }
   if( S.lost ) {// only these leave elements, user numbers, filters and acronyms alone
      static const std::set<std::string> harmless { "idxmax", "fast", "fastfilt", "fastex", "qall", "badq", "rdone", "slicestart", "slice" };
      if( !harmless.count( op ) && !( op == "rstart" && ( l[2] == "raw" || l[2] == "str" ) ) && !( op == "rnext" && ( before == RRaw || before == RStr ) ) ) S.skipped = true;
   }
   post( si );
}

void Exec::run( const Line &l )
{
   if( l.empty() || l[0][0] == '#' ) return;
   if( before ) before();
   curLine = script.size();
   script.push_back( l );
   if( onLine ) onLine( l );
   curOp = joinLine( l );
   if( record ) { D.record = true; D.trace.clear(); }
   const long a0 = M.count;
   step( l );
   if( record ) { traces.push_back( { curLine, D.trace, M.count - a0 } ); D.record = false; }
}

void Exec::finish()
{
   curOp = "end of scenario";
   curLine = script.size();
   if( !shared ) { D.armed.clear(); M.failAt = -1; D.quota = -1; }
   for( int i = 0; i < NS; i++ ) if( s[i].h ) { curOp = "end of scenario: free"; step( { "free", std::to_string( i ) } ); }
   curOp = "end of scenario";
   if( !shared && D.openCount() != 0 ) viol( std::to_string( D.openCount() ) + " file handle(s) still open after all objects were freed" );
   mix( D.hash );
}
}// namespace sim
