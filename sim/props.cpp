// One scenario family per property.
#include "gen.hpp"
#include <cmath>

using namespace model;
namespace sim {
static std::string S( long n ) { return std::to_string( n ); }
static const char *PATHS[] { "/sim/a.gdx", "/sim/dir/b.gdx", "/sim/some_rather_long_file_name_c.gdx", "/sim/d.gdx" };

void knobs( Gen &g, const std::string &p )
{
   g.k.steps = (int) g.r.range( 3, 22 );
   g.k.badArg = g.r.chance( 1, 2 ) ? 0 : 6;
   g.k.query = g.r.chance( 1, 2 ) ? 3 : 10;
   g.k.big = g.r.chance( 1, 6 ) ? 30 : 1;
   g.k.huge = p == "C01" || p == "C02" || p == "C10" || p == "C12" || p == "C13" || p == "C14";
   if( p == "C11" ) g.k.misuse = (int) g.r.range( 10, 45 );
   if( p == "C12" ) g.k.badArg = 10;
   if( p == "C04" || p == "C05" ) { g.k.sectors = true; g.k.rename = p == "C05"; g.k.badArg = 1; }
   if( p == "C03" || p == "C04" || p == "C11" || p == "C01" ) g.k.unfinished = g.r.chance( 1, 3 );
   if( p == "C03" || p == "C04" || p == "C05" || p == "C06" ) { g.k.query = 1; g.k.errq = g.r.chance( 1, 4 ); if( g.r.chance( 1, 3 ) ) { g.k.big = 60; g.k.steps = std::min( g.k.steps, 8 ); } }
}

// content that exercises records, domains and texts on purpose
static void denseWrite( Gen &g, int slot, int n )
{
   for( int i = 0; i < n; i++ ) g.symbol( slot );
}

// whatever the object did before: a session on another file, reading or writing
static void history( Gen &g, int slot )
{
   Rng &r = g.r;
   if( !r.chance( 1, 3 ) ) return;
   const bool unf = g.k.unfinished;
   g.k.unfinished = r.chance( 1, 4 );
   g.writeSession( slot, "/sim/hist.gdx", (int) r.range( 0, 4 ) );
   if( r.chance( 1, 3 ) ) g.readSession( slot, "/sim/hist.gdx", (int) r.range( 0, 4 ) );
   else if( r.chance( 1, 3 ) ) g.writeSession( slot, "/sim/hist.gdx", (int) r.range( 0, 2 ), true );
   g.k.unfinished = unf;
}

static void c12( Gen &g )
{
   Rng &r = g.r;
   const std::string p = PATHS[r.below( 4 )];
   g.create( 0 );
   g.chaos();
   history( g, 0 );
   if( !g.openW( 0, p ) ) return;
   g.op( "flags 0 " + S( !r.chance( 1, 8 ) ) + " " + S( (long) r.below( 2 ) ) + " 0 -1" );
   // a universe of elements and some domain sets
   const int ne = (int) r.range( 3, 40 );
   g.op( "umap_start 0" );
   g.op( "umany 0 e 0 " + S( ne ) + " " + S( r.range( 1, 9 ) ) );
   if( r.chance( 1, 2 ) ) for( int i = 0; i < 4; i++ ) g.op( "umap 0 " + S( r.range( 100, 130 ) ) + " " + enc( "E" + S( r.range( 0, ne * 2 ) ) ) );
   g.op( "udone 0" );
   Obj &m = g.e.s[0].m;
   for( int q = 0; q < (int) r.range( 1, 4 ); q++ ) {
      const std::string nm = "dom" + S( q );
      g.op( "wstart 0 " + std::string( r.chance( 1, 2 ) ? "str " : "raw " ) + nm + " t 1 0 0" );
      if( q && r.chance( 1, 2 ) ) g.op( "setdom 0 dom" + S( r.range( 0, q - 1 ) ) );
      std::set<int> in;
      for( int i = 0; i < ne; i++ ) if( r.chance( 1, 2 ) ) in.insert( i );
      for( int x: in ) if( m.in( { WStr, WDomStr } ) ) g.op( "wstr 0 e" + S( x ) + " 0" ); else if( x + 1 <= m.c.uels.size() ) g.op( "wraw 0 " + S( x + 1 ) + " 0" );
      g.op( "wdone 0" );
      if( r.chance( 1, 3 ) ) g.op( "alias 0 " + nm + " al" + S( q ) );
   }
   for( int y = 0; y < (int) r.range( 1, 5 ); y++ ) {
      const int dim = (int) r.range( 1, 3 ), type = (int) r.below( 4 );
      static const char *md[] { "raw", "map", "str" };
      const std::string w = md[r.below( 3 )];
      g.op( "wstart 0 " + w + " y" + S( y ) + " txt " + S( dim ) + " " + S( type ) + " 0" );
      if( r.chance( 3, 4 ) ) {
         std::string d;
         for( int i = 0; i < dim; i++ ) {
            std::string nm = "*";
            if( r.chance( 3, 4 ) && !m.c.syms.empty() ) nm = m.c.syms[r.below( m.c.syms.size() )].name;
            d += ( i ? "," : "" ) + enc( nm );
         }
         g.op( "setdom 0 " + d );
      }
      if( !m.cur ) continue;
      const int n = (int) r.range( 1, 30 );
      const int span = (int) r.range( 2, std::max( 2, m.c.uels.size() ) );
      std::vector<std::vector<int>> keys;
      for( int i = 0; i < n; i++ ) { std::vector<int> kk; for( int d = 0; d < dim; d++ ) kk.push_back( (int) r.range( 1, std::min( span, m.c.uels.size() ) ) ); keys.push_back( kk ); }
      if( w == "raw" && !r.chance( 1, 3 ) ) std::sort( keys.begin(), keys.end() );
      for( auto &kk: keys ) {
         if( !m.cur ) break;
         std::string t;
         for( int d = 0; d < dim; d++ ) {
            const int el = kk[(size_t) d];
            std::string x = w == "raw" ? S( el ) : w == "map" ? S( r.chance( 1, 20 ) ? 999 : m.umap[(size_t) el] > 0 ? m.umap[(size_t) el] : 998 ) : enc( r.chance( 1, 25 ) ? std::string( "bad'\"key" ) : r.chance( 1, 4 ) ? up( m.c.uels.at( el ) ) : m.c.uels.at( el ) );
            t += ( d ? "," : "" ) + x;
         }
         g.op( ( w == "raw" ? "wraw 0 " : w == "map" ? "wmap 0 " : "wstr 0 " ) + t + " " + g.vals( 0, type ) );
      }
      if( r.chance( 1, 2 ) ) g.op( "qall 0" );
      if( m.cur ) g.op( "wdone 0" );
      g.op( "qall 0" );
      if( r.chance( 1, 4 ) ) g.op( "badq 0 " + S( r.range( 1, 14 ) ) );
      if( r.chance( 1, 3 ) ) g.op( "err 0" );
   }
   g.close( 0 );
   g.op( "verify " + p + " " + S( (long) r.below( 9 ) ) );
}

// a file for the reading properties: 2-5 symbols with overlapping keys
static void fileForReading( Gen &g, int slot, const std::string &p, int nsym )
{
   Rng &r = g.r;
   if( !g.openW( slot, p ) ) return;
   const std::string s = S( slot );
   g.op( "uraw_start " + s );
   g.op( "umany " + s + " e 0 " + S( r.chance( 1, 6 ) ? r.range( 200, 3000 ) : r.range( 3, 25 ) ) + " 1" );
   g.op( "udone " + s );
   if( r.chance( 1, 2 ) ) for( int i = 0; i < 3; i++ ) g.op( "settext " + s + " " + enc( g.text() ) );
   if( r.chance( 1, 3 ) ) g.op( "acradd " + s + " acr1 t 3" );
   for( int i = 0; i < nsym; i++ ) {
      if( r.chance( 1, 6 ) ) { g.symbol( slot ); continue; }
      const int dim = r.chance( 1, 10 ) ? (int) r.range( 4, 20 ) : (int) r.range( 0, 3 ), type = (int) r.below( 4 );
      g.op( "wstart " + s + " raw f" + S( i ) + " t " + S( dim ) + " " + S( type ) + " " + S( r.range( 0, 7 ) ) );
      if( !( dim == 0 && r.chance( 1, 2 ) ) ) g.op( "wgen " + s + " " + S( (long) r.below( 100000 ) ) + " " + S( r.chance( g.k.big, 100 ) ? r.range( 800, 6000 ) : r.range( 0, 40 ) ) + " " + S( (long) r.below( 10 ) ) );
      g.op( "wdone " + s );
      if( type == T_SET && r.chance( 1, 3 ) ) g.op( "alias " + s + " f" + S( i ) + " al" + S( i ) );
   }
   if( r.chance( 1, 4 ) ) g.op( "alias " + s + " * alu" );
   g.close( slot );
}

static std::string holeSize( Rng &r )
{
   return S( r.chance( 1, 3 ) ? r.range( 2147000000L, 2148000000L ) : r.chance( 1, 2 ) ? r.range( 4294000000L, 4296000000L ) : r.range( 1L << 31, 1L << 42 ) );
}
// turns a file into one with the same content whose later sections lie behind 2 or 4 GB
static void makeLarge( Gen &g, const std::string &p )
{
   Rng &r = g.r;
   g.op( "encode " + enc( p ) + " " + enc( p ) + " 7 0 " + S( (long) r.below( 2 ) ) + " " + S( (long) r.below( 2 ) ) + " 0 0 " + S( (long) r.below( 2 ) ) + " " + S( (long) r.below( 1000000 ) ) + " " + holeSize( r ) + " 0" );
}

static void bytesScenario( Gen &g )
{// C10: the same calls, twice, under different surroundings
   Rng &r = g.r;
   g.create( 0 );
   const size_t from = g.e.script.size();
   g.k.query = 0; g.k.errq = false;
   g.writeSession( 0, "/sim/one.gdx", g.k.steps );
   if( r.chance( 1, 2 ) ) { g.writeSession( 0, "/sim/one.gdx", 5, true ); }
   const size_t to = g.e.script.size();
   std::vector<Line> calls( g.e.script.begin() + (long) from, g.e.script.begin() + (long) to );
   g.op( "free 0" );
   // surroundings: used object, other objects, transfer pattern, memory garbage, another name, existing longer file
   const int slot = (int) r.range( 1, 3 );
   const std::string path = r.chance( 1, 2 ) ? "/sim/two.gdx" : "/sim/a/much/longer/name/than/the/first/two.gdx";
   g.op( "fill " + S( (long) r.below( 256 ) ) );
   g.chaos();
   g.create( slot );
   Gen h( g.e, r.next() );
   h.k.steps = 5; h.k.badArg = 5; h.uelCtr = 500; h.symCtr = 500;
   if( r.chance( 1, 2 ) ) { h.writeSession( slot, r.chance( 1, 2 ) ? path : "/sim/other.gdx", 6 ); }
   if( r.chance( 1, 3 ) ) h.readSession( slot, "/sim/one.gdx", 5 );
   if( r.chance( 1, 4 ) ) g.op( "openr " + S( slot ) + ( r.chance( 1, 4 ) ? " % 0" : " /sim/missing.gdx 0" ) );
   g.op( "flags " + S( slot ) + " 1 1 0 0" );
   const bool other = r.chance( 1, 2 );
   if( other ) { h.create( 5 ); if( h.openW( 5, "/sim/side.gdx" ) ) { h.op( "uraw_start 5" ); h.op( "umany 5 side 0 30 1" ); h.op( "udone 5" ); } }
   for( auto &c: calls ) {
      Line l = c;
      if( l.size() < 2 ) { g.e.run( l ); continue; }
      if( l[0] == "openw" || l[0] == "opena" ) l[2] = enc( path );
      l[1] = S( slot );
      g.e.run( l );
      if( other && g.e.s[5].m.mode != NotOpen && r.chance( 1, 3 ) ) h.stepWrite( 5 );
   }
   if( other ) { h.toIdle( 5 ); h.close( 5 ); }
   g.op( "same /sim/one.gdx " + enc( path ) );
   g.op( "fill -1" );
}

void scenario( const std::string &prop, uint64_t seed, Exec &e )
{
   Gen g( e, seed );
   Rng &r = g.r;
   knobs( g, prop );
   const std::string p = PATHS[r.below( 4 )];
   if( prop == "C01" ) {
      g.create( 0 );
      g.chaos();
      history( g, 0 );
      g.writeSession( 0, p, g.k.steps );
      g.op( "verify " + p + " " + S( (long) r.below( 9 ) ) );
      if( r.chance( 1, 8 ) ) {// more data at the end of a file of several GB
         makeLarge( g, p );
         g.writeSession( 0, p, (int) r.range( 2, 10 ), true );
         g.op( "verify " + p + " " + S( (long) r.below( 9 ) ) );
      }
      g.chaos();
      const int rs = r.chance( 1, 2 ) ? 0 : 1;
      g.create( rs );
      if( g.openR( rs, p, 0 ) ) {
         g.op( "qall " + S( rs ) );
         std::vector<int> order;
         for( int i = 0; i <= (int) e.s[rs].m.c.syms.size(); i++ ) order.push_back( i );
         for( size_t i = order.size(); i > 1; i-- ) std::swap( order[i - 1], order[r.below( i )] );
         for( int y: order ) { g.op( "rstart " + S( rs ) + ( r.chance( 1, 2 ) ? " raw " : " str " ) + S( y ) ); g.op( "rnext " + S( rs ) + " -1" ); }
         g.close( rs );
      }
   }
   else if( prop == "C02" ) {
      g.create( 0 );
      g.chaos();
      g.k.steps = std::min( g.k.steps, 10 );
      history( g, 0 );
      g.writeSession( 0, p, g.k.steps );
      if( r.chance( 1, 6 ) ) makeLarge( g, p );
      const int n = (int) r.range( 1, 5 );
      for( int i = 0; i < n; i++ ) {
         if( r.chance( 1, 3 ) ) { g.op( "free 0" ); g.create( 0 ); }
         if( r.chance( 1, 3 ) ) g.chaos();
         history( g, 0 );
         g.writeSession( 0, p, r.chance( 1, 6 ) ? 0 : (int) r.range( 1, 8 ), true );
         if( r.chance( 1, 2 ) ) g.op( "verify " + p + " " + S( (long) r.below( 9 ) ) );
         if( r.chance( 1, 4 ) ) g.readSession( 0, p, 4 );
      }
      g.op( "verify " + p + " 1" );
   }
   else if( prop == "C03" || prop == "C04" || prop == "C05" ) {
      g.create( 0 );
      if( r.chance( 1, 2 ) ) g.chaos( false );
      g.writeSession( 0, p, g.k.steps );
      if( prop == "C05" || ( prop == "C03" && r.chance( 1, 2 ) ) ) {
         const int n = (int) r.range( 1, 2 );
         for( int i = 0; i < n; i++ ) {
            if( !g.openA( 0, p ) ) break;
            const size_t before = e.s[0].m.c.syms.size();
            if( prop == "C05" && r.chance( 1, 4 ) ) {// adds anything but symbols
               for( int q = (int) r.range( 1, 3 ); q > 0; q-- ) {
                  const int what = (int) r.below( 6 ), cnt = r.chance( 1, 3 ) ? (int) r.range( 5, 40 ) : 1;
                  if( what == 0 ) { g.op( r.chance( 1, 2 ) ? "uraw_start 0" : "ustr_start 0" ); g.op( "umany 0 added" + S( i ) + " 0 " + S( r.range( 1, 300 ) ) + " 1" ); g.op( "udone 0" ); }
                  else for( int c = 0; c < cnt; c++ ) {
                     if( what == 1 ) g.op( "settext 0 " + enc( "added " + S( i ) + " " + S( c ) + " " + g.text() ) );
                     else if( what == 2 && before ) g.op( "comment 0 " + S( r.range( 1, (long) before ) ) + " " + enc( g.text() ) );
                     else if( what >= 3 ) g.op( "acradd 0 " + enc( "Added" + S( i ) + "_" + S( c ) ) + " " + enc( g.text().substr( 0, 255 ) ) + " " + S( 100 + i * 100 + c ) );
                  }
               }
               g.toIdle( 0 ); g.close( 0 );
               continue;
            }
            for( int q = 0; q < (int) r.range( 1, 6 ); q++ ) g.stepWrite( 0 );
            g.toIdle( 0 );
            if( e.s[0].m.c.syms.size() == before && r.chance( 1, 2 ) ) { g.op( "wstart 0 str added" + S( i ) + " t 1 1 0" ); g.op( "wstr 0 added_el 1" ); g.op( "wdone 0" ); }
            g.close( 0 );
         }
      }
      else if( prop == "C04" && r.chance( 1, 3 ) ) g.writeSession( 0, p, (int) r.range( 1, 6 ) );// overwrite an existing file
      g.op( "disarm" );
      g.op( "quota -1" );
      g.op( "verify " + p + " " + S( (long) r.below( 9 ) ) );
   }
   else if( prop == "C06" ) {
      g.create( 0 );
      if( r.chance( 1, 2 ) ) g.k.big = 40;// symbols longer than the buffers, so that reading data goes to the disk
      fileForReading( g, 0, p, (int) r.range( 1, 5 ) );
      g.k.big = 4;
      if( r.chance( 1, 3 ) ) g.writeSession( 0, p, 3, true );
      if( r.chance( 1, 3 ) ) g.chaos( false );
      g.create( 1 );
      history( g, 1 );
      g.op( "mark " + p );
      g.k.query = 6;
      g.readSession( 1, p, (int) r.range( 3, 14 ) );
      if( r.chance( 1, 2 ) ) g.readSession( 1, p, 4 );
      g.op( "disarm" );
   }
   else if( prop == "C07" ) {
      g.create( 0 );
      if( r.chance( 1, 2 ) ) g.chaos( false );
      const int n = (int) r.range( 2, 5 );
      std::vector<std::string> done;
      for( int i = 0; i < n; i++ ) {
         const std::string q = PATHS[r.below( 4 )];
         const int what = (int) r.below( 10 );
         g.k.unfinished = r.chance( 1, 4 );
         if( what < 3 || done.empty() ) { g.writeSession( 0, q, (int) r.range( 0, 8 ) ); done.push_back( q ); }
         else if( what < 5 ) g.writeSession( 0, done[r.below( done.size() )], (int) r.range( 0, 6 ), true );
         else if( what < 8 ) g.readSession( 0, done[r.below( done.size() )], (int) r.range( 0, 8 ) );
         else if( what == 8 ) g.op( r.chance( 1, 4 ) ? "openr 0 % 0" : r.chance( 1, 2 ) ? "openr 0 /sim/missing.gdx 0" : "opena 0 /sim/missing.gdx p" );
         else {// a file that is not a GDX file, or only the start of one
            const std::string from = done[r.below( done.size() )];
            g.op( "copyfile " + enc( from ) + " /sim/broken.gdx" );
            auto it = D.files.find( norm( "/sim/broken.gdx" ) );
            const long sz = it == D.files.end() ? 10 : (long) it->second->d.size();
            if( r.chance( 1, 2 ) ) g.op( "truncate /sim/broken.gdx " + S( r.range( 0, sz - 1 ) ) );
            else g.op( "zero /sim/broken.gdx " + S( r.range( 0, std::min( sz - 1, 60L ) ) ) + " " + S( r.range( 1, 40 ) ) );
            g.op( "openjunk 0 /sim/broken.gdx " + S( (long) r.below( 2 ) ) );
         }
         if( r.chance( 1, 5 ) ) g.op( "close 0" );
         if( r.chance( 1, 3 ) ) g.op( "qall 0" );
      }
      g.op( "disarm" );
      g.writeSession( 0, "/sim/final.gdx", (int) r.range( 1, 6 ) );
      g.op( "qall 0" );
      g.op( "verify /sim/final.gdx 2" );
      g.readSession( 0, "/sim/final.gdx", (int) r.range( 2, 8 ) );
   }
   else if( prop == "C08" ) {// calls of several objects interleaved on one thread
      const int n = (int) r.range( 2, 4 );
      g.chaos();
      static const char *F[] { "/sim/o0.gdx", "/sim/o1.gdx", "/sim/o2.gdx", "/sim/o3.gdx" };
      std::vector<std::unique_ptr<Gen>> gs;
      std::vector<int> phase( (size_t) n, 0 ), left( (size_t) n, 0 );
      for( int i = 0; i < n; i++ ) {
         gs.emplace_back( new Gen( e, r.next() ) );
         knobs( *gs.back(), "C01" );
         gs.back()->k.unfinished = false;
         g.create( i );
      }
      for( int t = 0; t < 120; t++ ) {
         const int i = (int) r.below( (uint64_t) n );
         Gen &q = *gs[(size_t) i];
         int &ph = phase[(size_t) i], &lf = left[(size_t) i];
         if( ph == 0 ) { if( q.openW( i, F[i] ) ) { ph = 1; lf = (int) r.range( 2, 9 ); } }
         else if( ph == 1 || ph == 3 ) { if( lf-- > 0 ) q.stepWrite( i ); else { q.toIdle( i ); q.close( i ); ph = ph == 1 && r.chance( 1, 3 ) ? 2 : 4; } }
         else if( ph == 2 ) { if( q.openA( i, F[i] ) ) { ph = 3; lf = (int) r.range( 1, 5 ); } }
         else if( ph == 4 ) { if( q.openR( i, F[i] ) ) { ph = 5; lf = (int) r.range( 3, 12 ); } }
         else { if( lf-- > 0 ) q.stepRead( i ); else { q.toIdle( i ); q.close( i ); ph = 0; } }
      }
      for( int i = 0; i < n; i++ ) if( e.s[i].m.mode != NotOpen ) { gs[(size_t) i]->toIdle( i ); g.close( i ); }
      for( int i = 0; i < n; i++ ) g.op( std::string( "verify " ) + F[i] + " 1" );
   }
   else if( prop == "C10" ) bytesScenario( g );
   else if( prop == "C11" ) {
      g.create( 0 );
      if( r.chance( 1, 3 ) ) g.chaos();
      for( int i = 0; i < 3; i++ ) g.anyOp( 0 );
      g.writeSession( 0, p, g.k.steps );
      for( int i = 0; i < 3; i++ ) g.anyOp( 0 );
      g.op( "verify " + p + " 1" );
      if( r.chance( 1, 2 ) ) { g.writeSession( 0, p, (int) r.range( 1, 6 ), true ); g.op( "verify " + p + " 2" ); }
      g.readSession( 0, p, (int) r.range( 4, 20 ) );
      for( int i = 0; i < 4; i++ ) g.anyOp( 0 );
      if( r.chance( 1, 2 ) ) g.op( "badq 0 1" );
      g.op( "qall 0" );
   }
   else if( prop == "C12" ) c12( g );
   else if( prop == "C18" ) {// converter outcomes and environment settings around several sessions
      g.op( "convcheck" );
      static const char *N[] { "/sim/a.gdx", "/sim/dir/with space.gdx", "/sim/it's.gdx", "/sim/a;b.gdx", "/sim/$HOME.gdx", "/sim/x\"y.gdx", "/sim/(1)&2.gdx", "/sim/tab\tc.gdx", "/sim/back\\slash.gdx", "/sim/plain-name_2.gdx", "/sim/star*.gdx", "/sim/q`w`.gdx" };
      static const char *CV[] { "", "v5", "V5", " V7 ", "v7", "V6", "V8", "x" };
      static const char *CP[] { "", "0", "1", "n", "NO", "Y", "t", "yes", "2", " " };
      const int nobj = (int) r.range( 1, 2 );
      for( int i = 0; i < nobj; i++ ) g.create( i );
      if( r.chance( 1, 4 ) ) g.chaos( false );
      const int n = (int) r.range( 2, 6 );
      std::vector<std::string> done;
      g.k.query = 0; g.k.errq = false; g.k.badArg = 0;
      for( int i = 0; i < n; i++ ) {
         const int sl = (int) r.below( (uint64_t) nobj );
         if( r.chance( 1, 2 ) ) { if( r.chance( 1, 4 ) ) g.op( "unenv GDXCONVERT" ); else g.op( "env GDXCONVERT " + enc( CV[r.below( 8 )] ) ); }
         if( r.chance( 1, 2 ) ) { if( r.chance( 1, 4 ) ) g.op( "unenv GDXCOMPRESS" ); else g.op( "env GDXCOMPRESS " + enc( CP[r.below( 10 )] ) ); }
         if( r.chance( 1, 4 ) ) g.op( "autoconv " + S( sl ) + " " + S( r.chance( 1, 2 ) ? 0 : r.range( -1, 3 ) ) );
         const int o = (int) r.below( 8 );
         g.op( "sysret " + S( o < 3 ? 0 : o == 3 ? r.range( 1, 255 ) << 8 : o == 4 ? ( r.chance( 1, 2 ) ? 127 << 8 : 126 << 8 ) : o == 5 ? -1 : o == 6 ? r.range( 1, 15 ) : ( r.chance( 1, 2 ) ? 1 << 8 : 139 ) ) );
         const int w = (int) r.below( 10 );
         g.k.unfinished = r.chance( 1, 4 );
         const std::string q = N[r.below( 12 )];
         const int st = (int) r.range( 0, 4 );
         if( w < 4 || done.empty() ) { g.writeSession( sl, q, st ); done.push_back( q ); }
         else if( w < 6 ) {
            g.op( "openw0 " + S( sl ) + " " + enc( q ) + " 0 prod" );
            if( e.s[sl].m.mode != NotOpen ) { for( int t = 0; t < st; t++ ) g.stepWrite( sl ); g.toIdle( sl ); if( r.chance( 1, 6 ) ) g.op( "free " + S( sl ) ), g.create( sl ); else { g.close( sl ); done.push_back( q ); } }
         }
         else if( w < 8 ) g.writeSession( sl, r.pick( done ), st, true );
         else if( w == 8 ) g.readSession( sl, r.pick( done ), st );
         else g.op( "close " + S( sl ) );
         if( r.chance( 1, 6 ) ) g.op( "close " + S( sl ) );
      }
      g.op( "disarm" ); g.op( "quota -1" );
      for( auto &q: std::set<std::string>( done.begin(), done.end() ) ) if( r.chance( 1, 2 ) ) g.op( "verify " + enc( q ) + " 1" );
   }
   else if( prop == "C14" ) {
      g.create( 0 );
      if( r.chance( 1, 3 ) ) g.chaos();
      history( g, 0 );
      if( r.chance( 1, 2 ) ) fileForReading( g, 0, p, (int) r.range( 1, 5 ) );
      else g.writeSession( 0, p, g.k.steps );
      g.op( "decode " + p );
      if( r.chance( 1, 4 ) ) { g.writeSession( 0, p, (int) r.range( 1, 6 ), true ); g.op( "decode " + p ); }
      const int n = (int) r.range( 1, 3 );
      for( int i = 0; i < n; i++ ) {
         const std::string q = "/sim/enc" + S( i ) + ".gdx";
         const int v = r.chance( 1, 2 ) ? 7 : (int) r.range( 5, 6 );
         g.op( "encode " + p + " " + q + " " + S( v ) + " " + S( (long) r.below( 2 ) ) + " " + S( (long) r.below( 2 ) ) + " " + S( (long) r.below( 2 ) ) + " " + S( (long) r.below( 2 ) ) + " " + S( v == 5 && r.chance( 1, 3 ) ) + " " + S( (long) r.below( 2 ) ) + " " + S( (long) r.below( 1000000 ) )
            + " " + ( v > 5 && r.chance( 1, 4 ) ? holeSize( r ) : "0" ) + " " + S( r.chance( 1, 4 ) ) );
         g.op( "verify " + q + " " + S( (long) r.below( 9 ) ) );
         if( r.chance( 1, 2 ) ) g.readSession( 0, q, (int) r.range( 2, 12 ) );
         if( r.chance( 1, 3 ) ) { g.writeSession( 0, q, (int) r.range( 1, 5 ), true ); g.op( "verify " + q + " 1" ); if( v == 7 ) g.op( "decode " + q ); }
      }
   }
   else if( prop == "C13" ) {
      g.create( 0 );
      if( r.chance( 1, 3 ) ) g.chaos();
      fileForReading( g, 0, p, (int) r.range( 1, 5 ) );
      if( r.chance( 1, 8 ) ) makeLarge( g, p );
      g.create( 1 );
      history( g, 1 );
      g.k.query = 5;
      g.readSession( 1, p, (int) r.range( 8, 40 ) );
      if( r.chance( 1, 3 ) ) g.readSession( 1, p, (int) r.range( 4, 12 ) );
   }
   else throw std::logic_error( "no scenario for " + prop );
}

int planVariants( const std::string &p )
{
   if( p == "C03" ) return 6;
   if( p == "C18" ) return 4;
   if( p == "C04" ) return 8;
   if( p == "C05" ) return 8;
   if( p == "C06" ) return 8;
   if( p == "C07" ) return 4;
   return 0;
}

std::vector<Line> plan( const std::string &prop, uint64_t seed, const Exec &dry, int variant )
{
   Rng r( seed * 1000 + 17 + (uint64_t) variant );
   std::vector<Line> out;
   // lines with storage calls
   struct Pos { size_t line; char kind; long idx; long len; };
   std::vector<Pos> pos;
   std::vector<std::pair<size_t, long>> allocs;
   // which sessions are eligible
   std::map<std::string, char> mode;// slot -> w a r
   std::map<size_t, char> lineMode;
   size_t mark = 0;
   for( size_t i = 0; i < dry.script.size(); i++ ) {
      const Line &l = dry.script[i];
      if( l[0] == "mark" ) mark = i;
      if( l.size() > 1 ) {
         if( l[0] == "openw" || l[0] == "openw0" ) mode[l[1]] = 'w';
         else if( l[0] == "opena" ) mode[l[1]] = 'a';
         else if( l[0] == "openr" || l[0] == "openjunk" ) mode[l[1]] = 'r';
         lineMode[i] = mode.count( l[1] ) ? mode[l[1]] : ' ';
         if( l[0] == "close" ) mode.erase( l[1] );
      }
   }
   auto eligible = [&]( size_t i ) {
      const Line &l = dry.script[i];
      static const std::set<std::string> sim { "verify", "chaos", "fault", "disarm", "quota", "crash", "mark", "copyfile", "truncate", "flip", "flipz", "encode", "decode", "zero", "env", "unenv", "convcheck", "sysret", "fill", "same", "create", "free" };
      if( sim.count( l[0] ) ) return false;
      const char m = lineMode.count( i ) ? lineMode.at( i ) : ' ';
      if( prop == "C03" || prop == "C18" ) return m == 'w' || m == 'a';
      if( prop == "C04" ) return m == 'w';
      if( prop == "C05" ) return m == 'a';
      if( prop == "C06" ) return m == 'r' && i > mark;
      return m != ' ';
   };
   for( auto &t: dry.traces ) {
      if( !eligible( t.line ) ) continue;
      std::map<char, long> c;
      for( auto &ev: t.ev ) { pos.push_back( { t.line, ev.kind, c[ev.kind]++, ev.len } ); }
      if( t.allocs > 0 ) allocs.emplace_back( t.line, t.allocs );
   }
   std::map<size_t, std::vector<Line>> ins;
   auto pickKind = [&]( const std::string &kinds ) -> const Pos * {
      std::vector<const Pos *> c;
      for( auto &q: pos ) if( kinds.find( q.kind ) != std::string::npos ) c.push_back( &q );
      if( c.empty() ) return nullptr;
      if( prop == "C06" && r.chance( 2, 3 ) ) {// most reads happen while opening: prefer the others
         std::vector<const Pos *> d;
         for( auto *q: c ) if( dry.script[q->line][0] != "openr" ) d.push_back( q );
         if( !d.empty() ) return d[r.below( d.size() )];
      }
      else if( r.chance( 1, 3 ) ) {// prefer the calls of open and close
         std::vector<const Pos *> d;
         for( auto *q: c ) { auto &o = dry.script[q->line][0]; if( o == "close" || o == "opena" || o == "openr" ) d.push_back( q ); }
         if( !d.empty() ) return d[r.below( d.size() )];
      }
      return c[r.below( c.size() )];
   };
   auto name = []( char c ) { return c == 'r' ? "read" : c == 'w' ? "write" : c == 's' ? "lseek" : c == 'o' ? "open" : "close"; };
   if( prop == "C03" || prop == "C07" || prop == "C18" ) {
      const int v = (int) r.below( 10 );
      if( v < 2 && prop != "C07" ) {// the disk fills up
         const Pos *q = pickKind( "w" );
         if( !q ) return {};
         ins[q->line].push_back( { "quota", S( r.chance( 1, 3 ) ? 0 : r.range( 0, std::max( 1L, q->len ) ) ) } );
      }
      else {
         const Pos *q = pickKind( v < 6 ? "w" : v == 6 ? "s" : v == 7 ? "c" : v == 8 ? "o" : "rwsco" );
         if( !q ) q = pickKind( "rwsco" );
         if( !q ) return {};
         std::string kind = "eio";
         long arg = 0;
         if( q->kind == 'w' ) { static const char *kk[] { "eio", "enospc", "edquot", "partial" }; kind = kk[r.below( 4 )]; if( kind == "partial" ) arg = r.range( 0, std::max( 0L, q->len - 1 ) ); }
         else if( q->kind == 'c' ) { kind = r.chance( 1, 2 ) ? "eio" : "enospc"; arg = r.chance( 1, 2 ) ? r.range( 1, 4000 ) : 0; }
         else if( q->kind == 'o' ) { static const char *kk[] { "eacces", "emfile", "enospc", "erofs", "eio" }; kind = kk[r.below( 5 )]; }
         else if( q->kind == 'r' ) kind = r.chance( 1, 2 ) ? "eof" : "eio";
         ins[q->line].push_back( { "fault", name( q->kind ), kind, S( q->idx ), S( arg ), r.chance( 1, 2 ) ? "1" : "0" } );
      }
   }
   else if( prop == "C04" || prop == "C05" ) {
      const int v = variant % 8;
      if( v == 6 ) {
         std::vector<size_t> c;
         for( size_t i = 0; i < dry.script.size(); i++ ) if( eligible( i ) && dry.script[i][0] != "openw" && dry.script[i][0] != "opena" ) c.push_back( i );
         if( c.empty() ) return {};
         ins[c[r.below( c.size() )]].push_back( r.chance( 1, 2 ) ? Line { "crash" } : Line { "free", "0" } );
      }
      else if( v == 7 && !allocs.empty() ) {
         auto &a = allocs[r.below( allocs.size() )];
         ins[a.first].push_back( { "fault", "alloc", "fail", S( (long) r.below( (uint64_t) a.second ) ) } );
      }
      else {
         const Pos *q = pickKind( "w" );
         if( !q ) return {};
         const long arg = r.chance( 1, 3 ) ? 1000 : r.chance( 1, 4 ) ? 0 : r.range( 0, 999 );
         ins[q->line].push_back( { "fault", "write", "crash", S( q->idx ), S( arg ), "0" } );
      }
   }
   else if( prop == "C06" ) {
      const int v = variant % 8;
      const std::string path = dry.script[mark].size() > 1 ? dry.script[mark][1] : "";
      auto it = D.files.find( norm( dec( path ).c_str() ) );
      const long sz = it == D.files.end() ? 0 : (long) it->second->d.size();
      if( v == 3 || v == 4 ) {
         if( sz < 2 ) return {};
         ins[mark + 1].push_back( { "truncate", path, S( r.chance( 1, 3 ) ? sz - r.range( 1, std::min( 60L, sz - 1 ) ) : r.range( 0, sz - 1 ) ) } );
      }
      else if( v == 5 || v == 6 ) {
         if( sz < 2 ) return {};
         ins[mark + 1].push_back( { "flipz", path, S( (long) r.below( 1000000 ) ), S( r.range( 1, 255 ) ) } );
      }
      else {
         const Pos *q = pickKind( r.chance( 5, 6 ) ? "r" : "sr" );
         if( !q ) return {};
         ins[q->line].push_back( { "fault", name( q->kind ), q->kind == 'r' && r.chance( 1, 2 ) ? "eof" : "eio", S( q->idx ), "0", r.chance( 1, 2 ) ? "1" : "0" } );
      }
   }
   else return {};
   if( ins.empty() ) return {};
   for( size_t i = 0; i < dry.script.size(); i++ ) {
      if( auto it = ins.find( i ); it != ins.end() ) for( auto &l: it->second ) out.push_back( l );
      out.push_back( dry.script[i] );
   }
   return out;
}
}// namespace sim
