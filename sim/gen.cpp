#include "gen.hpp"
#include <cmath>

using namespace model;
namespace sim {
extern double genVal( Rng &r, const Obj &m, int type, int field );
static std::string S( long n ) { return std::to_string( n ); }

std::string Gen::newUel()
{
   switch( r.below( 14 ) ) {
      case 0: return std::string( 63, (char) ( 'a' + r.below( 26 ) ) );
      case 1: return "it's " + S( uelCtr++ );
      case 2: return "say \"" + S( uelCtr++ ) + "\"";
      case 3: return " lead" + S( uelCtr++ );
      case 4: return "trail" + S( uelCtr++ ) + "   ";
      case 5: return "\xc3\xa4\xc3\xb6" + S( uelCtr++ );
      case 6: return r.chance( 1, 10 ) ? "" : "x y z" + S( uelCtr++ );
      case 7: return std::string( 1, (char) ( r.chance( 1, 2 ) ? 'A' + r.below( 26 ) : 'a' + r.below( 26 ) ) );
      default: return ( r.chance( 1, 2 ) ? "i" : r.chance( 1, 2 ) ? "Elem" : "j" ) + S( uelCtr++ );
   }
}
std::string Gen::uel( int slot )
{
   const Obj &m = e.s[slot].m;
   if( (int) r.below( 100 ) < k.badArg ) {
      switch( r.below( 5 ) ) {
         case 0: return std::string( 64 + r.below( 3 ), 'q' );
         case 1: return "mix'\"ed";
         case 2: return std::string( "ctl\x01" ) + "x";
         case 3: return std::string( 200, 'w' ) + std::string( r.below( 120 ), ' ' );
         default: return "tab\tx";
      }
   }
   if( m.c.uels.size() && r.chance( 3, 5 ) ) {
      std::string t = m.c.uels.at( (int) r.range( 1, m.c.uels.size() ) );
      if( r.chance( 1, 6 ) ) for( auto &c: t ) c = (char) ( r.chance( 1, 2 ) ? toupper( (unsigned char) c ) : tolower( (unsigned char) c ) );
      if( r.chance( 1, 12 ) ) t += "  ";
      return t;
   }
   return newUel();
}
std::string Gen::text()
{
   switch( r.below( 9 ) ) {
      case 0: return "";
      case 1: return std::string( 255, 't' );
      case 2: return std::string( 250 + r.below( 30 ), 'l' );
      case 3: return "mixed 'quotes\" here";
      case 4: return std::string( "control \x02 char" );
      case 5: return "text " + S( (long) r.below( 6 ) );
      default: return "Some text " + S( (long) r.below( 40 ) );
   }
}
std::string Gen::symName( bool fresh, int slot )
{
   const Obj &m = e.s[slot].m;
   if( (int) r.below( 100 ) < k.badArg ) {
      static const char *bad[] { "", "1abc", "a b", "_x", "sym-1", "*" };
      if( r.chance( 1, 3 ) && !m.c.syms.empty() ) return m.c.syms[r.below( m.c.syms.size() )].name;
      if( r.chance( 1, 4 ) ) return std::string( 64, 'n' );
      return bad[r.below( 6 )];
   }
   if( fresh || m.c.syms.empty() ) {
      if( r.chance( 1, 30 ) ) return std::string( 50, (char) ( 'a' + r.below( 26 ) ) ) + S( symCtr++ );
      return ( r.chance( 1, 4 ) ? "Sym_" : "s" ) + S( symCtr++ );
   }
   std::string t = m.c.syms[r.below( m.c.syms.size() )].name;
   if( r.chance( 1, 6 ) ) t = up( t );
   return t;
}
std::string Gen::vals( int slot, int type )
{
   std::string t;
   for( int i = 0; i < valCount( type ); i++ ) t += ( i ? "," : "" ) + encD( genVal( r, e.s[slot].m, type, i ) );
   return t;
}
void Gen::chaos( bool eintr )
{
   if( r.chance( 1, 3 ) ) { op( "chaos 0 0 0 0" ); return; }
   op( "chaos " + S( (long) r.below( 1000000 ) + 1 ) + " " + S( (long) r.below( 70 ) ) + " " + S( eintr && r.chance( 1, 2 ) ? (long) r.below( 30 ) : 0 ) + " " + S( r.chance( 1, 4 ) ? r.range( 1, 5000 ) : 0 ) + ( k.sectors ? " sectors" : "" ) );
}
bool Gen::openW( int slot, const std::string &path, int compr )
{
   if( compr < 0 ) compr = (int) r.below( 2 );
   op( "openw " + S( slot ) + " " + enc( path ) + " " + S( compr ) + " " + enc( r.chance( 1, 10 ) ? std::string( 200, 'P' ) : "producer" + S( (long) r.below( 3 ) ) ) );
   return e.s[slot].m.mode != NotOpen;
}
bool Gen::openA( int slot, const std::string &path )
{
   op( "opena " + S( slot ) + " " + enc( path ) + " " + enc( "appender" ) );
   return e.s[slot].m.mode != NotOpen;
}
bool Gen::openR( int slot, const std::string &path, int mode )
{
   op( "openr " + S( slot ) + " " + enc( path ) + " " + S( mode ) );
   return e.s[slot].m.mode != NotOpen;
}
void Gen::registerSome( int slot )
{
   Obj &m = e.s[slot].m;
   const std::string s = S( slot );
   const int n = (int) r.range( 1, 7 );
   if( r.chance( 1, 8 ) ) {
      op( "umany " + s + " " + ( r.chance( 1, 2 ) ? "m" : "q" ) + " " + S( r.range( 0, 50 ) ) + " " + S( r.chance( k.big, 100 ) ? huge( 20 ) ? r.range( 150000, 156000 ) : r.range( 200, 70000 ) : r.range( 1, 300 ) ) + " " + S( r.range( 1, 400 ) ) );
      return;
   }
   for( int i = 0; i < n && m.mode != NotOpen; i++ ) {
      if( m.mode == RegRaw ) op( "uraw " + s + " " + enc( uel( slot ) ) );
      else if( m.mode == RegStr ) op( "ustr " + s + " " + enc( uel( slot ) ) );
      else if( m.mode == RegMap ) op( "umap " + s + " " + S( r.chance( 1, 8 ) ? r.range( 1, 3000 ) : r.chance( 1, 3 ) ? m.usrHigh + 1 : r.range( 1, 12 ) ) + " " + enc( uel( slot ) ) );
      else break;
   }
}
void Gen::symbol( int slot, bool finish )
{
   Obj &m = e.s[slot].m;
   const std::string s = S( slot );
   int dim = r.chance( 1, 12 ) ? (int) r.range( 4, 20 ) : (int) r.range( 0, 3 );
   int type = (int) r.below( 4 );
   if( (int) r.below( 100 ) < k.badArg / 2 ) { if( r.chance( 1, 2 ) ) dim = r.chance( 1, 2 ) ? 21 : -1; else type = 5; }
   const int user = r.chance( 1, 3 ) ? (int) r.range( 0, 9 ) : type == T_EQU ? (int) r.range( 53, 59 ) : type == T_VAR ? (int) r.range( 0, 9 ) : 0;
   static const char *md[] { "raw", "map", "str", "str", "rawkb" };
   std::string w = md[r.below( 5 )];
   if( ( w == "raw" || w == "rawkb" ) && m.c.uels.size() == 0 && dim > 0 ) w = "str";
   if( w == "map" && m.usr.empty() && dim > 0 ) w = "str";
   std::string t = "wstart " + s + " " + w + " " + enc( symName( true, slot ) ) + " " + enc( text() ) + " " + S( dim ) + " " + S( type ) + " " + S( user );
   int lo = 1, hi = std::max( 1, m.c.uels.size() );
   if( w == "rawkb" ) { if( r.chance( 1, 2 ) ) lo = (int) r.range( 1, hi ); t += " " + S( lo ) + " " + S( hi ); }
   op( t );
   if( !m.in( { WDomRaw, WDomMap, WDomStr } ) ) return;
   if( r.chance( 1, 2 ) ) {
      std::string d;
      for( int i = 0; i < dim; i++ ) {
         std::string nm = "*";
         if( r.chance( 2, 3 ) ) {// prefer sets with elements
            std::vector<std::string> c;
            for( auto &y: m.c.syms ) if( ( y.type == T_SET || y.type == T_ALIAS ) && y.dim == 1 ) c.push_back( y.name );
            if( !c.empty() && !r.chance( k.badArg, 100 ) ) nm = c[r.below( c.size() )];
            else if( r.chance( k.badArg, 60 ) && !m.c.syms.empty() ) nm = m.c.syms[r.below( m.c.syms.size() )].name;
            else if( r.chance( k.badArg, 100 ) ) nm = "nosuch";
         }
         d += ( i ? "," : "" ) + enc( nm );
      }
      op( "setdom " + s + " " + ( dim ? d : "-" ) );
   }
   if( !m.cur ) return;
   // explicit records, then perhaps many generated ones
   const int n = r.chance( 1, 5 ) ? 0 : (int) r.range( 1, 6 );
   std::vector<int> last;
   auto keyRaw = [&] {
      std::vector<int> kk;
      for( int d = 0; d < dim; d++ ) kk.push_back( (int) r.range( lo, hi ) );
      return kk;
   };
   std::vector<std::vector<int>> rk;
   for( int i = 0; i < n; i++ ) rk.push_back( keyRaw() );
   if( !r.chance( 1, 5 ) ) std::sort( rk.begin(), rk.end() );
   auto js = []( const std::vector<int> &v ) { std::string o; for( size_t i = 0; i < v.size(); i++ ) o += ( i ? "," : "" ) + S( v[i] ); return v.empty() ? std::string( "-" ) : o; };
   const bool gen = w != "rawkb" && r.chance( 1, 2 );
   if( gen ) {
      op( "wgen " + s + " " + S( (long) r.below( 1000000 ) ) + " " + S( r.chance( k.big, 100 ) ? huge( 40 ) ? r.range( 60000, 80000 ) : r.range( 500, 9000 ) : r.range( 1, k.maxRecs ) ) + " " + S( (long) r.below( r.chance( 1, 4 ) ? 20 : 10 ) ) );
   }
   else
      for( int i = 0; i < n && m.cur; i++ ) {
         if( w == "raw" || w == "rawkb" ) op( "wraw " + s + " " + js( rk[(size_t) i] ) + " " + vals( slot, type ) );
         else if( w == "map" ) {
            std::vector<int> kk;
            std::vector<int> us;
            for( auto &u: m.usr ) us.push_back( u.first );
            for( int d = 0; d < dim; d++ ) kk.push_back( us.empty() || (int) r.below( 100 ) < k.badArg / 2 ? (int) r.range( 1, 50 ) : us[r.below( us.size() )] );
            op( "wmap " + s + " " + js( kk ) + " " + vals( slot, type ) );
         }
         else {
            std::string kk;
            for( int d = 0; d < dim; d++ ) kk += ( d ? "," : "" ) + enc( uel( slot ) );
            op( "wstr " + s + " " + ( dim ? kk : "-" ) + " " + vals( slot, type ) );
         }
         if( type == T_SET && r.chance( 1, 6 ) ) op( "settext " + s + " " + enc( text() ) );
         if( r.chance( k.misuse, 100 ) ) anyOp( slot );
      }
   if( r.chance( 1, 8 ) && m.cur ) op( "comment " + s + " 0 " + enc( text() ) );
   if( r.chance( k.query, 100 ) ) op( "qall " + s );
   if( finish && m.cur ) op( "wdone " + s );
}
void Gen::stepWrite( int slot )
{
   Obj &m = e.s[slot].m;
   const std::string s = S( slot );
   if( m.mode == NotOpen ) return;
   if( r.chance( k.misuse, 100 ) ) { anyOp( slot ); return; }
   if( r.chance( k.query, 100 ) ) { op( "qall " + s ); return; }
   if( m.in( { RegRaw, RegMap, RegStr } ) ) { registerSome( slot ); op( "udone " + s ); return; }
   if( m.cur ) { op( "wdone " + s ); return; }
   switch( r.below( 20 ) ) {
      case 0: op( "uraw_start " + s ); registerSome( slot ); op( "udone " + s ); break;
      case 1: op( "ustr_start " + s ); registerSome( slot ); op( "udone " + s ); break;
      case 2: op( "umap_start " + s ); registerSome( slot ); op( "udone " + s ); break;
      case 3: {// the known name may come first or second
         const auto known = enc( r.chance( 1, 5 ) ? "*" : symName( false, slot ) ), fresh = enc( symName( true, slot ) );
         op( "alias " + s + " " + ( r.chance( 1, 4 ) ? fresh + " " + known : known + " " + fresh ) );
         break;
      }
      case 4:
         if( r.chance( k.big, 80 ) ) {
            static const char *K[] { "texts", "symbols", "acronyms", "aliases", "comments" };
            const int w = (int) r.below( 5 );
            op( "many " + s + " " + K[w] + " " + std::string( 1, (char) ( 'k' + w ) ) + "_" + S( symCtr++ ) + "_ " + S( r.range( 0, 20 ) ) + " " + S( w == 0 ? r.range( 100, 3500 ) : w == 1 ? r.range( 20, r.chance( 1, 4 ) ? 1700 : 300 ) : w == 3 ? r.range( 2, 10 ) : r.range( 20, r.chance( 1, 3 ) ? 1200 : 300 ) ) );
         }
         else op( "settext " + s + " " + enc( text() ) );
         break;
      case 5: op( "comment " + s + " " + S( r.range( 0, (long) m.c.syms.size() + ( r.chance( k.badArg, 100 ) ? 1 : 0 ) ) ) + " " + enc( text() ) ); break;
      case 6: op( "acradd " + s + " " + enc( "Acr" + S( (long) r.below( 6 ) ) ) + " " + enc( text().substr( 0, 255 ) ) + " " + S( r.range( 1, 6 ) ) ); break;
      case 7: if( !m.c.syms.empty() ) { const int n = (int) r.range( 1, (long) m.c.syms.size() ); std::string d; for( int i = 0; i < m.sym( n ).dim; i++ ) d += ( i ? "," : "" ) + enc( r.chance( 1, 3 ) ? "*" : r.chance( 1, 2 ) ? "rdom" + S( (long) r.below( 4 ) ) : symName( false, slot ) ); op( "setdomx " + s + " " + S( n ) + " " + ( d.empty() ? "-" : d ) ); } break;
      case 8: if( r.chance( 1, 8 ) ) op( "trace " + s + " " + S( r.range( 0, 3 ) ) ); else if( r.chance( 1, 3 ) ) op( "flags " + s + " " + S( (long) r.below( 2 ) ) + " " + S( (long) r.below( 2 ) ) + " 0 -1" ); else if( k.errq ) op( "err " + s ); break;
      case 9:
         if( r.chance( 1, 3 ) ) op( "svset " + s + " -1e30,-2e30,-3e30,-4e30," + encD( r.chance( 1, 8 ) ? -1e30 : -5e30 ) );
         else if( r.chance( 1, 2 ) ) op( "svreset " + s );
         else op( "setnode " + s + " " + S( r.range( 0, (long) m.c.texts.size() ) ) + " " + S( r.range( 1, 9 ) ) );
         break;
      case 10: if( k.rename && m.c.uels.size() ) op( "rename " + s + " " + enc( uel( slot ) ) + " " + enc( newUel() ) ); break;
      case 11: if( !m.c.acrs.empty() && r.chance( 1, 2 ) ) { const int n = (int) r.range( 1, (long) m.c.acrs.size() ); op( "acrset " + s + " " + S( n ) + " " + enc( "AcrN" + S( (long) r.below( 30 ) ) ) + " " + enc( "acro text" ) + " " + S( m.c.acrs[(size_t) n - 1].map ) ); } break;
      default: symbol( slot, !( k.unfinished && r.chance( 1, 30 ) ) ); break;
   }
}
void Gen::toIdle( int slot )
{
   Obj &m = e.s[slot].m;
   const std::string s = S( slot );
   if( m.in( { RegRaw, RegMap, RegStr } ) ) op( "udone " + s );
   if( m.cur && m.in( { WRaw, WMap, WStr, WDomMap, WDomRaw, WDomStr } ) ) op( "wdone " + s );
   if( m.mode == RegFilt ) op( "fdone " + s );
   if( m.in( { RRaw, RMap, RMapR, RStr, RSlice } ) ) op( "rdone " + s );
}
void Gen::writeSession( int slot, const std::string &path, int steps, bool append )
{
   if( !( append ? openA( slot, path ) : openW( slot, path ) ) ) return;
   for( int i = 0; i < steps && e.s[slot].m.mode != NotOpen && e.s[slot].h; i++ ) stepWrite( slot );
   if( !k.unfinished || r.chance( 1, 2 ) ) toIdle( slot );
   else if( r.chance( 1, 2 ) ) { toIdle( slot ); symbol( slot, false ); }
   else { toIdle( slot ); if( r.chance( 1, 2 ) ) { op( ( r.chance( 1, 3 ) ? "uraw_start " : r.chance( 1, 2 ) ? "ustr_start " : "umap_start " ) + S( slot ) ); registerSome( slot ); } }
   close( slot );
}
void Gen::stepRead( int slot )
{
   Obj &m = e.s[slot].m;
   const std::string s = S( slot );
   if( m.mode == NotOpen ) return;
   if( r.chance( k.misuse, 100 ) ) { anyOp( slot ); return; }
   if( r.chance( k.query, 100 ) ) { op( "qall " + s ); return; }
   const int ns = (int) m.c.syms.size();
   int n = (int) r.range( 0, ns );
   if( (int) r.below( 100 ) < k.badArg / 2 ) n = r.chance( 1, 2 ) ? ns + 1 : -1;
   auto inRange = [&]( int y ) {// mapped reads need keys that are known elements
      if( y < 1 || y > ns ) return true;
      const int q = m.resolve( y );
      if( q < 1 ) return true;
      for( auto &rec: m.c.syms[(size_t) q - 1].recs ) for( int x: rec.k ) if( x < 1 || x > m.c.uels.size() ) return false;
      return true;
   };
   const int dim = n < 0 || n > ns ? 1 : m.dimOf( n == 0 ? 0 : m.resolve( n ) );
   if( m.mode == RegFilt ) {
      for( int i = 0; i < (int) r.range( 1, 6 ); i++ ) op( "freg " + s + " " + S( m.usrHigh ? r.range( 1, m.usrHigh + ( r.chance( k.badArg, 100 ) ? 1 : 0 ) ) : 1 ) );
      op( "fdone " + s );
      return;
   }
   if( m.in( { RegMap, RegStr } ) ) { registerSome( slot ); op( "udone " + s ); return; }
   if( m.mode == RSlice ) {
      if( r.chance( 1, 4 ) ) { op( "rdone " + s ); return; }
      std::string f, kk;
      int free {};
      const bool bad = r.chance( 1, 10 );
      const int sd = m.sliceDim;
      for( int d = 0; d < sd; d++ ) {
         std::string t;
         auto &el = m.sliceElems[(size_t) d];
         if( r.chance( 1, 2 ) && !el.empty() && el[0] <= m.c.uels.size() ) { int x = el[r.below( el.size() )]; t = x <= m.c.uels.size() ? m.c.uels.at( x ) : ""; }
         if( bad && d == 0 ) t = "no such element";
         if( t.empty() ) { kk += ( free ? "," : "" ) + S( r.range( 0, std::max( 0L, (long) el.size() - 1 ) ) ); free++; }
         f += ( d ? "," : "" ) + enc( t );
      }
      op( "slice " + s + " " + ( sd ? f : "-" ) );
      if( m.mode == RSlice && r.chance( 1, 2 ) ) {
         bool nm = true;
         for( auto &x: m.sliceElems ) for( int y: x ) nm &= y <= m.c.uels.size();
         if( nm ) op( "sliceuels " + s + " " + ( free ? kk : "-" ) );
      }
      return;
   }
   if( m.in( { RRaw, RStr, RMap, RMapR } ) && r.chance( 2, 3 ) ) { op( "rnext " + s + " " + S( r.chance( 1, 2 ) ? -1 : r.range( 1, 8 ) ) ); if( r.chance( 1, 3 ) && m.mode != NotOpen ) op( "rdone " + s ); return; }
   switch( r.below( 18 ) ) {
      case 0: case 1: op( "rstart " + s + " raw " + S( n ) ); if( r.chance( 2, 3 ) ) op( "rnext " + s + " -1" ); break;
      case 2: case 3: op( "rstart " + s + " str " + S( n ) ); if( r.chance( 2, 3 ) ) op( "rnext " + s + " -1" ); break;
      case 4: if( inRange( n ) ) { op( "rstart " + s + " map " + S( n ) ); if( r.chance( 2, 3 ) ) op( "rnext " + s + " -1" ); } break;
      case 5: case 6: case 7: if( inRange( n ) ) {
         std::string f;
         std::vector<int> fl;
         for( auto &x: m.filters ) fl.push_back( x.first );
         for( int d = 0; d < dim; d++ ) {
            int a = r.chance( 1, 4 ) ? -2 : r.chance( 1, 3 ) ? 0 : -1;
            if( !fl.empty() && r.chance( 1, 2 ) ) a = fl[r.below( fl.size() )];
            if( (int) r.below( 100 ) < k.badArg / 2 ) a = r.chance( 1, 2 ) ? 77 : -3;
            f += ( d ? "," : "" ) + S( a );
         }
         op( "rfilt " + s + " " + S( n ) + " " + ( dim ? f : "-" ) );
         if( r.chance( 2, 3 ) ) op( "rnext " + s + " -1" );
         if( r.chance( 1, 2 ) ) op( "qall " + s );
      } break;
      case 8: op( "fast " + s + " " + S( n ) ); break;
      case 9: op( "fastex " + s + " " + S( n ) + " " + S( r.chance( 1, 2 ) ? -1 : r.range( 1, 6 ) ) ); break;
      case 10: {
         std::string f;
         for( int d = 0; d < dim; d++ ) f += ( d ? "," : "" ) + enc( r.chance( 2, 3 ) ? "" : uel( slot ) );
         op( "fastfilt " + s + " " + S( n ) + " " + ( dim ? f : "-" ) + " " + S( r.chance( 1, 2 ) ? -1 : r.range( 1, 6 ) ) );
      } break;
      case 11: if( m.mode == RInit || m.in( { RRaw, RStr, RMap, RMapR } ) ) op( "slicestart " + s + " " + S( n ) ); break;
      case 12: if( inRange( n ) ) op( "domel " + s + " " + S( n ) + " " + S( r.range( 1, std::max( 1, dim ) ) ) + " " + S( m.filters.empty() || r.chance( 1, 2 ) ? -1 : m.filters.begin()->first ) + " " + S( (long) r.below( 2 ) ) ); break;
      case 13: toIdle( slot ); op( "idxmax " + s + " " + S( n ) ); break;
      case 14: toIdle( slot ); op( "fstart " + s + " " + S( r.range( 1, 4 ) ) ); break;
      case 15: toIdle( slot ); op( ( r.chance( 1, 2 ) ? "ustr_start " : "umap_start " ) + s ); registerSome( slot ); op( "udone " + s ); break;
      case 16:
         switch( r.below( 7 ) ) {
            case 6: op( "trace " + s + " " + S( r.range( 0, 3 ) ) ); break;
            case 0: op( "flags " + s + " 1 1 " + S( (long) r.below( 2 ) ) + " " + S( r.chance( 1, 2 ) ? r.range( 0, 20 ) : -1 ) ); break;
            case 1: op( "svread " + s + " -1e20,-2e20,-3e20,-4e20,-5e20" ); break;
            case 2: op( "svset " + s + " 1e40,2e40,3e40,4e40,5e40" ); break;
            case 3: op( "svreset " + s ); break;
            case 4: if( !m.c.acrs.empty() ) { const int q = (int) r.range( 1, (long) m.c.acrs.size() ); op( "acrset " + s + " " + S( q ) + " " + enc( m.c.acrs[(size_t) q - 1].name ) + " tx " + S( r.range( 1, 30 ) ) ); } break;
            default: op( "fexists " + s + " " + S( r.range( 1, 4 ) ) ); break;
         }
         break;
      default: if( k.errq ) op( "err " + s ); else op( "rdone " + s ); break;
   }
}
void Gen::readSession( int slot, const std::string &path, int steps )
{
   if( !openR( slot, path, r.chance( 1, 6 ) ? (int) r.below( 4 ) : 0 ) ) return;
   for( int i = 0; i < steps && e.s[slot].m.mode != NotOpen; i++ ) stepRead( slot );
   if( r.chance( 1, 2 ) ) toIdle( slot );
   close( slot );
}
// any call, whatever the phase: either it is right or it must be refused without effect
void Gen::anyOp( int slot )
{
   Obj &m = e.s[slot].m;
   const std::string s = S( slot );
   const bool wr = m.writing;
   const int ns = (int) m.c.syms.size();
   const int n = (int) r.range( -1, ns + 1 );
   const std::string nm = enc( r.chance( 1, 2 ) ? symName( false, slot ) : "zz" + S( (long) r.below( 5 ) ) );
   switch( r.below( 30 ) ) {
      case 0: op( "openw " + s + ( m.mode == NotOpen ? " %" : " /sim/never.gdx" ) + " 1 p" ); break;
      case 1: op( "openr " + s + ( r.chance( 1, 3 ) ? " % 0" : " /sim/missing.gdx 0" ) ); break;
      case 2: op( "opena " + s + " /sim/missing2.gdx p" ); break;
      case 3: if( m.mode != RegRaw ) op( "uraw " + s + " " + enc( newUel() ) ); break;
      case 4: if( m.mode != RegStr ) op( "ustr " + s + " " + enc( newUel() ) ); break;
      case 5: if( m.mode != RegMap ) op( "umap " + s + " 3 " + enc( newUel() ) ); break;
      case 6: if( !m.in( { WInit } ) ) op( "uraw_start " + s ); break;
      case 7: if( !m.in( { WInit, RInit } ) ) op( "ustr_start " + s ); break;
      case 8: if( !m.in( { WInit, RInit } ) ) op( "umap_start " + s ); break;
      case 9: if( !m.in( { RegRaw, RegMap, RegStr } ) ) op( "udone " + s ); break;
      case 10: if( !m.in( { WInit } ) ) op( "wstart " + s + " raw " + nm + " t 1 1 0" ); break;
      case 11: if( !m.in( { WInit } ) ) op( "wstart " + s + " map " + nm + " t 2 0 0" ); break;
      case 12: if( !m.in( { WInit } ) ) op( "wstart " + s + " str " + nm + " t 1 2 0" ); break;
      case 13: if( !m.in( { WRaw, WDomRaw } ) ) op( "wraw " + s + " 1,1 1" ); break;
      case 14: if( !m.in( { WMap, WDomMap } ) ) op( "wmap " + s + " 1,1 1" ); break;
      case 15: if( !m.in( { WStr, WDomStr } ) ) op( "wstr " + s + " a,b 1" ); break;
      case 16: if( !m.cur ) op( "wdone " + s ); break;
      case 17: if( !m.in( { WDomRaw, WDomMap, WDomStr } ) ) op( "setdom " + s + " *,*" ); break;
      case 18: if( !m.anyRead() ) op( "rstart " + s + " raw " + S( n ) ); break;
      case 19: if( !m.anyRead() ) op( "rstart " + s + " map " + S( n ) ); break;
      case 20: if( !m.anyRead() ) op( "rstart " + s + " str " + S( n ) ); break;
      case 21: if( !m.in( { RRaw, RMap, RMapR, RStr } ) ) op( "rnext " + s + " 3" ); break;
      case 22: if( !m.anyRead() && m.mode != RSlice ) op( "rdone " + s ); break;
      case 23: if( !m.anyRead() && m.mode != RSlice ) op( ( r.chance( 1, 2 ) ? "fast " : "fastex " ) + s + " " + S( n ) + " -1" ); break;
      case 24: if( !m.anyRead() && m.mode != RSlice ) op( "slicestart " + s + " " + S( n ) ); break;
      case 25: if( m.mode != RSlice ) op( ( r.chance( 1, 2 ) ? "slice " : "sliceuels " ) + s + ( r.chance( 1, 2 ) ? " -" : " 1" ) ); break;
      case 26: if( m.mode != RInit ) op( r.chance( 1, 2 ) ? "fstart " + s + " 1" : "fexists " + s + " 1" ); if( m.mode != RegFilt ) op( r.chance( 1, 2 ) ? "freg " + s + " 1" : "fdone " + s ); break;
      case 27: if( !m.anyWrite() ) { op( "alias " + s + " " + nm + " zzz" ); op( "comment " + s + " 1 c" ); } break;
      case 28: if( !m.anyRead() && m.mode != RSlice ) { op( "domel " + s + " " + S( std::max( 1, n ) ) + " 1 -1 1" ); op( "idxmax " + s + " " + S( n ) ); } break;
      default: op( "badq " + s + " " + S( r.chance( 1, 2 ) ? -1 : 100000 ) ); if( r.chance( 1, 2 ) ) op( "fastfilt " + s + " " + S( m.anyRead() || m.mode == RSlice ? 0 : n ) + " - -1" ); break;
   }
   (void) wr;
}
}// namespace sim
