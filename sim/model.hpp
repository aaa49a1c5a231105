// Executable reference model of a GDX object and of the content of a GDX file.
// Written from the documented behaviour; deliberately naive (maps, vectors, full recomputation).
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace model {

inline uint64_t bitsOf( double d ) { uint64_t u; memcpy( &u, &d, 8 ); return u; }
inline double dblOf( uint64_t u ) { double d; memcpy( &d, &u, 8 ); return d; }

constexpr double SV_UNDEF = 1.0E300, SV_NA = 2.0E300, SV_PINF = 3.0E300, SV_MINF = 4.0E300, SV_EPS = 5.0E300, SV_ACR = 10.0E300;
constexpr int MAXDIM = 20;
enum { T_SET, T_PAR, T_VAR, T_EQU, T_ALIAS };
inline int valCount( int type ) { return type == T_VAR || type == T_EQU ? 5 : 1; }

inline std::string up( const std::string &s )
{
   std::string r = s;
   for( auto &c: r ) if( c >= 'a' && c <= 'z' ) c = (char) ( c - 32 );
   return r;
}
inline bool ieq( const std::string &a, const std::string &b ) { return up( a ) == up( b ); }
inline std::string rtrim( const std::string &s )
{
   size_t n = s.size();
   while( n && (unsigned char) s[n - 1] <= 32 ) n--;
   return s.substr( 0, n );
}
inline bool goodUel( const std::string &s )
{
   if( s.size() >= 64 ) return false;
   bool q1 {}, q2 {};
   for( char c: s ) {
      if( (unsigned char) c < 32 ) return false;
      q1 |= c == '\'';
      q2 |= c == '"';
   }
   return !( q1 && q2 );
}
inline bool goodIdent( const std::string &s )
{
   auto letter = []( char c ) { return ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ); };
   if( s.empty() || !letter( s[0] ) || s.size() >= 64 ) return false;
   for( char c: s ) if( !letter( c ) && !( c >= '0' && c <= '9' ) && c != '_' ) return false;
   return true;
}
inline std::string goodText( std::string s )
{
   char q {};
   for( auto &c: s ) {
      if( c == '"' || c == '\'' ) { if( !q ) q = c; c = q; }
      else if( (unsigned char) c < 32 ) c = '?';
   }
   return s;
}
// explanatory texts are limited to 255 characters; longer ones are marked and cut
inline std::string explText( const std::string &s ) { return goodText( s.size() < 256 ? s : "String overflow: " + s.substr( 0, 235 ) + "..." ); }

// case-insensitive numbered name list (1-based)
struct NameTab {
   std::vector<std::string> v;
   std::unordered_map<std::string, int> ix;
   int find( const std::string &s ) const { auto it = ix.find( up( s ) ); return it == ix.end() ? -1 : it->second; }
   int add( const std::string &s )
   {
      int n = find( s );
      if( n > 0 ) return n;
      v.push_back( s );
      ix[up( s )] = (int) v.size();
      return (int) v.size();
   }
   const std::string &at( int n ) const { return v[(size_t) n - 1]; }
   int size() const { return (int) v.size(); }
   void rename( int n, const std::string &s ) { ix.erase( up( v[(size_t) n - 1] ) ); v[(size_t) n - 1] = s; ix[up( s )] = n; }
};

struct Val {// what the file stores for one value
   int sv { -1 };// 0..4: undef na +inf -inf eps; -1: the number below
   double d {};
   bool operator==( const Val &o ) const { return sv == o.sv && bitsOf( d ) == bitsOf( o.d ); }
};
struct Rec { std::vector<int> k; std::vector<Val> v; };

struct Sym {
   std::string name, text;
   int dim {}, type {}, user {};
   bool hasText {};
   std::optional<std::vector<int>> dom;   // domain symbol numbers (0 = universe)
   std::optional<std::vector<int>> domStr;// relaxed domain names (index into domNames, 0 = *)
   std::vector<std::string> comments;
   std::vector<Rec> recs;
   // only meaningful in the session that wrote the symbol
   std::shared_ptr<std::set<int>> bitmap;
};
struct Acr { std::string name, text; int map {}, readMap { -1 }; bool autoGen {}; };

struct Content {
   std::string producer;
   bool compr {};
   int version { 7 };
   std::vector<Sym> syms;
   NameTab uels, domNames;
   std::vector<std::string> texts { "" };
   std::vector<Acr> acrs;
   int findSym( const std::string &n ) const
   {
      for( size_t i = 0; i < syms.size(); i++ ) if( ieq( syms[i].name, n ) ) return (int) i + 1;
      return -1;
   }
   int findText( const std::string &t ) const
   {
      for( size_t i = 0; i < texts.size(); i++ ) if( texts[i] == t ) return (int) i;
      return -1;
   }
};

enum Mode { NotOpen, RInit, WInit, WDomRaw, WDomMap, WDomStr, WRaw, WMap, WStr, RegRaw, RegMap, RegStr, RRaw, RMap, RMapR, RStr, RegFilt, RSlice };

struct ErrRec { std::vector<int> k; std::vector<double> v; };

struct Out {// result of one mapped read
   bool ok {};
   int dimFrst {};
   std::vector<int> k;
   std::vector<double> v;
};

struct Obj {
   // flags that survive sessions
   int autoConvert { 1 }, storeDom { 1 }, bogus { 1 }, acrNaN {}, nextAcr {};
   // session
   Mode mode { NotOpen }, aftReg { NotOpen };
   bool writing {}, append {};
   int readMode {};
   std::string file;
   Content c;
   int uelOrig {};
   std::vector<int> umap { 0 };// element -> user number (-1 none); index 0 unused
   std::map<int, int> usr;     // user number -> element
   int usrHigh {};
   std::map<int, int> node;    // text number -> node
   struct Filt { int max {}; std::set<int> in; };
   std::map<int, Filt> filters;
   int curFilter {};
   double sv[5] { SV_UNDEF, SV_NA, SV_PINF, SV_MINF, SV_EPS }, rsv[5] { SV_UNDEF, SV_NA, SV_PINF, SV_MINF, SV_EPS };
   bool anyError {};           // LastError pending
   long errTotal {};
   std::optional<std::vector<ErrRec>> errs;
   int curDim {};
   // writing
   int cur {};                 // symbol in progress (1-based, 0 none)
   struct Pend { std::vector<int> k; std::vector<double> v; };
   std::vector<Pend> pend;
   std::vector<int> last; bool haveLast {};
   std::vector<std::shared_ptr<std::set<int>>> wr;
   // reading
   int rsym {};                // resolved symbol, 0 universe
   size_t rpos {};
   bool scalarDefault {};
   std::vector<Out> sorted;    // prepared records (mapped, unsorted numbering)
   std::vector<int> acts;
   std::vector<int> prevRaw, prevKey;
   // slices
   int sliceSym {}; int sliceDim {};
   std::vector<std::vector<int>> sliceElems;// per dimension, elements in order
   std::vector<std::string> sliceSel;

   bool in( std::initializer_list<Mode> l ) const { return std::find( l.begin(), l.end(), mode ) != l.end(); }
   bool anyWrite() const { return in( { WInit, WDomRaw, WDomMap, WDomStr, WRaw, WMap, WStr } ); }
   bool anyRead() const { return in( { RInit, RRaw, RMap, RMapR, RStr } ); }
   void err( int n = 1 ) { anyError = true; errTotal += n; }
   Sym &sym( int n ) { return c.syms[(size_t) n - 1]; }
   bool goodSy( int n ) const { return mode != NotOpen && n >= 1 && n <= (int) c.syms.size(); }

   void resetSv()
   {
      const double d[5] { SV_UNDEF, SV_NA, SV_PINF, SV_MINF, SV_EPS };
      memcpy( sv, d, sizeof d );
      memcpy( rsv, d, sizeof d );
   }
   void clearSession()
   {
      c = Content {}; umap.assign( 1, 0 ); usr.clear(); usrHigh = 0; node.clear(); filters.clear(); curFilter = 0;
      errs.reset(); cur = 0; pend.clear(); wr.clear(); rsym = 0; rpos = 0; scalarDefault = false; sorted.clear();
      writing = append = false; readMode = 0; mode = NotOpen; aftReg = NotOpen; sliceElems.clear(); sliceSel.clear(); haveLast = false;
   }
   // ---- open / close ---------------------------------------------------------------------------
   void openWrite( const std::string &f, bool compr, const std::string &producer )
   {
      clearSession();
      file = f; c.compr = compr; c.producer = producer;
      mode = WInit; writing = true; uelOrig = 0;
      anyError = false; errTotal = 0; resetSv();
   }
   void openFrom( const std::string &f, const Content &from, bool app, int rm )
   {
      clearSession();
      file = f; c = from; readMode = rm;
      for( auto &s: c.syms ) s.bitmap.reset();
      for( auto &a: c.acrs ) { a.readMap = -1; a.autoGen = false; if( a.name.empty() ) a.name = "UnknownACRO" + std::to_string( a.map ); }
      umap.assign( (size_t) c.uels.size() + 1, -1 );
      uelOrig = c.uels.size();
      mode = app ? WInit : RInit; writing = app; append = app;
      anyError = false; errTotal = 0; resetSv();
   }
   // content that a successful close leaves on disk
   Content close()
   {
      if( in( { WDomRaw, WDomMap, WDomStr, WRaw, WMap, WStr } ) ) writeDone();
      Content r = c;
      for( auto &s: r.syms ) s.bitmap.reset();
      for( auto &a: r.acrs ) { a.readMap = -1; a.autoGen = false; if( a.name.empty() ) a.name = "UnknownACRO" + std::to_string( a.map ); }
      clearSession();
      return r;
   }
   // ---- elements -------------------------------------------------------------------------------
   int addUel( const std::string &s )
   {
      int before = c.uels.size(), n = c.uels.add( s );
      if( c.uels.size() > before ) umap.push_back( -1 );
      return n;
   }
   bool regStart( Mode m )
   {
      if( !( mode == WInit || ( m != RegRaw && mode == RInit ) ) ) { err(); return false; }
      aftReg = mode; mode = m; return true;
   }
   bool regDone() { if( !in( { RegRaw, RegMap, RegStr } ) ) { err(); return false; } mode = aftReg; return true; }
   bool regRaw( const std::string &s )
   {
      if( mode != RegRaw ) { err(); return false; }
      auto t = rtrim( s );
      if( !goodUel( t ) ) { err(); return false; }
      addUel( t ); return true;
   }
   void setUsr( int n, int en ) { usr[n] = en; usrHigh = std::max( usrHigh, n ); }
   int newUsr( int en )
   {
      if( umap[(size_t) en] < 0 ) { umap[(size_t) en] = usrHigh + 1; setUsr( usrHigh + 1, en ); }
      return umap[(size_t) en];
   }
   bool regStr( const std::string &s, int &nr )
   {
      if( mode != RegStr ) { err(); return false; }
      auto t = rtrim( s );
      if( !goodUel( t ) ) { err(); return false; }
      nr = newUsr( addUel( t ) );
      return true;
   }
   bool regMap( int um, const std::string &s )
   {
      if( mode != RegMap ) { err(); return false; }
      auto t = rtrim( s );
      if( !goodUel( t ) ) { err(); return false; }
      int en = addUel( t );
      if( umap[(size_t) en] < 0 ) { umap[(size_t) en] = um; setUsr( um, en ); return true; }
      if( umap[(size_t) en] != um ) { err(); return false; }
      return true;
   }
   int entOf( int u ) const { auto it = usr.find( u ); return it == usr.end() ? -1 : it->second; }
   int rename( const std::string &o, const std::string &n )
   {
      if( mode == NotOpen ) return -1;
      auto t = rtrim( n );
      if( !goodUel( t ) ) return -100017;
      int k = c.uels.find( rtrim( o ) );
      if( k < 0 ) return 2;
      if( c.uels.find( t ) >= 0 ) return 3;
      c.uels.rename( k, t );
      return 0;
   }
   // ---- writing --------------------------------------------------------------------------------
   bool goodNew( const std::string &n )
   {
      bool acr {};
      for( auto &a: c.acrs ) acr |= ieq( a.name, n );
      if( c.findSym( n ) > 0 || acr || !goodIdent( n ) ) { err(); return false; }
      return true;
   }
   bool writeStart( Mode m, const std::string &n, const std::string &txt, int dim, int type, int user )
   {
      if( mode != WInit ) { err(); return false; }
      errs.reset(); cur = 0;
      if( !goodNew( n ) ) return false;
      if( dim < 0 || dim > MAXDIM || type < 0 || type > T_EQU ) { err(); return false; }
      Sym s;
      s.name = n; s.text = explText( txt ); s.dim = dim; s.type = type; s.user = user;
      if( type == T_SET && dim == 1 && storeDom ) s.bitmap = std::make_shared<std::set<int>>();
      c.syms.push_back( s );
      cur = (int) c.syms.size(); curDim = dim;
      pend.clear(); haveLast = false; last.assign( (size_t) dim, 0 );
      wr.assign( (size_t) dim, nullptr );
      mode = m;
      return true;
   }
   Mode dataMode() const { return mode == WDomRaw ? WRaw : mode == WDomMap ? WMap : mode == WDomStr ? WStr : mode; }
   bool setDomain( const std::vector<std::string> &ids )
   {
      if( !in( { WDomRaw, WDomMap, WDomStr } ) ) { err(); return false; }
      bool res = true;
      Sym &S = sym( cur );
      S.dom = std::vector<int>( (size_t) S.dim, 0 );
      for( int d = 0; d < S.dim; d++ ) {
         int ds {};
         bool domap = true;
         if( ids[(size_t) d] != "*" ) {
            ds = c.findSym( ids[(size_t) d] );
            if( ds <= 0 ) { err(); ds = 0; res = false; }
         }
         int n = ds;
         while( n > 0 ) {
            const Sym &o = sym( n );
            if( !bogus && o.dim == 1 && ( o.type == T_SET || o.type == T_ALIAS ) ) {
               // a one-dimensional set without known elements may not serve as domain
               if( !( o.type == T_ALIAS && o.user == 0 ) ) {
                  const Sym &t = o.type == T_ALIAS ? sym( o.user ) : o;
                  if( !t.bitmap ) { err(); return false; }
               }
            }
            if( o.type == T_SET ) break;
            if( o.type == T_ALIAS ) { n = o.user; if( n > 0 ) continue; domap = false; break; }
            err(); res = false; ds = 0; break;
         }
         ( *S.dom )[(size_t) d] = ds;
         if( domap && ds > 0 && ( S.dim != 1 || cur != ds ) ) wr[(size_t) d] = sym( n ).bitmap;
      }
      mode = dataMode();
      return res;
   }
   bool setDomainX( int n, const std::vector<std::string> &ids )
   {
      if( !goodSy( n ) ) { err(); return false; }
      Sym &S = sym( n );
      if( S.dim > 0 ) {
         S.domStr = std::vector<int>( (size_t) S.dim, 0 );
         for( int d = 0; d < S.dim; d++ )
            if( goodIdent( ids[(size_t) d] ) ) ( *S.domStr )[(size_t) d] = c.domNames.add( ids[(size_t) d] );
      }
      return true;
   }
   Val toVal( double x ) const
   {
      for( int i = 0; i < 5; i++ ) if( bitsOf( x ) == bitsOf( sv[i] ) ) return { i, 0 };
      if( x == 0.0 ) return { -1, 0.0 };
      if( std::isnan( x ) ) return { 1, 0 };
      if( std::isinf( x ) ) return { x > 0 ? 2 : 3, 0 };
      return { -1, x };
   }
   void addErr( const std::vector<int> &k, const std::vector<double> &v )
   {
      if( !errs ) errs.emplace();
      else if( errs->size() >= 11 ) return;
      errs->push_back( { k, v } );
   }
   // domain errors: one record per (position, element) is enough
   void addDomErr( const std::vector<int> &k, const std::vector<double> &v )
   {
      if( !errs ) errs.emplace();
      else if( errs->size() >= 11 ) return;
      for( size_t d = 0; d < k.size(); d++ ) {
         if( k[d] >= 0 ) continue;
         bool found {};
         for( auto &e: *errs ) found |= e.k[d] == k[d];
         if( !found ) { errs->push_back( { k, v } ); return; }
      }
   }
   bool store( const std::vector<int> &k, const std::vector<double> &v )
   {
      Sym &S = sym( cur );
      std::vector<int> bad = k;
      bool viol {};
      for( size_t d = 0; d < k.size(); d++ )
         if( wr[d] && !wr[d]->count( k[d] ) ) { viol = true; bad[d] = -k[d]; }
      if( viol ) { err(); addDomErr( bad, v ); return false; }
      if( S.dim > 0 && haveLast ) {
         if( k == last || k < last ) { err(); addErr( k, v ); return false; }
      }
      Rec r; r.k = k;
      for( int i = 0; i < valCount( S.type ); i++ ) {
         Val x = toVal( v[(size_t) i] );
         r.v.push_back( x );
         if( x.sv < 0 && x.d >= SV_ACR ) {
            int ai = (int) std::lround( x.d / SV_ACR );
            bool f {};
            for( auto &a: c.acrs ) f |= a.map == ai;
            if( !f ) c.acrs.push_back( { "", "", ai, -1, false } );
         }
      }
      S.recs.push_back( r );
      last = k; haveLast = true;
      if( S.type == T_SET ) {
         if( v[0] != 0.0 ) S.hasText = true;
         if( S.dim == 1 && S.bitmap ) S.bitmap->insert( k[0] );
      }
      return true;
   }
   bool writeRaw( const std::vector<int> &k, const std::vector<double> &v )
   {
      if( !in( { WDomRaw, WRaw } ) ) { err(); return false; }
      mode = WRaw;
      return store( k, v );
   }
   bool writeMap( const std::vector<int> &k, const std::vector<double> &v )
   {
      if( !in( { WDomMap, WMap } ) ) { err(); return false; }
      mode = WMap;
      std::vector<int> e;
      for( int u: k ) { int n = entOf( u ); if( n < 0 ) { err(); return false; } e.push_back( n ); }
      pend.push_back( { e, v } );
      return true;
   }
   bool writeStr( const std::vector<std::string> &k, const std::vector<double> &v )
   {
      if( !in( { WDomStr, WStr } ) ) { err(); return false; }
      mode = WStr;
      std::vector<int> e;
      for( auto &s: k ) {
         auto t = rtrim( s );
         int n = c.uels.find( t );
         if( n < 0 ) { if( !goodUel( t ) ) { err(); return false; } n = addUel( t ); }
         e.push_back( n );
      }
      pend.push_back( { e, v } );
      return true;
   }
   bool writeDone()
   {
      if( !in( { WDomRaw, WDomMap, WDomStr, WRaw, WMap, WStr } ) ) { err(); return false; }
      if( !in( { WDomRaw, WRaw } ) ) {
         std::stable_sort( pend.begin(), pend.end(), []( const Pend &a, const Pend &b ) { return a.k < b.k; } );
         for( auto &p: pend ) store( p.k, p.v );
      }
      pend.clear();
      mode = WInit; cur = 0;
      return true;
   }
   bool addAlias( const std::string &a, const std::string &b )
   {
      if( !anyWrite() ) { err(); return false; }
      int x = a == "*" ? 1 << 30 : c.findSym( a ), y = b == "*" ? 1 << 30 : c.findSym( b );
      if( ( x >= 0 ) == ( y >= 0 ) ) { err(); return false; }
      int n = x > 0 ? x : y;
      const std::string &nm = x > 0 ? b : a;
      if( n == 1 << 30 ) n = 0;
      else if( sym( n ).type != T_SET && sym( n ).type != T_ALIAS ) { err(); return false; }
      if( !goodNew( nm ) ) return false;
      Sym s;
      s.name = nm; s.type = T_ALIAS; s.user = n; s.dim = n ? sym( n ).dim : 1;
      s.text = n ? "Aliased with " + sym( n ).name : "Aliased with *";
      c.syms.push_back( s );
      return true;
   }
   bool hasTexts() const { return mode != NotOpen && readMode % 2 == 0; }
   bool addText( const std::string &t, int &nr )
   {
      if( !hasTexts() ) { nr = 0; return false; }
      auto g = goodText( t.substr( 0, 255 ) );
      nr = c.findText( g );
      if( nr < 0 ) { nr = (int) c.texts.size(); c.texts.push_back( g ); }
      return true;
   }
   bool setNode( int t, int nd )
   {
      if( !hasTexts() || t < 0 || t >= (int) c.texts.size() || node[t] ) return false;
      node[t] = nd; return true;
   }
   bool addComment( int n, const std::string &t )
   {
      if( !anyWrite() ) { err(); return false; }
      int k = n <= 0 ? cur : n <= (int) c.syms.size() ? n : 0;
      if( !k ) { err(); return false; }
      sym( k ).comments.push_back( t.substr( 0, 255 ) );
      return true;
   }
   bool setSv( const double *v )
   {
      for( int i = 0; i < 5; i++ ) for( int j = i + 1; j < 5; j++ ) if( bitsOf( v[i] ) == bitsOf( v[j] ) ) { err(); return false; }
      memcpy( sv, v, sizeof sv ); memcpy( rsv, v, sizeof rsv );
      return true;
   }
   int acrAdd( const std::string &n, const std::string &t, int ix )
   {
      if( mode == NotOpen ) return -1;
      for( size_t i = 0; i < c.acrs.size(); i++ ) {
         if( ieq( c.acrs[i].name, n ) ) { if( c.acrs[i].map != ix ) { err(); return -1; } return 0; }
         if( c.acrs[i].map == ix ) { err(); return -1; }
      }
      c.acrs.push_back( { n, goodText( t ), ix, ix, false } );
      return (int) c.acrs.size();
   }
   bool acrSet( int n, const std::string &nm, const std::string &t, int ix )
   {
      if( mode == NotOpen || n < 1 || n > (int) c.acrs.size() ) { err(); return false; }
      auto &a = c.acrs[(size_t) n - 1];
      if( anyWrite() || a.autoGen ) {
         if( !goodNew( nm ) ) { err(); return false; }
         if( a.autoGen ) a.autoGen = false;
         else if( ix != a.map ) { err(); return false; }
         a.name = nm; a.text = goodText( t );
      }
      else if( a.readMap != ix ) {
         if( !ieq( nm, a.name ) ) { err(); return false; }
         for( auto &b: c.acrs ) if( b.readMap == ix ) { err(); return false; }
         a.readMap = ix;
      }
      return true;
   }
   // ---- reading --------------------------------------------------------------------------------
   double acrRead( double v )
   {
      if( v < SV_ACR ) return v;
      if( acrNaN ) return sv[1];
      int org = (int) std::lround( v / SV_ACR );
      Acr *a {};
      for( auto &x: c.acrs ) if( x.map == org ) { a = &x; break; }
      int nw = a ? a->readMap : 0;
      if( nw <= 0 ) {
         if( nextAcr <= 0 ) nw = org;
         else {
            nw = nextAcr++;
            if( !a ) { c.acrs.push_back( { "", "", org, -1, false } ); a = &c.acrs.back(); }
            a->readMap = nw; a->autoGen = true;
         }
      }
      return SV_ACR * nw;
   }
   double readVal( const Val &v )
   {
      if( v.sv >= 0 ) return rsv[v.sv];
      return acrRead( v.d );
   }
   std::vector<double> defaultRec( const Sym &S ) const
   {
      static const double P = SV_PINF, N = SV_MINF;
      static const double V[10][5] { { 0, 0, 0, 0, 1 }, { 0, 0, 0, 1, 1 }, { 0, 0, 0, P, 1 }, { 0, 0, 0, P, 1 }, { 0, 0, N, 0, 1 }, { 0, 0, N, P, 1 }, { 0, 0, 0, P, 1 }, { 0, 0, 0, P, 1 }, { 0, 0, 1, P, 1 }, { 0, 0, 1, P, 1 } };
      static const double E[7][5] { { 0, 0, 0, 0, 1 }, { 0, 0, 0, P, 1 }, { 0, 0, N, 0, 1 }, { 0, 0, N, P, 1 }, { 0, 0, 0, 0, 1 }, { 0, 0, 0, P, 1 }, { 0, 0, 0, 0, 1 } };
      if( S.type != T_VAR && S.type != T_EQU ) return { 0.0 };
      const double *p = S.type == T_VAR ? V[S.user >= 0 && S.user <= 9 ? S.user : 0] : E[S.user >= 53 && S.user < 60 ? S.user - 53 : 0];
      std::vector<double> r( p, p + 5 );
      for( auto &x: r ) { if( x == P ) x = rsv[2]; else if( x == N ) x = rsv[3]; }
      return r;
   }
   int resolve( int n ) const
   {// follow aliases; 0 = universe
      while( n > 0 && c.syms[(size_t) n - 1].type == T_ALIAS ) n = c.syms[(size_t) n - 1].user;
      return n;
   }
   int dimOf( int n ) const { return n == 0 ? 1 : c.syms[(size_t) n - 1].dim; }
   size_t recCount( int r ) const { return r == 0 ? (size_t) uelOrig : c.syms[(size_t) r - 1].recs.size(); }
   std::vector<int> rawKey( int r, size_t i ) const { return r == 0 ? std::vector<int> { (int) i + 1 } : c.syms[(size_t) r - 1].recs[i].k; }
   std::vector<double> rawVals( int r, size_t i )
   {
      if( r == 0 ) return { 0.0 };
      std::vector<double> o;
      for( auto &v: c.syms[(size_t) r - 1].recs[i].v ) o.push_back( readVal( v ) );
      return o;
   }
   // status of the user numbering: 0 unsorted, 1 sorted with gaps, 2 sorted with a gap only at the end, 3 complete
   int mapStatus() const
   {
      int st = 2, lv = -1; bool cont = true;
      for( int n = 1; n <= c.uels.size(); n++ ) {
         int v = umap[(size_t) n];
         if( v < 0 ) cont = false;
         else if( v > lv ) { lv = v; if( !cont ) st = 1; }
         else return 0;
      }
      return st == 2 && cont ? 3 : st;
   }
   // does filter f keep the element order?
   bool filtSorted( const Filt &f ) const
   {
      int lv = -1;
      for( int n = 1; n <= c.uels.size(); n++ ) {
         int v = umap[(size_t) n];
         if( !f.in.count( v ) ) continue;
         if( v <= lv ) return false;
         lv = v;
      }
      return true;
   }
   bool willBeSorted( const std::vector<int> &a ) const
   {
      int st = mapStatus();
      for( size_t d = 0; d < a.size(); d++ ) {
         if( a[d] == -2 ) continue;
         if( a[d] == -1 ) { if( st == 0 ) return false; if( d == 0 ? st < 2 : st < 3 ) return false; }
         else if( a[d] == 0 ) { if( st == 0 ) return false; }
         else if( st < 1 && !filtSorted( filters.at( a[d] ) ) ) return false;
      }
      return true;
   }
   bool usable( int d, int el, int &v ) const
   {// map element el at position d; false: rejected
      switch( acts[(size_t) d] ) {
         case -2: v = el; return true;
         case 0: v = umap[(size_t) el]; return v >= 0;
         case -1: v = umap[(size_t) el]; return true;// may be negative: to be numbered
         default: v = umap[(size_t) el]; return filters.at( acts[(size_t) d] ).in.count( v ) > 0;
      }
   }
   // returns number of records, -1 on refusal
   int readStart( Mode m, int n, const std::vector<int> &actions )
   {
      if( in( { RRaw, RStr, RMap, RMapR } ) ) readDone();
      if( mode != RInit ) { err(); return -1; }
      errs.reset();
      rsym = 0; sorted.clear(); rpos = 0; scalarDefault = false; prevRaw.clear();
      if( n != 0 ) {
         if( n < 1 || n > (int) c.syms.size() ) { err(); return -1; }
         rsym = resolve( n );
      }
      curDim = dimOf( rsym );
      acts = actions;
      acts.resize( (size_t) curDim, -2 );
      for( int d = 0; d < curDim; d++ )
         if( acts[(size_t) d] > 0 ? !filters.count( acts[(size_t) d] ) : acts[(size_t) d] < -2 ) { err(); return -1; }
      int nr = (int) recCount( rsym );
      if( curDim == 0 && nr == 0 ) { scalarDefault = true; mode = m; return 1; }
      prevKey.assign( (size_t) curDim, -1 );
      if( m == RMap ) {
         if( willBeSorted( acts ) ) { mode = RMapR; return nr; }
         for( size_t i = 0; i < recCount( rsym ); i++ ) {
            Out o;
            o.v = rawVals( rsym, i );
            std::vector<int> raw = rawKey( rsym, i );
            int bad {};
            o.k.resize( (size_t) curDim );
            for( int d = 0; d < curDim && !bad; d++ ) if( !usable( d, raw[(size_t) d], o.k[(size_t) d] ) ) bad = d + 1;
            if( bad ) { raw[(size_t) bad - 1] *= -1; addDomErr( raw, o.v ); continue; }
            for( int d = 0; d < curDim; d++ ) if( acts[(size_t) d] == -1 && umap[(size_t) raw[(size_t) d]] < 0 ) newUsr( raw[(size_t) d] );
            for( int d = 0; d < curDim; d++ ) if( acts[(size_t) d] == -1 ) o.k[(size_t) d] = umap[(size_t) raw[(size_t) d]];
            sorted.push_back( o );
         }
         std::stable_sort( sorted.begin(), sorted.end(), []( const Out &a, const Out &b ) { return a.k < b.k; } );
         mode = RMap;
         return (int) sorted.size();
      }
      mode = m;
      return nr;
   }
   static int firstDiff( const std::vector<int> &a, std::vector<int> &prev )
   {
      int f {};
      for( size_t d = 0; d < a.size(); d++ ) if( d >= prev.size() || a[d] != prev[d] ) { f = (int) d + 1; break; }
      prev = a;
      return f;
   }
   bool readDone()
   {
      if( !in( { RInit, RRaw, RMap, RMapR, RStr, RSlice } ) ) { err(); return false; }
      mode = RInit;
      return true;
   }
   // next record in raw element numbers (raw and string mode); at the end the read is closed
   Out nextRaw( Mode m )
   {
      Out o;
      if( mode != m ) { err(); return o; }
      if( scalarDefault ) { scalarDefault = false; o.ok = true; o.v = defaultRec( c.syms[(size_t) rsym - 1] ); return o; }
      if( rpos >= recCount( rsym ) ) { mode = RInit; return o; }
      o.ok = true;
      o.k = rawKey( rsym, rpos ); o.v = rawVals( rsym, rpos );
      o.dimFrst = rsym == 0 ? 1 : firstDiff( o.k, prevRaw );
      rpos++;
      return o;
   }
   Out nextMap()
   {
      Out o;
      if( !in( { RMap, RMapR } ) ) { err(); return o; }
      if( scalarDefault ) { scalarDefault = false; o.ok = true; o.v = defaultRec( c.syms[(size_t) rsym - 1] ); return o; }
      if( mode == RMap ) {
         if( rpos >= sorted.size() ) return o;
         o = sorted[rpos++]; o.ok = true;
         o.dimFrst = firstDiff( o.k, prevKey );
         return o;
      }
      while( rpos < recCount( rsym ) ) {
         std::vector<int> raw = rawKey( rsym, rpos );
         o.v = rawVals( rsym, rpos );
         rpos++;
         o.k.assign( (size_t) curDim, 0 );
         bool bad {};
         for( int d = 0; d < curDim; d++ )
            if( raw[(size_t) d] < 1 || raw[(size_t) d] > c.uels.size() ) { err(); o = Out {}; return o; }
         std::vector<int> e = raw;
         for( int d = 0; d < curDim; d++ ) if( !usable( d, raw[(size_t) d], o.k[(size_t) d] ) ) { bad = true; e[(size_t) d] *= -1; }
         if( bad ) { addDomErr( e, o.v ); continue; }
         for( int d = 0; d < curDim; d++ ) if( acts[(size_t) d] == -1 ) o.k[(size_t) d] = newUsr( raw[(size_t) d] );
         o.ok = true;
         o.dimFrst = firstDiff( o.k, prevKey );
         return o;
      }
      o = Out {};
      return o;
   }
};
}// namespace model
