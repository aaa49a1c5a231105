// Independent reader and writer of the GDX file format (versions 5 to 7, both byte orders, compressed
// or not), written from the format description and sharing no code with the library.
#pragma once
#include "disk.hpp"
#include "model.hpp"
#include <sstream>
#include <stdexcept>
#include <zlib.h>

namespace codec {
using model::Content;
using Buf = std::vector<uint8_t>;
struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };
struct Range { size_t a, b; };

// ---- reading ------------------------------------------------------------------------------------
struct In {
   const Buf &d;
   std::vector<Range> *z {};
   size_t pos {};
   bool compr {}, flip {};
   Buf blk; size_t bp {};
   int64_t holeAt {}, hole {};// of a sparse file
   explicit In( const Buf &b ) : d( b ) {}
   void seek( int64_t p, bool c ) { if( hole && p >= holeAt + hole ) p -= hole; else if( hole && p > holeAt ) throw Bad( "section position inside the hole" ); if( p < 0 || (size_t) p > d.size() ) throw Bad( "section position " + std::to_string( p ) + " outside the file" ); pos = (size_t) p; compr = c; blk.clear(); bp = 0; }
   void fill()
   {
      if( pos + 3 > d.size() ) throw Bad( "block header cut off" );
      const int t = d[pos]; const size_t n = (size_t) d[pos + 1] * 256 + d[pos + 2];
      pos += 3;
      if( pos + n > d.size() ) throw Bad( "block cut off" );
      if( t == 0 ) blk.assign( d.begin() + (long) pos, d.begin() + (long) ( pos + n ) );
      else if( t == 1 ) {
         uLongf len = 70000;
         blk.resize( len );
         if( uncompress( blk.data(), &len, d.data() + pos, n ) != Z_OK ) throw Bad( "undecodable block" );
         if( len > 32768 ) throw Bad( "block larger than 32768 bytes" );
         blk.resize( len );
         if( z ) z->push_back( { pos, pos + n } );
      }
      else throw Bad( "unknown block type " + std::to_string( t ) );
      pos += n; bp = 0;
      if( blk.empty() ) throw Bad( "empty block" );
   }
   uint8_t byte()
   {
      if( !compr ) { if( pos >= d.size() ) throw Bad( "read behind the end" ); return d[pos++]; }
      if( bp == blk.size() ) fill();
      return blk[bp++];
   }
   template<class T> T num( bool f )
   {
      uint8_t b[sizeof( T )];
      for( size_t i = 0; i < sizeof( T ); i++ ) b[f ? sizeof( T ) - 1 - i : i] = byte();
      T v; memcpy( &v, b, sizeof( T ) ); return v;
   }
   int i32() { return num<int32_t>( flip ); }
   int64_t i64() { return num<int64_t>( flip ); }
   double dbl() { return num<double>( flip ); }
   int word() { return num<uint16_t>( flip ); }
   std::string str() { int n = byte(); std::string s; for( int i = 0; i < n; i++ ) s += (char) byte(); return s; }
   void mark( const char *m ) { auto s = str(); if( s != m ) throw Bad( std::string( "marker " ) + m + " missing" ); }
};

inline int elemSize( int64_t n ) { return n <= 0 ? 4 : n <= 255 ? 1 : n <= 65535 ? 2 : 4; }

inline Content decode( const Buf &d, std::vector<Range> *z = nullptr, std::string *audit = nullptr, int64_t holeAt = 0, int64_t hole = 0 )
{
   In f( d ); f.z = z; f.holeAt = holeAt; f.hole = hole;
   if( f.byte() != 2 ) throw Bad( "size of word" );
   int w = f.word();
   if( w == 0x3412 ) f.flip = true; else if( w != 0x1234 ) throw Bad( "word pattern" );
   if( f.byte() != 4 || f.i32() != 0x12345678 ) throw Bad( "integer pattern" );
   if( f.byte() != 8 || f.dbl() != 3.1415926535897932385 ) throw Bad( "double pattern" );
   if( f.byte() != 123 ) throw Bad( "header byte" );
   if( f.str() != "GAMSGDX" ) throw Bad( "header text" );
   Content c;
   const int ver = c.version = f.i32();
   if( ver < 5 || ver > 7 ) throw Bad( "version" );
   c.compr = ver > 5 && f.i32() > 0;
   const std::string au = f.str();
   if( audit ) *audit = au;
   c.producer = f.str();
   if( f.i32() != 19510624 ) throw Bad( "index marker missing" );
   int64_t sy, ue, tx, ac {}, nw {}, ds {};
   if( ver == 5 ) { sy = f.i32(); ue = f.i32(); tx = f.i32(); f.i32(); }
   else { sy = f.i64(); ue = f.i64(); tx = f.i64(); if( ver == 7 ) { ac = f.i64(); nw = f.i64(); ds = f.i64(); } }
   if( ver == 7 && nw > (int64_t) d.size() + hole ) throw Bad( "write position behind the end" );
   struct Loc { int64_t pos; int count; bool compr; };
   std::vector<Loc> loc;
   f.seek( sy, c.compr );
   f.mark( "_SYMB_" );
   for( int n = f.i32(); n > 0; n-- ) {
      model::Sym s; Loc l;
      s.name = f.str();
      l.pos = ver == 5 ? f.i32() : f.i64();
      s.dim = f.i32(); s.type = f.byte(); s.user = f.i32(); l.count = f.i32(); f.i32();
      if( s.dim < 0 || s.dim > 20 || s.type > 4 ) throw Bad( "symbol entry of " + s.name );
      s.hasText = f.byte();
      s.text = f.str();
      l.compr = ver > 5 && f.byte();
      if( ver == 7 ) {
         if( f.byte() ) { s.dom.emplace(); for( int i = 0; i < s.dim; i++ ) s.dom->push_back( f.i32() ); }
         for( int k = f.i32(); k > 0; k-- ) s.comments.push_back( f.str() );
      }
      c.syms.push_back( s ); loc.push_back( l );
   }
   f.mark( "_SYMB_" );
   f.seek( tx, c.compr );
   f.mark( "_SETT_" );
   c.texts.clear();
   for( int n = f.i32(); n > 0; n-- ) c.texts.push_back( f.str() );
   f.mark( "_SETT_" );
   f.seek( ue, c.compr );
   f.mark( "_UEL_" );
   for( int n = f.i32(); n > 0; n-- ) { auto u = f.str(); c.uels.v.push_back( u ); c.uels.ix[model::up( u )] = c.uels.size(); }
   f.mark( "_UEL_" );
   if( ver == 7 ) {
      f.seek( ac, c.compr );
      f.mark( "_ACRO_" );
      for( int n = f.i32(); n > 0; n-- ) { model::Acr a; a.name = f.str(); a.text = f.str(); a.map = f.i32(); c.acrs.push_back( a ); }
      f.mark( "_ACRO_" );
      if( ds ) {
         f.seek( ds, c.compr );
         f.mark( "_DOMS_" );
         for( int n = f.i32(); n > 0; n-- ) c.domNames.add( f.str() );
         f.mark( "_DOMS_" );
         while( true ) {
            const int n = f.i32();
            if( n <= 0 ) break;
            if( n > (int) c.syms.size() ) throw Bad( "domain of an unknown symbol" );
            auto &s = c.syms[(size_t) n - 1];
            s.domStr.emplace();
            for( int i = 0; i < s.dim; i++ ) { s.domStr->push_back( f.i32() ); if( s.domStr->back() < 0 || s.domStr->back() > c.domNames.size() ) throw Bad( "unknown domain name" ); }
         }
         f.mark( "_DOMS_" );
      }
   }
   for( size_t n = 0; n < c.syms.size(); n++ ) {
      auto &s = c.syms[n];
      if( s.type == model::T_ALIAS ) continue;
      f.seek( loc[n].pos, loc[n].compr );
      f.mark( "_DATA_" );
      if( f.byte() != s.dim ) throw Bad( "dimension in the data of " + s.name );
      f.i32();
      if( s.dim == 0 && loc[n].count == 0 ) continue;
      int mn[20], mx[20], sz[20];
      for( int i = 0; i < s.dim; i++ ) { mn[i] = f.i32(); mx[i] = f.i32(); sz[i] = elemSize( (int64_t) mx[i] - mn[i] + 1 ); }
      const int delta = ver < 7 ? 10 : s.dim;
      std::vector<int> k( (size_t) s.dim, 0 );
      bool any {};
      while( true ) {
         const int b = f.byte();
         if( b == 255 ) break;
         if( b == 0 ) throw Bad( "record code 0" );
         auto prev = k;
         if( b > delta ) { if( !any && s.dim > 0 ) throw Bad( "first record is relative" ); if( s.dim > 0 ) k.back() += b - delta; }
         else for( int i = b - 1; i < s.dim; i++ ) k[(size_t) i] = mn[i] + ( sz[i] == 1 ? f.byte() : sz[i] == 2 ? f.word() : f.i32() );
         if( any && s.dim > 0 && !( prev < k ) ) throw Bad( "records of " + s.name + " out of order" );
         any = true;
         for( int i = 0; i < s.dim; i++ ) if( k[(size_t) i] < mn[i] || k[(size_t) i] > mx[i] ) throw Bad( "key outside the stored bounds in " + s.name );
         model::Rec r; r.k = k;
         for( int i = 0; i < model::valCount( s.type ); i++ ) {
            model::Val v;
            const int sv = f.byte();
            static const double code[5] { 0.0, 1.0, -1.0, 0.5, 2.0 };
            if( sv < 5 ) v.sv = sv;
            else if( sv < 10 ) v.d = code[sv - 5];
            else if( sv == 10 ) v.d = f.dbl();
            else throw Bad( "value code " + std::to_string( sv ) );
            r.v.push_back( v );
         }
         s.recs.push_back( r );
      }
      if( (int) s.recs.size() != loc[n].count ) throw Bad( "record count of " + s.name + " is " + std::to_string( s.recs.size() ) + ", the index says " + std::to_string( loc[n].count ) );
   }
   return c;
}

// ---- a text form of everything a file holds ---------------------------------------------------
inline std::string canon( const Content &c )
{
   std::ostringstream o;
   o << "version " << c.version << " compressed " << c.compr << " producer " << c.producer.substr( 0, 255 ) << '\n';
   for( size_t i = 0; i < c.uels.v.size(); i++ ) o << "uel " << i + 1 << ' ' << c.uels.v[i] << '\n';
   for( size_t i = 0; i < c.texts.size(); i++ ) o << "text " << i << ' ' << c.texts[i] << '\n';
   for( auto &a: c.acrs ) o << "acronym " << a.name << " [" << a.text << "] " << a.map << '\n';
   for( auto &s: c.syms ) {
      o << "symbol " << s.name << " [" << s.text << "] " << s.dim << ' ' << s.type << ' ' << s.user << " text " << s.hasText << " domain";
      if( s.dom ) for( int x: *s.dom ) o << ' ' << x;
      o << " relaxed";
      if( s.domStr ) for( int x: *s.domStr ) o << ' ' << ( x ? c.domNames.at( x ) : "*" );
      for( auto &t: s.comments ) o << " comment [" << t << "]";
      o << '\n';
      if( s.type == model::T_ALIAS ) continue;
      for( auto &r: s.recs ) {
         o << "  ";
         for( int k: r.k ) o << k << ',';
         for( auto &v: r.v ) { if( v.sv >= 0 ) o << " sv" << v.sv; else { char b[32]; snprintf( b, sizeof b, " %016llx", (unsigned long long) model::bitsOf( v.d ) ); o << b; } }
         o << '\n';
      }
   }
   return o.str();
}

// ---- writing ----------------------------------------------------------------------------------
struct Opt { int version { 7 }; bool flip {}, compr {}, mixed {}; uint64_t seed { 1 }; bool dupText {}, old2001 {}, widths {}; int64_t hole {}; };

struct Outb {
   Buf d, blk;
   bool compr {}, flip {};
   sim::Rng *r {};
   size_t lim { 32768 };
   void begin( bool c ) { flush(); compr = c; lim = r->chance( 1, 2 ) ? 32768 : (size_t) r->range( 1, 3000 ); }
   void flush()
   {
      if( blk.empty() ) return;
      Buf z( compressBound( blk.size() ) );
      uLongf n = z.size();
      compress2( z.data(), &n, blk.data(), blk.size(), (int) r->range( 1, 9 ) );
      const bool pack = n < blk.size() && n < 65536;
      const size_t m = pack ? n : blk.size();
      d.push_back( pack ); d.push_back( (uint8_t) ( m >> 8 ) ); d.push_back( (uint8_t) ( m & 255 ) );
      if( pack ) d.insert( d.end(), z.begin(), z.begin() + (long) n ); else d.insert( d.end(), blk.begin(), blk.end() );
      blk.clear();
   }
   void byte( int b ) { if( !compr ) { d.push_back( (uint8_t) b ); return; } blk.push_back( (uint8_t) b ); if( blk.size() == lim ) flush(); }
   template<class T> void num( T v ) { uint8_t b[sizeof( T )]; memcpy( b, &v, sizeof( T ) ); for( size_t i = 0; i < sizeof( T ); i++ ) byte( b[flip ? sizeof( T ) - 1 - i : i] ); }
   void i32( int v ) { num<int32_t>( v ); }
   void i64( int64_t v ) { num<int64_t>( v ); }
   void str( const std::string &s ) { const size_t n = std::min<size_t>( s.size(), 255 ); byte( (int) n ); for( size_t i = 0; i < n; i++ ) byte( (uint8_t) s[i] ); }
};

// what a file of that version can hold (older versions: no domains, comments, acronyms, at most 10 dimensions)
inline Content reduce( Content c, const Opt &o )
{
   c.version = o.version; c.compr = o.compr && o.version > 5;
   if( o.version < 7 ) {
      c.acrs.clear(); c.domNames = {};
      for( auto &s: c.syms ) {
         s.dom.reset(); s.domStr.reset(); s.comments.clear();
         if( s.dim > 10 ) {
            s.dim = 10;
            for( auto &r: s.recs ) r.k.resize( 10 );
            std::vector<model::Rec> q;
            for( auto &r: s.recs ) if( q.empty() || q.back().k < r.k ) q.push_back( r );
            s.recs = q;
         }
      }
      for( auto &s: c.syms ) if( s.type == model::T_ALIAS && s.user > 0 ) s.dim = c.syms[(size_t) s.user - 1].dim;
   }
   return c;
}

inline Buf encode( const Content &c, const Opt &o, long *holeAt = nullptr )
{// with o.hole, that many bytes nobody stored precede a section chosen by the seed
   sim::Rng r( o.seed );
   Outb f; f.r = &r; f.flip = o.flip;
   f.byte( 2 ); f.num<uint16_t>( 0x1234 ); f.byte( 4 ); f.i32( 0x12345678 ); f.byte( 8 ); f.num<double>( 3.1415926535897932385 );
   f.byte( 123 ); f.str( "GAMSGDX" ); f.i32( o.version );
   if( o.version > 5 ) f.i32( c.compr ? 1 : 0 );
   f.str( o.old2001 ? "GDX Library    2001 OLD RELEASE" : "GDX Library      C++ V7 other release" );
   f.str( c.producer );
   const size_t ix = f.d.size();
   for( int i = 0; i < 84; i++ ) f.byte( 0 );
   // texts, possibly stored twice
   std::vector<std::string> tx = c.texts;
   std::map<int, std::vector<int>> copies;
   for( size_t i = 0; i < tx.size(); i++ ) copies[(int) i].push_back( (int) i );
   std::vector<int> place( c.texts.size() );
   if( o.dupText && tx.size() > 1 ) {// a repeated entry after its original; numbers of later ones shift
      tx.clear(); copies.clear();
      for( size_t i = 0; i < c.texts.size(); i++ ) {
         copies[(int) i].push_back( (int) tx.size() ); tx.push_back( c.texts[i] );
         if( r.chance( 1, 3 ) ) { const int q = (int) r.below( i + 1 ); copies[q].push_back( (int) tx.size() ); tx.push_back( c.texts[(size_t) q] ); }
      }
   }
   struct Loc { int64_t pos {}; bool compr {}; };
   std::vector<Loc> loc;
   int64_t hole {};
   long before = o.hole ? (long) r.below( c.syms.size() + 1 ) : -1;
   auto dig = [&] { if( before-- != 0 ) return; f.begin( false ); hole = o.hole; *holeAt = (long) f.d.size(); };
   for( auto &s: c.syms ) {
      Loc l;
      dig();
      if( s.type != model::T_ALIAS ) {
         l.compr = c.compr && s.dim > 0 && !( o.mixed && r.chance( 1, 2 ) );
         f.begin( false );
         l.pos = (int64_t) f.d.size() + hole;
         f.begin( l.compr );
         f.str( "_DATA_" ); f.byte( s.dim );
         f.i32( r.chance( 1, 2 ) ? -1 : (int) s.recs.size() );
         std::vector<int> mn( (size_t) s.dim, INT32_MAX ), mx( (size_t) s.dim, 0 );
         for( auto &q: s.recs ) for( int i = 0; i < s.dim; i++ ) { mn[(size_t) i] = std::min( mn[(size_t) i], q.k[(size_t) i] ); mx[(size_t) i] = std::max( mx[(size_t) i], q.k[(size_t) i] ); }
         if( o.widths ) for( int i = 0; i < s.dim; i++ ) {// wider bounds than needed are allowed
            if( !s.recs.empty() && r.chance( 1, 2 ) ) { mn[(size_t) i] = (int) r.range( 1, mn[(size_t) i] ); }
            if( !s.recs.empty() && r.chance( 1, 2 ) ) mx[(size_t) i] = mx[(size_t) i] + (int) r.range( 0, r.chance( 1, 2 ) ? 300 : 100000 );
         }
         for( int i = 0; i < s.dim; i++ ) { f.i32( mn[(size_t) i] ); f.i32( mx[(size_t) i] ); }
         const int delta = o.version < 7 ? 10 : s.dim, most = 255 - delta - 1;
         std::vector<int> last;
         for( auto &q: s.recs ) {
            int d = 0;
            if( !last.empty() ) while( d < s.dim && last[(size_t) d] == q.k[(size_t) d] ) d++;
            bool rel {};
            if( s.dim == 0 ) f.byte( 1 );
            else {
               if( d == s.dim ) d = s.dim - 1;
               const int step = last.empty() ? 0 : q.k.back() - last.back();
               rel = !last.empty() && d == s.dim - 1 && step >= 1 && step <= most && !r.chance( 1, 6 );
               if( rel ) f.byte( delta + step );
               else {
                  f.byte( d + 1 );
                  for( int i = d; i < s.dim; i++ ) {
                     const int v = q.k[(size_t) i] - mn[(size_t) i];
                     switch( elemSize( (int64_t) mx[(size_t) i] - mn[(size_t) i] + 1 ) ) { case 1: f.byte( v ); break; case 2: f.num<uint16_t>( (uint16_t) v ); break; default: f.i32( v ); }
                  }
               }
            }
            last = q.k;
            for( size_t vi = 0; vi < q.v.size(); vi++ ) {
               model::Val v = q.v[vi];
               if( s.type == model::T_SET && v.sv < 0 && v.d > 0 && v.d < (double) c.texts.size() && v.d == std::floor( v.d ) ) v.d = r.pick( copies[(int) v.d] );
               static const double code[5] { 0.0, 1.0, -1.0, 0.5, 2.0 };
               int sv = v.sv;
               if( sv < 0 ) for( int i = 0; i < 5; i++ ) if( model::bitsOf( v.d ) == model::bitsOf( code[i] ) && !r.chance( 1, 8 ) ) sv = i + 5;
               if( sv >= 0 ) f.byte( sv ); else { f.byte( 10 ); f.num<double>( v.d ); }
            }
         }
         f.byte( 255 );
      }
      loc.push_back( l );
   }
   dig();
   f.begin( false );
   const int64_t nw = (int64_t) f.d.size() + hole;
   int64_t sy {}, ue {}, txp {}, ac {}, ds {};
   auto sect = [&]( int64_t &p ) { f.begin( false ); p = (int64_t) f.d.size() + hole; f.begin( c.compr ); };
   sect( sy );
   f.str( "_SYMB_" ); f.i32( (int) c.syms.size() );
   for( size_t n = 0; n < c.syms.size(); n++ ) {
      auto &s = c.syms[n];
      f.str( s.name );
      if( o.version == 5 ) f.i32( (int) loc[n].pos ); else f.i64( loc[n].pos );
      f.i32( s.dim ); f.byte( s.type ); f.i32( s.user ); f.i32( s.type == model::T_ALIAS ? 0 : (int) s.recs.size() ); f.i32( 0 );
      f.byte( s.hasText ); f.str( s.text );
      if( o.version > 5 ) f.byte( loc[n].compr );
      if( o.version == 7 ) {
         f.byte( s.dom ? 1 : 0 );
         if( s.dom ) for( int x: *s.dom ) f.i32( x );
         f.i32( (int) s.comments.size() );
         for( auto &t: s.comments ) f.str( t );
      }
   }
   f.str( "_SYMB_" );
   sect( txp );
   f.str( "_SETT_" ); f.i32( (int) tx.size() ); for( auto &t: tx ) f.str( t ); f.str( "_SETT_" );
   sect( ue );
   f.str( "_UEL_" ); f.i32( c.uels.size() + ( o.old2001 ? 1 : 0 ) ); for( auto &t: c.uels.v ) f.str( t ); f.str( "_UEL_" );
   if( o.version == 7 ) {
      sect( ac );
      f.str( "_ACRO_" ); f.i32( (int) c.acrs.size() ); for( auto &a: c.acrs ) { f.str( a.name ); f.str( a.text ); f.i32( a.map ); } f.str( "_ACRO_" );
      bool any = c.domNames.size() > 0;
      for( auto &s: c.syms ) any |= s.domStr.has_value();
      if( any || r.chance( 1, 2 ) ) {
         sect( ds );
         f.str( "_DOMS_" ); f.i32( c.domNames.size() ); for( auto &t: c.domNames.v ) f.str( t ); f.str( "_DOMS_" );
         for( size_t n = 0; n < c.syms.size(); n++ ) if( c.syms[n].domStr ) { f.i32( (int) n + 1 ); for( int x: *c.syms[n].domStr ) f.i32( x ); }
         f.i32( -1 ); f.str( "_DOMS_" );
      }
   }
   f.begin( false );
   Outb h; h.r = &r; h.flip = o.flip;
   h.i32( 19510624 );
   if( o.version == 5 ) { h.i32( (int) sy ); h.i32( (int) ue ); h.i32( (int) txp ); h.i32( (int) nw ); }
   else { h.i64( sy ); h.i64( ue ); h.i64( txp ); if( o.version == 7 ) { h.i64( ac ); h.i64( nw ); h.i64( ds ); } }
   std::copy( h.d.begin(), h.d.end(), f.d.begin() + (long) ix );
   return f.d;
}
}// namespace codec
