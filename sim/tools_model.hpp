// What the three tools are expected to produce from given input files: small reference models.
#pragma once
#include "codec.hpp"
#include "exec.hpp"
#include <fnmatch.h>

namespace tools {
using model::Content; using model::Rec; using model::Sym; using model::Val; using model::up;
using Strs = std::vector<std::string>;

struct TFile { int unnamed {}; Content c; codec::Opt o; long cut { -1 }; bool gdx {}; std::vector<uint8_t> bytes; std::string text; };
struct World { std::map<std::string, TFile> f; uint64_t dirSeed { 1 }; };

inline Strs splitAt( const std::string &s, char d ) { Strs r; std::string t; for( char c: s ) if( c == d ) { r.push_back( t ); t.clear(); } else t += c; r.push_back( t ); return r; }
inline std::string decc( const std::string &s ) { return sim::dec( s ); }

// one world line; false: not one of ours
inline bool worldLine( World &w, const sim::Line &l )
{
   const auto &k = l[0];
   auto fileOf = [&]() -> TFile & { return w.f[decc( l[1] )]; };
   auto symOf = [&]( TFile &f ) -> Sym * { const int n = f.c.findSym( decc( l[2] ) ); return n > 0 ? &f.c.syms[(size_t) n - 1] : nullptr; };
   if( k == "file" ) {
      auto &f = fileOf(); f = {}; f.gdx = true;
      f.o.version = atoi( l[2].c_str() ); f.o.compr = atoi( l[3].c_str() ); f.o.flip = atoi( l[4].c_str() ); f.o.seed = strtoull( l[5].c_str(), nullptr, 10 );
      f.c.producer = "simulator";
   }
   else if( k == "acr" ) { auto &f = fileOf(); if( !f.gdx ) return true; model::Acr a; a.name = decc( l[2] ); a.text = decc( l[3] ); a.map = atoi( l[4].c_str() ); f.c.acrs.push_back( a ); }
   else if( k == "uel" ) { auto &f = fileOf(); if( f.gdx ) f.c.uels.add( decc( l[2] ) ); }
   else if( k == "sym" ) {
      auto &f = fileOf(); if( !f.gdx || symOf( f ) ) return true;
      Sym s; s.name = decc( l[2] ); s.dim = atoi( l[3].c_str() ); s.type = atoi( l[4].c_str() ); s.user = atoi( l[5].c_str() ); s.text = decc( l[6] );
      f.c.syms.push_back( s );
   }
   else if( k == "alias" ) {
      auto &f = fileOf(); if( !f.gdx || symOf( f ) ) return true;
      Sym s; s.name = decc( l[2] ); s.type = model::T_ALIAS; s.user = 0; s.dim = 1; s.text = "Aliased with *";
      const auto t = decc( l[3] );
      if( t != "*" ) { const int n = f.c.findSym( t ); if( n < 1 || f.c.syms[(size_t) n - 1].type != model::T_SET ) return true; s.user = n; s.dim = f.c.syms[(size_t) n - 1].dim; s.text = "Aliased with " + t; }
      f.c.syms.push_back( s );
   }
   else if( k == "dom" ) {// dom FILE SYM r|x names
      auto &f = fileOf(); Sym *s = symOf( f ); if( !s ) return true;
      auto names = splitAt( l[4], ',' );
      if( (int) names.size() != s->dim ) return true;
      if( l[3] == "r" ) {
         std::vector<int> d;
         for( auto &n: names ) { const int x = n == "*" ? 0 : f.c.findSym( decc( n ) ); if( x < 0 || ( x > 0 && ( &f.c.syms[(size_t) x - 1] >= s || f.c.syms[(size_t) x - 1].dim != 1 || f.c.syms[(size_t) x - 1].type != model::T_SET ) ) ) return true; d.push_back( x ); }
         s->dom = d;
      }
      else { s->domStr.emplace(); for( auto &n: names ) s->domStr->push_back( n == "*" ? 0 : f.c.domNames.add( decc( n ) ) ); }
   }
   else if( k == "unnamed" ) fileOf().unnamed = atoi( l[2].c_str() );// its last elements lose their names
   else if( k == "com" ) { auto &f = fileOf(); if( Sym *s = symOf( f ) ) s->comments.push_back( decc( l[3] ) ); }
   else if( k == "rec" ) {// rec FILE SYM keys values
      auto &f = fileOf(); Sym *s = symOf( f ); if( !s || s->type == model::T_ALIAS ) return true;
      Rec r;
      if( l[3] != "-" ) for( auto &x: splitAt( l[3], ',' ) ) r.k.push_back( f.c.uels.add( decc( x ) ) );
      if( (int) r.k.size() != s->dim ) return true;
      if( s->type == model::T_SET ) {
         const auto t = l[4] == "-" ? std::string() : decc( l[4] );
         int n = f.c.findText( t );
         if( n < 0 ) { f.c.texts.push_back( t ); n = (int) f.c.texts.size() - 1; }
         Val v; v.d = n; r.v.push_back( v );
      }
      else {
         for( auto &x: splitAt( l[4], ',' ) ) {
            Val v;
            if( x[0] == 's' ) v.sv = atoi( x.c_str() + 1 );
            else if( x[0] == 'a' ) {
               for( auto &a: f.c.acrs ) if( up( a.name ) == up( x.substr( 1 ) ) ) v.d = a.map * model::SV_ACR;
            }
            else v.d = sim::decD( x );
            r.v.push_back( v );
         }
         r.v.resize( (size_t) model::valCount( s->type ) );
      }
      s->recs.push_back( r );
   }
   else if( k == "bulk" ) {// bulk FILE SYM count seed : many records
      auto &f = fileOf(); Sym *s = symOf( f ); if( !s || s->type == model::T_ALIAS || s->dim == 0 ) return true;
      sim::Rng r( strtoull( l[4].c_str(), nullptr, 10 ) );
      const long n = atol( l[3].c_str() );
      for( long i = 0; i < n; i++ ) {
         Rec q;
         for( int d = 0; d < s->dim; d++ ) q.k.push_back( f.c.uels.add( "b" + std::to_string( d == s->dim - 1 ? r.below( (uint64_t) n + 3 ) : r.below( 4 ) ) ) );
         for( int j = 0; j < model::valCount( s->type ); j++ ) { Val v; if( s->type != model::T_SET ) v.d = r.chance( 1, 3 ) ? (double) r.range( -5, 5 ) : (double) r.range( -1000000, 1000000 ) / 7.0; q.v.push_back( v ); }
         s->recs.push_back( q );
      }
   }
   else if( k == "junk" ) {
      auto &f = fileOf(); f = {};
      sim::Rng r( strtoull( l[3].c_str(), nullptr, 10 ) );
      for( long i = atol( l[2].c_str() ); i > 0; i-- ) f.bytes.push_back( (uint8_t) r.below( 256 ) );
   }
   else if( k == "cut" ) { auto &f = fileOf(); f.cut = atol( l[2].c_str() ); }
   else if( k == "text" ) { auto &f = fileOf(); f.text += decc( l[2] ) + "\n"; }
   else if( k == "order" ) w.dirSeed = strtoull( l[1].c_str(), nullptr, 10 );
   else return false;
   return true;
}

inline void complete( World &w )// records in order, without repetitions; file bytes
{
   for( auto &x: w.f ) {
      auto &f = x.second;
      if( !f.gdx ) { if( f.bytes.empty() ) f.bytes.assign( f.text.begin(), f.text.end() ); continue; }
      for( auto &s: f.c.syms ) {
         s.hasText = false;
         std::stable_sort( s.recs.begin(), s.recs.end(), []( const Rec &a, const Rec &b ) { return a.k < b.k; } );
         s.recs.erase( std::unique( s.recs.begin(), s.recs.end(), []( const Rec &a, const Rec &b ) { return a.k == b.k; } ), s.recs.end() );
         if( s.type == model::T_SET ) for( auto &r: s.recs ) s.hasText |= r.v[0].d != 0;
      }
      if( f.unnamed > 0 ) { model::NameTab t; const int keep = std::max( 0, f.c.uels.size() - f.unnamed ); for( int i = 1; i <= keep; i++ ) t.add( f.c.uels.at( i ) ); f.c.uels = t; }
      f.c = codec::reduce( f.c, f.o );
      f.bytes = codec::encode( f.c, f.o );
      if( f.cut >= 0 ) f.bytes.resize( f.bytes.size() * (size_t) std::min( 999L, f.cut ) / 1000 );
   }
}

// ---- values and records ------------------------------------------------------------------------
inline bool isAcr( const Val &v ) { return v.sv < 0 && v.d >= model::SV_ACR; }
inline std::string acrName( const Content &c, const Val &v )
{
   const int n = (int) std::lround( v.d / model::SV_ACR );
   for( auto &a: c.acrs ) if( a.map == n && !a.name.empty() ) return up( a.name );
   return "?" + std::to_string( n );
}
inline std::string valStr( const Content &c, const Val &v )
{
   if( v.sv >= 0 ) return "sv" + std::to_string( v.sv );
   if( isAcr( v ) ) return "acronym " + acrName( c, v );
   char b[40]; snprintf( b, sizeof b, "%.17g", v.d == 0 ? 0.0 : v.d );
   return b;
}
using Recs = std::map<Strs, Strs>;
inline const Sym &target( const Content &c, const Sym &s ) { return s.type == model::T_ALIAS && s.user > 0 ? c.syms[(size_t) s.user - 1] : s; }
inline const double *defRec( int type, int user )
{
   using namespace model;
   static const double var[10][5] { { 0, 0, 0, 0, 1 }, { 0, 0, 0, 1, 1 }, { 0, 0, 0, SV_PINF, 1 }, { 0, 0, 0, SV_PINF, 1 }, { 0, 0, SV_MINF, 0, 1 }, { 0, 0, SV_MINF, SV_PINF, 1 }, { 0, 0, 0, SV_PINF, 1 }, { 0, 0, 0, SV_PINF, 1 }, { 0, 0, 1, SV_PINF, 1 }, { 0, 0, 1, SV_PINF, 1 } };
   static const double equ[7][5] { { 0, 0, 0, 0, 1 }, { 0, 0, 0, SV_PINF, 1 }, { 0, 0, SV_MINF, 0, 1 }, { 0, 0, SV_MINF, SV_PINF, 1 }, { 0, 0, 0, 0, 1 }, { 0, 0, 0, SV_PINF, 1 }, { 0, 0, 0, 0, 1 } };
   if( type == T_VAR ) return var[user >= 0 && user < 10 ? user : 5];
   return equ[user >= 53 && user < 60 ? user - 53 : user >= 0 && user < 7 ? user : 0];
}
inline Val fromD( double d ) { Val v; if( d >= model::SV_UNDEF && d < model::SV_ACR ) v.sv = (int) std::lround( d / model::SV_UNDEF ) - 1; else v.d = d; return v; }

// the records a reader of the symbol sees; an alias shows the set it stands for
inline std::vector<Rec> dataOf( const Content &c, const Sym &s )
{
   if( s.type == model::T_ALIAS && s.user == 0 ) { std::vector<Rec> r; for( int i = 1; i <= c.uels.size(); i++ ) { Rec q; q.k = { i }; q.v.resize( 1 ); r.push_back( q ); } return r; }
   auto recs = target( c, s ).recs;
   if( s.dim == 0 && recs.empty() ) {// a scalar without a record has its default
      Rec q; const double *df = s.type >= model::T_VAR ? defRec( s.type, s.user ) : nullptr;
      for( int f = 0; f < model::valCount( s.type ); f++ ) q.v.push_back( df ? fromD( df[f] ) : Val {} );
      recs.push_back( q );
   }
   return recs;
}
inline int typeOf( const Sym &s ) { return s.type == model::T_ALIAS ? model::T_SET : s.type; }
inline std::string textOf( const Content &c, const Val &v ) { const int n = (int) std::lround( v.d ); return n >= 0 && n < (int) c.texts.size() ? c.texts[(size_t) n] : "?text " + std::to_string( n ); }
inline std::string keyOf( const std::string &s ) { auto u = up( s ); return u.compare( 0, 4, "?L__" ) ? u : u.substr( 1 ); }// an element without a name goes by its number
inline Strs keysOf( const Content &c, const Rec &r ) { Strs k; for( int x: r.k ) k.push_back( x >= 1 && x <= c.uels.size() ? keyOf( c.uels.at( x ) ) : "L__" + std::to_string( x ) ); return k; }
inline Strs valsOf( const Content &c, const Sym &s, const Rec &r )
{
   Strs v;
   if( typeOf( s ) == model::T_SET ) v.push_back( "text " + textOf( c, r.v[0] ) );
   else for( auto &x: r.v ) v.push_back( valStr( c, x ) );
   return v;
}
inline std::string join( const Strs &s ) { std::string r; for( auto &x: s ) { if( !r.empty() ) r += ","; r += x; } return "(" + r + ")"; }

struct Options { std::map<std::string, std::string> kv; Strs plain; std::set<std::string> flags; };
inline bool ieq( const std::string &a, const std::string &b ) { return up( a ) == up( b ); }

struct Outcome { int exit {}; std::string out; std::map<std::string, std::vector<uint8_t>> files; };
// what the parameters are once the parameter files (@name) are read; ok: all of them could be
inline Strs expand( const World &w, const Strs &args, bool &ok )
{
   Strs r; ok = true;
   for( auto &a: args ) {
      if( a.empty() || a[0] != '@' ) { r.push_back( a ); continue; }
      auto n = a.substr( 1 );
      if( n.rfind( '.' ) == std::string::npos ) n += ".txt";
      auto it = w.f.find( n );
      if( it == w.f.end() ) { ok = false; continue; }
      std::istringstream in( it->second.text ); std::string l;
      while( std::getline( in, l ) ) {
         if( !l.empty() && l[0] == '*' ) continue;
         for( size_t i = 0; i < l.size(); ) {
            if( l[i] == ' ' || l[i] == '\t' ) { i++; continue; }
            std::string t;
            bool q {};
            while( i < l.size() && ( q || ( l[i] != ' ' && l[i] != '\t' ) ) ) { if( l[i] == '"' ) q = !q; else t += l[i]; i++; }
            r.push_back( t );
         }
      }
   }
   return r;
}
inline bool has( const std::string &s, const std::string &t ) { return s.find( t ) != std::string::npos; }
inline bool saysError( const std::string &s ) { const auto u = up( s ); for( auto w: { "ERROR", "PROBLEM", "CANNOT", "COULD NOT", "FAILED", "UNABLE", "INCOMPLETE", "SKIPPED" } ) if( has( u, w ) ) return true; return false; }

// ---- merge ---------------------------------------------------------------------------------------
inline std::string baseName( const std::string &p ) { auto i = p.rfind( '/' ); return i == std::string::npos ? p : p.substr( i + 1 ); }
inline std::string noExt( const std::string &p ) { auto i = p.rfind( '.' ); return i == std::string::npos ? p : p.substr( 0, i ); }

// names in the order a directory lists them
inline Strs listing( const World &w, const std::string &dir, const Strs &extra )
{
   std::set<std::string> names;
   for( auto &f: w.f ) if( !f.first.compare( 0, dir.size(), dir ) ) { auto r = f.first.substr( dir.size() ); names.insert( r.substr( 0, r.find( '/' ) ) ); }
   for( auto &e: extra ) if( !e.compare( 0, dir.size(), dir ) ) { auto r = e.substr( dir.size() ); names.insert( r.substr( 0, r.find( '/' ) ) ); }
   Strs v( names.begin(), names.end() ); v.push_back( "." ); v.push_back( ".." );
   sim::Rng r( w.dirSeed );
   for( size_t i = v.size(); i > 1; i-- ) std::swap( v[i - 1], v[r.below( i )] );
   return v;
}

// returns an empty string if the outcome is right
inline std::string checkMerge( const World &w, const Strs &args0, const Outcome &o )
{
   bool okArgs; const Strs args = expand( w, args0, okArgs );
   int outs {};
   for( auto &a: args ) { const auto k = up( a.substr( 0, a.find( '=' ) ) ); outs += a.find( '=' ) != std::string::npos && ( k == "O" || k == "OUTPUT" ); }
   if( !okArgs || outs > 1 ) return o.exit == 0 ? "bad parameters accepted" : "";
   std::string out = "merged.gdx"; bool strict {}, mustSay {};
   Strs pats; std::set<std::string> inc, exc; bool big {};
   for( auto &a: args ) {
      auto e = a.find( '=' );
      if( e == std::string::npos ) { pats.push_back( a ); continue; }
      const auto k = up( a.substr( 0, e ) ), v = a.substr( e + 1 );
      if( k == "ID" ) for( auto &x: splitAt( v, ',' ) ) inc.insert( up( x ) );
      else if( k == "EXCLUDE" ) for( auto &x: splitAt( v, ',' ) ) exc.insert( up( x ) );
      else if( k == "BIG" ) big = true;
      else if( k == "STRICT" ) strict = ieq( v, "true" );
      else if( k == "OUTPUT" || k == "O" ) out = v.find( '.' ) == std::string::npos ? v + ".gdx" : v;
   }
   (void) big;
   auto before = w.f.find( out );
   if( strict && before != w.f.end() ) {
      if( o.exit == 0 ) return "strict mode: the output file exists and was overwritten without complaint";
      auto now = o.files.find( out );
      if( now == o.files.end() || now->second != before->second.bytes ) return "strict mode: the refused run changed the existing output file";
      return {};
   }
   if( !inc.empty() && !exc.empty() ) return o.exit == 0 ? "id and exclude together are accepted" : "";
   // the files, in order
   Strs files;
   for( auto &p: pats ) {
      const auto sl = p.rfind( '/' );
      const std::string dir = sl == std::string::npos ? "" : p.substr( 0, sl + 1 ), pat = sl == std::string::npos ? p : p.substr( sl + 1 );
      bool any {};
      for( auto &n: listing( w, dir, { out } ) ) {
         if( n == "." || n == ".." || fnmatch( pat.c_str(), n.c_str(), 0 ) ) continue;
         any = true;
         if( dir + n == out ) { if( strict ) return o.exit == 0 ? "strict mode: output among the inputs accepted" : ""; continue; }
         if( std::find( files.begin(), files.end(), dir + n ) == files.end() ) files.push_back( dir + n );
      }
      if( !any && strict ) return o.exit == 0 ? "strict mode: pattern without a file accepted" : "";
   }
   if( files.empty() && strict ) return o.exit == 0 ? "strict mode: no input accepted" : "";
   auto it = o.files.find( out );
   Content c;
   if( it == o.files.end() ) return "the output file does not exist";
   try { c = codec::decode( it->second ); }
   catch( const codec::Bad &b ) { return std::string( "the output file is not readable: " ) + b.what(); }
   // the listing
   const Sym *list {};
   for( auto &s: c.syms ) if( !s.name.compare( 0, 11, "Merged_set_" ) && s.text == "Merge set" && s.type == model::T_SET && s.dim == 1 && !list ) {
      bool ok = s.recs.size() <= files.size();
      for( auto &r: s.recs ) { const auto t = textOf( c, r.v[0] ); bool f {}; for( auto &p: files ) f |= t.size() > p.size() + 1 && t.substr( t.size() - p.size() - 2 ) == "  " + p; ok &= f; }
      if( ok && &s == &c.syms.back() ) list = &s;
   }
   if( !list ) return "the listing of the merged files is missing or wrong";
   std::map<std::string, std::string> ids;// path -> id
   for( auto &r: list->recs ) { const auto t = textOf( c, r.v[0] ); for( auto &p: files ) if( t.size() > p.size() + 1 && t.substr( t.size() - p.size() - 2 ) == "  " + p ) { if( ids.count( p ) ) return "the listing names " + p + " twice"; ids[p] = keysOf( c, r )[0]; } }
   std::set<std::string> taken;
   for( auto &p: files ) {
      auto &f = w.f.at( p );
      const bool readable = f.gdx && f.cut < 0;
      if( !readable ) mustSay = true;
      if( !ids.count( p ) ) { if( readable ) return "the listing lacks " + p; continue; }
      const auto id = noExt( baseName( p ) );
      if( model::goodUel( id ) && !model::rtrim( id ).empty() && !taken.count( up( model::rtrim( id ) ) ) && ids[p] != up( model::rtrim( id ) ) && !ids[p].compare( 0, 5, "FILE_" ) == 0 ) return "the listing has " + ids[p] + " for " + p;
      if( !taken.insert( ids[p] ).second ) return "two files have the key " + ids[p];
   }
   // the symbols
   struct E { const Sym *first; std::string text; Recs recs; };
   std::map<std::string, E> want; Strs order;
   for( auto &p: files ) {
      auto &f = w.f.at( p );
      if( !f.gdx || f.cut >= 0 ) continue;
      for( auto &s: f.c.syms ) {
         const auto n = up( s.name );
         if( ( !inc.empty() && !inc.count( n ) ) || exc.count( n ) ) continue;
         if( s.dim >= 20 ) { mustSay = true; continue; }
         auto e = want.find( n );
         if( e == want.end() ) { e = want.emplace( n, E { &s, "", {} } ).first; order.push_back( n ); }
         auto &x = e->second;
         if( x.first->dim != s.dim || typeOf( *x.first ) != typeOf( s ) || ( typeOf( s ) >= model::T_VAR && x.first->user != s.user ) ) { mustSay = true; continue; }
         if( x.text.empty() ) x.text = s.text;
         for( auto &r: dataOf( f.c, s ) ) { Strs k { ids[p] }; for( auto &q: keysOf( f.c, r ) ) k.push_back( q ); x.recs[k] = valsOf( f.c, target( f.c, s ), r ); }
      }
   }
   // an acronym without a name gets one, any that no other acronym has
   std::set<std::string> named;
   for( auto &f: w.f ) for( auto &a: f.second.c.acrs ) named.insert( up( a.name ) );
   std::map<Strs, std::string> auto1, auto2;
   auto alike = [&]( const std::string &sym, const Strs &key, const Strs &a, const Strs &b ) {
      if( a == b ) return true;
      if( a.size() != b.size() ) return false;
      for( size_t i = 0; i < a.size(); i++ ) {
         if( a[i] == b[i] ) continue;
         if( b[i].compare( 0, 9, "acronym ?" ) || a[i].compare( 0, 8, "acronym " ) || a[i][8] == '?' || named.count( a[i].substr( 8 ) ) ) return false;
         if( auto1.emplace( Strs { sym, key[0], b[i] }, a[i] ).first->second != a[i] || auto2.emplace( Strs { sym, key[0], a[i] }, b[i] ).first->second != b[i] ) return false;
      }
      return true;
   };
   std::set<std::string> used;
   for( auto &s: c.syms ) {
      for( auto &r: s.recs ) for( auto &k: keysOf( c, r ) ) used.insert( k );
      if( &s == list ) continue;
      auto e = want.find( up( s.name ) );
      if( e == want.end() ) return "the output holds a symbol " + s.name + " of no input";
      auto &x = e->second;
      if( s.dim != x.first->dim + 1 || s.type != typeOf( *x.first ) ) return "symbol " + s.name + " has dimension " + std::to_string( s.dim ) + " type " + std::to_string( s.type );
      if( s.type >= model::T_VAR && s.user != x.first->user ) return "symbol " + s.name + " has sub-type " + std::to_string( s.user );
      if( s.text != x.text ) return "symbol " + s.name + " has the text [" + s.text + "] instead of [" + x.text + "]";
      Recs got;
      for( auto &r: s.recs ) got[keysOf( c, r )] = valsOf( c, s, r );
      for( auto &r: x.recs ) { auto g = got.find( r.first ); if( g == got.end() ) return "symbol " + s.name + " lacks the record " + join( r.first ); if( !alike( s.name, r.first, g->second, r.second ) ) return "symbol " + s.name + " record " + join( r.first ) + " has " + join( g->second ) + " instead of " + join( r.second ); }
      for( auto &r: got ) if( !x.recs.count( r.first ) ) return "symbol " + s.name + " has an additional record " + join( r.first );
      want.erase( e );
   }
   if( !want.empty() ) return "symbol " + want.begin()->first + " is missing in the output";
   for( auto &u: c.uels.v ) if( !used.count( keyOf( u ) ) ) return "the output holds the element [" + u + "] that no record uses";
   if( mustSay && !saysError( o.out ) && o.exit == 0 ) return "something could not be merged and nothing is said about it";
   if( !mustSay && o.exit != 0 ) return "exit code " + std::to_string( o.exit ) + " although everything was merged";
   return {};
}

// ---- diff ----------------------------------------------------------------------------------------
struct Tol { double eps {}, rel {}; };
inline bool same( const Content &a, const Val &x, const Content &b, const Val &y, const Tol &t )
{
   if( x.sv >= 0 && y.sv >= 0 ) return x.sv == y.sv;
   if( x.sv >= 0 ) return x.sv == 4 && t.eps > 0 && std::fabs( y.d ) <= t.eps;
   if( y.sv >= 0 ) return y.sv == 4 && t.eps > 0 && std::fabs( x.d ) <= t.eps;
   if( isAcr( x ) && isAcr( y ) ) return acrName( a, x ) == acrName( b, y );
   const double d = std::fabs( x.d - y.d );
   return d <= t.eps || ( t.rel > 0 && d / ( 1 + std::min( std::fabs( x.d ), std::fabs( y.d ) ) ) <= t.rel );
}

struct DiffOpt { std::string f1, f2, out { "diffile.gdx" }; Tol t; int field { -1 }; bool fldOnly {}, diffOnly {}, defaults {}, domains {}, setText { true }, bad {}, matrix {}; std::set<std::string> ids, skip; };
inline bool number( const std::string &s, double &d ) { char *e; d = strtod( s.c_str(), &e ); return !s.empty() && !*e && d >= 0; }
inline DiffOpt diffArgs( const World &w, const Strs &args0 )
{
   DiffOpt o; Strs plain;
   bool okArgs; const Strs args = expand( w, args0, okArgs );
   o.bad = !okArgs;
   bool fld {};
   for( auto &a: args ) {
      auto e = a.find( '=' );
      if( e == std::string::npos ) {
         const auto u = up( a );
         if( u == "FLDONLY" ) o.fldOnly = true; else if( u == "DIFFONLY" ) o.diffOnly = true; else if( u == "CMPDEFAULTS" ) o.defaults = true; else if( u == "CMPDOMAINS" ) o.domains = true;
         else if( u == "IGNOREORDER" ) {} else if( u == "MATRIXFILE" ) o.matrix = true;
         else plain.push_back( a );
         continue;
      }
      const auto k = up( a.substr( 0, e ) ), v = a.substr( e + 1 );
      if( k == "EPS" ) { if( !number( v, o.t.eps ) ) o.bad = true; } else if( k == "RELEPS" ) { if( !number( v, o.t.rel ) ) o.bad = true; }
      else if( k == "FIELD" ) {
         const auto u = up( v ); fld = true;
         if( u == "L" ) o.field = 0; else if( u == "M" ) o.field = 1; else if( u == "LO" ) o.field = 2; else if( u == "UP" ) o.field = 3; else if( u == "SCALE" || u == "PRIOR" ) o.field = 4; else if( u == "ALL" ) fld = false; else o.bad = true;
      }
      else if( k == "SETDESC" ) { const auto u = up( v ); o.setText = u == "Y" || u == "1" || u == "T"; if( !o.setText && u != "N" && u != "0" && u != "F" ) o.bad = true; }
      else if( k == "ID" ) for( auto &x: splitAt( v, ',' ) ) o.ids.insert( up( x ) );
      else if( k == "SKIPID" ) for( auto &x: splitAt( v, ',' ) ) o.skip.insert( up( x ) );
      else if( k == "OUTPUT" || k == "O" ) o.out = v;
   }
   if( o.fldOnly && ( !fld || o.diffOnly ) ) o.bad = true;
   if( (int) plain.size() < 2 ) o.bad = true; else { o.f1 = plain[0]; o.f2 = plain[1]; }
   if( plain.size() > 2 ) o.out = plain[2];
   if( baseName( o.out ).find( '.' ) == std::string::npos ) o.out += ".gdx";
   return o;
}

inline const TFile *findFile( const World &w, const std::string &n ) { auto it = w.f.find( n ); if( it == w.f.end() && baseName( n ).find( '.' ) == std::string::npos ) it = w.f.find( n + ".gdx" ); return it == w.f.end() ? nullptr : &it->second; }

inline Strs domNamesOf( const Content &c, const Sym &s0 )
{
   const Sym &s = s0; Strs r;
   for( int i = 0; i < s.dim; i++ ) {
      std::string n = "*";
      if( s.dom && ( *s.dom )[(size_t) i] > 0 ) n = c.syms[(size_t) ( *s.dom )[(size_t) i] - 1].name;
      else if( s.domStr && ( *s.domStr )[(size_t) i] > 0 ) n = c.domNames.at( ( *s.domStr )[(size_t) i] );
      r.push_back( n );
   }
   return r;
}

inline std::string checkDiff( const World &w, const Strs &args, const Outcome &o, bool &same_ )
{
   const DiffOpt p = diffArgs( w, args );
   same_ = false;
   if( p.bad ) return o.exit == 0 || o.exit == 1 ? "bad parameters accepted" : "";
   const TFile *a = findFile( w, p.f1 ), *b = findFile( w, p.f2 );
   if( !a || !b || !a->gdx || !b->gdx || a->cut >= 0 || b->cut >= 0 ) {
      if( o.exit == 0 || o.exit == 1 ) return "exit code " + std::to_string( o.exit ) + " although an input cannot be read";
      return {};
   }
   struct E { int dim, type, user; Recs recs; };
   std::map<std::string, E> want; std::set<std::string> differing;
   auto chosen = [&]( const std::string &n ) { const auto u = up( n ); return ( p.ids.empty() || p.ids.count( u ) ) && !p.skip.count( u ); };
   for( auto &s: b->c.syms ) if( chosen( s.name ) && a->c.findSym( s.name ) < 1 ) differing.insert( up( s.name ) );
   static const char *fieldName[] { "LEVEL", "MARGINAL", "LOWER", "UPPER", "SCALE" };
   for( auto &s: a->c.syms ) {
      if( !chosen( s.name ) ) continue;
      const auto n = up( s.name );
      const int k = b->c.findSym( s.name );
      if( k < 1 ) { differing.insert( n ); continue; }
      const Sym &q = b->c.syms[(size_t) k - 1];
      const int ty = typeOf( s );
      if( ty != typeOf( q ) || s.dim != q.dim ) { differing.insert( n ); continue; }
      if( p.domains && s.dim > 0 ) { auto d1 = domNamesOf( a->c, s ), d2 = domNamesOf( b->c, q ); for( auto &x: d1 ) x = up( x ); for( auto &x: d2 ) x = up( x ); if( d1 != d2 ) { differing.insert( n ); continue; } }
      const bool ve = ty >= model::T_VAR;
      std::vector<int> act; for( int i = 0; i < ( ve ? 5 : 1 ); i++ ) if( !ve || p.field < 0 || p.field == i ) act.push_back( i );
      const double *df = ve ? defRec( ty, s.user ) : nullptr;
      E e;
      e.dim = s.dim + 1; e.type = ty; e.user = s.user;
      if( p.fldOnly && ve ) e.type = model::T_PAR; else if( p.diffOnly && ve ) { e.type = model::T_PAR; e.dim = s.dim + 2; }
      auto da = dataOf( a->c, s ), db = dataOf( b->c, q );
      std::map<Strs, const Rec *> ra, rb;
      auto num = []( const Rec &r ) { Strs k; for( int x: r.k ) k.push_back( std::to_string( x ) ); return k; };// matrix files: elements with the same number are the same
      for( auto &r: da ) ra[p.matrix ? num( r ) : keysOf( a->c, r )] = &r;
      for( auto &r: db ) rb[p.matrix ? num( r ) : keysOf( b->c, r )] = &r;
      auto put = [&]( const char *what, const Content &c, const Strs &, const Rec &r, const std::vector<int> &fields ) {
         const Strs key = keysOf( c, r );
         if( p.diffOnly && ve ) { for( int f: fields ) { Strs kk = key; kk.push_back( fieldName[f] ); kk.push_back( what ); e.recs[kk] = { valStr( c, r.v[(size_t) f] ) }; } return; }
         Strs kk = key; kk.push_back( what );
         if( p.fldOnly && ve ) e.recs[kk] = { valStr( c, r.v[(size_t) p.field] ) };
         else if( ty == model::T_SET ) e.recs[kk] = { "text " + textOf( c, r.v[0] ) };
         else { Strs v; for( auto &x: r.v ) v.push_back( valStr( c, x ) ); e.recs[kk] = v; }
      };
      auto isDefault = [&]( const Content &c, const Rec &r ) {
         if( ty == model::T_SET || p.defaults ) return false;
         if( ty == model::T_PAR ) return same( c, r.v[0], c, Val {}, p.t );
         for( int f: act ) if( !same( c, r.v[(size_t) f], c, fromD( df[f] ), p.t ) ) return false;
         return true;
      };
      for( auto &x: ra ) {
         auto y = rb.find( x.first );
         if( y == rb.end() ) { if( !isDefault( a->c, *x.second ) ) { differing.insert( n ); put( "INS1", a->c, x.first, *x.second, act ); } continue; }
         if( ty == model::T_SET ) {
            if( p.setText && textOf( a->c, x.second->v[0] ) != textOf( b->c, y->second->v[0] ) ) { differing.insert( n ); put( "DIF1", a->c, x.first, *x.second, act ); put( "DIF2", b->c, x.first, *y->second, act ); }
            continue;
         }
         std::vector<int> df2;
         for( int f: act ) if( !same( a->c, x.second->v[(size_t) f], b->c, y->second->v[(size_t) f], p.t ) ) df2.push_back( f );
         if( !df2.empty() ) { differing.insert( n ); put( "DIF1", a->c, x.first, *x.second, df2 ); put( "DIF2", b->c, x.first, *y->second, df2 ); }
      }
      for( auto &y: rb ) if( !ra.count( y.first ) && !isDefault( b->c, *y.second ) ) { differing.insert( n ); put( "INS2", b->c, y.first, *y.second, act ); }
      if( !e.recs.empty() && e.dim <= 20 ) want[n] = e;
   }
   if( !p.matrix && o.exit > 1 ) for( auto *f: { a, b } ) for( auto &s: f->c.syms ) for( auto &r: s.recs ) for( int x: r.k ) if( x > f->c.uels.size() ) return {};// elements without names may be refused
   same_ = differing.empty();
   if( differing.empty() && o.exit != 0 ) return "exit code " + std::to_string( o.exit ) + " although the files agree";
   if( !differing.empty() && o.exit != 1 ) return "exit code " + std::to_string( o.exit ) + " although the files differ in " + *differing.begin();
   {// the summary names each symbol that differs, and no other
      std::set<std::string> said; bool on {};
      std::istringstream in( o.out ); std::string l;
      while( std::getline( in, l ) ) {
         if( has( up( l ), "SUMMARY OF DIFF" ) ) { on = true; continue; }
         const auto b0 = l.find_first_not_of( ' ' );
         if( !on || b0 == std::string::npos ) continue;
         l = l.substr( b0 );
         said.insert( up( l.substr( 0, l.find( ' ' ) ) ) );
      }
      for( auto &n: differing ) if( !said.count( n ) ) return "the summary does not name " + n;
      for( auto *f: { a, b } ) for( auto &s: f->c.syms ) if( said.count( up( s.name ) ) && !differing.count( up( s.name ) ) ) return "the summary names " + s.name + ", which does not differ";
   }
   auto it = o.files.find( p.out );
   if( it == o.files.end() ) return "no result file";
   Content c;
   try { c = codec::decode( it->second ); }
   catch( const codec::Bad &x ) { return std::string( "the result file is not readable: " ) + x.what(); }
   if( c.syms.empty() || c.syms.back().name.compare( 0, 13, "FilesCompared" ) || c.syms.back().type != model::T_SET || c.syms.back().recs.size() != 2 ) return "the result file does not name the compared files";
   {
      auto &s = c.syms.back();
      std::map<std::string, std::string> t;
      for( auto &r: s.recs ) t[keysOf( c, r )[0]] = textOf( c, r.v[0] );
      if( findFile( w, t["FILE1"] ) != a || findFile( w, t["FILE2"] ) != b ) return "the result file names other files: " + t["FILE1"] + " and " + t["FILE2"];
   }
   for( size_t i = 0; i + 1 < c.syms.size(); i++ ) {
      auto &s = c.syms[i];
      auto e = want.find( up( s.name ) );
      if( e == want.end() ) return "the result file lists " + s.name + ", which does not differ";
      auto &x = e->second;
      if( s.dim != x.dim || s.type != x.type ) return "the result has " + s.name + " with dimension " + std::to_string( s.dim ) + " type " + std::to_string( s.type );
      if( s.type >= model::T_VAR && s.user != x.user ) return "the result has " + s.name + " with sub-type " + std::to_string( s.user );
      Recs got;
      for( auto &r: s.recs ) { auto v = valsOf( c, s, r ); for( auto &y: v ) if( y.compare( 0, 7, "acronym" ) == 0 ) y = "acronym"; got[keysOf( c, r )] = v; }
      for( auto &r: x.recs ) for( auto &y: r.second ) if( y.compare( 0, 7, "acronym" ) == 0 ) y = "acronym";
      for( auto &r: x.recs ) { auto g = got.find( r.first ); if( g == got.end() ) return "the result lacks " + s.name + join( r.first ); if( g->second != r.second ) return "the result has " + s.name + join( r.first ) + " = " + join( g->second ) + " instead of " + join( r.second ); }
      for( auto &r: got ) if( !x.recs.count( r.first ) ) return "the result has an additional record " + s.name + join( r.first );
      want.erase( e );
   }
   if( !want.empty() ) return "the result lacks the symbol " + want.begin()->first;
   return {};
}

// ---- dump ----------------------------------------------------------------------------------------
// the expected output as a sequence of items; matched against the text, free in its use of blanks
struct Item { char k; std::string s; Val v; };// W word(s), Q text quoted or not, K key in quotes, V value, R raw text to the end of the line, N end of line, D delimiter, O optional word, E exact characters
struct DumpOpt {
   std::string in, out, symb, uel, header; bool hasHeader {}, noHdr {}, noData {}, csv {}, bas {}, allFields {}, setTextCol {}, symbols {}, domInfo {}, asSet {}, asSetDI {}, setText {}, version {}, cdim {}, filter { true }, bad {}, ide {};
   int dfmt {}; char delim {}, dec {}; std::map<std::string, std::string> sv;// EPS NA PINF MINF UNDF ZERO
};
inline DumpOpt dumpArgs( const Strs &args0 )
{
   DumpOpt o;
   if( args0.empty() ) { o.bad = true; return o; }
   Strs args; std::set<std::string> once;
   {// NAME=VALUE, NAME =VALUE, NAME= VALUE, NAME = VALUE, NAME VALUE
      static const std::set<std::string> valued { "SYMB", "UELTABLE", "DELIM", "DECIMALSEP", "FORMAT", "DFORMAT", "OUTPUT", "IDE", "FILTERDEF", "CDIM", "EPSOUT", "NAOUT", "PINFOUT", "MINFOUT", "UNDFOUT", "ZEROOUT", "HEADER" };
      args.push_back( args0[0] );
      for( size_t i = 1; i < args0.size(); i++ ) {
         auto t = args0[i];
         const bool bare = t.find( '=' ) == std::string::npos;
         if( !valued.count( up( t.substr( 0, t.find( '=' ) ) ) ) ) { args.push_back( t ); if( !bare ) o.bad = true; continue; }
         if( bare && i + 1 < args0.size() && args0[i + 1][0] == '=' ) t += args0[++i];
         else if( bare ) t += "=";
         if( t.back() == '=' && i + 1 < args0.size() ) t += args0[++i];
         else if( t.back() == '=' ) o.bad = true;
         args.push_back( t );
         const auto k = up( t.substr( 0, t.find( '=' ) ) );
         if( ( k == "SYMB" || k == "UELTABLE" || k == "DELIM" || k == "DECIMALSEP" || k == "FORMAT" || k == "OUTPUT" ) && !once.insert( k ).second ) o.bad = true;
      }
   }
   o.in = args[0];
   for( size_t i = 1; i < args.size(); i++ ) {
      auto e = args[i].find( '=' );
      const auto k = up( args[i].substr( 0, e ) ); auto v = e == std::string::npos ? "" : args[i].substr( e + 1 );
      if( v == "''" ) v.clear();
      const auto u = up( v );
      if( k == "SYMB" ) o.symb = v; else if( k == "UELTABLE" ) o.uel = v; else if( k == "OUTPUT" ) o.out = v;
      else if( k == "DELIM" ) o.delim = u == "TAB" ? '\t' : u == "COMMA" ? ',' : u == "PERIOD" ? '.' : u == "BLANK" ? ' ' : u == "SEMICOLON" ? ';' : ( o.bad = true, 'x' );
      else if( k == "DECIMALSEP" ) o.dec = u == "COMMA" ? ',' : u == "PERIOD" ? '.' : ( o.bad = true, '.' );
      else if( k == "SYMBOLS" ) o.symbols = true; else if( k == "DOMAININFO" ) o.domInfo = true; else if( k == "SETTEXT" ) o.setText = true; else if( k == "SYMBOLSASSET" ) o.asSet = true; else if( k == "SYMBOLSASSETDI" ) o.asSetDI = true;
      else if( k == "NOHEADER" ) o.noHdr = true; else if( k == "NODATA" ) o.noData = true; else if( k == "CSVALLFIELDS" ) o.allFields = true; else if( k == "CSVSETTEXT" ) o.setTextCol = true;
      else if( k == "FORMAT" ) { o.csv = u == "CSV"; o.bas = u == "GAMSBAS"; if( !o.csv && !o.bas && u != "NORMAL" ) o.bad = true; } else if( k == "DFORMAT" ) o.dfmt = u == "HEXBYTES" ? 2 : u == "HEXPONENTIAL" ? 1 : u == "NORMAL" ? 0 : ( o.bad = true, 0 );
      else if( k == "IDE" ) o.ide = u[0] == 'Y' || u[0] == '1';
      else if( k == "FILTERDEF" ) o.filter = u[0] == 'Y' || u[0] == '1'; else if( k == "CDIM" ) o.cdim = u[0] == 'Y' || u[0] == '1';
      else if( k == "-V" || k == "-VERSION" ) o.version = true; else if( k == "HEADER" ) { o.hasHeader = true; o.header = v; }
      else if( k == "EPSOUT" || k == "NAOUT" || k == "PINFOUT" || k == "MINFOUT" || k == "UNDFOUT" || k == "ZEROOUT" ) o.sv[k.substr( 0, k.size() - 3 )] = v;
      else o.bad = true;
   }
   if( !o.delim ) o.delim = o.csv ? ',' : '.';
   if( !o.dec ) o.dec = '.';
   if( o.delim == o.dec && o.delim != '.' ) o.bad = true;
   if( o.csv && o.symb.empty() ) o.bad = true;
   if( o.csv ) o.noData = false;
   if( o.symb.empty() ) o.noHdr = false;
   if( o.bas ) { o.noHdr = true; o.noData = false; }
   return o;
}

struct Matcher {
   const std::string &t; const DumpOpt &o; const Content &c; size_t p {};
   static bool ws( char x ) { return x == ' ' || x == '\t' || x == '\n' || x == '\r'; }
   void skip() { while( p < t.size() && ws( t[p] ) ) p++; }
   void blanks() { while( p < t.size() && ( t[p] == ' ' || t[p] == '\r' ) ) p++; }
   bool lit( const std::string &s, bool ci = false )
   {
      if( t.size() - p < s.size() ) return false;
      const auto x = t.substr( p, s.size() );
      if( ci ? up( x ) != up( s ) : x != s ) return false;
      p += s.size(); return true;
   }
   bool words( const std::string &s )
   {
      const size_t p0 = p;
      size_t i {};
      skip();
      while( i < s.size() ) {
         if( s[i] == ' ' ) { skip(); i++; continue; }
         if( p >= t.size() || up( std::string( 1, t[p] ) ) != up( std::string( 1, s[i] ) ) ) { p = p0; return false; }
         p++; i++;
      }
      return true;
   }
   bool quoted( const std::string &s, bool rawToo )
   {
      for( size_t q = p;; q++ ) {
         for( int a = 0; a < ( rawToo ? 3 : 2 ); a++ ) {
            const std::string x = a == 0 ? "'" + s + "'" : a == 1 ? "\"" + s + "\"" : s;
            if( a < 2 && s.find( a == 0 ? '\'' : '"' ) != std::string::npos ) continue;// would not be recoverable
            if( t.compare( q, x.size(), x ) == 0 ) { p = q + x.size(); return true; }
         }
         if( q >= t.size() || !ws( t[q] ) ) return false;
      }
   }
   bool value( const Val &v )
   {
      static const char *key[] { "UNDF", "NA", "PINF", "MINF", "EPS" }, *def[] { "Undf", "NA", "+Inf", "-Inf", "Eps" };
      if( v.sv >= 0 ) { auto it = o.sv.find( key[v.sv] ); return lit( it != o.sv.end() ? it->second : def[v.sv], it == o.sv.end() ); }
      if( isAcr( v ) ) { for( auto &a: c.acrs ) if( a.map == (int) std::lround( v.d / model::SV_ACR ) ) return lit( a.name.empty() ? "UnknownAcronym" + std::to_string( a.map ) : a.name ); return lit( "UnknownAcronym" + std::to_string( (int) std::lround( v.d / model::SV_ACR ) ) ); }
      if( v.d == 0 && o.sv.count( "ZERO" ) ) return lit( o.sv.at( "ZERO" ) );
      size_t q = p;
      std::string x;
      if( o.dfmt == 2 ) {
         if( t.compare( p, 2, "0x" ) || t.size() < p + 18 ) return false;
         const uint64_t b = strtoull( t.substr( p + 2, 16 ).c_str(), nullptr, 16 );
         p += 18;
         return b == model::bitsOf( v.d ) || ( v.d == 0 && model::dblOf( b ) == 0 );
      }
      while( q < t.size() && ( isalnum( (unsigned char) t[q] ) || t[q] == '+' || t[q] == '-' || ( t[q] == '.' && o.dec == '.' ) || ( o.dec == ',' && o.dfmt == 0 && t[q] == ',' && q + 1 < t.size() && isdigit( (unsigned char) t[q + 1] ) ) || ( o.dfmt == 1 && t[q] == '.' ) ) ) { x += t[q] == ',' ? '.' : t[q]; q++; }
      if( x.empty() ) return false;
      char *end;
      const double d = strtod( x.c_str(), &end );
      if( *end ) return false;
      p = q;
      if( o.dfmt == 1 ) return d == v.d;
      if( v.d == 0 ) return d == 0;
      return std::fabs( d - v.d ) <= 0.5000001 * std::pow( 10.0, std::floor( std::log10( std::fabs( v.d ) ) ) - 14 ) || d == v.d;
   }
   bool one( const Item &i )
   {
      switch( i.k ) {
         case 'W': return words( i.s );
         case 'O': words( i.s ); return true;
         case 'Q': return quoted( i.s, true );
         case 'K': skip(); return quoted( i.s, false );
         case 'V': blanks(); return value( i.v );
         case 'D': return lit( i.s );
         case 'E': return lit( i.s );
         case 'R': for( ;; p++ ) { if( lit( i.s ) ) return true; if( p >= t.size() || t[p] != ' ' ) return false; }
         case 'B': skip(); if( lit( "****" ) ) { while( p < t.size() && t[p] != '\n' && t.compare( p, 14, "representation" ) ) p++; lit( "representation" ); } return true;
         case 'o': lit( i.s ); return true;
         case 'I': { blanks(); std::string x; while( p < t.size() && ( isdigit( (unsigned char) t[p] ) || t[p] == ',' ) ) { if( t[p] != ',' ) x += t[p]; p++; } return x == i.s; }
         case 'N': blanks(); return lit( "\n" );
         default: return false;
      }
   }
};

inline std::string uelName( const Content &c, int n ) { return n >= 1 && n <= c.uels.size() ? c.uels.at( n ) : "L__" + std::to_string( n ); }
inline std::vector<Item> dumpItems( const Content &c, const DumpOpt &o, const std::string &inName, int &exitCode )
{
   std::vector<Item> r;
   auto W = [&]( const std::string &s ) { r.push_back( { 'W', s, {} } ); };
   auto K = [&]( const std::string &s ) { r.push_back( { 'K', s, {} } ); };
   auto Q = [&]( const std::string &s ) { r.push_back( { 'Q', s, {} } ); };
   auto E = [&]( const std::string &s ) { r.push_back( { 'E', s, {} } ); };
   auto N = [&] { r.push_back( { 'N', "", {} } ); };
   auto V = [&]( const Val &v ) { r.push_back( { 'V', "", v } ); };
   static const char *ty[] { "Set", "Par", "Var", "Equ", "Alias" }, *tyL[] { "Set", "Parameter", "Variable", "Equation", "Alias" };
   static const char *fld[] { "L", "M", "LO", "UP", "SCALE" };
   static const char *vt[] { "", "binary", "integer", "positive", "negative", "free", "sos1", "sos2", "semicont", "semiint" };
   exitCode = 0;
   auto count = [&]( const Sym &s ) { return s.type == model::T_ALIAS ? 0 : s.dim == 0 ? 1 : (int) s.recs.size(); };
   auto targetName = [&]( const Sym &s ) { return s.user == 0 ? std::string( "*" ) : c.syms[(size_t) s.user - 1].name; };
   if( o.version ) {
      W( "*  File version   :" ); r.push_back( { 'L', "", {} } );
      W( "*  Producer       :" ); r.push_back( { 'R', c.producer, {} } ); N();
      W( "*  File format    : " + std::to_string( c.version ) ); N(); W( "*  Compression    : " + std::to_string( (int) c.compr ) ); N();
      W( "*  Symbols        :" ); r.push_back( { 'I', std::to_string( c.syms.size() ), {} } ); N(); W( "*  Unique Elements:" ); r.push_back( { 'I', std::to_string( c.uels.size() ), {} } );
      return r;
   }
   if( o.noData ) W( "$gdxIn " + inName );
   if( !o.csv ) for( auto &a: c.acrs ) { W( "Acronym " + ( a.name.empty() ? "UnknownAcronym" + std::to_string( a.map ) : a.name ) ); if( !a.text.empty() ) Q( a.text ); W( ";" ); }
   if( !o.uel.empty() ) {
      if( o.csv ) { for( auto &u: c.uels.v ) { K( u ); N(); } return r; }
      if( c.uels.size() == 0 ) W( "$onEmpty Set " + o.uel + "(*) / /; $offEmpty" );
      else { W( "Set " + o.uel + " /" ); for( int i = 1; i <= c.uels.size(); i++ ) { K( c.uels.at( i ) ); W( i < c.uels.size() ? "," : "/;" ); } }
   }
   std::vector<int> sorted;
   for( size_t i = 0; i < c.syms.size(); i++ ) sorted.push_back( (int) i );
   std::sort( sorted.begin(), sorted.end(), [&]( int a, int b ) { return c.syms[(size_t) a].name < c.syms[(size_t) b].name; } );
   if( o.symbols ) {
      W( "Symbol Dim Type Records Explanatory text" ); N();
      int n {};
      for( int i: sorted ) { auto &s = c.syms[(size_t) i]; W( std::to_string( ++n ) + " " + s.name + " " + std::to_string( s.dim ) + " " + ty[s.type] + " " + std::to_string( count( s ) ) ); r.push_back( { 'R', s.text, {} } ); N(); }
      return r;
   }
   auto asItem = [&]( const Sym &s, bool di ) {
      K( s.name ); E( "." + std::to_string( s.dim ) + "." ); K( ty[s.type] );
      if( di ) { std::string d; for( auto &x: domNamesOf( c, s ) ) { if( !d.empty() ) d += ", "; d += x; if( d.size() > 63 ) { d = "Domain exceeds 63 characters"; break; } } E( "." ); K( d ); }
      else if( !s.text.empty() ) Q( s.text );
   };
   if( o.asSet || o.asSetDI ) {
      const bool di = !o.asSet;
      W( di ? "alias (Symbol, Dim, Type, Domain, *); set gdxitemsDI(Symbol,Dim,Type,Domain) Items in the GDX file /" : "alias (Symbol, Dim, Type, *); set gdxitems(Symbol,Dim,Type) Items in the GDX file /" );
      for( size_t i = 0; i < c.syms.size(); i++ ) { asItem( c.syms[i], di ); if( i + 1 < c.syms.size() ) W( "," ); }
      W( "/;" );
      return r;
   }
   if( o.domInfo ) {
      W( "SyNr Type DomInf Symbol" ); N();
      for( int i: sorted ) {
         auto &s = c.syms[(size_t) i];
         const char *kind = s.dim == 0 || ( !s.dom && !s.domStr ) ? "None" : s.dom ? "Regular" : "Relaxed";
         if( s.dim > 0 && ( s.dom || s.domStr ) ) { bool any {}; for( auto &x: domNamesOf( c, s ) ) any |= x != "*"; if( !any ) kind = nullptr; }
         W( std::to_string( i + 1 ) + " " + ty[s.type] );
         if( s.type == model::T_ALIAS || !kind ) r.push_back( { 'X', "", {} } ); else W( kind );
         W( s.name );
         if( s.dim > 0 ) { std::string d; for( auto &x: domNamesOf( c, s ) ) { if( !d.empty() ) d += ", "; d += x; } if( s.type == model::T_ALIAS ) r.push_back( { 'L', "", {} } ); else { W( "(" + d + ")" ); N(); } }
         else N();
      }
      return r;
   }
   if( o.setText ) {
      W( "Count of set text strings in GDX: " + std::to_string( c.texts.size() ) ); N();
      int mx {};
      for( auto &s: c.syms ) if( s.type == model::T_SET ) for( auto &q: s.recs ) mx = std::max( mx, (int) std::lround( q.v[0].d ) );
      W( "max 0-based textIdx found in GDX: " + std::to_string( mx ) ); N(); W( "idx text" ); N();
      for( size_t i = 0; i < c.texts.size(); i++ ) { W( std::to_string( i ) ); r.push_back( { 'E', "   \"" + c.texts[i] + "\"", {} } ); N(); }
      return r;
   }
   auto bad = [&]( const Sym &s ) { for( auto &q: s.recs ) for( int x: q.k ) if( x > c.uels.size() ) { r.push_back( { 'B', "", {} } ); return; } };
   int lines {};
   auto symbol = [&]( const Sym &s ) {
      if( ( s.type == model::T_SET || s.type == model::T_PAR ) && o.bas ) return;
      const bool scalar = s.dim == 0 && s.type == model::T_PAR, ve = s.type == model::T_VAR || s.type == model::T_EQU;
      auto comments = [&] { for( auto &x: s.comments ) { W( "*" ); r.push_back( { 'R', x, {} } ); N(); } };
      if( !o.noHdr ) {
         if( scalar ) W( "Scalar" );
         else {
            if( s.type == model::T_SET && s.user == 1 ) W( "Singleton" );
            if( s.type == model::T_VAR && vt[s.user >= 0 && s.user < 10 ? s.user : 5][0] ) W( vt[s.user >= 0 && s.user < 10 ? s.user : 5] );
            if( s.type == model::T_EQU && s.user == 59 ) W( "Logic" );
            if( s.type == model::T_EQU && s.user == 6 ) r.push_back( { 'O', "Logic", {} } );
            W( tyL[s.type] );
         }
         if( s.type == model::T_ALIAS ) W( "(" + s.name + ", " + targetName( s ) + ");" );
         else {
            W( s.name );
            if( s.dim > 0 ) { std::string d; for( int i = 0; i < s.dim; i++ ) { if( i ) d += ","; const int x = s.dom ? ( *s.dom )[(size_t) i] : 0; d += x > 0 ? c.syms[(size_t) x - 1].name : "*"; } W( "(" + d + ")" ); }
            if( !s.text.empty() ) Q( s.text );
         }
      }
      if( s.type == model::T_ALIAS ) return;
      const int cnt = count( s );
      if( cnt == 0 && !o.noData ) {
         if( !o.noHdr ) W( "/ /;" );
         if( !o.noHdr ) comments();
         return;
      }
      if( !o.noHdr && !o.noData ) W( "/" );
      comments();
      if( o.noData ) { if( cnt == 0 ) W( "; !!empty $loadDC " + s.name + " !!empty" ); else W( "; $loadDC " + s.name ); return; }
      const double *df = ve ? defRec( s.type, s.user ) : nullptr;
      bool first = true;
      auto item = [&]( const Rec &q, int f ) {
         if( !scalar && s.type != model::T_SET && o.filter && ( s.type != model::T_EQU || ( f != 2 && f != 3 ) ) && q.v[(size_t) f] == ( ve ? fromD( df[f] ) : Val {} ) ) return;
         if( !scalar && s.type != model::T_SET && o.filter && ( s.type != model::T_EQU || ( f != 2 && f != 3 ) ) && q.v[(size_t) f].sv < 0 && q.v[(size_t) f].d == 0 && ( ve ? df[f] : 0.0 ) == 0 ) return;
         if( first ) first = false; else W( o.bas ? ";" : "," );
         if( o.bas ) { if( lines == 6 ) W( "$offListing" ); W( s.name + "." + fld[f] ); }
         if( s.dim > 0 ) {
            if( o.bas ) W( "(" );
            for( int i = 0; i < s.dim; i++ ) { K( uelName( c, q.k[(size_t) i] ) ); if( i < s.dim - 1 ) r.push_back( { 'D', std::string( 1, o.delim ), {} } ); }
            if( o.bas ) W( ")" );
         }
         if( s.type == model::T_SET ) { if( q.v[0].d != 0 ) Q( textOf( c, q.v[0] ) ); }
         else if( s.type == model::T_PAR ) { if( s.dim == 0 ) W( "" ); V( q.v[0] ); }
         else {
            if( o.bas ) W( "=" );
            else { if( s.dim > 0 ) r.push_back( { 'D', std::string( 1, o.delim ), {} } ); r.push_back( { s.dim > 0 ? 'E' : 'W', std::string( fld[f] ) + ( s.dim > 0 ? " " : "" ), {} } ); }
            V( q.v[(size_t) f] );
         }
         lines++;
      };
      std::vector<Rec> recs = s.recs;
      if( s.dim == 0 && recs.empty() ) {// a scalar without a record has its default
         Rec q; for( int f = 0; f < model::valCount( s.type ); f++ ) q.v.push_back( ve ? fromD( df[f] ) : Val {} );
         recs.push_back( q );
      }
      for( auto &q: recs ) {
         if( o.bas ) { if( s.type == model::T_VAR ) item( q, 0 ); item( q, 1 ); }
         else for( int f = 0; f < model::valCount( s.type ); f++ ) item( q, f );
      }
      if( o.bas ) W( ";" ); else if( !o.noHdr ) W( "/;" );
      bad( s );
   };
   auto csvQ = [&]( const std::string &s ) { if( o.delim == '\t' ) return s; std::string x = "\""; for( char ch: s ) { if( ch == '"' ) x += '"'; x += ch; } return x + "\""; };
   if( !o.symb.empty() ) {
      const int n = c.findSym( o.symb );
      if( n < 1 ) { exitCode = 6; W( "Symbol not found: " + o.symb ); return r; }
      const Sym &s = c.syms[(size_t) n - 1];
      if( !o.csv ) { symbol( s ); if( o.bas && lines > 6 ) W( "$onListing" ); return r; }
      const bool cd = o.cdim && s.dim >= 2, isSet = typeOf( s ) == model::T_SET, ve = s.type == model::T_VAR || s.type == model::T_EQU;
      const std::string dl( 1, o.delim );
      std::vector<Rec> recs = dataOf( c, s );
      if( s.dim == 0 && recs.empty() ) { Rec q; const double *df = ve ? defRec( s.type, s.user ) : nullptr; for( int f = 0; f < model::valCount( s.type ); f++ ) q.v.push_back( ve ? fromD( df[f] ) : Val {} ); recs.push_back( q ); }
      std::vector<int> cols;
      if( cd ) { std::set<int> x; for( auto &q: recs ) x.insert( q.k.back() ); cols.assign( x.begin(), x.end() ); }
      if( o.hasHeader ) { if( !o.header.empty() ) { E( o.header ); N(); } }
      else if( !o.noHdr ) {// column titles: domain names, made unique
         r.push_back( { 'H', std::to_string( s.dim - ( cd ? 1 : 0 ) ), {} } );
         if( cd && cols.empty() ) r.push_back( { 'o', dl, {} } );
         if( cd ) for( size_t i = 0; i < cols.size(); i++ ) { if( i || s.dim > 1 ) r.push_back( { 'D', dl, {} } ); E( csvQ( uelName( c, cols[i] ) ) ); }
         else {
            bool any = s.dim > 0;
            auto col = [&]( const std::string &t ) { if( any ) r.push_back( { 'D', dl, {} } ); E( csvQ( t ) ); any = true; };
            if( !isSet ) col( "Val" ); else if( o.setTextCol ) col( "Text" );
            if( ve && o.allFields ) for( auto x: { "Marginal", "Lower", "Upper", "Scale" } ) col( x );
         }
         N();
      }
      for( size_t i = 0; i < recs.size(); ) {
         auto &q = recs[i];
         const int kd = s.dim - ( cd ? 1 : 0 );
         for( int d = 0; d < kd; d++ ) { if( d ) r.push_back( { 'D', dl, {} } ); E( csvQ( uelName( c, q.k[(size_t) d] ) ) ); }
         if( cd ) {
            size_t j = i;
            for( int col: cols ) {
               r.push_back( { 'D', dl, {} } );
               if( j < recs.size() && std::equal( q.k.begin(), q.k.end() - 1, recs[j].k.begin() ) && recs[j].k.back() == col ) { if( isSet ) E( "Y" ); else V( recs[j].v[0] ); j++; }
            }
            i = j;
         }
         else {
            if( !isSet ) {
               if( kd ) r.push_back( { 'D', dl, {} } );
               V( q.v[0] );
               if( ve && o.allFields ) for( int f = 1; f < 5; f++ ) { r.push_back( { 'D', dl, {} } ); V( q.v[(size_t) f] ); }
            }
            else if( o.setTextCol ) { r.push_back( { 'D', dl, {} } ); if( q.v[0].d != 0 ) E( csvQ( textOf( c, q.v[0] ) ) ); }
            i++;
         }
         N();
      }
      { Sym t = s; t.recs = recs; bad( t ); }
      return r;
   }
   W( "$onEmpty" );
   if( o.noData ) W( "$offEolCom $eolCom !!" );
   for( auto &s: c.syms ) symbol( s );
   W( "$offEmpty" );
   if( o.bas && lines > 6 ) W( "$onListing" );
   return r;
}

inline std::string checkDump( const World &w, const Strs &args, const Outcome &o )
{
   const DumpOpt p = dumpArgs( args );
   if( p.bad ) return o.exit == 0 ? "bad parameters accepted" : "";
   const TFile *f = findFile( w, p.in );
   if( !f || !f->gdx || f->cut >= 0 ) return o.exit == 0 ? "exit code 0 although the input cannot be read" : "";
   int want {};
   const auto items = dumpItems( f->c, p, w.f.count( p.in ) ? p.in : p.in + ".gdx", want );
   if( want && o.exit == 0 ) return "exit code 0 although the symbol does not exist";
   if( !want && o.exit ) return "exit code " + std::to_string( o.exit ) + " although everything could be done";
   if( want ) return {};
   std::string text;
   if( p.out.empty() || p.version ) text = o.out;
   else { auto it = o.files.find( p.out ); if( it == o.files.end() ) return "no output file"; text.assign( it->second.begin(), it->second.end() ); }
   Matcher m { text, p, f->c };
   auto where = [&]( size_t i ) { std::string nx; for( size_t j = i; j < std::min( items.size(), i + 4 ); j++ ) { nx += items[j].k; nx += "[" + ( items[j].k == 'V' ? valStr( f->c, items[j].v ) : items[j].s ) + "] "; } return "at character " + std::to_string( m.p ) + " expected " + nx + ", found [" + text.substr( m.p > 20 ? m.p - 20 : 0, 20 ) + "|" + text.substr( std::min( m.p, text.size() ), 60 ) + "]"; };
   for( size_t i = 0; i < items.size(); i++ ) {
      auto &x = items[i];
      if( x.k == 'L' ) { while( m.p < text.size() && text[m.p] != '\n' ) m.p++; continue; }// rest of the line: not checked
      if( x.k == 'X' ) { m.skip(); while( m.p < text.size() && !Matcher::ws( text[m.p] ) ) m.p++; continue; }
      if( x.k == 'H' ) {// column titles: all different
         std::set<std::string> seen;
         for( int d = 0; d < atoi( x.s.c_str() ); d++ ) {
            if( d && !m.lit( std::string( 1, p.delim ) ) ) return "column titles: delimiter missing";
            std::string n;
            const bool q = p.delim != '\t';
            if( q && !m.lit( "\"" ) ) return "column titles: quote missing";
            while( m.p < text.size() && text[m.p] != ( q ? '"' : '\t' ) && text[m.p] != '\n' ) n += text[m.p++];
            if( q && !m.lit( "\"" ) ) return "column titles: quote missing";
            if( n.empty() || !seen.insert( up( n ) ).second ) return "column title [" + n + "] appears twice";
         }
         continue;
      }
      if( !m.one( x ) ) return where( i );
   }
   m.skip();
   if( m.p != text.size() ) return "unexpected output: [" + text.substr( m.p, 60 ) + "]";
   return {};
}
}// namespace tools
