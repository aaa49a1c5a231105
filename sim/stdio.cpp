// The C++ file streams and directory functions of the tools, on the simulated disk.
#include "disk.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <set>
#include <sys/uio.h>
#include <unistd.h>
using namespace sim;
namespace sim { uint64_t dirSeed { 1 }; }
static std::map<FILE *, int> *streams;
struct SimDir { std::vector<std::string> names; size_t at {}; dirent ent; };
static std::set<void *> *dirs;
extern "C" {
int __wrap_open( const char *, int, ... );
int __wrap_close( int );
ssize_t __wrap_write( int, const void *, size_t );
FILE *__real_fopen( const char *, const char * );
FILE *__real_fopen64( const char *, const char * );
int __real_fclose( FILE * );
int __real_fileno( FILE * );
int __real_fflush( FILE * );
ssize_t __real_writev( int, const struct iovec *, int );
DIR *__real_opendir( const char * );
struct dirent *__real_readdir( DIR * );
struct dirent64 *__real_readdir64( DIR * );
int __real_closedir( DIR * );
char *__real_getcwd( char *, size_t );
static FILE *simFopen( const char *p, const char *m )
{
   const bool plus = strchr( m, '+' );
   int fl = m[0] == 'r' ? ( plus ? O_RDWR : O_RDONLY ) : ( plus ? O_RDWR : O_WRONLY ) | O_CREAT | ( m[0] == 'a' ? O_APPEND : O_TRUNC );
   const int fd = __wrap_open( p, fl, 0666 );
   if( fd < 0 ) return nullptr;
   FILE *f = __real_fopen( "/dev/null", "r+" );
   if( !streams ) streams = new std::map<FILE *, int>;
   ( *streams )[f] = fd;
   return f;
}
FILE *__wrap_fopen( const char *p, const char *m ) { return isSim( p ) ? simFopen( p, m ) : __real_fopen( p, m ); }
FILE *__wrap_fopen64( const char *p, const char *m ) { return isSim( p ) ? simFopen( p, m ) : __real_fopen64( p, m ); }
static int fdOf( FILE *f ) { if( !streams ) return -1; auto it = streams->find( f ); return it == streams->end() ? -1 : it->second; }
int __wrap_fileno( FILE *f ) { const int fd = fdOf( f ); return fd >= 0 ? fd : __real_fileno( f ); }
int __wrap_fflush( FILE *f ) { return f && fdOf( f ) >= 0 ? 0 : __real_fflush( f ); }
int __wrap_fclose( FILE *f )
{
   const int fd = fdOf( f );
   if( fd < 0 ) return __real_fclose( f );
   streams->erase( f );
   const int r = __wrap_close( fd ), e = errno;
   __real_fclose( f );
   errno = e;
   return r ? EOF : 0;
}
ssize_t __wrap_writev( int fd, const struct iovec *v, int n )
{
   if( fd < 1000000 ) return __real_writev( fd, v, n );
   std::string all;
   for( int i = 0; i < n; i++ ) all.append( static_cast<const char *>( v[i].iov_base ), v[i].iov_len );
   return __wrap_write( fd, all.data(), all.size() );
}
char *__wrap_getcwd( char *b, size_t n )
{
   if( !D.allPaths ) return __real_getcwd( b, n );
   if( n < 5 ) { errno = ERANGE; return nullptr; }
   return strcpy( b, "/sim" );
}
DIR *__wrap_opendir( const char *p )
{
   std::string q = p ? p : "";
   if( !D.allPaths ) return __real_opendir( p );
   q = q == "/sim" ? "/sim/" : norm( q.c_str() );
   while( q.size() > 1 && q.back() == '/' ) q.pop_back();
   q += '/';
   for( auto &f: D.armed ) if( f.call == "opendir" && !f.done && f.n-- == 0 ) { f.done = true; D.fired["opendir:" + f.kind]++; D.hardFaults++; errno = EACCES; return nullptr; }
   std::set<std::string> names;
   for( auto &f: D.files ) if( !f.first.compare( 0, q.size(), q ) ) { auto r = f.first.substr( q.size() ); names.insert( r.substr( 0, r.find( '/' ) ) ); }
   if( names.empty() && q != "/sim/" ) { errno = ENOENT; return nullptr; }
   auto *d = new SimDir;
   d->names.assign( names.begin(), names.end() );
   d->names.push_back( "." ); d->names.push_back( ".." );
   Rng r( dirSeed );// the order in which a directory lists its entries is the simulator's choice
   for( size_t i = d->names.size(); i > 1; i-- ) std::swap( d->names[i - 1], d->names[r.below( i )] );
   if( !dirs ) dirs = new std::set<void *>;
   dirs->insert( d );
   return reinterpret_cast<DIR *>( d );
}
struct dirent *__wrap_readdir( DIR *p )
{
   if( !dirs || !dirs->count( p ) ) return __real_readdir( p );
   auto *d = reinterpret_cast<SimDir *>( p );
   if( d->at == d->names.size() ) return nullptr;
   memset( &d->ent, 0, sizeof d->ent );
   snprintf( d->ent.d_name, sizeof d->ent.d_name, "%s", d->names[d->at++].c_str() );
   return &d->ent;
}
struct dirent64 *__wrap_readdir64( DIR *p ) { return reinterpret_cast<struct dirent64 *>( __wrap_readdir( p ) ); }
int __wrap_closedir( DIR *p )
{
   if( !dirs || !dirs->count( p ) ) return __real_closedir( p );
   dirs->erase( p ); delete reinterpret_cast<SimDir *>( p );
   return 0;
}
}
