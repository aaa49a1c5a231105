#include "disk.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <new>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <unordered_set>

namespace sim {
__attribute__( ( init_priority( 101 ) ) ) Disk D;// outlives the static objects of the tools
Mem M;
constexpr int FD0 = 1000000;
constexpr long SECTOR = 512;

void Disk::reset()
{
   auto keepEnv = env;
   *this = Disk {};
   (void) keepEnv;
}

bool isSim( const char *p )
{
   if( !p ) return false;
   if( !strncmp( p, "/sim/", 5 ) ) return true;
   if( !D.allPaths ) return false;
   return strncmp( p, "/proc", 5 ) && strncmp( p, "/dev", 4 ) && strncmp( p, "/etc", 4 ) && strncmp( p, "/usr", 4 ) && strncmp( p, "/lib", 4 );
}
std::string norm( const char *p )
{
   std::string s = p;
   if( s.compare( 0, 5, "/sim/" ) ) s = "/sim/" + s;
   if( D.allPaths )// tools: names relative to the simulated current directory
      for( size_t i; ( i = s.find( "/./" ) ) != std::string::npos || ( i = s.find( "//" ) ) != std::string::npos; ) s.erase( i, s[i + 1] == '.' ? 2 : 1 );
   return s;
}

static bool isFd( int fd ) { return fd >= FD0 && fd < FD0 + (int) D.fds.size() && D.fds[fd - FD0].open; }

static void hard( int slot )
{
   D.hardFaults++;
   D.hardSlot = slot;
   D.hardSlots.push_back( slot );
}

void onOverrun();
// consult the fault plan for this call; returns the fault to apply or null
static Fault *consult( const char *call )
{
   if( ++D.calls > D.stepLimit && !D.overrun ) { D.overrun = true; onOverrun(); }
   Fault *hit {};
   for( auto &f: D.armed )
   {
      if( f.call != call ) continue;
      if( f.done ) {
         if( f.sticky && !hit ) hit = &f;
         continue;
      }
      if( f.n-- == 0 ) {
         f.done = true;
         if( !hit ) hit = &f;
      }
   }
   if( hit ) D.fired[std::string( call ) + ":" + hit->kind]++;
   return hit;
}

static int errOf( const std::string &k )
{
   if( k == "enospc" ) return ENOSPC;
   if( k == "eacces" ) return EACCES;
   if( k == "emfile" ) return EMFILE;
   if( k == "enoent" ) return ENOENT;
   if( k == "edquot" ) return EDQUOT;
   if( k == "ebadf" ) return EBADF;
   if( k == "einval" ) return EINVAL;
   if( k == "erofs" ) return EROFS;
   return EIO;
}

static void ev( char k, long len, long res )
{
   D.mix( (uint64_t) k * 1000003u + (uint64_t) len );
   D.mix( (uint64_t) res );
   if( D.record ) D.trace.push_back( { k, len, res } );
}

static int simOpen( const char *path, int flags )
{
   if( Fault *f = consult( "open" ) ) {
      if( f->kind == "eintr" ) { errno = EINTR; ev( 'o', flags, -EINTR ); hard( D.curSlot ); return -1; }
      errno = errOf( f->kind ); ev( 'o', flags, -errno ); hard( D.curSlot ); return -1;
   }
   if( D.dead ) { errno = EIO; return -1; }
   const auto p = norm( path );
   auto it = D.files.find( p );
   if( it == D.files.end() ) {
      if( !( flags & O_CREAT ) ) { errno = ENOENT; ev( 'o', flags, -ENOENT ); return -1; }
      it = D.files.emplace( p, std::make_shared<Bytes>() ).first;
   }
   else if( ( flags & O_CREAT ) && ( flags & O_EXCL ) ) { errno = EEXIST; return -1; }
   if( flags & O_TRUNC ) *it->second = Bytes {};
   Disk::Fd fd;
   fd.f = it->second; fd.path = p; fd.flags = flags; fd.slot = D.curSlot; fd.open = true;
   if( flags & O_APPEND ) fd.pos = it->second->size();
   D.fds.push_back( fd );
   D.opened++;
   ev( 'o', flags, 0 );
   return FD0 + (int) D.fds.size() - 1;
}

static ssize_t simRead( int fdn, void *buf, size_t n )
{
   auto &fd = D.fds[fdn - FD0];
   long avail = fd.f->size() - fd.pos;
   if( avail < 0 ) avail = 0;
   size_t want = n;
   if( Fault *f = consult( "read" ) ) {
      if( f->kind == "eintr" ) { errno = EINTR; ev( 'r', (long) n, -EINTR ); return -1; }
      if( f->kind == "short" ) want = (size_t) std::max( 1L, std::min( (long) n, f->arg ) );
      else if( f->kind == "eof" ) { hard( fd.slot ); ev( 'r', (long) n, 0 ); return 0; }
      else { errno = errOf( f->kind ); hard( fd.slot ); ev( 'r', (long) n, -errno ); return -1; }
   }
   else if( D.chaosSeed ) {
      if( D.pEintr && D.chaos.chance( D.pEintr, 100 ) ) { D.fired["read:eintr"]++; errno = EINTR; ev( 'r', (long) n, -EINTR ); return -1; }
      if( D.pShort && n > 1 && D.chaos.chance( D.pShort, 100 ) ) { want = 1 + D.chaos.below( n ); if( want < n ) D.fired["read:short"]++; }
   }
   if( D.cap > 0 && want > (size_t) D.cap ) { want = (size_t) D.cap; D.fired["read:cap"]++; }
   if( D.dead ) { errno = EIO; return -1; }
   const size_t k = std::min( want, (size_t) avail );
   if( k && fd.f->hole ) fd.f->get( buf, fd.pos, k );
   else if( k ) memcpy( buf, fd.f->d.data() + fd.pos, k );
   fd.pos += (long) k;
   D.bytesR += (long) k;
   ev( 'r', (long) n, (long) k );
   return (ssize_t) k;
}

static ssize_t simWrite( int fdn, const void *buf, size_t n )
{
   auto &fd = D.fds[fdn - FD0];
   if( ( fd.flags & O_ACCMODE ) == O_RDONLY ) { errno = EBADF; return -1; }
   size_t want = n;
   bool crash {};
   if( Fault *f = consult( "write" ) ) {
      if( f->kind == "eintr" ) { errno = EINTR; ev( 'w', (long) n, -EINTR ); return -1; }
      if( f->kind == "short" ) want = (size_t) std::max( 1L, std::min( (long) n, f->arg ) );
      else if( f->kind == "crash" ) {
         // the process dies during this call: a prefix reaches the disk, cut at a sector boundary
         // of the file (arg: per-mille of the transfer; 1000 = everything)
         crash = true;
         if( f->arg >= 1000 ) want = n;
         else {
            const long end = fd.pos + (long) n * f->arg / 1000;
            const long cut = end / SECTOR * SECTOR;
            want = cut > fd.pos ? (size_t) ( cut - fd.pos ) : 0;
         }
      }
      else if( f->kind == "partial" ) {// some bytes stored, then the error on the next call (disk full)
         hard( fd.slot );
         want = std::min( n, (size_t) std::max( 0L, f->arg ) );
         if( want == 0 ) { errno = ENOSPC; ev( 'w', (long) n, -ENOSPC ); D.quota = D.used(); return -1; }
         D.quota = D.used() + (long) want;// and full from now on
      }
      else { errno = errOf( f->kind ); hard( fd.slot ); ev( 'w', (long) n, -errno ); return -1; }
   }
   else if( D.chaosSeed ) {
      if( D.pEintr && D.chaos.chance( D.pEintr, 100 ) ) { D.fired["write:eintr"]++; errno = EINTR; ev( 'w', (long) n, -EINTR ); return -1; }
      if( D.pShort && n > 1 && D.chaos.chance( D.pShort, 100 ) ) { want = 1 + D.chaos.below( n ); if( want < n ) D.fired["write:short"]++; }
   }
   if( D.cap > 0 && want > (size_t) D.cap && !crash ) { want = (size_t) D.cap; D.fired["write:cap"]++; }
   if( D.sectorSplit && want < n && !crash ) {
      const long cut = ( fd.pos + (long) want ) / SECTOR * SECTOR;
      want = cut > fd.pos ? (size_t) ( cut - fd.pos ) : n;
   }
   if( D.dead ) { errno = EIO; return -1; }
   if( D.quota >= 0 ) {
      const long size = fd.f->size(), grow = std::max( 0L, fd.pos + (long) want - size ), room = D.quota - D.used();
      if( grow > room ) {
         long k = (long) want - ( grow - std::max( 0L, room ) );
         if( k <= 0 ) { D.fired["write:quota"]++; hard( fd.slot ); errno = ENOSPC; ev( 'w', (long) n, -ENOSPC ); return -1; }
         want = (size_t) k;
      }
   }
   if( fd.flags & O_APPEND ) fd.pos = fd.f->size();
   if( fd.f->size() < fd.pos + (long) want ) fd.f->d.resize( (size_t) ( fd.pos + (long) want - fd.f->hole ) );
   if( want && fd.f->hole ) fd.f->put( buf, fd.pos, want );
   else if( want ) memcpy( fd.f->d.data() + fd.pos, buf, want );
   fd.pos += (long) want;
   D.bytesW += (long) want;
   for( size_t i = 0; i < want; i += 97 ) D.mix( static_cast<const uint8_t *>( buf )[i] );
   ev( 'w', (long) n, (long) want );
   if( crash ) { D.dead = true; errno = EIO; return -1; }
   return (ssize_t) want;
}

static off_t simSeek( int fdn, off_t off, int wh )
{
   auto &fd = D.fds[fdn - FD0];
   if( Fault *f = consult( "lseek" ) ) { errno = errOf( f->kind ); hard( fd.slot ); ev( 's', off, -errno ); return -1; }
   if( D.dead ) { errno = EIO; return -1; }
   long np = wh == SEEK_SET ? off : wh == SEEK_CUR ? fd.pos + off : fd.f->size() + off;
   if( np < 0 ) { errno = EINVAL; return -1; }
   fd.pos = np;
   ev( 's', off, np );
   return np;
}

static int simClose( int fdn )
{
   auto &fd = D.fds[fdn - FD0];
   fd.open = false;
   if( Fault *f = consult( "close" ) ) {
      errno = errOf( f->kind ); hard( fd.slot ); ev( 'c', 0, -errno );
      if( f->arg > 0 && ( fd.flags & O_ACCMODE ) != O_RDONLY ) {// delayed allocation: the tail never made it
         auto &d = fd.f->d; d.resize( d.size() - std::min( (size_t) f->arg, d.size() ) );
      }
      fd.f.reset();
      return -1;
   }
   fd.f.reset();
   ev( 'c', 0, 0 );
   return 0;
}
}// namespace sim

using namespace sim;
// the simulation's own memory is not the library's
namespace sim { void ( *yieldHook )( int ); }
struct Quiet { bool s {}; Quiet() { if( yieldHook && M.inApi ) yieldHook( 1 ); s = M.inApi; M.inApi = false; } ~Quiet() { M.inApi = s; } };
// blocks allocated inside library calls and not yet released
static std::unordered_set<void *> *g_live;
static bool g_erasing;
namespace sim {
#ifdef __SANITIZE_ADDRESS__
extern "C" size_t __asan_get_alloc_stack( void *addr, void **trace, size_t size, int *thread_id );
extern "C" void __sanitizer_symbolize_pc( void *pc, const char *fmt, char *out, size_t n );
#endif
void leakDump()
{
#ifdef __SANITIZE_ADDRESS__
   if( !g_live ) return;
   std::vector<void *> all( g_live->begin(), g_live->end() );
   int k {};
   for( void *p: all ) {
      if( k++ == 8 ) break;
      void *tr[14]; int tid {};
      const size_t n = __asan_get_alloc_stack( p, tr, 14, &tid );
      fprintf( stderr, "leaked block:\n" );
      for( size_t i {}; i < n; i++ ) { char b[600]; __sanitizer_symbolize_pc( (char *) tr[i] - 1, "   %f %S", b, sizeof b ); fprintf( stderr, "%s\n", b ); }
   }
#endif
}

long leakCount() { return g_live ? (long) g_live->size() : 0; }
void leakReset() { if( !g_live ) { g_live = new std::unordered_set<void *>; g_live->reserve( 4096 ); } g_erasing = true; g_live->clear(); g_erasing = false; }
}// namespace sim
static inline void liveAdd( void *p )
{
   if( !M.inApi || !g_live || !p ) return;
   M.inApi = false; g_erasing = true;
   g_live->insert( p );
   M.inApi = true; g_erasing = false;
}
static inline void liveDel( void *p )
{
   if( !p || !g_live || g_erasing || g_live->empty() ) return;
   g_erasing = true;
   const bool in = M.inApi; M.inApi = false;
   g_live->erase( p );
   M.inApi = in;
   g_erasing = false;
}
extern "C" {
int __real_open( const char *, int, ... );
ssize_t __real_read( int, void *, size_t );
ssize_t __real_write( int, const void *, size_t );
off_t __real_lseek( int, off_t, int );
int __real_close( int );
int __real_fstat( int, struct stat * );
int __real_stat( const char *, struct stat * );
int __real_lstat( const char *, struct stat * );
int __real_access( const char *, int );
int __real_unlink( const char * );
int __real_remove( const char * );
int __real_rename( const char *, const char * );
ssize_t __real_pread( int, void *, size_t, off_t );
ssize_t __real_pwrite( int, const void *, size_t, off_t );
int __real_fsync( int );
int __real_ftruncate( int, off_t );
int __real_system( const char * );
char *__real_getenv( const char * );
void *__real_malloc( size_t );
void *__real_realloc( void *, size_t );
void *__real_calloc( size_t, size_t );


int __wrap_open( const char *p, int flags, ... )
{ Quiet q_;
   mode_t mode {};
   if( flags & O_CREAT ) { va_list ap; va_start( ap, flags ); mode = (mode_t) va_arg( ap, int ); va_end( ap ); }
   if( isSim( p ) ) return simOpen( p, flags );
   return __real_open( p, flags, mode );
}
int __wrap_open64( const char *p, int flags, ... ) { Quiet q_; if( isSim( p ) ) return simOpen( p, flags ); return __real_open( p, flags, 0666 ); }
int __wrap_creat( const char *p, mode_t m ) { Quiet q_; if( isSim( p ) ) return simOpen( p, O_CREAT | O_WRONLY | O_TRUNC ); return __real_open( p, O_CREAT | O_WRONLY | O_TRUNC, m ); }
ssize_t __wrap_read( int fd, void *b, size_t n ) { Quiet q_; return isFd( fd ) ? simRead( fd, b, n ) : __real_read( fd, b, n ); }
ssize_t __wrap_write( int fd, const void *b, size_t n ) { Quiet q_; return isFd( fd ) ? simWrite( fd, b, n ) : __real_write( fd, b, n ); }
ssize_t __wrap_pread( int fd, void *b, size_t n, off_t o )
{ Quiet q_;
   if( !isFd( fd ) ) return __real_pread( fd, b, n, o );
   auto &f = D.fds[fd - FD0]; long save = f.pos; f.pos = o; auto r = simRead( fd, b, n ); f.pos = save; return r;
}
ssize_t __wrap_pwrite( int fd, const void *b, size_t n, off_t o )
{ Quiet q_;
   if( !isFd( fd ) ) return __real_pwrite( fd, b, n, o );
   auto &f = D.fds[fd - FD0]; long save = f.pos; f.pos = o; auto r = simWrite( fd, b, n ); f.pos = save; return r;
}
off_t __wrap_lseek( int fd, off_t o, int w ) { Quiet q_; return isFd( fd ) ? simSeek( fd, o, w ) : __real_lseek( fd, o, w ); }
off_t __wrap_lseek64( int fd, off_t o, int w ) { Quiet q_; return isFd( fd ) ? simSeek( fd, o, w ) : __real_lseek( fd, o, w ); }
int __wrap_close( int fd ) { Quiet q_; if( fd >= FD0 ) { if( isFd( fd ) ) return simClose( fd ); errno = EBADF; return -1; } return __real_close( fd ); }
static void fillStat( const File &f, struct stat *st )
{
   memset( st, 0, sizeof *st );
   st->st_mode = S_IFREG | 0644; st->st_size = (off_t) f->size(); st->st_nlink = 1;
   if( D.allPaths ) st->st_mtime = 1700000000;
}
int __wrap_fstat( int fd, struct stat *st )
{ Quiet q_;
   if( !isFd( fd ) ) return __real_fstat( fd, st );
   if( Fault *f = consult( "fstat" ) ) { errno = errOf( f->kind ); hard( D.fds[fd - FD0].slot ); return -1; }
   fillStat( D.fds[fd - FD0].f, st );
   return 0;
}
int __wrap_fstat64( int fd, struct stat *st ) { Quiet q_; return __wrap_fstat( fd, st ); }
static int statPath( const char *p, struct stat *st )
{
   auto it = D.files.find( norm( p ) );
   if( it == D.files.end() ) {
      if( D.allPaths ) for( auto &f: D.files ) if( !f.first.compare( 0, norm( p ).size() + 1, norm( p ) + "/" ) ) { memset( st, 0, sizeof *st ); st->st_mode = S_IFDIR | 0755; st->st_mtime = 1700000000; return 0; }
      errno = ENOENT; return -1;
   }
   fillStat( it->second, st );
   return 0;
}
int __wrap_stat( const char *p, struct stat *st ) { Quiet q_; return isSim( p ) ? statPath( p, st ) : __real_stat( p, st ); }
int __wrap_stat64( const char *p, struct stat *st ) { Quiet q_; return __wrap_stat( p, st ); }
int __wrap_lstat( const char *p, struct stat *st ) { Quiet q_; return isSim( p ) ? statPath( p, st ) : __real_lstat( p, st ); }
int __wrap_lstat64( const char *p, struct stat *st ) { return __wrap_lstat( p, st ); }
int __wrap_access( const char *p, int m )
{ Quiet q_;
   if( !isSim( p ) ) return __real_access( p, m );
   if( D.files.count( norm( p ) ) ) return 0;
   errno = ENOENT; return -1;
}
int __wrap_unlink( const char *p )
{ Quiet q_;
   if( !isSim( p ) ) { if( D.allPaths ) { errno = EPERM; return -1; } return __real_unlink( p ); }
   if( Fault *f = consult( "unlink" ) ) { errno = errOf( f->kind ); hard( D.curSlot ); return -1; }
   if( D.dead ) { errno = EIO; return -1; }
   if( D.files.erase( norm( p ) ) ) { ev( 'u', 0, 0 ); return 0; }
   errno = ENOENT; return -1;
}
int __wrap_remove( const char *p ) { Quiet q_; if( !isSim( p ) ) { if( D.allPaths ) { errno = EPERM; return -1; } return __real_remove( p ); } return __wrap_unlink( p ); }
int __wrap_rename( const char *a, const char *b )
{ Quiet q_;
   if( !isSim( a ) ) { if( D.allPaths ) { errno = EPERM; return -1; } return __real_rename( a, b ); }
   if( Fault *f = consult( "rename" ) ) { errno = errOf( f->kind ); hard( D.curSlot ); return -1; }
   if( D.dead ) { errno = EIO; return -1; }
   auto it = D.files.find( norm( a ) );
   if( it == D.files.end() ) { errno = ENOENT; return -1; }
   auto f = it->second;
   D.files.erase( it );
   D.files[norm( b )] = f;
   ev( 'n', 0, 0 );
   return 0;
}
int __wrap_ftruncate( int fd, off_t n )
{ Quiet q_;
   if( !isFd( fd ) ) return __real_ftruncate( fd, n );
   if( D.dead ) { errno = EIO; return -1; }
   { auto &f = *D.fds[fd - FD0].f; if( n <= f.holeAt ) { f.d.resize( (size_t) n ); f.hole = 0; } else f.d.resize( (size_t) std::max( f.holeAt, n - f.hole ) ); }
   return 0;
}
int __wrap_ftruncate64( int fd, off_t n ) { return __wrap_ftruncate( fd, n ); }
int __wrap_fsync( int fd ) { Quiet q_; if( isFd( fd ) ) return D.dead ? ( errno = EIO, -1 ) : 0; return __real_fsync( fd ); }
int __wrap_system( const char *c )
{ Quiet q_;// never starts a process: records the command, answers from the plan
   D.commands.push_back( c ? c : "" );
   long r = D.sysDefault;
   if( !D.sysRet.empty() ) { r = D.sysRet.front(); D.sysRet.erase( D.sysRet.begin() ); }
   D.fired[r == 0 ? "system:ok" : r == -1 ? "system:unavailable" : ( r & 0x7f ) ? "system:killed" : r == 127 << 8 ? "system:missing" : "system:fail"]++;
   if( D.watchSys ) {
      Disk::SysCall c; c.ret = r;
      for( auto &f: D.files ) c.files[f.first] = f.second->d;
      for( auto &f: D.fds ) if( f.open ) c.open.push_back( f.path );
      D.sysCalls.push_back( c );
   }
   return (int) r;
}
char *__wrap_getenv( const char *n )
{ Quiet q_;
   auto it = D.env.find( n ? n : "" );
   if( it != D.env.end() ) return const_cast<char *>( it->second.c_str() );
   if( n && ( !strcmp( n, "GDXCOMPRESS" ) || !strcmp( n, "GDXCONVERT" ) ) ) return nullptr;
   return D.allPaths ? nullptr : __real_getenv( n );
}

static bool allocFails()
{
   if( yieldHook && M.inApi ) yieldHook( 0 );
   if( !M.inApi || D.dead ) return false;
   const long i = M.count++;
   if( i == M.failAt ) { Quiet q_; M.fired = true; D.fired["alloc:fail"]++; hard( D.curSlot ); return true; }
   return false;
}
void *__wrap_malloc( size_t n )
{
   if( allocFails() ) { errno = ENOMEM; return nullptr; }
   void *p = __real_malloc( n );
   if( p && M.fill >= 0 ) memset( p, M.fill, n );
   liveAdd( p );
   return p;
}
void *__wrap_realloc( void *o, size_t n )
{
   if( allocFails() ) { errno = ENOMEM; return nullptr; }
   liveDel( o );
   void *p = __real_realloc( o, n );
   liveAdd( p ? p : o );
   return p;
}
void *__wrap_calloc( size_t a, size_t b )
{
   if( allocFails() ) { errno = ENOMEM; return nullptr; }
   void *p = __real_calloc( a, b );
   liveAdd( p );
   return p;
}
void __real_free( void * );
void __wrap_free( void *p ) { liveDel( p ); __real_free( p ); }
}

// global new: same seam as malloc
static void *newImpl( size_t n )
{
   if( allocFails() ) throw std::bad_alloc {};
   void *p = __real_malloc( n ? n : 1 );
   if( !p ) throw std::bad_alloc {};
   if( M.fill >= 0 ) memset( p, M.fill, n );
   liveAdd( p );
   return p;
}
void *operator new( size_t n ) { return newImpl( n ); }
void *operator new[]( size_t n ) { return newImpl( n ); }
void *operator new( size_t n, const std::nothrow_t & ) noexcept { try { return newImpl( n ); } catch( ... ) { return nullptr; } }
void *operator new[]( size_t n, const std::nothrow_t & ) noexcept { try { return newImpl( n ); } catch( ... ) { return nullptr; } }
void operator delete( void *p, const std::nothrow_t & ) noexcept { operator delete( p ); }
void operator delete[]( void *p, const std::nothrow_t & ) noexcept { operator delete[]( p ); }
void operator delete( void *p ) noexcept { liveDel( p ); __real_free( p ); }
void operator delete[]( void *p ) noexcept { liveDel( p ); __real_free( p ); }
void operator delete( void *p, size_t ) noexcept { liveDel( p ); __real_free( p ); }
void operator delete[]( void *p, size_t ) noexcept { liveDel( p ); __real_free( p ); }

namespace sim { __attribute__( ( noinline ) ) void onOverrun() { asm volatile( "" ); } }// a place for a breakpoint
