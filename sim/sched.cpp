#include "sched.hpp"
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <unistd.h>

using sim::D;
using sim::M;
extern "C" char __data_start, _end;

namespace sched {
enum Kind { Global, Func, Alloc, Io, Op, Lock, Blocked, Ended };
struct Th {
   sem_t sem;
   pthread_t id;
   bool done {}, blocked {};
   const void *on {};
   long op { -1 }, y {};
   int curSlot { -1 };
   bool inApi {};
   const std::function<void()> *body {};
   int idx {};
};
static std::vector<Th *> *ths;
static int cur = -1;
static bool stopFlag;
static Policy pol;
static Outcome *out;
static sim::Rng rng { 1 };
static long countdown;
static sem_t mainSem;
bool libActive; int libOpen; std::string complaint;
void ( *onSwitch )( const Switch & );
void ( *onDeadlock )( const std::string & );

int self() { return cur; }
bool stopping() { return stopFlag; }
void stop() { stopFlag = true; }

static void give( int to )
{
   Th &a = *( *ths )[(size_t) cur], &b = *( *ths )[(size_t) to];
   a.curSlot = D.curSlot; a.inApi = M.inApi;
   cur = to;
   D.curSlot = b.curSlot; M.inApi = b.inApi;
   sem_post( &b.sem );
   if( !a.done ) while( sem_wait( &a.sem ) ) {}
}
static void log( int to )
{
   Th &a = *( *ths )[(size_t) cur];
   Switch s { cur, a.op, a.y, to };
   out->switches.push_back( s );
   if( onSwitch ) onSwitch( s );
}
static std::vector<int> runnable( int except )
{
   std::vector<int> r;
   for( auto *t: *ths ) if( !t->done && !t->blocked && t->idx != except ) r.push_back( t->idx );
   return r;
}
// a point where the running thread may lose the baton
static void point( Kind k )
{
   if( cur < 0 ) return;
   Th &a = *( *ths )[(size_t) cur];
   const bool api = M.inApi;
   M.inApi = false;
   a.y++;
   out->steps++;
   int to = -1;
   if( k == Blocked || k == Ended ) {
      auto r = runnable( cur );
      if( r.empty() ) {
         if( k == Ended ) { bool any {}; for( auto *t: *ths ) if( t->blocked ) any = true; if( !any ) return; }
         std::string m = "deadlock: every thread waits for a lock";
         if( out->deadlock.empty() ) out->deadlock = m;
         if( onDeadlock ) onDeadlock( m );
         _exit( 70 );
      }
      to = r[0];
      if( pol.replay ) { auto q = pol.plan.find( { cur, a.op } ); if( q != pol.plan.end() ) { auto z = q->second.find( a.y ); if( z != q->second.end() ) for( int c: r ) if( c == z->second ) to = c; } }
      else to = r[rng.below( r.size() )];
   }
   else if( pol.replay ) {
      auto q = pol.plan.find( { cur, a.op } );
      if( q != pol.plan.end() ) { auto z = q->second.find( a.y ); if( z != q->second.end() ) for( int c: runnable( cur ) ) if( c == z->second ) to = c; }
   }
   else {
      bool sw {};
      if( k == Func ) { if( --countdown <= 0 ) { sw = true; countdown = 1 + (long) rng.below( (uint64_t) pol.meanFunc * 2 ); } }
      else { const int p = k == Global ? pol.pGlobal : k == Alloc ? pol.pAlloc : k == Io ? pol.pIo : k == Op ? pol.pOp : pol.pLock; sw = rng.below( (uint64_t) p ) == 0; }
      if( sw && k != Op && out->switches.size() > 3000 ) sw = false;
      if( sw ) { auto r = runnable( cur ); if( !r.empty() ) to = r[rng.below( r.size() )]; }
   }
   if( to >= 0 ) {
      static const char *nm[] { "static data access", "function entry", "allocation", "storage call", "between calls", "lock", "blocked", "thread end" };
      out->kinds[nm[k]]++;
      log( to );
      M.inApi = api;
      if( k == Ended ) { a.curSlot = -1; a.inApi = false; }
      give( to );
   }
   else M.inApi = api;
}
void opBoundary( long id )
{
   if( cur < 0 ) return;
   Th &a = *( *ths )[(size_t) cur];
   a.op = id; a.y = 0;
   point( Op );
}
static void hook( int k ) { if( cur >= 0 && M.inApi ) point( k == 0 ? Alloc : Io ); }

static void *entry( void *p )
{
   Th &t = *static_cast<Th *>( p );
   while( sem_wait( &t.sem ) ) {}
   ( *t.body )();
   M.inApi = false;
   t.op = -2; t.y = 0;
   t.done = true;
   bool left {};
   for( auto *x: *ths ) if( !x->done ) left = true;
   if( left ) point( Ended );
   else sem_post( &mainSem );
   return nullptr;
}

Outcome run( const Policy &p, const std::vector<std::function<void()>> &bodies )
{
   Outcome o;
   out = &o; pol = p; rng = sim::Rng( p.seed ); stopFlag = false; complaint.clear();
   countdown = 1 + (long) rng.below( (uint64_t) pol.meanFunc * 2 );
   std::vector<Th *> v;
   ths = &v;
   sem_init( &mainSem, 0, 0 );
   int i {};
   for( auto &b: bodies ) { auto *t = new Th; sem_init( &t->sem, 0, 0 ); t->body = &b; t->idx = i++; v.push_back( t ); }
   sim::yieldHook = hook;
   pthread_attr_t at; pthread_attr_init( &at ); pthread_attr_setstacksize( &at, 2 << 20 );
   for( auto *t: v ) if( pthread_create( &t->id, &at, entry, t ) ) abort();
   cur = 0;
   D.curSlot = -1; M.inApi = false;
   sem_post( &v[0]->sem );
   while( sem_wait( &mainSem ) ) {}
   for( auto *t: v ) pthread_join( t->id, nullptr );
   cur = -1;
   sim::yieldHook = nullptr;
   D.curSlot = -1; M.inApi = false;
   for( auto *t: v ) delete t;
   ths = nullptr; out = nullptr;
   return o;
}

// --- locks
static std::map<const void *, int> owner;// exclusive holder
static std::map<const void *, int> readers;
static void waitFor( const void *m ) { Th &a = *( *ths )[(size_t) cur]; a.blocked = true; a.on = m; point( Blocked ); a.blocked = false; }
static void wake( const void *m ) { for( auto *t: *ths ) if( t->blocked && t->on == m ) t->blocked = false; }
struct Calm { bool s { M.inApi }; Calm() { M.inApi = false; } ~Calm() { M.inApi = s; } };
static int lockIt( const void *m )
{
   if( cur < 0 ) return 0;
   Calm c;
   M.inApi = true; point( Lock ); M.inApi = false;
   while( owner.count( m ) || readers[m] > 0 ) waitFor( m );
   owner[m] = cur;
   return 0;
}
static int unlockIt( const void *m )
{
   if( cur < 0 ) return 0;
   Calm c;
   if( owner.count( m ) ) { if( owner[m] != cur && complaint.empty() ) complaint = "a lock was released by a thread that does not hold it"; owner.erase( m ); }
   else if( readers[m] > 0 ) readers[m]--;
   else if( complaint.empty() ) complaint = "a lock was released that nobody holds";
   wake( m );
   point( Lock );
   return 0;
}
}// namespace sched

using namespace sched;
static inline void mem( const void *p )
{
   if( cur >= 0 && M.inApi && static_cast<const char *>( p ) >= &__data_start && static_cast<const char *>( p ) < &_end ) point( Global );
}
static inline void fn()
{
   if( cur >= 0 && M.inApi ) point( Func );
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry( void * )
{
   if( libActive && libOpen == 0 && complaint.empty() ) { Calm c; complaint = "library code was entered while the library is not loaded"; }
   fn();
}
void __tsan_func_exit() {}
void __ldr_func_entry( void * ) { fn(); }
void __ldr_func_exit() {}
#define RW( n ) \
   void __tsan_read##n( void *p ) { mem( p ); } \
   void __tsan_write##n( void *p ) { mem( p ); } \
   void __tsan_unaligned_read##n( void *p ) { mem( p ); } \
   void __tsan_unaligned_write##n( void *p ) { mem( p ); } \
   void __tsan_volatile_read##n( void *p ) { mem( p ); } \
   void __tsan_volatile_write##n( void *p ) { mem( p ); } \
   void __tsan_unaligned_volatile_read##n( void *p ) { mem( p ); } \
   void __tsan_unaligned_volatile_write##n( void *p ) { mem( p ); }
RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
void __tsan_read_range( void *p, unsigned long ) { mem( p ); }
void __tsan_write_range( void *p, unsigned long ) { mem( p ); }
void __tsan_vptr_update( void **p, void * ) { mem( p ); }
void __tsan_vptr_read( void **p ) { mem( p ); }
#define AT( b, T ) \
   T __tsan_atomic##b##_load( const volatile T *p, int ) { mem( (const void *) p ); return __atomic_load_n( p, __ATOMIC_SEQ_CST ); } \
   void __tsan_atomic##b##_store( volatile T *p, T v, int ) { mem( (const void *) p ); __atomic_store_n( p, v, __ATOMIC_SEQ_CST ); } \
   T __tsan_atomic##b##_exchange( volatile T *p, T v, int ) { mem( (const void *) p ); return __atomic_exchange_n( p, v, __ATOMIC_SEQ_CST ); } \
   T __tsan_atomic##b##_fetch_add( volatile T *p, T v, int ) { mem( (const void *) p ); return __atomic_fetch_add( p, v, __ATOMIC_SEQ_CST ); } \
   T __tsan_atomic##b##_fetch_sub( volatile T *p, T v, int ) { mem( (const void *) p ); return __atomic_fetch_sub( p, v, __ATOMIC_SEQ_CST ); } \
   T __tsan_atomic##b##_fetch_and( volatile T *p, T v, int ) { mem( (const void *) p ); return __atomic_fetch_and( p, v, __ATOMIC_SEQ_CST ); } \
   T __tsan_atomic##b##_fetch_or( volatile T *p, T v, int ) { mem( (const void *) p ); return __atomic_fetch_or( p, v, __ATOMIC_SEQ_CST ); } \
   T __tsan_atomic##b##_fetch_xor( volatile T *p, T v, int ) { mem( (const void *) p ); return __atomic_fetch_xor( p, v, __ATOMIC_SEQ_CST ); } \
   T __tsan_atomic##b##_fetch_nand( volatile T *p, T v, int ) { mem( (const void *) p ); return __atomic_fetch_nand( p, v, __ATOMIC_SEQ_CST ); } \
   int __tsan_atomic##b##_compare_exchange_strong( volatile T *p, T *e, T v, int, int ) { mem( (const void *) p ); return __atomic_compare_exchange_n( p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); } \
   int __tsan_atomic##b##_compare_exchange_weak( volatile T *p, T *e, T v, int, int ) { mem( (const void *) p ); return __atomic_compare_exchange_n( p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); } \
   T __tsan_atomic##b##_compare_exchange_val( volatile T *p, T e, T v, int, int ) { mem( (const void *) p ); __atomic_compare_exchange_n( p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); return e; }
AT( 8, uint8_t ) AT( 16, uint16_t ) AT( 32, uint32_t ) AT( 64, uint64_t )
void __tsan_atomic_thread_fence( int ) {}
void __tsan_atomic_signal_fence( int ) {}

int __wrap_pthread_mutex_lock( pthread_mutex_t *m ) { return lockIt( m ); }
int __wrap_pthread_mutex_trylock( pthread_mutex_t *m ) { if( cur < 0 ) return 0; Calm c; if( owner.count( m ) ) return 16; owner[m] = cur; return 0; }
int __wrap_pthread_mutex_unlock( pthread_mutex_t *m ) { return unlockIt( m ); }
int __wrap_pthread_mutex_init( pthread_mutex_t *, const pthread_mutexattr_t * ) { return 0; }
int __wrap_pthread_mutex_destroy( pthread_mutex_t * ) { return 0; }
int __wrap_pthread_rwlock_wrlock( pthread_rwlock_t *m ) { return lockIt( m ); }
int __wrap_pthread_rwlock_rdlock( pthread_rwlock_t *m ) { if( cur < 0 ) return 0; Calm c; M.inApi = true; point( Lock ); M.inApi = false; while( owner.count( m ) ) waitFor( m ); readers[m]++; return 0; }
int __wrap_pthread_rwlock_unlock( pthread_rwlock_t *m ) { return unlockIt( m ); }
int __wrap_pthread_once( pthread_once_t *o, void ( *f )() )
{
   if( *o == 2 ) return 0;
   if( cur < 0 ) { f(); *o = 2; return 0; }
   while( *o == 1 ) { Calm c; waitFor( o ); }
   if( *o == 2 ) return 0;
   *o = 1; f(); *o = 2;
   { Calm c; wake( o ); }
   return 0;
}
int __real___cxa_guard_acquire( long long * );
void __real___cxa_guard_release( long long * );
void __real___cxa_guard_abort( long long * );
int __wrap___cxa_guard_acquire( long long *g )
{
   if( cur < 0 ) return __real___cxa_guard_acquire( g );
   char *b = reinterpret_cast<char *>( g );
   while( true ) {
      if( b[0] ) return 0;
      if( !b[1] ) { b[1] = 1; return 1; }
      Calm c; waitFor( g );
   }
}
void __wrap___cxa_guard_release( long long *g )
{
   if( cur < 0 ) { __real___cxa_guard_release( g ); return; }
   char *b = reinterpret_cast<char *>( g );
   b[1] = 0; b[0] = 1;
   Calm c; wake( g );
}
void __wrap___cxa_guard_abort( long long *g )
{
   if( cur < 0 ) { __real___cxa_guard_abort( g ); return; }
   reinterpret_cast<char *>( g )[1] = 0;
   Calm c; wake( g );
}
}
