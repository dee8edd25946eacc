// Executes interleavings of spec/Refcount.tla with the real pooled allocator.  The atomic
// counter is replaced by one that hands control to the scheduler before every access
// (SCHED), or the threads run freely under ThreadSanitizer (without SCHED).
#include "runner.hpp"
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <new>
#include <utility>
#include <pthread.h>
#include <boost/assert.hpp>
#include <boost/config.hpp>
#include <boost/intrusive_ptr.hpp>
#include <boost/pool/pool.hpp>
#include <boost/smart_ptr/intrusive_ref_counter.hpp>
#include <boost/context/detail/config.hpp>
#include <boost/context/stack_context.hpp>
#include <boost/context/stack_traits.hpp>
using runner::fail; using runner::status;

enum { STARTCOPY = 1, STARTDROP, ACCESS };
static const int MAXT = 4;
static void point( const void *);         // the thread is about to access shared state

#if defined(SCHED)
namespace std {
template< typename T >
struct sched_atomic {
    T v;
    sched_atomic() noexcept : v() {}
    sched_atomic( T x) noexcept : v( x) {}
    sched_atomic( sched_atomic const&) = delete;
    T load( memory_order = memory_order_seq_cst) const noexcept { point( this); return v; }
    void store( T x, memory_order = memory_order_seq_cst) noexcept { point( this); v = x; }
    operator T() const noexcept { return load(); }
    T operator=( T x) noexcept { store( x); return x; }
    T exchange( T x, memory_order = memory_order_seq_cst) noexcept { point( this); T o = v; v = x; return o; }
    T fetch_add( T x, memory_order = memory_order_seq_cst) noexcept { point( this); T o = v; v = (T)( v + x); return o; }
    T fetch_sub( T x, memory_order = memory_order_seq_cst) noexcept { point( this); T o = v; v = (T)( v - x); return o; }
    T operator++() noexcept { return (T)( fetch_add( 1) + 1); }
    T operator--() noexcept { return (T)( fetch_sub( 1) - 1); }
    T operator++( int) noexcept { return fetch_add( 1); }
    T operator--( int) noexcept { return fetch_sub( 1); }
    T operator+=( T x) noexcept { return (T)( fetch_add( x) + x); }
    T operator-=( T x) noexcept { return (T)( fetch_sub( x) - x); }
    bool compare_exchange_strong( T & e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) noexcept {
        point( this); if ( v == e) { v = d; return true; } e = v; return false; }
    bool compare_exchange_weak( T & e, T d, memory_order a = memory_order_seq_cst, memory_order b = memory_order_seq_cst) noexcept {
        return compare_exchange_strong( e, d, a, b); }
};
}
# define atomic sched_atomic
#else
// the thread sanitizer does not know fences: they are told to it in terms of the objects accessed
# include <sanitizer/tsan_interface.h>
namespace fences {
static thread_local void * seen[16]; static thread_local unsigned nseen; static thread_local bool rel;
static inline bool acq( std::memory_order o) { return o != std::memory_order_relaxed && o != std::memory_order_release; }
static inline bool rls( std::memory_order o) { return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst; }
static inline void read( const void * p, std::memory_order o) { if ( !acq( o) ) seen[nseen++ % 16] = const_cast< void * >( p); }
static inline void write( const void * p) { if ( rel) __tsan_release( const_cast< void * >( p) ); }
}
namespace std {
static inline void tsan_fence( memory_order o) noexcept {
    if ( fences::acq( o) ) for ( unsigned k = 0; k < fences::nseen && k < 16; ++k) __tsan_acquire( fences::seen[k]);
    if ( fences::rls( o) ) fences::rel = true;
}
template< typename T >
struct tsan_atomic {
    std::atomic< T > v;
    tsan_atomic() noexcept : v() {}
    tsan_atomic( T x) noexcept : v( x) {}
    tsan_atomic( tsan_atomic const&) = delete;
    T load( memory_order o = memory_order_seq_cst) const noexcept { T r = v.load( o); fences::read( this, o); return r; }
    void store( T x, memory_order o = memory_order_seq_cst) noexcept { fences::write( this); v.store( x, o); }
    operator T() const noexcept { return load(); }
    T operator=( T x) noexcept { store( x); return x; }
    T exchange( T x, memory_order o = memory_order_seq_cst) noexcept { fences::write( this); T r = v.exchange( x, o); fences::read( this, o); return r; }
    T fetch_add( T x, memory_order o = memory_order_seq_cst) noexcept { fences::write( this); T r = v.fetch_add( x, o); fences::read( this, o); return r; }
    T fetch_sub( T x, memory_order o = memory_order_seq_cst) noexcept { fences::write( this); T r = v.fetch_sub( x, o); fences::read( this, o); return r; }
    T operator++() noexcept { return (T)( fetch_add( 1) + 1); }
    T operator--() noexcept { return (T)( fetch_sub( 1) - 1); }
    T operator++( int) noexcept { return fetch_add( 1); }
    T operator--( int) noexcept { return fetch_sub( 1); }
    T operator+=( T x) noexcept { return (T)( fetch_add( x) + x); }
    T operator-=( T x) noexcept { return (T)( fetch_sub( x) - x); }
    bool compare_exchange_strong( T & e, T d, memory_order a, memory_order b) noexcept {
        fences::write( this); bool r = v.compare_exchange_strong( e, d, a, b); fences::read( this, r ? a : b); return r; }
    bool compare_exchange_weak( T & e, T d, memory_order a, memory_order b) noexcept {
        fences::write( this); bool r = v.compare_exchange_weak( e, d, a, b); fences::read( this, r ? a : b); return r; }
    static memory_order weaker( memory_order o) { return o == memory_order_acq_rel ? memory_order_acquire : o == memory_order_release ? memory_order_relaxed : o; }
    bool compare_exchange_strong( T & e, T d, memory_order o = memory_order_seq_cst) noexcept { return compare_exchange_strong( e, d, o, weaker( o) ); }
    bool compare_exchange_weak( T & e, T d, memory_order o = memory_order_seq_cst) noexcept { return compare_exchange_weak( e, d, o, weaker( o) ); }
};
}
# define atomic tsan_atomic
# define atomic_thread_fence tsan_fence
#endif
#include <boost/context/pooled_fixedsize_stack.hpp>
#undef atomic
#undef atomic_thread_fence
namespace bc = boost::context;
typedef bc::pooled_fixedsize_stack Al;

//------------------------------------------------------------------ the pool's control block
#if defined(SCHED)
static volatile int frees; static void * pool_block; static size_t pool_size;
static bool watch;
extern "C" { void * __real_malloc( size_t); void __real_free( void *); }
void * operator new( size_t n) {
    void * p = __real_malloc( n);
    if ( !p) throw std::bad_alloc();
    if ( watch) { pool_block = p; pool_size = n; }
    return p;
}
static void gone( void * p) {
    if ( !p) return;
    if ( p == pool_block) {
        if ( ++frees > 1) fail( "release", "the pool was released twice");
        memset( p, 0xdd, pool_size);
        return;
    }
    __real_free( p);
}
void operator delete( void * p) noexcept { gone( p); }
void operator delete( void * p, size_t) noexcept { gone( p); }
extern "C" { void * __wrap_malloc( size_t n) { return __real_malloc( n); } void __wrap_free( void * p) { __real_free( p); } }
#endif

static int NT, K;
struct Thread {
    pthread_t id; pthread_mutex_t m; pthread_cond_t c; bool go, back;
    std::vector< Al * > held; int order; bool busy; int used;
} th[MAXT + 1];
static __thread Thread * self;

#if defined(SCHED)
static void to( Thread & t) {           // scheduler: let t run until it comes back
    pthread_mutex_lock( & t.m);
    t.go = true; t.back = false; pthread_cond_broadcast( & t.c);
    while ( !t.back) pthread_cond_wait( & t.c, & t.m);
    pthread_mutex_unlock( & t.m);
}
static void yield() {                   // thread: back to the scheduler
    Thread & t = *self;
    pthread_mutex_lock( & t.m);
    t.back = true; t.go = false; pthread_cond_broadcast( & t.c);
    while ( !t.go) pthread_cond_wait( & t.c, & t.m);
    pthread_mutex_unlock( & t.m);
}
static void point( const void * p) {
    if ( self) yield();
    if ( frees && (char*)p >= (char*)pool_block && (char*)p < (char*)pool_block + pool_size)
        fail( "integrity", "the count is accessed after the pool was released");
}
static void * body( void * p) {
    self = (Thread*)p;
    pthread_mutex_lock( & self->m);
    while ( !self->go) pthread_cond_wait( & self->c, & self->m);
    pthread_mutex_unlock( & self->m);
    for (;;) {
        if ( self->order == STARTCOPY) self->held.push_back( new Al( *self->held.front() ) );
        else { Al * a = self->held.back(); self->held.pop_back(); delete a; }
        self->busy = false;
        yield();
    }
    return nullptr;
}
static void child( runner::Path & p) {
    NT = (int)runner::constants[0]; K = (int)runner::constants[1];
    watch = true;
    Al * first = new Al( 64, 2);
    // the last operator new was either the object or what it allocated: the pool is inside first
    watch = false;
    if ( pool_block == (void*)first) runner::done();        // nothing to observe
    for ( int t = 1; t <= NT; ++t) {
        pthread_mutex_init( & th[t].m, 0); pthread_cond_init( & th[t].c, 0);
        th[t].held.reserve( 64);
        th[t].held.push_back( new Al( *first));
        pthread_create( & th[t].id, 0, & body, & th[t]);
    }
    delete first;
    for ( std::vector< long > const& e : p.steps) {
        status->pos = status->pos + 1;
        Thread & t = th[e[1]];
        if ( e[0] != ACCESS) {
            t.order = (int)e[0]; t.busy = true; t.used = 0;
            to( t);
        } else {
            ++t.used;
            if ( t.busy) to( t);
            // more accesses than foreseen: no other thread in between
            while ( t.used == K && t.busy) to( t);
        }
        if ( e[2] == 1 && frees) fail( "valid", "the pool was released while an allocator object exists");
        if ( e[2] == 2 && !frees) fail( "leak", "the last allocator object is gone, the pool was not released");
        if ( frees)
            for ( size_t i = 0; i < pool_size; ++i)
                if ( ((unsigned char*)pool_block)[i] != 0xdd) fail( "integrity", "the pool was changed after it had been released");
    }
}
#else
static pthread_barrier_t bar;
static void * body( void * p) {
    self = (Thread*)p;
    int no = (int)( self - th);
    pthread_barrier_wait( & bar);
    bc::stack_context sc; bool have = false;
    for ( std::vector< long > const& e : runner::path->steps) {
        if ( e[1] != no) continue;
        // one thread uses the pool: what it does has to happen before the release
        if ( no == 1 && !self->held.empty() ) {
            if ( have) self->held.front()->deallocate( sc); else sc = self->held.front()->allocate();
            have = !have;
        }
        if ( e[0] == STARTCOPY) self->held.push_back( new Al( *self->held.front() ) );
        else if ( e[0] == STARTDROP) { Al * a = self->held.back(); self->held.pop_back(); delete a; }
    }
    while ( !self->held.empty() ) { Al * a = self->held.back(); self->held.pop_back(); delete a; }
    return nullptr;
}
static void child( runner::Path & p) {
    NT = (int)runner::constants[0];
    for ( int round = 0; round < 3; ++round) {
        pthread_barrier_init( & bar, 0, (unsigned)NT);
        Al * first = new Al( 64, 2);
        for ( int t = 1; t <= NT; ++t) th[t].held.push_back( new Al( *first));
        delete first;
        for ( int t = 1; t <= NT; ++t) pthread_create( & th[t].id, 0, & body, & th[t]);
        for ( int t = 1; t <= NT; ++t) pthread_join( th[t].id, 0);
        pthread_barrier_destroy( & bar);
    }
    status->pos = (int)p.steps.size();
}
#endif
int main( int argc, char ** argv) { return runner::run( argc, argv, & child); }
