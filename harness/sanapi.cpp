// A stand-in for the interface of the address and the thread sanitizer to fibers: it records
// the calls with the stacks they name (spec/SanFiber.tla says which sequences are right) and
// hands out values of its own for what the sanitizers keep for a context.
#include "sanapi.hpp"
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <pthread.h>

#define NOINLINE __attribute__((noinline))

enum { MAXLOG = 20000, MAXR = 64, THREAD0 = 24 };
SanRec sanlog[MAXLOG];
volatile int nsanlog;
namespace {
struct Region { char * lo, * hi; bool used; } regions[MAXR];      // up to THREAD0: stacks of contexts
volatile int nthreads, nfibers, ntokens;
struct Thr { int id; const char * lo, * hi, * nlo, * nhi; int fiber; };   // stack: now, after the switch
__thread Thr thr;
char tokens[MAXLOG], fibers[MAXLOG];
// not inlined: the thread may be another one after a switch
NOINLINE Thr & self() {
    asm volatile( "" ::: "memory");
    if ( !thr.id) {
        thr.id = __sync_add_and_fetch( & nthreads, 1);
        if ( THREAD0 + thr.id >= MAXR) { fprintf( stderr, "too many threads\n"); abort(); }
        pthread_attr_t a; void * lo; size_t n;
        if ( pthread_getattr_np( pthread_self(), & a) || pthread_attr_getstack( & a, & lo, & n) ) abort();
        pthread_attr_destroy( & a);
        Region & r = regions[THREAD0 + thr.id];
        r.lo = static_cast< char * >( lo); r.hi = r.lo + n; r.used = true;
        thr.lo = r.lo; thr.hi = r.hi;
    }
    return thr;
}
void rec( int call, int a, int b) {
    const int k = __sync_fetch_and_add( & nsanlog, 1);
    if ( k >= MAXLOG) { fprintf( stderr, "too many calls\n"); abort(); }
    SanRec r = { call, self().id, a, b }; sanlog[k] = r;
}
// the stack that [lo,hi] belongs to, or 0
int region( const void * lo, const void * hi) {
    for ( int i = MAXR - 1; i > 0; --i)
        if ( regions[i].used && lo >= regions[i].lo && hi <= regions[i].hi) return i;
    return 0;
}
int index( void * p, char * base, int n) {
    if ( !p) return 0;
    char * c = static_cast< char * >( p);
    return c > base && c <= base + n ? (int)( c - base) : MAXLOG;
}
}
void san_alloc( int r, void * lo, void * hi) {
    regions[r].lo = static_cast< char * >( lo); regions[r].hi = static_cast< char * >( hi); regions[r].used = true;
    rec( S_ALLOC, r, 0);
}
void san_reserve( int r, void * hi) { regions[r].hi = static_cast< char * >( hi); }
void san_release( int r) { regions[r].used = false; rec( S_RELEASE, r, 0); }
void san_run( void * frame) {
    Thr & t = self();
    // within the bounds the sanitizer knows
    rec( S_RUN, frame >= t.lo && frame < t.hi ? region( frame, frame) : 0, 0);
}
void san_exit() { rec( S_EXIT, THREAD0 + self().id, 0); regions[THREAD0 + self().id].used = false; }

extern "C" {
NOINLINE void __sanitizer_start_switch_fiber( void ** save, const void * bottom, size_t size) {
    const char * lo = static_cast< const char * >( bottom);
    int tok = 0;
    if ( save) { tok = __sync_add_and_fetch( & ntokens, 1); * save = tokens + tok; }
    Thr & t = self();
    t.nlo = lo; t.nhi = lo + size;
    // (a context needs most of its stack, from the lower end on)
    const int r = region( lo, lo + size);
    rec( S_START, size >= 1024 && lo - regions[r].lo <= 4096 ? r : 0, tok);
}
NOINLINE void __sanitizer_finish_switch_fiber( void * save, const void ** bottom, size_t * size) {
    const char * frame = static_cast< char * >( __builtin_frame_address( 0) );
    Thr & t = self();
    // the frame lies within the announced bounds
    rec( S_FINISH, frame >= t.nlo && frame < t.nhi ? region( frame, frame) : 0, index( save, tokens, ntokens) );
    if ( bottom) * bottom = t.lo;
    if ( size) * size = t.hi - t.lo;          // of the stack that was left
    t.lo = t.nlo; t.hi = t.nhi;
}
void * __tsan_create_fiber( unsigned) {
    const int f = __sync_add_and_fetch( & nfibers, 1);
    rec( S_CREATE, f, 0);
    return fibers + f;
}
void * __tsan_get_current_fiber() {
    Thr & t = self();
    if ( !t.fiber) { t.fiber = __sync_add_and_fetch( & nfibers, 1); rec( S_MAIN, t.fiber, 0); }
    return fibers + t.fiber;
}
void __tsan_switch_to_fiber( void * f, unsigned flags) {
    Thr & t = self();
    if ( !t.fiber) __tsan_get_current_fiber();
    t.fiber = index( f, fibers, nfibers);
    rec( S_SWITCH, t.fiber, (int)flags);
}
void __tsan_destroy_fiber( void * f) { rec( S_DESTROY, index( f, fibers, nfibers), 0); }
}
