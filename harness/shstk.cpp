// map_shadow_stack() and munmap() as the library calls them
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <pthread.h>
#include <sys/mman.h>
#include "shstk.h"
extern "C" {
    __thread uint64_t sw_ssp;
    __thread uint64_t sw_ssbuf[64];
}
bool shst_fail;
volatile int shst_live;
static void say( const char * what) { fprintf( stderr, "shadow stack: %s\n", what); abort(); }
void (*shst_misuse)( const char * what) = say;
namespace {
struct Map { uintptr_t base; size_t size; };
Map maps[512];
pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
struct Lock { Lock() { pthread_mutex_lock( & mtx); } ~Lock() { pthread_mutex_unlock( & mtx); } };
size_t pages( size_t n) { return ( n + 4095) & ~size_t( 4095); }
}
extern "C" {
long __real_syscall( long n, long a, long b, long c, long d, long e, long f);
long __wrap_syscall( long n, ...) {
    va_list l; va_start( l, n);
    const long a = va_arg( l, long), b = va_arg( l, long), c = va_arg( l, long), d = va_arg( l, long), e = va_arg( l, long), f = va_arg( l, long);
    va_end( l);
    if ( n != 451) return __real_syscall( n, a, b, c, d, e, f);
    const size_t size = static_cast< size_t >( b);
    if ( shst_fail) { errno = ENOMEM; return -1; }
    if ( size < 8) { errno = ENOSPC; return -1; }
    if ( size % 8 || ( c & 0xffffffff) != 1) { errno = EINVAL; return -1; }
    void * p = mmap( nullptr, pages( size), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if ( p == MAP_FAILED) return -1;
    const uintptr_t top = reinterpret_cast< uintptr_t >( p) + size;
    reinterpret_cast< uint64_t * >( top)[-1] = top | 1;
    Lock lk;
    for ( Map & m : maps) if ( !m.base) { m.base = reinterpret_cast< uintptr_t >( p); m.size = size; ++shst_live; return reinterpret_cast< long >( p); }
    abort();
}
int __real_munmap( void * p, size_t n);
int __wrap_munmap( void * p, size_t n) {
    const uintptr_t lo = reinterpret_cast< uintptr_t >( p), hi = lo + n;
    const char * bad = nullptr;
    {
        Lock lk;
        for ( Map & m : maps) {
            if ( !m.base || hi <= m.base || m.base + pages( m.size) <= lo) continue;
            if ( lo != m.base || pages( n) != pages( m.size) ) bad = "munmap() of a part of a shadow stack, or of more than one";
            else if ( sw_ssp > lo && sw_ssp <= hi) bad = "munmap() of the shadow stack that is in use";
            else { m.base = 0; --shst_live; }
            break;
        }
    }
    if ( bad) shst_misuse( bad);
    return __real_munmap( p, n);
}
}
