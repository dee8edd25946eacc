// Executes behaviours of spec/StackTraits.tla: real limits, real queries.
#include "runner.hpp"
#include <pthread.h>
#include <memory>
#include <utility>
#include <boost/context/stack_traits.hpp>
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/fiber.hpp>
namespace bc = boost::context;
using runner::fail; using runner::status; using runner::rnd;
enum { SETLIMIT = 1, ISUNBOUNDED, MAXIMUM, RACE, PAGE, DEFAULT, MINIMUM, USEMIN, USEDEFAULT };

// While threads race the questions to the system take long: the others ask in the meantime.
static volatile int racing;
static void slow() { if ( racing) usleep( 3000); }
extern "C" {
int __real_getrlimit( int, struct rlimit *); int __real_getrlimit64( int, void *); long __real_sysconf( int); int __real_getpagesize( void);
int __wrap_getrlimit( int r, struct rlimit * l) { slow(); int e = __real_getrlimit( r, l); slow(); return e; }
int __wrap_getrlimit64( int r, void * l) { slow(); int e = __real_getrlimit64( r, l); slow(); return e; }
long __wrap_sysconf( int n) { slow(); long v = __real_sysconf( n); slow(); return v; }
int __wrap_getpagesize( void) { slow(); int v = __real_getpagesize(); slow(); return v; }
}
static rlim_t inherited;
static rlim_t limit( long i) {
    static const rlim_t v[] = { 0, ( (rlim_t)1 << 40) + 4096, ( (rlim_t)5 << 30) + 8192, ( (rlim_t)1 << 32), ( (rlim_t)64 << 20) + 4096, ( (rlim_t)8 << 20) - 4096, (rlim_t)2 << 20 };
    return i == 0 ? inherited : v[i] < inherited ? v[i] : inherited;
}
static void unbounded( long cap) {
    bool u = bc::stack_traits::is_unbounded();
#if defined(BOOST_USE_WINFIB)
    bool e = cap == 0;      // there is no limit
#else
    bool e = limit( cap) == RLIM_INFINITY;
#endif
    if ( u != e) fail( "unbounded", "is_unbounded() is %d, the hard stack limit at the first use is %s", u, e ? "unlimited" : "not unlimited");
}
static void maximum( long cap) {
    if ( limit( cap) == RLIM_INFINITY) return;
    std::size_t m = bc::stack_traits::maximum_size();
    if ( m != limit( cap) ) fail( "maximum", "maximum_size() is %zu, the hard stack limit at the first use is %zu", m, (size_t)limit( cap) );
}
static std::size_t def, mini, pg;
static void once( std::size_t & v, std::size_t x, const char * what) {
    if ( v && v != x) fail( "constant", "%s changed from %zu to %zu", what, v, x);
    if ( !x) fail( "constant", "%s is zero", what);
    v = x;
}
static int use( std::size_t size) {
    int steps = 0;
    bc::fiber f( std::allocator_arg, bc::fixedsize_stack( size), [&steps]( bc::fiber && m) {
        volatile char a[512];
        for ( int i = 0; i < 512; ++i) a[i] = (char)i;
        ++steps;
        m = std::move( m).resume();
        for ( int i = 0; i < 512; ++i) if ( a[i] != (char)i) fail( "usable", "locals of a context changed");
        ++steps;
        return std::move( m);
    });
    f = std::move( f).resume();
    f = std::move( f).resume();
    return steps;
}
struct Racer { long cap; int no; };
static void * race( void * p) {
    Racer & r = *static_cast< Racer * >( p);
    usleep( (unsigned)( rnd( 90 + r.no) % 5) * 1500);
    std::size_t v = 0;
    for ( int k = 0; k < 2; ++k) {
        // in any order
        if ( ( k + r.no) % 2) { unbounded( r.cap); maximum( r.cap); }
        else v = bc::stack_traits::page_size();
        if ( rnd( 80 + r.no) % 2) break;
    }
    if ( rnd( 80 + r.no) % 2) return nullptr;
    if ( v != (std::size_t)__real_sysconf( _SC_PAGESIZE) ) fail( "page", "page_size() is %zu", v);
    return nullptr;
}
static void exec( std::vector< long > const& e) {
    switch ( e[0]) {
    case ISUNBOUNDED: unbounded( e[2]); break;
    case MAXIMUM: maximum( e[2]); break;
    case PAGE:
        once( pg, bc::stack_traits::page_size(), "page_size()");
        if ( pg != (std::size_t)sysconf( _SC_PAGESIZE) ) fail( "page", "page_size() is %zu", pg);
        break;
    case DEFAULT: once( def, bc::stack_traits::default_size(), "default_size()"); break;
    case MINIMUM: once( mini, bc::stack_traits::minimum_size(), "minimum_size()"); break;
    case USEMIN: case USEDEFAULT: {
        std::size_t z = e[0] == USEMIN ? bc::stack_traits::minimum_size() : bc::stack_traits::default_size();
        if ( use( z) != 2) fail( "usable", "a context with a stack of %zu bytes did not run", z);
        break; }
    }
    if ( def && mini && mini > def) fail( "order", "minimum_size() %zu is larger than default_size() %zu", mini, def);
}
static void * other( void * p) { exec( *(std::vector< long > const *)p); return nullptr; }
static void child( runner::Path & p) {
    struct rlimit rl; getrlimit( RLIMIT_STACK, & rl);
    inherited = rl.rlim_max;
    for ( std::vector< long > const& e : p.steps) {
        status->pos = status->pos + 1;
        if ( e[0] == SETLIMIT) {
            rl.rlim_max = limit( e[2]); rl.rlim_cur = limit( e[3]);
            if ( setrlimit( RLIMIT_STACK, & rl) ) runner::done();      // not permitted here
        } else if ( e[0] == RACE) {
            pthread_t t[4]; Racer r[4];
            racing = 1;
            for ( int i = 0; i < 4; ++i) {
                r[i].cap = e[2]; r[i].no = i;
                pthread_attr_t a; pthread_attr_init( & a); pthread_attr_setstacksize( & a, 1 << 20);
                if ( pthread_create( & t[i], & a, & race, & r[i]) ) abort();
            }
            for ( pthread_t x : t) pthread_join( x, 0);
            racing = 0;
        } else if ( e[1] == 1) exec( e);
        else {
            pthread_t t; pthread_attr_t a; pthread_attr_init( & a); pthread_attr_setstacksize( & a, 1 << 20);
            if ( pthread_create( & t, & a, & other, (void*)& e) ) abort();
            pthread_join( t, 0);
        }
    }
}
int main( int argc, char ** argv) { return runner::run( argc, argv, & child); }
