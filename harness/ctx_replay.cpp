// Replays behaviours of spec/Context.tla in the real library.
//
//   ctx_replay FILE OUT WORKERS SEED [ONLY-PATH]
//
// FILE holds behaviours: sequences of commands with the events and the observation the
// specification predicts after each.  Every behaviour runs in a child process.  Every
// context of the program executes the interpreter below: it asks for the next command,
// compares what can be observed with the prediction first, and executes it through the
// public interface of the library.  OUT receives one line per deviating behaviour.
//
// Compiled once per configuration: -DIF_CALLCC selects boost::context::continuation.
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <exception>
#include <functional>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <system_error>
#include <type_traits>
#include <utility>
#include <vector>

#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#ifdef IF_CALLCC
#include <boost/context/continuation.hpp>
#else
#include <boost/context/fiber.hpp>
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#if defined(BOOST_USE_WINFIB)
#include <boost/context/windows/protected_fixedsize_stack.hpp>
#else
#include <boost/context/protected_fixedsize_stack.hpp>
#endif
#if defined(BOOST_USE_SEGMENTED_STACKS)
#include <boost/context/segmented_stack.hpp>
#endif
#include "crowd.hpp"
#if defined(BOOST_USE_WINFIB)
#include "winapi.hpp"       // the system provides the stacks contexts run on
enum { OWN_STACK = 0 };
#else
enum { OWN_STACK = 1 };
#endif
#if defined(SHSTK)
#include "shstk.h"          // shadow stacks in software
#endif
#if defined(SANAPI)
#include "sanapi.hpp"       // instead of a sanitizer
enum { SAN_FAILED = 20 };   // the stack of a creation that fails
#endif

namespace bc = boost::context;
#ifdef IF_CALLCC
typedef bc::continuation F;
#else
typedef bc::fiber F;
#endif

#define NOINLINE __attribute__((noinline))

//------------------------------------------------------------------ behaviours
enum Cmd { INIT, NEW, NEWFAIL, CALLCC, RESUME, RESUMEWITH, RETURN, CALL, TRY, POP, ARM, THROW,
           DESTROY, MOVE, SWAP, SETFP, EXIT, START, RESUMEFAIL, QUIT };
enum Ev { ENTER = 1, ONTOP, DTOR, UNW, CATCH, TERMINATE };
static const char * const evname[] = { "?", "Enter", "OnTop", "Dtor", "Unw", "Catch", "Terminate" };
static const char * const cmdname[] = { "start", "New", "NewFail", "CallCC", "Resume", "ResumeWith", "Return",
           "Call", "Try", "Pop", "Arm", "Throw", "Destroy", "Move", "Swap", "SetFP", "Exit", "Start", "ResumeFail", "Quit" };

enum { MAXT = 3, MAXC = 14, MAXS = 8, MAXD = 40, MAXEV = 512 };
enum Class { C_CONTROL, C_THREAD, C_HANDLE, C_EVENT, C_FP, C_REL, C_FN, C_CANARY, C_STACK, C_PREALLOC,
             C_ONTOP, C_EXC, C_TERM, C_VALUE, C_REGS, C_CREATE, C_SANITIZER, C_CRASH, C_HANG, C_GUARD, C_LEAK, C_RFAIL, C_WINAPI, C_SHSTK, NCLASS };
static const char * const clsname[] = { "control", "thread", "handle", "event", "fp", "release", "callable",
             "canary", "stack", "prealloc", "ontop", "exception", "terminate", "value", "registers", "create",
             "sanitizer", "crash", "hang", "guard", "leak", "resumefail", "winapi", "shadowstack" };

// PARALLEL: several behaviours, each by a thread of its own, at the same time
#if defined(PARALLEL)
# define TLV __thread
# define TLO thread_local
enum { GROUP = 4 };
#else
# define TLV
# define TLO
enum { GROUP = 1 };
#endif
struct Event { int what, ctx, depth, arg; };
struct StepRec {
    int cmd, t, c, l, m, term;
    std::vector< Event > ev;
    int cur[MAXT + 1], depth[MAXT + 1], accv[MAXT + 1], fp[MAXT + 1];
    int slot[MAXS + 1], rel[MAXC + 1], ot[MAXC + 1];
};
struct PathRec { long id; std::vector< StepRec > steps; };
static int NT, NC, NS;
static std::vector< PathRec > paths;
static uint64_t g_seed;

static uint64_t mix( uint64_t x) {
    x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}

//------------------------------------------------------------------ state of one run (child)
struct Status {
    volatile int state;     // 0 running, 1 as predicted, 2 deviation
    volatile int pos;
    volatile int cls;
    volatile long id;       // of the behaviour, if several are executed
    char msg[400];
};
static Status * status;
static TLV PathRec * path;
static TLV volatile int pos;            // next step; steps[pos-1] is being executed
static TLV Event evlog[MAXEV];
static TLV volatile int nev;
static TLV int fpv[MAXC + 1];
static volatile int turn;           // thread that may execute
static pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cnd[MAXT + 1];
static pthread_t threads[MAXT + 1];
static bool joinable[MAXT + 1], created[MAXT + 1];
static void * thread_main( void * p);
static void thread_start( int t) {
    created[t] = joinable[t] = true;
    if ( pthread_create( & threads[t], 0, & thread_main, (void*)(intptr_t)t) ) abort();
}
// the turn passes to thread t; with the lock held
static void pass_turn( int t) {
    turn = t;
    if ( !created[t]) thread_start( t);
    pthread_cond_signal( & cnd[t]);
}
// threads that have ended are waited for: what they do at their end happens now
static int ended;
static __thread int tls_thread;
NOINLINE int this_thread() { asm volatile( "" ::: "memory"); return tls_thread; }
static void thread_gone( int t);
static void join_ended() {
    if ( ended && joinable[ended]) { pthread_join( threads[ended], 0); joinable[ended] = false; thread_gone( ended); }
    ended = 0;
}

static uint64_t rnd_at( int salt) { return mix( (uint64_t)g_seed * 1000003u + (uint64_t)path->id * 8191u + (uint64_t)pos * 131u + (uint64_t)salt); }

#if defined(PARALLEL)
static int running_, claimed_;
#endif
__attribute__((noreturn)) NOINLINE void finish( int state, int cls, const char * fmt, ...) {
    va_list ap; va_start( ap, fmt);
#if defined(PARALLEL)
    if ( state == 1) {
        __sync_fetch_and_add( & status->pos, pos);
        if ( __sync_sub_and_fetch( & running_, 1) || __sync_lock_test_and_set( & claimed_, 1)) for (;;) pause();
        status->state = 1;
        _exit( 0);
    }
    if ( __sync_lock_test_and_set( & claimed_, 1)) for (;;) pause();
    status->id = path->id;
#endif
    vsnprintf( status->msg, sizeof status->msg, fmt, ap);
    va_end( ap);
    status->cls = cls; status->pos = pos;
#if defined(BOOST_USE_WINFIB)
    if ( state == 1 && getenv( "REPLAY_CALLS") && nwinlog) {       // the calls, for spec/WinFiber.tla
        static char name[400], line[80];
        snprintf( name, sizeof name, "%s/%ld", getenv( "REPLAY_CALLS"), path->id);
        const int fd = open( name, O_CREAT | O_WRONLY | O_TRUNC, 0644);
        for ( int k = 0; fd >= 0 && k < nwinlog; ++k)
            (void)!write( fd, line, snprintf( line, sizeof line, "%d %d %d %d\n", winlog[k].call, winlog[k].thread, winlog[k].fiber, winlog[k].ok) );
        if ( fd >= 0) close( fd);
    }
#endif
#if defined(SANAPI)
    if ( state == 1 && getenv( "REPLAY_CALLS") && nsanlog) {        // the calls, for spec/SanFiber.tla
        static char name[400], line[80];
        snprintf( name, sizeof name, "%s/%ld", getenv( "REPLAY_CALLS"), path->id);
        const int fd = open( name, O_CREAT | O_WRONLY | O_TRUNC, 0644);
        for ( int k = 0; fd >= 0 && k < nsanlog; ++k)
            (void)!write( fd, line, snprintf( line, sizeof line, "%d %d %d %d\n", sanlog[k].call, sanlog[k].thread, sanlog[k].a, sanlog[k].b) );
        if ( fd >= 0) close( fd);
    }
#endif
    __sync_synchronize();
    status->state = state;
    _exit( state == 1 ? 0 : 3);
}
#define FAIL( cls, ...) finish( 2, cls, __VA_ARGS__)

//------------------------------------------------------------------ what the library keeps per thread
#if defined(BOOST_USE_WINFIB)
static int win_number[MAXT + 1];
#endif
static bool uses_late[MAXT + 1];        // an object destroyed after what the library keeps uses contexts
#if ( defined(BOOST_USE_UCONTEXT) || defined(BOOST_USE_WINFIB) ) && !defined(SANITIZED) && !defined(PARALLEL)
// found if the library has no such class (any more)
struct activation_record { char none[1 << 20]; };
struct fiber_activation_record { char none[1 << 20]; };
namespace boost { namespace context { namespace detail { namespace found_here {
# if defined(IF_CALLCC)
typedef activation_record InitialRec;
# else
typedef fiber_activation_record InitialRec;
# endif
}}}}
typedef bc::detail::found_here::InitialRec InitialRec;
static struct { void * p; int t; } initial_rec[16];
static pthread_mutex_t imtx = PTHREAD_MUTEX_INITIALIZER;
void * operator new( std::size_t n) {
    void * p = malloc( n ? n : 1);
    if ( !p) throw std::bad_alloc();
    if ( n == sizeof( InitialRec) && tls_thread) {
        pthread_mutex_lock( & imtx);
        for ( auto & x : initial_rec) if ( !x.p) { x.p = p; x.t = tls_thread; break; }
        pthread_mutex_unlock( & imtx);
    }
    return p;
}
static void deleted( void * p) {
    if ( p) for ( auto & x : initial_rec) if ( x.p == p) x.p = nullptr;
    free( p);
}
void operator delete( void * p) noexcept { deleted( p); }
void operator delete( void * p, std::size_t) noexcept { deleted( p); }
static void thread_gone( int t) {
#if defined(BOOST_USE_WINFIB)
    if ( !uses_late[t]) win_thread_end( win_number[t]);
#endif
    for ( auto & x : initial_rec) if ( x.p && x.t == t) {
        if ( !uses_late[t]) FAIL( C_REL, "what the library kept for thread %d is left behind after its end", t);
        x.p = nullptr;
    }
}
#else
static void thread_gone( int) {}
#endif

//------------------------------------------------------------------ floating point environment
static const unsigned MXCSR_CTL = 0xffc0, X87_CTL = 0x0f3f;
static void fp_env( int v, unsigned & mx, unsigned & cw) {
    static const unsigned mxs[] = { 0x1f80, 0x3f80, 0xdfc0, 0x7f80, 0x9f80 };
    static const unsigned cws[] = { 0x037f, 0x077f, 0x0e7f, 0x0b7f, 0x027f };
    mx = mxs[v % 5]; cw = cws[v % 5];
}
#if defined(CHECK_GUARD)
// the stack guard is part of the environment of a context: built without stack protector,
// the program may change it at will
static uint64_t guard0;
static uint64_t guard_now() { uint64_t g; asm volatile( "movq %%fs:0x28, %0" : "=r"(g)); return g; }
static uint64_t guard_env( int v) { return guard0 ^ ( 0x9e3779b97f4a7c00ull * (uint64_t)v); }
#endif
static NOINLINE void fp_set( int v) {
    unsigned mx, cw; fp_env( v, mx, cw);
    uint16_t c = (uint16_t)cw;
    asm volatile( "ldmxcsr %0\n\tfldcw %1" : : "m"(mx), "m"(c));
#if defined(CHECK_GUARD)
    uint64_t g = guard_env( v);
    asm volatile( "movq %0, %%fs:0x28" : : "r"(g));
#endif
}
static NOINLINE void fp_check( int ctx, const char * where) {
    unsigned mx; uint16_t cw; unsigned emx, ecw;
    asm volatile( "stmxcsr %0\n\tfnstcw %1" : "=m"(mx), "=m"(cw));
    fp_env( fpv[ctx], emx, ecw);
    if ( ( mx & MXCSR_CTL) != ( emx & MXCSR_CTL) || ( cw & X87_CTL) != ( ecw & X87_CTL) )
        FAIL( C_FP, "%s: context %d runs with MXCSR %04x x87 %04x, its own environment is %04x %04x",
              where, ctx, mx & MXCSR_CTL, cw & X87_CTL, emx & MXCSR_CTL, ecw & X87_CTL);
#if defined(CHECK_GUARD)
    if ( guard_now() != guard_env( fpv[ctx]) )
        FAIL( C_GUARD, "%s: context %d runs with stack guard %016lx, its own is %016lx", where, ctx,
              (unsigned long)guard_now(), (unsigned long)guard_env( fpv[ctx]) );
#endif
}

//------------------------------------------------------------------ stacks
enum AKind { A_GUARD, A_FIXED, A_PROT, A_POOL, A_SEG, A_NKIND };
struct Stack {
    bool known;                 // allocated through TAlloc
    int kind;
    bc::stack_context sctx;     // as handed out
    char * lo, * hi;            // where frames of the context may lie
    char * map; size_t maplen;
    char * res; size_t nres;    // reserved area above (preallocated)
    int allocs, frees, insts, held;
    int fn_live;                // callables (not moved from) in the hands of the library
    int fn_inst;                // objects of it, moved-from ones included
    bool counted;               // the callable is one that counts itself
    bool heap;                  // the callable owns its state on the heap
    bool temps;                 // the creator may still hold temporaries of its own
};
static TLV int ot_inst[MAXC + 1];   // functions that run on top, in the hands of the library
static TLO Stack stk[MAXC + 2];     // index 0: creations that fail
static TLV bool fail_alloc, fail_getcontext;

static bool inside( const Stack & s, const void * p) {
    return OWN_STACK && s.known && s.kind != A_SEG && (char*)p >= s.lo && (char*)p < s.hi;
}
static void check_reserved( int c, const char * where) {
    Stack & s = stk[c];
    for ( size_t i = 0; i < s.nres; ++i)
        if ( (unsigned char)s.res[i] != (unsigned char)( 0xA5 ^ i ^ c) )
            FAIL( C_PREALLOC, "%s: byte %zu of %zu of the area reserved above the stack of context %d changed",
                  where, i, s.nres, c);
}

struct TAlloc {
    int owner, kind;
    size_t size; unsigned off;
    bool moved;
    bc::pooled_fixedsize_stack * pool;

    TAlloc( int o, int k, size_t sz, unsigned of) : owner( o), kind( k), size( sz), off( of), moved( false),
        pool( k == A_POOL ? new bc::pooled_fixedsize_stack( sz, 2) : nullptr) { ++stk[owner].insts; }
    TAlloc( TAlloc const& x) : owner( x.owner), kind( x.kind), size( x.size), off( x.off), moved( x.moved),
        pool( x.pool ? new bc::pooled_fixedsize_stack( *x.pool) : nullptr) { if ( !moved) ++stk[owner].insts; }
    TAlloc( TAlloc && x) noexcept : owner( x.owner), kind( x.kind), size( x.size), off( x.off), moved( x.moved),
        pool( x.pool) { x.pool = nullptr; x.moved = true; }
    TAlloc & operator=( TAlloc const&) = delete;
    ~TAlloc() { delete pool; if ( !moved) --stk[owner].insts; }

    bc::stack_context allocate() {
        if ( moved) FAIL( C_REL, "stack of context %d allocated through a moved-from allocator", owner);
        if ( fail_alloc) throw std::bad_alloc();
        Stack & s = stk[owner];
        bc::stack_context c;
        switch ( kind) {
        case A_GUARD: {
            size_t pg = 4096, body = ( size + pg - 1) / pg * pg;
            s.maplen = body + 2 * pg;
            s.map = (char*)mmap( 0, s.maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if ( s.map == MAP_FAILED || mprotect( s.map + pg, body, PROT_READ | PROT_WRITE) ) abort();
            c.sp = s.map + pg + body - off;
            c.size = body - off;
            break; }
        case A_FIXED: { bc::fixedsize_stack a( size); c = a.allocate(); break; }
        case A_PROT:  { bc::protected_fixedsize_stack a( size); c = a.allocate(); break; }
        case A_POOL:  c = pool->allocate(); break;
#if defined(BOOST_USE_SEGMENTED_STACKS)
        case A_SEG:   { bc::segmented_stack a( size); c = a.allocate(); break; }
#endif
        default: abort();
        }
        s.known = true; s.kind = kind; s.sctx = c;
        s.hi = (char*)c.sp; s.lo = (char*)c.sp - c.size;
        if ( s.allocs++) FAIL( C_REL, "stack of context %d allocated twice", owner);
#if defined(SANAPI)
        san_alloc( owner ? owner : SAN_FAILED, s.lo, s.hi);
#endif
        return c;
    }
    void deallocate( bc::stack_context & c) noexcept {
        Stack & s = stk[owner];
        if ( moved) FAIL( owner ? C_REL : C_CREATE, "stack of context %d released through a moved-from allocator", owner);
        if ( s.frees++) FAIL( C_REL, "stack of context %d released twice", owner);
        if ( !s.allocs) FAIL( C_REL, "stack of context %d released but never allocated", owner);
        if ( c.sp != s.sctx.sp || c.size != s.sctx.size)
            FAIL( C_REL, "stack of context %d released with descriptor sp=%p size=%zu, allocated sp=%p size=%zu",
                  owner, c.sp, c.size, s.sctx.sp, s.sctx.size);
#if defined(SANAPI)
        san_release( owner ? owner : SAN_FAILED);
#endif
        if ( s.fn_live) FAIL( C_FN, "stack of context %d released before its callable was destroyed", owner);
        if ( inside( s, __builtin_frame_address( 0)) ) FAIL( C_REL, "stack of context %d released while running on it", owner);
        check_reserved( owner, "release");
        s.nres = 0;
        switch ( kind) {
        case A_GUARD:
            if ( mprotect( s.map, s.maplen, PROT_NONE) ) abort();
            break;
        case A_FIXED: { bc::fixedsize_stack a( size); a.deallocate( c); break; }
        case A_PROT:  { bc::protected_fixedsize_stack a( size); a.deallocate( c); break; }
        case A_POOL:  pool->deallocate( c); break;
#if defined(BOOST_USE_SEGMENTED_STACKS)
        case A_SEG:   { bc::segmented_stack a( size); a.deallocate( c); break; }
#endif
        }
    }
};

//------------------------------------------------------------------ frames
enum Kind { K_BASE, K_CALL, K_TRY, K_ONTOP, K_DTOR };
struct Guard;
static TLV int depth_of[MAXC + 1];
static TLV Guard * guards[MAXC + 1][MAXD + 2];

static void log_event( int what, int ctx, int depth, int arg) {
    if ( nev < MAXEV) { Event e = { what, ctx, depth, arg }; evlog[nev] = e; nev = nev + 1; }
    fp_check( ctx, evname[what]);
}
static void dtor_frame( int ctx);

static const uint64_t CAN = 0x5bd1e995c0ffee00ull;

// the guard object of a frame: lives below the handle variable, above everything else
struct Guard {
    int ctx, depth;
    bool armed;
    volatile uint64_t canary[6];
    explicit Guard( int c) : ctx( c), depth( ++depth_of[c]), armed( false) {
        if ( depth > MAXD) FAIL( C_CONTROL, "stack of context %d grows without bound", c);
        guards[ctx][depth] = this;
        for ( int i = 0; i < 6; ++i) canary[i] = CAN ^ (uint64_t)( ctx * 1000 + depth * 10 + i);
    }
    void check( const char * where) const {
        for ( int i = 0; i < 6; ++i)
            if ( canary[i] != ( CAN ^ (uint64_t)( ctx * 1000 + depth * 10 + i) ) )
                FAIL( C_CANARY, "%s: locals of frame %d of context %d changed", where, depth, ctx);
    }
    ~Guard() {
        check( "destructor");
        if ( depth_of[ctx] != depth || guards[ctx][depth] != this)
            FAIL( C_EVENT, "object of frame %d of context %d destroyed while frame %d is innermost", depth, ctx, depth_of[ctx]);
        log_event( DTOR, ctx, depth, 0);
        if ( armed) dtor_frame( ctx);
        for ( int i = 0; i < 6; ++i) canary[i] = 0;
        guards[ctx][depth] = nullptr;
        --depth_of[ctx];
    }
    Guard( Guard const&) = delete;
};

struct Frame {
    int ctx, depth;
    Kind kind;
    Guard * g;
    bool (*ot_intact)( const void *); const void * ot;      // the function on top executed here
    F acc;
    Frame( Guard & gd, Kind k) : ctx( gd.ctx), depth( gd.depth), kind( k), g( & gd), ot_intact( nullptr), ot( nullptr), acc() {}
};

// what must have happened when the process has ended
static struct AtEnd { ~AtEnd(); } at_end;
static TLO F slots[MAXS + 1];      // (destroyed before)

struct E : std::exception {
    int eid; bool with; F h; uint64_t magic;
    E( int i, bool w, F && f) : eid( i), with( w), h( std::move( f) ), magic( CAN ^ (uint64_t)i) {}
    E( E && o) : eid( o.eid), with( o.with), h( std::move( o.h) ), magic( o.magic) {}
};

//------------------------------------------------------------------ comparison with the prediction
static std::string evstr( const Event & e) {
    char b[80]; snprintf( b, sizeof b, "%s(context %d, frame %d%s%s)", evname[e.what], e.ctx, e.depth,
                          e.what == CATCH ? ", exception " : "", e.what == CATCH ? std::to_string( e.arg).c_str() : "");
    return b;
}

// what the type of a handle allows: a single owner, that gives the context up when it resumes it
template< typename T > static auto lvalue_resumes( int) -> decltype( std::declval< T & >().resume(), true) { return true; }
template< typename T > static bool lvalue_resumes( long) { return false; }
struct Nop { F operator()( F && f) { return std::move( f); } };
template< typename T > static auto lvalue_resumes_with( int) -> decltype( std::declval< T & >().resume_with( Nop() ), true) { return true; }
template< typename T > static bool lvalue_resumes_with( long) { return false; }
static NOINLINE void check_type() {
    if ( std::is_copy_constructible< F >::value || std::is_copy_assignable< F >::value ||
         std::is_constructible< F, F & >::value || std::is_constructible< F, const F >::value || std::is_assignable< F &, F & >::value)
        FAIL( C_VALUE, "a handle can be copied");
    if ( !std::is_nothrow_move_constructible< F >::value || !std::is_nothrow_move_assignable< F >::value ||
         !std::is_nothrow_default_constructible< F >::value || !std::is_nothrow_destructible< F >::value)
        FAIL( C_VALUE, "moving or destroying a handle may throw");
#if !defined(IF_CALLCC)     // (continuation can be resumed as lvalue: it is emptied)
    if ( lvalue_resumes< F >( 0) || lvalue_resumes_with< F >( 0) ) FAIL( C_VALUE, "a context can be resumed through a handle that keeps it");
#endif
    if ( std::is_convertible< F, bool >::value || std::is_convertible< F, int >::value) FAIL( C_VALUE, "a handle converts to bool implicitly");
    using std::swap; F a, b;
    if ( !noexcept( swap( a, b) ) || !noexcept( a.swap( b) ) ) FAIL( C_VALUE, "swapping handles may throw");
}
static NOINLINE void compare_handles( const F * h[], int n) {
    // ordering and printing of handles: empty ones equivalent, valid ones distinct
    for ( int i = 0; i < n; ++i) {
        if ( *h[i] < *h[i]) FAIL( C_VALUE, "a handle is less than itself");
        for ( int j = 0; j < i; ++j) {
            bool a = *h[i] < *h[j], b = *h[j] < *h[i];
            bool vi = static_cast< bool >( *h[i]), vj = static_cast< bool >( *h[j]);
            if ( vi && vj && a == b) FAIL( C_VALUE, "two valid handles compare %s", a ? "less both ways" : "equivalent");
            if ( a && b) FAIL( C_VALUE, "two handles compare less both ways");
            for ( int k = 0; a && k < n; ++k)
                if ( *h[j] < *h[k] && !( *h[i] < *h[k]) ) FAIL( C_VALUE, "the order of handles is not transitive");
        }
    }
    if ( rnd_at( 77) % 8 == 0) {
        std::vector< std::string > v;
        for ( int i = 0; i < n; ++i) if ( *h[i]) {
            std::ostringstream o; o << *h[i];
            if ( o.str() == "{not-a-context}" || o.str().empty() ) FAIL( C_VALUE, "a valid handle prints as %s", o.str().c_str() );
            for ( size_t k = 0; k < v.size(); ++k) if ( v[k] == o.str() ) FAIL( C_VALUE, "two valid handles print alike");
            v.push_back( o.str() );
            std::wostringstream w; w << *h[i];
            if ( w.str() == L"{not-a-context}" || w.str().empty() ) FAIL( C_VALUE, "a valid handle does not print to a wide stream");
        }
        check_type();
        F empty; std::ostringstream o; o << empty;
        if ( o.str() != "{not-a-context}") FAIL( C_VALUE, "an empty handle prints as %s", o.str().c_str() );
        for ( int i = 0; i < n; ++i) if ( *h[i] && ( *h[i] < empty) == ( empty < *h[i]) )
            FAIL( C_VALUE, "a valid handle is equivalent to an empty one");
    }
}

// events since the previous command
static NOINLINE void check_events( const StepRec & r, int ctx, int depth) {
    int n = (int)r.ev.size();
    for ( int i = 0; i < n || i < nev; ++i) {
        if ( i >= nev) {
            FAIL( r.ev[i].what == ONTOP ? C_ONTOP : r.ev[i].what == CATCH ? C_EXC : C_EVENT,
                  "expected %s did not happen; frame %d of context %d continues", evstr( r.ev[i]).c_str(), depth, ctx);
        }
        if ( i >= n) FAIL( evlog[i].what == ONTOP ? C_ONTOP : evlog[i].what == CATCH ? C_EXC : C_EVENT,
                  "unexpected %s", evstr( evlog[i]).c_str() );
        if ( evlog[i].what != r.ev[i].what || evlog[i].ctx != r.ev[i].ctx || evlog[i].depth != r.ev[i].depth ||
             ( evlog[i].what == CATCH && evlog[i].arg != r.ev[i].arg) )
            FAIL( evlog[i].what == ONTOP || r.ev[i].what == ONTOP ? C_ONTOP :
                  evlog[i].what == CATCH || r.ev[i].what == CATCH ? C_EXC : C_EVENT,
                  "%s happened where %s was expected", evstr( evlog[i]).c_str(), evstr( r.ev[i]).c_str() );
    }
    nev = 0;
}
static void check_stacks( const StepRec & r);
#if defined(BOOST_USE_WINFIB) || defined(SHSTK)
static void check_fibers( const StepRec & r);
#endif
static NOINLINE void check_observation( Frame & fr) {
    const StepRec & r = path->steps[pos - 1];
#if defined(SANAPI)
    san_run( __builtin_frame_address( 0) );
#endif
    check_events( r, fr.ctx, fr.depth);
    if ( r.term == 2) FAIL( C_TERM, "frame %d of context %d continues after exit()", fr.depth, fr.ctx);
    if ( r.term) FAIL( C_TERM, "std::terminate was expected; frame %d of context %d continues", fr.depth, fr.ctx);
    const int t = r.t;
    if ( this_thread() != t) FAIL( C_THREAD, "context %d continues on thread %d instead of %d", fr.ctx, this_thread(), t);
    if ( fr.ctx != r.cur[t] || fr.depth != r.depth[t])
        FAIL( C_CONTROL, "frame %d of context %d continues, expected frame %d of context %d",
              fr.depth, fr.ctx, r.depth[t], r.cur[t]);
    if ( depth_of[fr.ctx] != fr.depth || guards[fr.ctx][fr.depth] != fr.g)
        FAIL( C_CONTROL, "context %d continues in frame %d but its innermost frame is %d", fr.ctx, fr.depth, depth_of[fr.ctx]);
    // it runs on its own stack
    for ( int c = NT + 1; c <= NC; ++c) {
        Stack & s = stk[c];
        if ( !s.known) continue;
        bool in = inside( s, __builtin_frame_address( 0));
        if ( in && c != fr.ctx && ( !s.frees || s.kind == A_GUARD) ) FAIL( C_STACK, "context %d runs on the stack of context %d", fr.ctx, c);
        if ( !in && c == fr.ctx && s.kind != A_SEG && OWN_STACK) FAIL( C_STACK, "context %d runs outside its stack", fr.ctx);
    }
    for ( int d = 1; d <= fr.depth; ++d) if ( guards[fr.ctx][d]) guards[fr.ctx][d]->check( cmdname[r.cmd]);
    fp_check( fr.ctx, cmdname[r.cmd]);
    // handles
    const F * h[MAXS + 2]; int nh = 0;
    h[nh++] = & fr.acc;
    for ( int i = 1; i <= NS; ++i) h[nh++] = & slots[i];
    for ( int i = 0; i < nh; ++i) {
        bool v = static_cast< bool >( *h[i]), nv = ! *h[i];
        int want = i == 0 ? r.accv[t] : r.slot[i];
        if ( nv != (want == 0) && v == (want != 0) ) FAIL( C_HANDLE, "operator! says %d for a handle that is %s", (int)nv, v ? "valid" : "empty");
        if ( v != (want != 0) ) {
            if ( i == 0) FAIL( C_HANDLE, "handle in frame %d of context %d is %s", fr.depth, fr.ctx, v ? "valid" : "empty");
            else FAIL( C_HANDLE, "handle in slot %d is %s", i, v ? "valid" : "empty");
        }
    }
    compare_handles( h, nh);
    check_stacks( r);
#if defined(BOOST_USE_WINFIB) || defined(SHSTK)
    check_fibers( r);
#endif
    if ( fr.ot && !fr.ot_intact( fr.ot) ) FAIL( C_ONTOP, "function on top of context %d (frame %d) lost its state", fr.ctx, fr.depth);
    for ( int c = 1; c <= NC; ++c)
        if ( ot_inst[c] < 0 || ( !r.ot[c] && ot_inst[c]) )
            FAIL( C_ONTOP, "%d copies of functions that ran on top of context %d left", ot_inst[c], c);
}
AtEnd::~AtEnd() {
    if ( !path) return;
    if ( pos == 0 || path->steps[pos - 1].cmd != QUIT) FAIL( C_TERM, "exit() called");
    const StepRec & r = path->steps[pos - 1];
    check_events( r, r.c, 0);
    check_stacks( r);
    finish( 1, 0, "");
}
// stacks and callables
static NOINLINE void check_stacks( const StepRec & r) {
    for ( int c = NT + 1; c <= NC; ++c) {
        Stack & s = stk[c];
        if ( r.rel[c] == 0) {
            if ( s.known && s.frees) FAIL( C_REL, "stack of context %d released too early", c);
            if ( s.counted && s.fn_live != 1)
                FAIL( C_FN, "%d callables of context %d though it has not ended", s.fn_live, c);
            check_reserved( c, cmdname[r.cmd]);
        } else {
            if ( s.fn_live < 0 || s.fn_live > 1) FAIL( C_FN, "%d callables of context %d after it ended", s.fn_live, c);
            if ( r.rel[c] == 2) {
                if ( s.fn_live || ( s.fn_inst && !s.temps) )
                    FAIL( C_FN, "callable of context %d not destroyed though the context ended", c);
                if ( s.known && s.frees != 1) FAIL( C_REL, "stack of context %d not released though the context ended", c);
                if ( s.insts != s.held) FAIL( C_REL, "%d copies of the allocator of context %d left behind", s.insts - s.held, c);
            }
        }
    }
}

#if defined(BOOST_USE_WINFIB) || defined(SHSTK)
// every context has one fiber (Windows), one shadow stack, until its stack is released
static NOINLINE void check_fibers( const StepRec & r) {
    int made = 0, ended = 0, gone = 0;
    for ( int i = 0; i < pos; ++i) if ( path->steps[i].cmd == NEW || path->steps[i].cmd == CALLCC) ++made;
    for ( int c = NT + 1; c <= NC; ++c) { if ( r.rel[c]) ++ended; if ( r.rel[c] == 2) ++gone; }
# if defined(SHSTK)
    if ( shst_live < made - ended || shst_live > made - gone)
        FAIL( C_SHSTK, "%d shadow stacks exist for %d contexts", shst_live, made - gone);
# else
    if ( win_live < made - ended || win_live > made - gone)
        FAIL( C_WINAPI, "%d fibers exist for %d contexts", win_live, made - gone);
# endif
}
#endif

//------------------------------------------------------------------ repetition
// A behaviour that leads back to the state it began in is repeated in the same process:
// it must not need more and more memory.
static const int rounds = getenv( "REPLAY_LOOP") ? atoi( getenv( "REPLAY_LOOP") ) : 0;
static const long slack = getenv( "REPLAY_SLACK") ? atol( getenv( "REPLAY_SLACK") ) : 4096;
static int round_no;
static size_t heap_at[4], vm_at[4];
static void delete_held( int c);
static size_t vm_size() {
    char b[64]; int fd = open( "/proc/self/statm", O_RDONLY);
    if ( fd < 0) return 0;
    ssize_t n = read( fd, b, sizeof b - 1); close( fd);
    if ( n <= 0) return 0;
    b[n] = 0;
    return (size_t)atol( b) * 4096;
}
static NOINLINE void next_round( Frame & fr) {
    if ( NT != 1 || fr.ctx != 1 || fr.depth != 1 || fr.acc || fpv[1]) finish( 1, 0, "");
    for ( int c = 0; c <= NC; ++c) {
        delete_held( c);
        if ( stk[c].known && stk[c].kind == A_GUARD && stk[c].frees) munmap( stk[c].map, stk[c].maplen);
        memset( static_cast< void * >( & stk[c]), 0, sizeof stk[c]);
    }
    ++round_no;
    if ( round_no % rounds == 0) {
        const int k = round_no / rounds - 1;
#if !defined(SANITIZED)
        struct mallinfo2 mi = mallinfo2();
        heap_at[k] = mi.uordblks + mi.hblkhd;
#endif
        vm_at[k] = vm_size();
        if ( k == 3) {
            // growing in each interval, by something in every round
            bool h = true, v = true;
            for ( int i = 1; i <= 3; ++i) {
                if ( heap_at[i] < heap_at[i - 1] + 16 * (size_t)rounds) h = false;
                if ( vm_at[i] < vm_at[i - 1] + (size_t)( slack * rounds) ) v = false;
            }
            if ( h) FAIL( C_LEAK, "heap memory in use grows by %zu bytes in each repetition of the behaviour", ( heap_at[3] - heap_at[0]) / ( 3 * rounds) );
            if ( v) FAIL( C_LEAK, "mapped memory grows by %zu bytes in each repetition of the behaviour", ( vm_at[3] - vm_at[0]) / ( 3 * rounds) );
            finish( 1, 0, "");
        }
    }
    pos = 0; nev = 0;
}

//------------------------------------------------------------------ a crowd
// In some behaviours up to 300 more contexts exist, which the running context uses now and then between two of its
// steps, of both interfaces.  The specification does not speak of them: they must not change what it says, nor lose what is theirs.
#if defined(CROWD)
static std::vector< Member * > * crowd;
static int crowd_made, crowd_chain, crowd_top;
int crowd_gone, crowd_stacks;
void crowd_fail( const char * what) { FAIL( C_CONTROL, "%s", what); }
static NOINLINE void crowd_resume( Member * m, const char * what) {
    const long n = m->n;
    m->resume();
    if ( m->n != n + 1) FAIL( C_CONTROL, "one of %zu more contexts was resumed (%s): it ran %ld times instead of once", crowd->size(), what, m->n - n);
    if ( !m->valid() ) FAIL( C_HANDLE, "one of %zu more contexts was resumed (%s): no handle came back", crowd->size(), what);
}
void crowd_visit( Member *) {
    if ( crowd_chain <= 0) return;
    --crowd_chain;
    crowd_resume( (*crowd)[( ++crowd_top) % crowd->size()], "by another of them");
}
static NOINLINE Member * crowd_new( int id) {
    ++crowd_made;
    Member * m = rnd_at( 63 + id) % 2 ? new MemberOf< F >( id) : crowd_other( id);
    if ( m->n != 1 || !m->valid() ) FAIL( C_CONTROL, "one of many contexts was started: it ran %ld times", m->n);
    return m;
}
static NOINLINE void crowd_delete( Member * m) {
    const int g = crowd_gone, s = crowd_stacks;
    delete m;
    if ( crowd_gone != g + 1) FAIL( C_EVENT, "one of many contexts was destroyed: %d objects of it were", crowd_gone - g);
    if ( crowd_stacks != s - 1) FAIL( C_REL, "one of many contexts was destroyed: %d stacks were released", s - crowd_stacks);
}
static NOINLINE void crowd_step() {
    const uint64_t r = rnd_at( 61);
    if ( !crowd) {
        crowd = new std::vector< Member * >;
        const int n = r % 3 == 0 ? (int)( ( r >> 8) % CROWD_MAX) + 2 : (int)( ( r >> 8) % 20) + 2;
        for ( int i = 0; i < n; ++i) crowd->push_back( crowd_new( i) );
        return;
    }
    const size_t n = crowd->size(), k = ( r >> 16) % n;
    switch ( r % 8) {
    case 0: case 1: crowd_resume( (*crowd)[k], "once"); break;
    case 2: {
        long times = ( r >> 8) % 64 == 0 && CROWD_MAX > 40 ? 66000 : (long)( ( r >> 8) % 300);
        while ( times--) crowd_resume( (*crowd)[k], "again and again");
        break; }
    case 3: for ( size_t i = 0; i < n; ++i) crowd_resume( (*crowd)[i], "each"); break;
    case 4: // one resumes the next
        crowd_chain = (int)n - 1; crowd_top = (int)k;
        crowd_resume( (*crowd)[k], "first of a chain");
        if ( crowd_chain) FAIL( C_CONTROL, "a chain of resumptions ended with %d to go", crowd_chain);
        break;
    case 5: crowd_delete( (*crowd)[k]); (*crowd)[k] = crowd_new( (int)k); break;
    case 6: {
        Member * m = (*crowd)[k];
        const long b = m->n;
        const int on = m->ontop();
        if ( on != 1 || m->n != b + 1) FAIL( C_ONTOP, "function on top of one of many contexts ran %d times, the context %ld times", on, m->n - b);
        break; }
    default: break;
    }
}
static NOINLINE void crowd_end() {
    while ( !crowd->empty() ) {
        const size_t k = rnd_at( 62) % crowd->size();
        crowd_delete( (*crowd)[k]);
        crowd->erase( crowd->begin() + k);
    }
    if ( crowd_gone != crowd_made || crowd_stacks) FAIL( C_REL, "%d of %d more contexts unwound, %d stacks left", crowd_gone, crowd_made, crowd_stacks);
}
static int crowded = -1;
static NOINLINE void use_crowd() {
    if ( crowded < 0) {
        crowded = NT == 1 && !rounds && mix( (uint64_t)path->id + 61) % 8 == 0;
        for ( auto & s : path->steps) if ( s.cmd == QUIT || s.cmd == EXIT) crowded = 0;
    }
    if ( !crowded) return;
    if ( pos < (int)path->steps.size() ) crowd_step();
    else if ( crowd) crowd_end();
}
#endif

static TLV bool started[MAXT + 1];
static StepRec & await( Frame & fr) {
    // (the step before the first one of a thread belongs to another one)
    bool first = !started[this_thread()];
    started[this_thread()] = true;
    if ( pos > 0 && !first) check_observation( fr);
#if defined(CROWD)
    use_crowd();
#endif
    if ( pos == (int)path->steps.size() ) {
        if ( !rounds) finish( 1, 0, "");
        next_round( fr);
    }
    StepRec & next = path->steps[pos];
    if ( NT > 1) {
        pthread_mutex_lock( & mtx);
        if ( next.t != this_thread() ) pass_turn( next.t);
        while ( turn != this_thread() ) pthread_cond_wait( & cnd[this_thread()], & mtx);
        pthread_mutex_unlock( & mtx);
        join_ended();
        fp_check( fr.ctx, "waiting");
        fr.g->check( "waiting");
    }
    StepRec & r = path->steps[pos];
    if ( r.c != fr.ctx) FAIL( C_CONTROL, "context %d continues, expected context %d", fr.ctx, r.c);
    pos = pos + 1;
#if !defined(PARALLEL)
    status->pos = pos;
#endif
    return r;
}

//------------------------------------------------------------------ register probe
// calls fn( arg) with known values in the callee-saved registers; result: mask of those
// that changed
extern "C" unsigned probe_call( void (*fn)( void *), void * arg);
asm( R"(
    .text
    .globl probe_call
    .type probe_call,@function
probe_call:
    .cfi_startproc
    pushq %rbp
    .cfi_adjust_cfa_offset 8
    .cfi_rel_offset %rbp, 0
    pushq %rbx
    .cfi_adjust_cfa_offset 8
    .cfi_rel_offset %rbx, 0
    pushq %r12
    .cfi_adjust_cfa_offset 8
    .cfi_rel_offset %r12, 0
    pushq %r13
    .cfi_adjust_cfa_offset 8
    .cfi_rel_offset %r13, 0
    pushq %r14
    .cfi_adjust_cfa_offset 8
    .cfi_rel_offset %r14, 0
    pushq %r15
    .cfi_adjust_cfa_offset 8
    .cfi_rel_offset %r15, 0
    pushq %rsi
    .cfi_adjust_cfa_offset 8
    movq %rdi, %rax
    movq %rsi, %rdi
    leaq 0x11(%rsp), %rbx
    leaq 0x22(%rsp), %rbp
    leaq 0x33(%rsp), %r12
    leaq 0x44(%rsp), %r13
    leaq 0x55(%rsp), %r14
    leaq 0x66(%rsp), %r15
    call *%rax
    xorl %eax, %eax
    leaq 0x11(%rsp), %rcx
    cmpq %rcx, %rbx
    je 1f
    orl $1, %eax
1:  leaq 0x22(%rsp), %rcx
    cmpq %rcx, %rbp
    je 1f
    orl $2, %eax
1:  leaq 0x33(%rsp), %rcx
    cmpq %rcx, %r12
    je 1f
    orl $4, %eax
1:  leaq 0x44(%rsp), %rcx
    cmpq %rcx, %r13
    je 1f
    orl $8, %eax
1:  leaq 0x55(%rsp), %rcx
    cmpq %rcx, %r14
    je 1f
    orl $16, %eax
1:  leaq 0x66(%rsp), %rcx
    cmpq %rcx, %r15
    je 1f
    orl $32, %eax
1:  addq $8, %rsp
    .cfi_adjust_cfa_offset -8
    popq %r15
    .cfi_adjust_cfa_offset -8
    popq %r14
    .cfi_adjust_cfa_offset -8
    popq %r13
    .cfi_adjust_cfa_offset -8
    popq %r12
    .cfi_adjust_cfa_offset -8
    popq %rbx
    .cfi_adjust_cfa_offset -8
    popq %rbp
    .cfi_adjust_cfa_offset -8
    ret
    .cfi_endproc
    .size probe_call,.-probe_call
)");
template< typename L > struct Thunk { static void run( void * p) { (*static_cast< L * >( p))(); } };
template< typename L > static void probed( L l) {
    unsigned m = probe_call( & Thunk< L >::run, & l);
    if ( m) FAIL( C_REGS, "callee-saved registers changed across the call (mask %#x of rbx rbp r12 r13 r14 r15)", m);
}

//------------------------------------------------------------------ context functions

static F run_base( int ctx, F && f);

// bookkeeping of the stored callable; Payload checks contents and alignment
template< size_t Size, size_t Align >
struct Fn {
    struct alignas( Align) Payload { unsigned char b[Size]; };
    int ctx; bool src; bool moved; int copies;
    Payload pl;
    void fill() { for ( size_t i = 0; i < Size; ++i) pl.b[i] = (unsigned char)( i * 7 + ctx + 1); }
    bool intact() const { for ( size_t i = 0; i < Size; ++i) if ( pl.b[i] != (unsigned char)( i * 7 + ctx + 1) ) return false; return true; }
    explicit Fn( int c) : ctx( c), src( true), moved( false), copies( 0) { fill(); }
    Fn( Fn const& o) : ctx( o.ctx), src( false), moved( o.moved), copies( o.copies + 1), pl( o.pl) {
        ++stk[ctx].fn_inst; if ( !moved) ++stk[ctx].fn_live; }
    Fn( Fn && o) noexcept : ctx( o.ctx), src( false), moved( o.moved), copies( o.copies), pl( o.pl) {
        ++stk[ctx].fn_inst;
        if ( !moved && o.src) ++stk[ctx].fn_live;
        o.moved = true; memset( o.pl.b, 0, Size); }
    Fn & operator=( Fn const&) = delete;
    ~Fn() { if ( !src) { --stk[ctx].fn_inst; if ( !moved) --stk[ctx].fn_live; } }
    // invoked by the library
    F enter( F && f) {
        if ( src || moved || !intact() ) FAIL( C_FN, "callable of context %d entered %s", ctx,
                                     src ? "on the creator's object" : moved ? "after being moved from" : "with changed contents");
        if ( reinterpret_cast< uintptr_t >( this) % alignof( Fn) ) FAIL( C_FN, "callable of context %d misaligned: %p, needs %zu", ctx, (void*)this, alignof( Fn) );
        Stack & s = stk[ctx];
        if ( s.known && s.kind != A_SEG && !s.heap && !( (char*)this >= s.lo && (char*)( this + 1) <= s.hi) )
            FAIL( C_FN, "callable of context %d stored outside its stack", ctx);
        if ( OWN_STACK && s.known && s.kind != A_SEG && ! inside( s, __builtin_frame_address( 0)) ) FAIL( C_STACK, "function of context %d runs outside its stack", ctx);
        if ( reinterpret_cast< uintptr_t >( __builtin_frame_address( 0) ) % 16) FAIL( C_STACK, "stack of context %d misaligned", ctx);
        F r = run_base( ctx, std::move( f) );
        if ( src || moved || !intact() ) FAIL( C_FN, "callable of context %d changed while running", ctx);
        return r;
    }
};
template< size_t Size, size_t Align > struct FnRef : Fn< Size, Align > {       // takes F &&
    explicit FnRef( int c) : Fn< Size, Align >( c) {}
    F operator()( F && f) { return this->enter( std::move( f) ); }
};
template< size_t Size, size_t Align > struct FnVal : Fn< Size, Align > {       // takes F by value
    explicit FnVal( int c) : Fn< Size, Align >( c) {}
    F operator()( F f) { return this->enter( std::move( f) ); }
};
struct FnMoveOnly : Fn< 40, 8 > {
    std::unique_ptr< int > u;
    explicit FnMoveOnly( int c) : Fn< 40, 8 >( c), u( new int( c) ) {}
    FnMoveOnly( FnMoveOnly && o) noexcept : Fn< 40, 8 >( static_cast< Fn< 40, 8 > && >( o) ), u( std::move( o.u) ) {}
    F operator()( F && f) {
        if ( !u || *u != ctx) FAIL( C_FN, "move-only callable of context %d lost its state", ctx);
        return enter( std::move( f) );
    }
};
struct FnOver {     // overloaded call operator: the non-const one is the stored object's
    FnRef< 64, 32 > in;
    explicit FnOver( int c) : in( c) {}
    F operator()( F && f) { return in( std::move( f) ); }
    F operator()( F && f) const { FAIL( C_FN, "callable of context %d invoked as const", in.ctx); return std::move( f); }
};
// a plain function finds out where it is
static F plain_fn( F && f) {
    for ( int c = NT + 1; c <= NC; ++c)
        if ( inside( stk[c], __builtin_frame_address( 0)) && !stk[c].frees && !depth_of[c]) return run_base( c, std::move( f) );
    FAIL( C_STACK, "plain function runs outside the stack of any context that was not entered");
}

static NOINLINE F run_base( int ctx, F && f);

//------------------------------------------------------------------ functions on top
static TLV volatile int ot_ctx;     // target
static F run_ontop( int ctx, F && f, bool (*intact)( const void *) = nullptr, const void * ot = nullptr);
// copying it may fail
struct CopyFailed { int magic; };
static TLV bool fail_copy;
template< size_t Size >
struct OtCore {
    int ctx; bool src, moved; unsigned char b[Size];
    void count( int n) { if ( !src) ot_inst[ctx] += n; }
    explicit OtCore( int c) : ctx( c), src( true), moved( false) { for ( size_t i = 0; i < Size; ++i) b[i] = (unsigned char)( i * 3 + c); }
    OtCore( OtCore const& o) : ctx( o.ctx), src( false), moved( o.moved) {
        if ( fail_copy) throw CopyFailed{ 4711 };
        memcpy( b, o.b, Size); count( 1); }
    OtCore( OtCore && o) noexcept( Size != 77) : ctx( o.ctx), src( false), moved( o.moved) {
        if ( Size == 77 && fail_copy) throw CopyFailed{ 4711 };
        memcpy( b, o.b, Size); o.moved = true; memset( o.b, 0, Size); count( 1); }
    OtCore & operator=( OtCore const&) = delete;
    ~OtCore() { count( -1); memset( b, 0, Size); asm volatile( "" : : "r"( b) : "memory"); }
    bool intact() const { for ( size_t i = 0; i < Size; ++i) if ( b[i] != (unsigned char)( i * 3 + ctx) ) return false; return !moved; }
    static bool is_intact( const void * p) { return static_cast< const OtCore * >( p)->intact(); }
    F enter( F && f) {
        if ( !intact() ) FAIL( C_ONTOP, "function on top of context %d entered with damaged state", ctx);
        Stack & s = stk[ctx];
        if ( OWN_STACK && s.known && s.kind != A_SEG && ! inside( s, __builtin_frame_address( 0)) ) FAIL( C_ONTOP, "function on top of context %d does not run on its stack", ctx);
        F r = run_ontop( ctx, std::move( f), & is_intact, this);
        if ( !intact() ) FAIL( C_ONTOP, "function on top of context %d lost its state while it ran", ctx);
        return r;
    }
};
template< size_t Size > struct OtRef : OtCore< Size > {
    explicit OtRef( int c) : OtCore< Size >( c) {}
    F operator()( F && f) { return this->enter( std::move( f) ); }
};
template< size_t Size > struct OtVal : OtCore< Size > {
    explicit OtVal( int c) : OtCore< Size >( c) {}
    F operator()( F f) { return this->enter( std::move( f) ); }
};
static F plain_ontop( F && f) { return run_ontop( ot_ctx, std::move( f) ); }

//------------------------------------------------------------------ creation
static const int SCRATCH = 0;
static size_t stack_size( uint64_t r) {
    static const size_t s[] = { 131072, 196608, 131072 + 4096, 262144, 160000 };
    return s[r % 5];
}
static TLV TAlloc * held_alloc[MAXC + 1];
static void delete_held( int c) { delete held_alloc[c]; held_alloc[c] = nullptr; }

#ifdef IF_CALLCC
template< typename A, typename Func > static F create( A && a, Func && fn) {
    return bc::callcc( std::allocator_arg, std::forward< A >( a), std::forward< Func >( fn) ); }
template< typename A, typename Func > static F create( bc::preallocated p, A && a, Func && fn) {
    return bc::callcc( std::allocator_arg, p, std::forward< A >( a), std::forward< Func >( fn) ); }
template< typename Func > static F create_default( Func && fn) { return bc::callcc( std::forward< Func >( fn) ); }
#else
template< typename A, typename Func > static F create( A && a, Func && fn) {
    return F( std::allocator_arg, std::forward< A >( a), std::forward< Func >( fn) ); }
template< typename A, typename Func > static F create( bc::preallocated p, A && a, Func && fn) {
    return F( std::allocator_arg, p, std::forward< A >( a), std::forward< Func >( fn) ); }
template< typename Func > static F create_default( Func && fn) { return F( std::forward< Func >( fn) ); }
#endif

struct Plan { int akind; bool lvalue; size_t size; unsigned off; int prealloc; int direct; };

// through the tracking allocator, an lvalue or an rvalue, maybe with a reserved area
template< typename Func > static F create_tracked( int x, const Plan & p, Func && fn) {
    Stack & s = stk[x];
    if ( p.prealloc >= 0) {
        // the caller allocates the stack itself and reserves some bytes at its top
        TAlloc a( x, p.akind, p.size, p.off);
        bc::stack_context sctx = a.allocate();
        s.nres = p.prealloc; s.res = (char*)sctx.sp - p.prealloc; s.hi = s.res;
        for ( size_t i = 0; i < s.nres; ++i) s.res[i] = (char)( 0xA5 ^ i ^ x);
#if defined(SANAPI)
        san_reserve( x, s.res);
#endif
        bc::preallocated pa( s.res, sctx.size - p.prealloc, sctx);
        if ( !p.lvalue) return create( pa, std::move( a), std::forward< Func >( fn) );
        held_alloc[x] = new TAlloc( std::move( a) );
        s.held = 1;
        return create( pa, *held_alloc[x], std::forward< Func >( fn) );
    }
    if ( p.lvalue) {
        held_alloc[x] = new TAlloc( x, p.akind, p.size, p.off);
        s.held = 1;
        return create( *held_alloc[x], std::forward< Func >( fn) );
    }
    return create( TAlloc( x, p.akind, p.size, p.off), std::forward< Func >( fn) );
}
static TLV bc::pooled_fixedsize_stack * shared_pool;
// through an allocator of the library itself
template< typename Func > static F create_direct( int, const Plan & p, Func && fn) {
    switch ( p.direct) {
    case 1: return create_default( std::forward< Func >( fn) );
    case 2: return create( bc::fixedsize_stack( p.size), std::forward< Func >( fn) );
    case 3: { bc::protected_fixedsize_stack a( p.size); return create( a, std::forward< Func >( fn) ); }
    case 4: return create( bc::pooled_fixedsize_stack( p.size), std::forward< Func >( fn) );
    default:
        if ( !shared_pool) shared_pool = new bc::pooled_fixedsize_stack( 131072, 2);
        return create( *shared_pool, std::forward< Func >( fn) );
    }
}
template< typename Func > static void source_kept( Func & fn, int x, const char * what) {
    if ( fn.moved || !fn.intact() ) FAIL( C_FN, "%s: the creator's lvalue callable of context %d was modified", what, x);
}
template< typename Func > static F create_fn( int x, const Plan & p, bool lv) {
    if ( lv) {
        struct Keep { Func fn; int x; explicit Keep( int c) : fn( c), x( c) {} } k( x);
        F r = p.direct ? create_direct( x, p, k.fn) : create_tracked( x, p, k.fn);
        source_kept( k.fn, x, "creation");
        return r;
    }
    Func fn( x);
    F r = p.direct ? create_direct( x, p, std::move( fn) ) : create_tracked( x, p, std::move( fn) );
    return r;
}

static NOINLINE F make_context( int x) {
    const uint64_t r = rnd_at( 1);
    Plan p;
    p.direct = 0; p.prealloc = -1;
    p.lvalue = ( r >> 3) & 1;
    p.size = stack_size( r >> 5);
    p.off = 0;
    const int ak = ( r >> 10) % 10;
    p.akind = ak < 6 ? A_GUARD : ak == 6 ? A_FIXED : ak == 7 ? A_PROT : ak == 8 ? A_POOL : A_GUARD;
#if defined(BOOST_USE_SEGMENTED_STACKS)
    p.akind = A_SEG;
#endif
    if ( p.akind == A_GUARD && ( ( r >> 16) & 1) ) p.off = ( r >> 20) % 300;
    static const bool always_pre = getenv( "REPLAY_PLAN") && !strcmp( getenv( "REPLAY_PLAN"), "prealloc");
    if ( always_pre && p.akind != A_SEG) p.akind = A_GUARD;
    if ( p.akind == A_GUARD && ( always_pre || ( ( r >> 30) % 4) == 0) ) {
        static const int res[] = { 0, 1, 8, 63, 64, 100, 200, 255, 256, 257, 1000, 4095, 4096, 5000 };
        p.prealloc = res[( r >> 34) % 14];
    }
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(SHSTK)
    // more than 32 bits can tell
    if ( p.akind == A_GUARD && ( r >> 56) % 41 == 3) p.size = ( (size_t)1 << 32) + 4096 + 512 * ( ( r >> 12) % 8);
#endif
    const int fk = ( r >> 40) % 13;
    stk[x].counted = fk != 10 && fk != 11;
    const bool lv = ( r >> 48) & 1;
    if ( ( r >> 50) % 6 == 0 && !always_pre) { p.direct = 1 + ( r >> 54) % 5; if ( p.size > ( (size_t)1 << 31) ) p.size = 131072; }
#if defined(BOOST_USE_SEGMENTED_STACKS)
    if ( p.direct) p.direct = 1;
#endif
#if defined(SANAPI)
    p.direct = 0;           // (all stacks are known)
#endif
    switch ( fk) {
    case 0: case 1: return create_fn< FnRef< 8, 8 > >( x, p, lv);
    case 2: return create_fn< FnVal< 1, 1 > >( x, p, lv);
    case 3: return create_fn< FnRef< 100, 16 > >( x, p, lv);
    case 4: return create_fn< FnRef< 256, 256 > >( x, p, lv);
    case 5: return create_fn< FnVal< 3000, 64 > >( x, p, lv);
    case 6: return create_fn< FnRef< 17, 128 > >( x, p, lv);
    case 7: { FnMoveOnly f( x); return p.direct ? create_direct( x, p, std::move( f) ) : create_tracked( x, p, std::move( f) ); }
    case 8: { FnOver f( x); return p.direct ? create_direct( x, p, std::move( f) ) : create_tracked( x, p, std::move( f) ); }
    case 9: { std::function< F( F &&) > f{ FnRef< 8, 8 >( x) };
              stk[x].heap = true;
              if ( p.direct) return create_direct( x, p, std::move( f) );
              return create_tracked( x, p, std::move( f) ); }
    case 10: { auto f = [x]( F && c) -> F { return run_base( x, std::move( c) ); };
              return p.direct ? create_direct( x, p, std::move( f) ) : create_tracked( x, p, f); }
    case 11: if ( p.direct || p.akind == A_SEG || !OWN_STACK) { auto f = [x]( F && c) -> F { return run_base( x, std::move( c) ); };
                                return create_direct( x, p, std::move( f) ); }
             return lv ? create_tracked( x, p, plain_fn) : create_tracked( x, p, & plain_fn);
    default: { FnRef< 48, 16 > f( x);
#ifdef IF_CALLCC
              stk[x].temps = true;
#endif
              return p.direct ? create_direct( x, p, std::bind( std::move( f), std::placeholders::_1) )
                              : create_tracked( x, p, std::bind( std::move( f), std::placeholders::_1) ); }
    }
}

#if defined(BOOST_USE_WINFIB)
static const int sys_code = 8;      // ERROR_NOT_ENOUGH_MEMORY
static void fail_system( bool b) { win_fail_create = b; }
#else
static const int sys_code = ENOMEM;
# if defined(SHSTK)
static void fail_system( bool b) { shst_fail = b; }
# else
static void fail_system( bool b) { fail_getcontext = b; }
# endif
#endif
// a creation that fails: bad_alloc of the allocator or failing getcontext
static NOINLINE void failing_creation() {
    const uint64_t r = rnd_at( 9);
    Stack & s = stk[SCRATCH];
    if ( s.known && s.kind == A_GUARD && s.frees) munmap( s.map, s.maplen);
    memset( static_cast< void * >( & s), 0, sizeof s);
    Plan p; p.direct = 0; p.prealloc = -1; p.lvalue = r & 1; p.size = 131072; p.off = 0;
    p.akind = ( r >> 1) & 1 ? A_GUARD : A_POOL;
    bool gc = false;
#if defined(BOOST_USE_UCONTEXT) || defined(BOOST_USE_WINFIB) || defined(SHSTK)
    gc = ( r >> 2) & 1;
    if ( gc && ( r >> 3) % 3 == 0) { p.akind = A_GUARD; p.prealloc = 64; }
    if ( gc && ( r >> 5) % 4 == 0) p.direct = 4;
    if ( gc && ( r >> 5) % 4 == 1) p.direct = 3;
#endif
    delete held_alloc[SCRATCH]; held_alloc[SCRATCH] = nullptr; s.insts = 0;
    int caught = 0;
    FnRef< 100, 16 > fn( SCRATCH);
    const bool lv = ( r >> 12) & 1;
    try {
        struct Reset { ~Reset() { fail_alloc = false; fail_system( false); } } reset; (void)reset;
        F x;
        if ( gc) fail_system( true); else fail_alloc = true;
        if ( lv) x = p.direct ? create_direct( SCRATCH, p, fn) : create_tracked( SCRATCH, p, fn);
        else x = p.direct ? create_direct( SCRATCH, p, std::move( fn) ) : create_tracked( SCRATCH, p, std::move( fn) );
    } catch ( std::bad_alloc const&) { caught = 1;
    } catch ( std::system_error const& e) { caught = 2;
        if ( e.code().value() != sys_code) FAIL( C_CREATE, "system_error with code %d instead of %d", e.code().value(), sys_code);
    }
    if ( caught != ( gc ? 2 : 1) ) FAIL( C_CREATE, "failing creation %s", caught ? "threw another exception" : "succeeded");
    if ( s.fn_live) FAIL( C_CREATE, "failing creation left %d callables", s.fn_live);
    if ( s.allocs != s.frees) FAIL( C_CREATE, "failing creation: %d stacks allocated, %d released", s.allocs, s.frees);
    if ( s.insts != s.held) FAIL( C_CREATE, "failing creation left %d allocators", s.insts - s.held);
    if ( ( lv || !gc) && ( fn.moved || !fn.intact() ) ) FAIL( C_CREATE, "failing creation modified the creator's callable");
}

#if defined(BOOST_USE_UCONTEXT)
extern "C" int __real_getcontext( ucontext_t * u);
extern "C" int __wrap_getcontext( ucontext_t * u) {
    if ( fail_getcontext) { errno = ENOMEM; return -1; }
    return __real_getcontext( u);
}
#endif

//------------------------------------------------------------------ interpreter
static void call_frame( int ctx);
static void try_frame( int ctx);
static F & loc( Frame & fr, int l) { return l == 0 ? fr.acc : slots[l]; }

template< typename O > static void do_ontop( Frame & fr, F & h, O o, bool lv) {
    if ( lv) {
        struct Check { O & o; ~Check() {} } ck = { o }; (void)ck;
        probed( [&]() { fr.acc = std::move( h).resume_with( o); });
        if ( !o.intact() ) FAIL( C_ONTOP, "resume_with modified the caller's lvalue function");
    } else {
        probed( [&]() { fr.acc = std::move( h).resume_with( std::move( o) ); });
    }
}

// resume_with a function that cannot be copied
template< typename O > static void failing_ontop( Frame & fr, F & h, O o, bool lv) {
    bool caught = false;
    try {
        struct Reset { ~Reset() { fail_copy = false; } } reset; (void)reset;
        fail_copy = true;
        if ( lv) fr.acc = std::move( h).resume_with( o);
        else fr.acc = std::move( h).resume_with( std::move( o) );
    } catch ( CopyFailed const& e) { caught = e.magic == 4711; }
    if ( !caught) FAIL( C_RFAIL, "resume_with() with a function that cannot be copied returned or threw something else");
}
static void drive( Frame & fr) {
    for (;;) {
        StepRec & r = await( fr);
        F & src = loc( fr, r.l);
        switch ( r.cmd) {
        case NEW: {
            fpv[r.m] = fpv[fr.ctx];
            const int x = r.m;
            probed( [&]() {
                F tmp = make_context( x);
                if ( stk[x].fn_live > 1) FAIL( C_FN, "%d copies of the callable of context %d stored", stk[x].fn_live, x);
                loc( fr, r.l) = std::move( tmp);
                if ( tmp) FAIL( C_HANDLE, "moved-from handle is valid");
            });
            break; }
        case CALLCC: {
            fpv[r.m] = fpv[fr.ctx];
            const int x = r.m;
            probed( [&]() { fr.acc = make_context( x); });
            break; }
        case NEWFAIL: failing_creation(); break;
        case RESUME:
#ifdef IF_CALLCC
            if ( rnd_at( 2) & 1) { probed( [&]() { fr.acc = src.resume(); }); break; }
#endif
            probed( [&]() { fr.acc = std::move( src).resume(); });
            break;
        case RESUMEWITH: {
            const uint64_t q = rnd_at( 3);
            const int y = r.m;
            const bool lv = ( q >> 8) & 1;
            switch ( q % 7) {
            case 0: case 1: do_ontop( fr, src, OtRef< 8 >( y), lv); break;
            case 2: do_ontop( fr, src, OtVal< 1 >( y), lv); break;
            case 3: do_ontop( fr, src, OtRef< 300 >( y), lv); break;
            case 4: { F got;
                      {   std::function< F( F &&) > f{ OtRef< 40 >( y) };
                          if ( lv) { probed( [&]() { got = std::move( src).resume_with( f); });
                                     if ( !f) FAIL( C_ONTOP, "resume_with modified the caller's lvalue function"); }
                          else probed( [&]() { got = std::move( src).resume_with( std::move( f) ); });
                      }
                      fr.acc = std::move( got);
                      break; }
            case 5: ot_ctx = y;
                    probed( [&]() { fr.acc = std::move( src).resume_with( & plain_ontop); });
                    break;
            default: { auto f = [y]( F && c) -> F { return run_ontop( y, std::move( c) ); };
#ifdef IF_CALLCC
                      if ( lv) { probed( [&]() { fr.acc = src.resume_with( f); }); break; }
#endif
                      if ( lv) probed( [&]() { fr.acc = std::move( src).resume_with( f); });
                      else probed( [&]() { fr.acc = std::move( src).resume_with( std::move( f) ); });
                      break; }
            }
            break; }
        case RETURN: return;
        case POP:    return;
        case EXIT:   return;
        case START:  if ( rnd_at( 12) & 1) { join_ended(); thread_start( r.m); } break;   // or when it is its turn
        case CALL:   call_frame( fr.ctx); break;
        case TRY:    try_frame( fr.ctx); break;
        case ARM:    fr.g->armed = true; break;
        case THROW:
            if ( r.m == 1) throw E( 10 * fr.ctx + fr.depth, true, std::move( fr.acc) );
            throw E( 10 * fr.ctx + fr.depth, false, F() );
        case DESTROY:
            switch ( rnd_at( 4) % 4) {
            case 0: probed( [&]() { F tmp = std::move( src); }); break;
            case 1: probed( [&]() { src = F(); }); break;
            case 2: probed( [&]() { F tmp; tmp.swap( src); }); break;
            default: probed( [&]() { std::unique_ptr< F > p( new F( std::move( src) ) ); p.reset(); }); break;
            }
            break;
        case MOVE: {
            F & dst = loc( fr, r.m);
            if ( rnd_at( 5) & 1) { F tmp( std::move( src) ); dst = std::move( tmp);
                                   if ( tmp) FAIL( C_HANDLE, "moved-from handle is valid"); }
            else dst = std::move( src);
            break; }
        case SWAP:
            if ( rnd_at( 6) & 1) { using std::swap; swap( src, loc( fr, r.m) ); }
            else src.swap( loc( fr, r.m) );
            break;
        case RESUMEFAIL: {
            const uint64_t q = rnd_at( 13);
            const int y = r.m;
            probed( [&]() { switch ( q % 3) {
                case 0: failing_ontop( fr, src, OtRef< 8 >( y), true); break;
                case 1: failing_ontop( fr, src, OtVal< 300 >( y), true); break;
                default: failing_ontop( fr, src, OtRef< 77 >( y), ( q >> 8) & 1); break;
            } });
            break; }
        case QUIT: exit( 0);
        case SETFP: fp_set( r.m); fpv[fr.ctx] = r.m; break;
        default: abort();
        }
    }
}

static NOINLINE F run_base( int ctx, F && f) {
    log_event( ENTER, ctx, 1, 0);
    Guard g( ctx);
    if ( g.depth != 1) FAIL( C_CONTROL, "function of context %d entered while it has %d frames", ctx, g.depth - 1);
    Frame fr( g, K_BASE);
    fr.acc = std::move( f);
    drive( fr);
    return std::move( fr.acc);
}
static NOINLINE F run_ontop( int ctx, F && f, bool (*intact)( const void *), const void * ot) {
    log_event( ONTOP, ctx, depth_of[ctx] + 1, 0);
    Guard g( ctx);
    Frame fr( g, K_ONTOP);
    fr.ot_intact = intact; fr.ot = ot;
    fr.acc = std::move( f);
    drive( fr);
    return std::move( fr.acc);
}
static NOINLINE void call_frame( int ctx) {
    Guard g( ctx);
    Frame fr( g, K_CALL);
    drive( fr);
}
static NOINLINE void dtor_frame( int ctx) {
    // std::terminate is expected: C++ leaves open how much of the stack is unwound before
    if ( pos > 0 && path->steps[pos - 1].term == 1) return;
    Guard g( ctx);
    Frame fr( g, K_DTOR);
    drive( fr);
}
static NOINLINE void try_frame( int ctx) {
    const int style = (int)( rnd_at( 11) % 3);
    Guard g( ctx);
    Frame fr( g, K_TRY);
    for (;;) {
        F got; bool with = false; int eid = 0; uint64_t magic = 0;
        // different ways to write the handler
        if ( style == 0) {
            try {
                drive( fr);
                return;
            } catch ( E & e) {
                eid = e.eid; with = e.with; magic = e.magic; got = std::move( e.h);
            } catch ( bc::detail::forced_unwind const&) {
                log_event( UNW, ctx, g.depth, 0);
                throw;
            }
        } else if ( style == 1) {
            try {
                drive( fr);
                return;
            } catch ( std::exception & x) {
                E * e = dynamic_cast< E * >( & x);
                if ( !e) FAIL( C_EXC, "a handler for std::exception in frame %d of context %d caught a foreign exception: %s", g.depth, ctx, x.what() );
                eid = e->eid; with = e->with; magic = e->magic; got = std::move( e->h);
            } catch ( ...) {
                log_event( UNW, ctx, g.depth, 0);
                throw;
            }
        } else {
            std::exception_ptr ep;
            try {
                drive( fr);
                return;
            } catch ( bc::detail::forced_unwind const&) {
                log_event( UNW, ctx, g.depth, 0);
                throw;
            } catch ( ...) {
                ep = std::current_exception();
            }
            try { std::rethrow_exception( ep); }
            catch ( E & e) { eid = e.eid; with = e.with; magic = e.magic; got = std::move( e.h); }
        }
        if ( magic != ( CAN ^ (uint64_t)eid) ) FAIL( C_EXC, "exception object damaged");
        log_event( CATCH, ctx, g.depth, eid);
        if ( with) fr.acc = std::move( got);
    }
}

static void on_terminate() {
    if ( pos > 0 && path->steps[pos - 1].term == 1) finish( 1, 0, "");
    const char * what = "no exception";
    char buf[200];
    if ( std::exception_ptr p = std::current_exception() ) {
        what = "an exception of unknown type";
        try { std::rethrow_exception( p); }
        catch ( bc::detail::forced_unwind const&) { what = "forced_unwind"; }
        catch ( std::exception const& e) { snprintf( buf, sizeof buf, "%s", e.what() ); what = buf; }
        catch ( E const& e) { snprintf( buf, sizeof buf, "program exception %d", e.eid); what = buf; }
        catch ( ...) {}
    }
    FAIL( C_TERM, "std::terminate called (%s)", what);
}

// what a thread does after its last step
static void thread_end( int t) {
    // command Exit
    const StepRec & r = path->steps[pos - 1];
    check_events( r, t, 0);
    check_stacks( r);
    if ( pos == (int)path->steps.size() ) finish( 1, 0, "");
    started[t] = false;
#if defined(SANAPI)
    san_exit();
#endif
    pthread_mutex_lock( & mtx);
    ended = t;
    created[t] = false;
    pass_turn( path->steps[pos].t);
    pthread_mutex_unlock( & mtx);
}
static void thread_first( int t) {
    tls_thread = t;
    fpv[t] = 0;
#if defined(BOOST_USE_WINFIB)
    win_number[t] = win_thread();
    if ( mix( path->id + t) % 3 == 0) win_user_convert();     // the thread might be a fiber already
#endif
    fp_set( 0);
    if ( t != 1) {
        pthread_mutex_lock( & mtx);
        while ( turn != t) pthread_cond_wait( & cnd[t], & mtx);
        pthread_mutex_unlock( & mtx);
        join_ended();
    }
}
// the objects of the initial frame of a thread: with automatic or with thread storage duration
struct ThreadFrame {
    Guard g; Frame fr;
    explicit ThreadFrame( int t) : g( t), fr( g, K_BASE) {}
};
struct Late {
    int t; ThreadFrame * tf;
    Late() : t( 0), tf( nullptr) {}
    ~Late() { if ( t) { delete tf; thread_end( t); } }
};
static thread_local Late late;
static NOINLINE Late & the_late() { return late; }
static void * thread_main( void * p) {
    const int t = (int)(intptr_t)p;
    thread_first( t);
#if defined(SANAPI)
    const int style = (int)( rnd_at( 14) % 2);
#else
    const int style = (int)( rnd_at( 14) % 3);
#endif
    uses_late[t] = false;
    if ( style == 0) {
        { ThreadFrame tf( t); drive( tf.fr); }
        thread_end( t);
        return nullptr;
    }
    // destroyed after / before what the library itself keeps per thread
    if ( style == 2) { F x = create_default( []( F && f) { return std::move( f); }); (void)x; }
    uses_late[t] = style == 1;
    Late & l = the_late();
    l.tf = new ThreadFrame( t);
    drive( l.tf->fr);
    l.t = t;
    return nullptr;
}

#if defined(PARALLEL)
static pthread_barrier_t barrier;
static void * par_main( void * p) {
    path = static_cast< PathRec * >( p);
    pos = 0; nev = 0;
    // all begin at once, or one after the other: what a thread does first happens while others are at work
    pthread_barrier_wait( & barrier);
    for ( volatile unsigned long k = mix( path->id) % 4 * 20000; k; --k) ;
    thread_first( 1);
    ThreadFrame tf( 1);
    drive( tf.fr);
    abort();
}
#endif
static void run_child( PathRec & p) {
#if defined(PARALLEL)
    std::set_terminate( & on_terminate);
    struct rlimit rl = { 0, 0 }; setrlimit( RLIMIT_CORE, & rl);
    const int n = (int)std::min< size_t >( GROUP, & paths.back() - & p + 1);
    running_ = n;
    pthread_barrier_init( & barrier, 0, n);
    for ( int i = 0; i < n; ++i) {
        pthread_t t;
        if ( pthread_create( & t, 0, & par_main, & p + i) ) abort();
    }
    for (;;) pause();
#else

    path = & p;
#if defined(CHECK_GUARD)
    guard0 = guard_now();
#endif
    pos = 0; nev = 0; turn = 1;
    std::set_terminate( & on_terminate);
#if defined(BOOST_USE_WINFIB)
    win_misuse = []( const char * what) { FAIL( C_WINAPI, "%s", what); };
#endif
#if defined(SHSTK)
    shst_misuse = []( const char * what) { FAIL( C_SHSTK, "%s", what); };
#endif
    struct rlimit rl = { 0, 0 }; setrlimit( RLIMIT_CORE, & rl);
    for ( int t = 1; t <= NT; ++t) pthread_cond_init( & cnd[t], 0);
    created[1] = true;
    // the other threads start now, or when it is their turn
    if ( mix( p.id) & 1) for ( int t = 2; t <= NT; ++t) thread_start( t);
    thread_first( 1);
    ThreadFrame tf( 1);
    drive( tf.fr);
    abort();
#endif
}

//------------------------------------------------------------------ driver
static bool load( const char * file) {
    FILE * f = fopen( file, "r");
    if ( !f) return false;
    if ( fscanf( f, "%d %d %d", & NT, & NC, & NS) != 3) return false;
    if ( NT > MAXT || NC > MAXC || NS > MAXS) return false;
    long id; int ns;
    while ( fscanf( f, " P %ld %d", & id, & ns) == 2) {
        paths.push_back( PathRec() );
        PathRec & p = paths.back(); p.id = id; p.steps.resize( ns);
        for ( int i = 0; i < ns; ++i) {
            StepRec & r = p.steps[i]; int ne;
            if ( fscanf( f, "%d %d %d %d %d %d", & r.cmd, & r.t, & r.c, & r.l, & r.m, & ne) != 6) return false;
            r.ev.resize( ne);
            for ( int k = 0; k < ne; ++k)
                if ( fscanf( f, "%d %d %d %d", & r.ev[k].what, & r.ev[k].ctx, & r.ev[k].depth, & r.ev[k].arg) != 4) return false;
            if ( fscanf( f, "%d", & r.term) != 1) return false;
            if ( r.term == 2) for ( int c = 1; c <= NC; ++c) if ( fscanf( f, "%d", & r.rel[c]) != 1) return false;
            if ( r.term) continue;
            for ( int t = 1; t <= NT; ++t) if ( fscanf( f, "%d", & r.cur[t]) != 1) return false;
            for ( int t = 1; t <= NT; ++t) if ( fscanf( f, "%d", & r.depth[t]) != 1) return false;
            for ( int t = 1; t <= NT; ++t) if ( fscanf( f, "%d", & r.accv[t]) != 1) return false;
            for ( int k = 1; k <= NS; ++k) if ( fscanf( f, "%d", & r.slot[k]) != 1) return false;
            for ( int t = 1; t <= NT; ++t) if ( fscanf( f, "%d", & r.fp[t]) != 1) return false;
            for ( int c = 1; c <= NC; ++c) if ( fscanf( f, "%d", & r.rel[c]) != 1) return false;
            for ( int c = 1; c <= NC; ++c) if ( fscanf( f, "%d", & r.ot[c]) != 1) return false;
        }
    }
    fclose( f);
    return true;
}

static void json_str( FILE * o, const char * s) {
    fputc( '"', o);
    for ( ; *s; ++s) { if ( *s == '"' || *s == '\\') fputc( '\\', o); if ( (unsigned char)*s >= 32) fputc( *s, o); }
    fputc( '"', o);
}

int main( int argc, char ** argv) {
    if ( argc < 5) return 2;
    if ( !load( argv[1]) ) { fprintf( stderr, "cannot read %s\n", argv[1]); return 2; }
    int workers = atoi( argv[3]);
    g_seed = strtoull( argv[4], 0, 10);
    long only = argc > 5 ? atol( argv[5]) : -1;
    FILE * out = fopen( argv[2], "w");
    if ( !out) return 2;
    Status * sts = (Status*)mmap( 0, sizeof( Status) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct Shared { volatile long next, done, steps, bad; };
    Shared * sh = (Shared*)mmap( 0, sizeof( Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush( out);
    const double limit = getenv( "REPLAY_TIMEOUT") ? atof( getenv( "REPLAY_TIMEOUT") ) : 20;
    const double budget = getenv( "REPLAY_BUDGET") ? atof( getenv( "REPLAY_BUDGET") ) : 0;
    time_t t0 = time( 0);
    std::vector< pid_t > ws;
    for ( int w = 0; w < workers; ++w) {
        pid_t pid = fork();
        if ( pid) { ws.push_back( pid); continue; }
        prctl( PR_SET_PDEATHSIG, SIGKILL);
        status = & sts[w];
        for (;;) {
            long i = __sync_fetch_and_add( & sh->next, 1) * GROUP;
            if ( i >= (long)paths.size() || sh->bad > 400) break;
            if ( budget > 0 && time( 0) - t0 > budget) break;
            PathRec & p = paths[i];
            bool wanted = only < 0;
            for ( long k = i; k < i + GROUP && k < (long)paths.size(); ++k) if ( paths[k].id == only) wanted = true;
            if ( !wanted) continue;
            memset( status, 0, sizeof *status);
            pid_t c = fork();
            if ( c == 0) {
                prctl( PR_SET_PDEATHSIG, SIGKILL);
                if ( only < 0) { int fd = open( "/dev/null", O_WRONLY); dup2( fd, 2); }
                struct itimerval tv = { { 0, 0 }, { (time_t)limit, 0 } };
                setitimer( ITIMER_REAL, & tv, 0);
                run_child( p);
            }
            int st = 0;
            while ( waitpid( c, & st, 0) < 0 && errno == EINTR) ;
            int cls = -1; char msg[500]; msg[0] = 0;
            if ( WIFSIGNALED( st) ) {
                cls = WTERMSIG( st) == SIGALRM ? C_HANG : C_CRASH;
                snprintf( msg, sizeof msg, "killed by signal %d (%s)", WTERMSIG( st), strsignal( WTERMSIG( st) ) );
            } else if ( status->state == 2) {
                cls = status->cls; snprintf( msg, sizeof msg, "%s", status->msg);
            } else if ( WEXITSTATUS( st) != 0 || status->state != 1) {
                cls = WEXITSTATUS( st) == 66 || WEXITSTATUS( st) == 67 ? C_SANITIZER : C_CRASH;
                snprintf( msg, sizeof msg, "process ended with exit code %d", WEXITSTATUS( st) );
            }
            __sync_fetch_and_add( & sh->done, std::min< long >( GROUP, (long)paths.size() - i));
            __sync_fetch_and_add( & sh->steps, (long)status->pos);
            if ( cls >= 0) {
                __sync_fetch_and_add( & sh->bad, cls == C_HANG ? 40 : 1);        // (each costs the time limit)
                int at = status->pos > 0 ? status->pos - 1 : 0;
                char * buf = 0; size_t len = 0;
                FILE * m = open_memstream( & buf, & len);
                PathRec * q = & p;
                fprintf( m, "{");
                if ( GROUP > 1) {
                    for ( long k = i; k < i + GROUP && k < (long)paths.size(); ++k) {
                        fprintf( m, k == i ? "\"group\":[%ld" : ",%ld", paths[k].id);
                        if ( paths[k].id == status->id) q = & paths[k];
                    }
                    fprintf( m, "],");
                }
                fprintf( m, "\"path\":%ld,\"step\":%d,\"cmd\":\"%s\",\"class\":\"%s\",\"msg\":", q->id, at,
                         at < (int)q->steps.size() ? cmdname[q->steps[at].cmd] : "?", clsname[cls]);
                json_str( m, msg);
                fprintf( m, "}\n");
                fclose( m);
                (void)!write( fileno( out), buf, len);
                free( buf);
            }
        }
        _exit( 0);
    }
    for ( size_t i = 0; i < ws.size(); ++i) { int st; waitpid( ws[i], & st, 0); }
    fseek( out, 0, SEEK_END);
    fprintf( out, "{\"summary\":1,\"paths\":%ld,\"steps\":%ld,\"bad\":%ld}\n", sh->done, sh->steps, sh->bad);
    fclose( out);
    return 0;
}
