// Executes behaviours of spec/StackAlloc.tla with the real stack allocators and contexts.
// Every system memory call made by the library is recorded (-Wl,--wrap) and can be made to fail.
#include "runner.hpp"
#include <new>
#include <utility>
#include <memory>
#include <boost/context/detail/config.hpp>
#include <boost/context/stack_traits.hpp>
#include <boost/context/stack_context.hpp>
#if defined(IF_CALLCC)
# include <boost/context/continuation.hpp>
#else
# include <boost/context/fiber.hpp>
#endif
#if defined(BOOST_USE_SEGMENTED_STACKS)
# include <boost/context/segmented_stack.hpp>
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#if defined(BOOST_USE_WINFIB)
# include <boost/context/windows/protected_fixedsize_stack.hpp>
# include "winapi.hpp"
#else
# include <boost/context/protected_fixedsize_stack.hpp>
#endif
namespace bc = boost::context;
using runner::fail; using runner::rnd; using runner::status;
#define NOINLINE __attribute__((noinline))

enum { MAKEALLOC = 1, COPYALLOC, MOVEALLOC, DROPALLOC, ALLOC, ALLOCFAIL, FREE, NEWCTX, NEWCTX0, NEWCTXFAIL, START, ENDCTX, DESTROYCTX };
static const char * const cmdname[] = { "start", "MakeAlloc", "CopyAlloc", "MoveAlloc", "DropAlloc", "Alloc", "AllocFail", "Free",
    "NewCtx", "NewCtx0", "NewCtxFail", "Start", "EndCtx", "DestroyCtx" };
enum { K_FIXED, K_PROT, K_POOL, K_SEG };
static int kind, NA, NR, NG;
static const int MAXN = 8;

//------------------------------------------------------------------ what the system sees
extern "C" {
void * __real_malloc( size_t); void __real_free( void *); int __real_posix_memalign( void **, size_t, size_t);
void * __real_realloc( void *, size_t); void * __real_aligned_alloc( size_t, size_t);
void * __real_mmap( void *, size_t, int, int, int, off_t); int __real_munmap( void *, size_t);
int __real_mprotect( void *, size_t, int);
}
struct Block { char * p; size_t n; int what, group; };     // what: 1 malloc, 2 mmap, 3 new
static Block blocks[4096]; static int nblocks;
struct Gone { unsigned char * p; size_t n; };
static Gone gone[4096]; static int ngone;                    // freed, kept to see writes
static bool in_lib; static int cur_group;
static int fail_mode, fail_seen, fail_fired;
static bool mem_fails() {
    if ( !in_lib || !fail_mode) return false;
    int k = ++fail_seen;
    bool f = fail_mode == 1 || ( fail_mode == 3 && k > 1) || ( fail_mode == 4 && k == 2);
    if ( f) ++fail_fired;
    return f;
}
static const size_t BIG = (size_t)1 << 30;      // of larger blocks only the ends are looked at
static void note( void * p, size_t n, int what) {
    if ( nblocks == 4096) abort();
    blocks[nblocks++] = Block{ (char*)p, n, what, cur_group };
}
static Block * find( const void * p, size_t n) {
    for ( int i = 0; i < nblocks; ++i)
        if ( (char*)p >= blocks[i].p && (char*)p + n <= blocks[i].p + blocks[i].n) return & blocks[i];
    return nullptr;
}
static void take( void * p, int what, const char * how) {
    for ( int i = 0; i < nblocks; ++i)
        if ( blocks[i].p == p && blocks[i].what != 2) {
            if ( blocks[i].what != what) fail( "release", "memory released with %s that was not obtained that way", how);
            if ( blocks[i].n < BIG) memset( p, 0xdd, blocks[i].n);
            else { memset( p, 0xdd, 256); memset( (char*)p + blocks[i].n - 256, 0xdd, 256); }
            gone[ngone++] = Gone{ (unsigned char*)p, blocks[i].n };
            blocks[i] = blocks[--nblocks];
            return;
        }
    for ( int i = 0; i < ngone; ++i) if ( gone[i].p == p) fail( "release", "%s of memory already released", how);
    if ( in_lib) fail( "release", "%s of something never allocated", how);
    __real_free( p);
}
extern "C" {
void * __wrap_malloc( size_t n) {
    if ( mem_fails() ) { errno = ENOMEM; return nullptr; }
    void * p = __real_malloc( n);
    if ( in_lib && p) { note( p, n, 1); memset( p, 0xcc, n < 1 << 22 ? n : 1 << 22); }
    return p;
}
void __wrap_free( void * p) { if ( p) take( p, 1, "free()"); }
int __wrap_posix_memalign( void ** r, size_t a, size_t n) {
    if ( mem_fails() ) return ENOMEM;
    int e = __real_posix_memalign( r, a, n);
    if ( in_lib && !e) note( *r, n, 1);
    return e;
}
void * __wrap_calloc( size_t m, size_t n) {
    if ( n && m > SIZE_MAX / n) { errno = ENOMEM; return nullptr; }
    void * p = __wrap_malloc( m * n);
    if ( p) memset( p, 0, m * n < 1 << 22 ? m * n : 1 << 22);
    return p;
}
void * __wrap_aligned_alloc( size_t a, size_t n) {
    if ( mem_fails() ) { errno = ENOMEM; return nullptr; }
    void * p = __real_aligned_alloc( a, n);
    if ( in_lib && p) note( p, n, 1);
    return p;
}
void * __wrap_memalign( size_t a, size_t n) { return __wrap_aligned_alloc( a, n); }
void * __wrap_valloc( size_t n) { return __wrap_aligned_alloc( 4096, n); }
void * __wrap_realloc( void * p, size_t n) {
    if ( !in_lib) return __real_realloc( p, n);
    if ( !p) return __wrap_malloc( n);
    size_t have = 0;
    for ( int i = 0; i < nblocks; ++i) if ( blocks[i].p == p) have = blocks[i].n;
    void * q = __wrap_malloc( n);
    if ( q) { memcpy( q, p, have < n ? have : n); __wrap_free( p); }
    return q;
}
void * __wrap_mmap( void * a, size_t n, int prot, int fl, int fd, off_t off) {
    if ( mem_fails() ) { errno = ENOMEM; return MAP_FAILED; }
    if ( in_lib && ( fl & MAP_FIXED) ) {
        size_t whole = ( n + 4095) & ~(size_t)4095;
        if ( !find( a, whole) ) fail( "bounds", "mapping over %zu bytes that are not all the allocator's own", whole);
        return __real_mmap( a, n, prot, fl, fd, off);
    }
    void * p = __real_mmap( a, n, prot, fl, fd, off);
    if ( in_lib && p != MAP_FAILED) note( p, ( n + 4095) & ~(size_t)4095, 2);
    return p;
}
int __wrap_munmap( void * a, size_t n) {
    size_t whole = ( n + 4095) & ~(size_t)4095;
    Block * b = find( a, whole);
    if ( !b || b->what != 2) {
        if ( in_lib) fail( "release", "munmap of %zu bytes at %p that are not one mapping of the allocator", whole, a);
    } else {
        Block o = *b;
        *b = blocks[--nblocks];
        if ( (char*)a > o.p) { int g = cur_group; cur_group = o.group; note( o.p, (char*)a - o.p, 2); cur_group = g; }
        if ( (char*)a + whole < o.p + o.n) { int g = cur_group; cur_group = o.group; note( (char*)a + whole, o.p + o.n - (char*)a - whole, 2); cur_group = g; }
    }
    return __real_munmap( a, n);
}
int __wrap_mprotect( void * a, size_t n, int prot) {
    if ( in_lib && fail_mode == 2) { ++fail_fired; errno = ENOMEM; return -1; }
    return __real_mprotect( a, n, prot);
}
}
void * operator new( size_t n) {
    if ( mem_fails() ) throw std::bad_alloc();
    void * p = __real_malloc( n);
    if ( !p) throw std::bad_alloc();
    if ( in_lib) note( p, n, 3);
    return p;
}
#if defined(__cpp_aligned_new)
void * operator new( size_t n, std::align_val_t a) {
    if ( mem_fails() ) throw std::bad_alloc();
    const size_t al = (size_t)a;
    void * p = __real_aligned_alloc( al, ( n + al - 1) & ~( al - 1) );
    if ( !p) throw std::bad_alloc();
    if ( in_lib) note( p, n, 3);
    return p;
}
void operator delete( void * p, std::align_val_t) noexcept { if ( p) take( p, 3, "delete"); }
void operator delete( void * p, size_t, std::align_val_t) noexcept { if ( p) take( p, 3, "delete"); }
#endif
void operator delete( void * p) noexcept { if ( p) take( p, 3, "delete"); }
void operator delete( void * p, size_t) noexcept { if ( p) take( p, 3, "delete"); }

//------------------------------------------------------------------ what valgrind is told
struct Vg { bool on; char * lo, * hi; unsigned id; };
static Vg vgs[4096]; static int nvg; static unsigned vg_next = 1000;
#if defined(BOOST_USE_VALGRIND)
extern "C" unsigned vg_register( void * a, void * b) {
    char * lo = (char*)a < (char*)b ? (char*)a : (char*)b, * hi = (char*)a < (char*)b ? (char*)b : (char*)a;
    for ( int i = 0; i < nvg; ++i)
        if ( vgs[i].on && lo < vgs[i].hi && vgs[i].lo < hi) fail( "valgrind", "a stack is registered that overlaps one registered before");
    if ( nvg == 4096) abort();
    vgs[nvg++] = Vg{ true, lo, hi, vg_next };
    unsigned id = vg_next; vg_next += 7; return id;
}
extern "C" void vg_deregister( unsigned id) {
    for ( int i = 0; i < nvg; ++i)
        if ( vgs[i].on && vgs[i].id == id) {
            if ( in_lib && !find( vgs[i].lo, 1) ) fail( "valgrind", "a stack is deregistered after its memory was released");
            vgs[i] = vgs[--nvg]; return;
        }
    fail( "valgrind", "stack id %u deregistered that is not registered", id);
}
#endif

//------------------------------------------------------------------ memory tests
static int pip[2];
static bool accessible( const void * p) {       // readable and writable
    static bool open_;
    if ( !open_) { if ( pipe( pip) ) abort(); open_ = true; }
    if ( write( pip[1], p, 1) != 1) return false;
    if ( read( pip[0], (void*)p, 1) == 1) return true;
    char c; if ( read( pip[0], & c, 1) != 1) abort();
    return false;
}
static bool forbidden( const void * p) {        // neither readable nor writable
    if ( write( pip[1], p, 1) == 1) { char c; if ( read( pip[0], & c, 1) != 1) abort(); return false; }
    char c = 0; if ( write( pip[1], & c, 1) != 1) abort();
    if ( read( pip[0], (void*)p, 1) == 1) return false;
    if ( read( pip[0], & c, 1) != 1) abort();
    return true;
}

//------------------------------------------------------------------ stacks
static size_t page = 4096;
struct Region { bool live; bool ctx; char * sp; size_t size, req; int group; char * guard; size_t usable; uint64_t key; bc::stack_context sc; };
static Region reg[MAXN + 2];                    // last: of an operation supposed to fail
static size_t gsize[MAXN + 1];                  // requested size of a group

static unsigned char pat( const Region & r, size_t i) { return (unsigned char)( r.key + i * 13 + ( i >> 8) * 7); }
static size_t middle( size_t i, size_t n) { return n >= BIG && i >= 300 && i + 300 < n ? n - 300 - i : 0; }    // skipped
static void fill( Region & r) { for ( size_t i = 0; i < r.usable; ++i) i += middle( i, r.usable), r.sp[-1 - (ptrdiff_t)i] = (char)pat( r, i); }
static void check_fill( Region & r, const char * when) {
    size_t st = r.usable > 20000 ? 61 : 1;
    for ( size_t i = 0; i < r.usable; i += ( i < 300 || i + 300 > r.usable) ? 1 : st)
        if ( i += middle( i, r.usable), true) if ( (unsigned char)r.sp[-1 - (ptrdiff_t)i] != pat( r, i) ) fail( "integrity", "%s: byte %zu below the top of a stack changed", when, i);
}
static void guard_check( Region & r, const char * when) {
    if ( kind != K_PROT) return;
    if ( !r.guard) {
        // the first inaccessible page below the requested bytes
        char * lo = (char*)( (uintptr_t)( r.sp - r.req) & ~( page - 1) );
        for ( char * p = (char*)( (uintptr_t)( r.sp - 1) & ~( page - 1) ); p >= lo && r.req; p -= r.req >= BIG && p - lo > (ptrdiff_t)( BIG / 32) ? (ptrdiff_t)( BIG / 32) : r.req >= BIG && p - lo > 64 * (ptrdiff_t)page ? 64 * (ptrdiff_t)page : (ptrdiff_t)page)
            if ( !accessible( p) ) fail( "guard", "%s: a byte %ld below the top of a stack of %zu bytes cannot be used", when, (long)( r.sp - p), r.req);
        char * p = r.req ? lo : (char*)( (uintptr_t)r.sp & ~( page - 1) );
        while ( p - page >= r.sp - r.size && accessible( p - page) ) p -= page;
        if ( p - page < r.sp - r.size) fail( "guard", "%s: no inaccessible page below a stack of %zu bytes (requested %zu)", when, r.size, r.req);
        r.guard = p - page;
        r.usable = r.sp - p;
    }
    for ( size_t i = 0; i < page; i += page - 1)
        if ( !forbidden( r.guard + i) ) fail( "guard", "%s: the page below the usable bytes of a stack is accessible", when);
}
static void admit( Region & r, bc::stack_context const& s, int group, bool ctx, const char * when) {
    r.live = true; r.ctx = ctx; r.sp = (char*)s.sp; r.size = s.size; r.req = gsize[group]; r.group = group; r.guard = nullptr; r.sc = s;
    r.key = runner::mix( rnd( 17) + ( & r - reg) );
    if ( !r.sp) fail( "size", "%s: null stack pointer", when);
    if ( r.size < r.req) fail( "size", "%s: reported size %zu, requested %zu", when, r.size, r.req);
    Block * b = find( r.sp - r.size, r.size);
    // (libgcc maps segments with system calls of its own)
    if ( kind == K_SEG) {
        for ( char * p = r.sp - r.size; p < r.sp; p += page)
            if ( !accessible( p) ) fail( "size", "%s: a byte %ld below the top of a stack of %zu bytes cannot be used", when, (long)( r.sp - p), r.size);
    } else if ( !b) fail( "size", "%s: stack of %zu bytes below %p is not inside memory obtained from the system", when, r.size, (void*)r.sp);
    for ( int i = 1; i <= NR; ++i) {
        Region & q = reg[i];
        if ( & q != & r && q.live && r.sp - r.size < q.sp && q.sp - q.size < r.sp)
            fail( "disjoint", "%s: the stack overlaps another one that is allocated", when);
    }
    r.usable = r.size;
    guard_check( r, when);
#if defined(BOOST_USE_VALGRIND)
    {
        int k = 0;
        for ( ; k < nvg && vgs[k].id != s.valgrind_stack_id; ) ++k;
        if ( k == nvg) fail( "valgrind", "%s: the stack handed out carries an id (%u) that is not registered", when, s.valgrind_stack_id);
        if ( vgs[k].hi != r.sp) fail( "valgrind", "%s: the registered stack does not end at the stack pointer", when);
        if ( vgs[k].lo > r.sp - r.req || vgs[k].lo > r.sp - r.usable) fail( "valgrind", "%s: the registered stack of %ld bytes is smaller than the one handed out (%zu)", when, (long)( r.sp - vgs[k].lo), r.size);
        if ( vgs[k].lo < r.sp - r.size && !find( vgs[k].lo, (size_t)( r.sp - vgs[k].lo) ) ) fail( "valgrind", "%s: the registered stack is not inside memory of the allocator", when);
    }
#endif
    if ( !ctx) fill( r);
}
// the registered stacks are the allocated ones
static void check_registered( const char * when) {
#if defined(BOOST_USE_VALGRIND)
    int live = 0;
    for ( int i = 1; i <= NR; ++i) {
        Region & r = reg[i];
        if ( !r.live) continue;
        ++live;
        int k = 0;
        for ( ; k < nvg && vgs[k].id != r.sc.valgrind_stack_id; ) ++k;
        if ( k == nvg || vgs[k].hi != r.sp) fail( "valgrind", "after %s: a stack in use is not registered", when);
    }
    if ( nvg != live) fail( "valgrind", "after %s: %d stacks registered, %d allocated", when, nvg, live);
#else
    (void)when;
#endif
}
static void check_regions( const char * when) {
    for ( int i = 1; i <= NR; ++i) {
        Region & r = reg[i];
        if ( !r.live) continue;
        if ( kind == K_SEG ? forbidden( r.sp - 1) || forbidden( r.sp - r.size) : !find( r.sp - r.size, r.size) ) fail( "valid", "after %s: memory of a stack in use went back to the system", when);
        guard_check( r, when);
        if ( !r.ctx) check_fill( r, when);
    }
    for ( int i = 0; i < ngone; ++i) {
        size_t n = gone[i].n, st = n > 20000 ? 127 : 1;
        for ( size_t k = 0; k < n; k += n >= BIG ? ( k == 255 ? n - 511 : 1) : ( k < 256 || k + 256 > n) ? 1 : st)
            if ( gone[i].p[k] != 0xdd) fail( "integrity", "after %s: memory already released was written", when);
    }
}

//------------------------------------------------------------------ contexts
#if defined(IF_CALLCC)
typedef bc::continuation F;
#else
typedef bc::fiber F;
#endif
static F handle[MAXN + 1];
static int phase[MAXN + 1];                     // of a context function: 1 suspended, 2 finishing, 3 unwound
template< typename A >
struct Spy {
    typedef typename A::traits_type traits_type;
    A inner; int r, group;
    bc::stack_context allocate() {
        bc::stack_context s = inner.allocate();
        if ( reg[r].live) fail( "control", "allocate called twice for one context");
        admit( reg[r], s, group, true, "creation of a context");
        return s;
    }
    void deallocate( bc::stack_context & s) noexcept {
        if ( !reg[r].live) fail( "release", "stack of a context released twice");
        if ( s.sp != reg[r].sp || s.size != reg[r].size) fail( "release", "stack released with a different descriptor");
        reg[r].live = false;
        inner.deallocate( s);
    }
};
struct Body {
    int r;
    F operator()( F && f) {
        volatile uint64_t v[8]; uint64_t key = runner::mix( (uint64_t)r + runner::seed);
        for ( int i = 0; i < 8; ++i) v[i] = key + i;
        struct G { int r; ~G() { phase[r] |= 4; } } g = { r };
        phase[r] = 1;
        f = std::move( f).resume();
        for ( int i = 0; i < 8; ++i) if ( v[i] != key + i) fail( "integrity", "local variables of a context changed");
        phase[r] = 2;
        return std::move( f);
    }
};
template< typename Al > static F create( Al && a, int r) {
#if defined(IF_CALLCC)
    return bc::callcc( std::allocator_arg, std::forward< Al >( a), Body{ r });
#else
    return F( std::allocator_arg, std::forward< Al >( a), Body{ r });
#endif
}

//------------------------------------------------------------------ execution
static size_t pick_size( long z, uint64_t r) {
    if ( z == 0 && kind == K_SEG) {
        static const size_t h[] = { ~(size_t)0, (size_t)1 << 62, ( (size_t)1 << 32) + 5, ( (size_t)7 << 32) + 70000, ~(size_t)0 / 2 + 1, ( (size_t)1 << 33) + 4095 };
        return h[r % 6];
    }
    if ( z == 0) {
        static const size_t h[] = { ~(size_t)0, ~(size_t)0 - 1, ~(size_t)0 - 4095, ~(size_t)0 - 4096, ~(size_t)0 - 4094, ~(size_t)0 - 8191, ~(size_t)0 / 2 + 1, (size_t)1 << 62, ~(size_t)0 - 123456 };
        return h[r % 9];
    }
    if ( z == 3) {      // more than 32 bits can tell
        static const size_t b[] = { (size_t)1 << 32, ( (size_t)1 << 32) + 100, ( (size_t)1 << 32) + 4096 * 5, ( (size_t)3 << 31) - 1, ( (size_t)5 << 30) + 4095, (size_t)1 << 31, ( (size_t)1 << 31) + 1 };
        return b[r % 7];
    }
    if ( z == 1) {
        static const size_t c[] = { 24576, 24577, 32768, 32768 + 16, 65535, 65536, 40000, 131072, 131072 + 4096, 53248 - 1 };
        return c[r % 10];
    }
    static const size_t q[] = { 1, 7, 16, 100, 2048, 4080, 4095, 4096, 4097, 4112, 8191, 8192, 8193, 12288, 20000 };
    return q[r % 15];
}

static bool overlaps( const char * p, size_t n) {
    if ( kind == K_SEG) return !forbidden( p) || !forbidden( p + n - 1);
    for ( int i = 0; i < nblocks; ++i) if ( p < blocks[i].p + blocks[i].n && blocks[i].p < p + n) return true;
    return false;
}
static Block before[4096]; static int nbefore;
static void snapshot() { memcpy( before, blocks, sizeof( Block) * (size_t)nblocks); nbefore = nblocks; }
static void unchanged( const char * when) {
    bool same = nbefore == nblocks;
    for ( int i = 0; same && i < nbefore; ++i) {
        bool f = false;
        for ( int k = 0; k < nblocks; ++k) if ( blocks[k].p == before[i].p && blocks[k].n == before[i].n) f = true;
        same = f;
    }
    if ( !same && kind != K_SEG) fail( "leak", "%s failed but system memory held changed from %d to %d blocks", when, nbefore, nblocks);
}
struct Lib {
    Lib( int g) { cur_group = g; in_lib = true; }
    ~Lib() {
        in_lib = false;
        if ( fail_mode && kind == K_SEG) { struct rlimit rl; getrlimit( RLIMIT_AS, & rl); rl.rlim_cur = rl.rlim_max; setrlimit( RLIMIT_AS, & rl); }
        fail_mode = 0;
    }
    void inject( int m) {
        fail_mode = m; fail_seen = fail_fired = 0;
        if ( kind == K_SEG) {       // no address space left
            struct rlimit rl; getrlimit( RLIMIT_AS, & rl); rl.rlim_cur = 4096; setrlimit( RLIMIT_AS, & rl);
            fail_fired = 1;
        }
    }
};

#if defined(OWN_TRAITS)
// the allocators are templates: traits of the program's own
struct Traits {
    static bool is_unbounded() noexcept { return false; }
    static std::size_t page_size() noexcept { return 16384; }
    static std::size_t default_size() noexcept { return 40000; }
    static std::size_t minimum_size() noexcept { return 16384; }
    static std::size_t maximum_size() noexcept { return (size_t)1 << 60; }
};
typedef bc::basic_fixedsize_stack< Traits > fixed_t;
typedef bc::basic_protected_fixedsize_stack< Traits > protected_t;
typedef bc::basic_pooled_fixedsize_stack< Traits > pooled_t;
#else
typedef bc::fixedsize_stack fixed_t;
# if !defined(BOOST_USE_SEGMENTED_STACKS)
typedef bc::protected_fixedsize_stack protected_t;
# endif
typedef bc::pooled_fixedsize_stack pooled_t;
#endif
template< typename A > static A construct( size_t size, uint64_t r) {
    if ( size == A::traits_type::default_size() && ( r & 1) ) return A();
    return A( size);
}
template<> pooled_t construct< pooled_t >( size_t size, uint64_t r) {
    if ( size == pooled_t::traits_type::default_size() && ( r & 1) ) return pooled_t();
    if ( size <= 32768 && ( r & 15) == 0) return pooled_t( size);
    static const size_t mx[] = { 0, 1, 2, 0 };
    return pooled_t( size, 1 + ( r >> 4) % 3, mx[( r >> 8) % 4]);
}

// the system does not provide that much
static bool no_room( size_t n) {
    void * p = __real_mmap( 0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if ( p == MAP_FAILED) return true;
    __real_munmap( p, n);
    return false;
}

template< typename A > struct Run {
    static A * obj[MAXN + 1];
    static A & at( long a) { return *obj[a]; }
    // an allocator object may stand for many that are used alike (a pool counts them)
    static std::vector< A > more[MAXN + 1];
    static void many( long a) {
        more[a].clear();
        static const std::size_t k[] = { 0, 0, 0, 0, 0, 0, 0, 255, 0, 0, 0, 260, 65534, 0, 0, 70000 };
        if ( kind != K_POOL || !obj[a]) return;
        const std::size_t n = k[runner::mix( runner::seed * 31 + (uint64_t)runner::path->id) % 16];
        if ( n) more[a].assign( n, static_cast< A const& >( at( a)) );
    }
    static void * buf( long a) { static char b[MAXN + 1][( sizeof( A) + 127) / 64 * 64] __attribute__((aligned( 64))); return b[a]; }
    static bool try_alloc( A & a, bc::stack_context & s) {
        try { s = a.allocate(); return true; }
        catch ( std::bad_alloc const&) { return false; }
    }
    static NOINLINE bool try_create( A & a, int r, int g, F & out) {
        try {
            if ( rnd( 30) & 1) { Spy< A > sp = { a, r, g }; out = create( sp, r); }
            else out = create( Spy< A >{ a, r, g }, r);
            return true;
        } catch ( std::bad_alloc const&) { return false; }
    }
    static void give_back( A & a, Region & r, const char * when) {
        bc::stack_context sc = r.sc;
        r.live = false;
        a.deallocate( sc);
        if ( kind != K_POOL && r.req && overlaps( r.sp - r.size, r.size) ) fail( "release", "%s: the stack was not given back to the system", when);
    }
    static void step( std::vector< long > const& e) {
        const char * name = cmdname[e[0]];
        const long x = e[1], y = e[2], z = e[3], res = e[4];
        switch ( e[0]) {
        case MAKEALLOC: {
            gsize[y] = pick_size( z, rnd( 40));
            Lib l( (int)y);
            obj[x] = new( buf( x)) A( construct< A >( gsize[y], rnd( 41)) );
            in_lib = false; many( x);
            break; }
        case COPYALLOC: {
            more[y].clear();
            Lib l( 0);
            if ( z) at( y) = static_cast< A const& >( at( x)); else obj[y] = new( buf( y)) A( static_cast< A const& >( at( x)) );
            in_lib = false; many( y);
            break; }
        case MOVEALLOC: {
            more[y].clear(); more[y].swap( more[x]);
            Lib l( 0);
            if ( z) at( y) = std::move( at( x)); else obj[y] = new( buf( y)) A( std::move( at( x)) );
            break; }
        case DROPALLOC: {
            more[x].clear();
            Lib l( 0);
            obj[x]->~A(); memset( buf( x), 0xee, sizeof( A)); obj[x] = nullptr;
            break; }
        case ALLOC: {
            snapshot();
            int g = group_of( x);
            bc::stack_context sc; bool ok;
            { Lib l( g); ok = try_alloc( at( x), sc); }
            if ( res == 2) {
                if ( ok) fail( "outcome", "allocation of %zu bytes succeeded with a region of %zu", gsize[g], sc.size);
                unchanged( name);
            } else {
                if ( !ok && gsize[g] >= BIG && no_room( gsize[g] + 65536) ) runner::done();
                if ( !ok) fail( "outcome", "allocation of %zu bytes failed", gsize[g]);
                admit( reg[y], sc, g, false, name);
            }
            break; }
        case ALLOCFAIL: case NEWCTXFAIL: {
            snapshot();
            int g = group_of( x);
            Region & r = reg[NR + 1];
            bc::stack_context sc; bool ok; F h;
            {
                Lib l( g);
                l.inject( (int)z);
                ok = e[0] == ALLOCFAIL ? try_alloc( at( x), sc) : try_create( at( x), NR + 1, g, h);
            }
            if ( ok && res == 2) fail( "outcome", "%s with %zu bytes succeeded", name, gsize[g]);
            if ( !ok) {
                if ( !fail_fired && res != 2 && gsize[g] >= BIG && no_room( gsize[g] + 65536) ) runner::done();
                if ( !fail_fired && res != 2) fail( "outcome", "%s: failed though every system call succeeded", name);
                if ( r.live) fail( "leak", "%s: a context was not created but its stack is still allocated", name);
                if ( h) fail( "outcome", "%s: a handle was produced", name);
                unchanged( name);
            } else if ( e[0] == ALLOCFAIL) {
                admit( r, sc, g, false, name);
                Lib l( g);
                give_back( at( x), r, name);
            } else {
                if ( !r.live || !h) fail( "outcome", "%s: no context although it succeeded", name);
                { Lib l( g); h = F(); }
                if ( r.live) fail( "leak", "%s: stack of a destroyed context is still allocated", name);
            }
            break; }
        case FREE: {
            Lib l( group_of( x));
            check_fill( reg[y], "Free");
            give_back( at( x), reg[y], name);
            break; }
        case NEWCTX: case NEWCTX0: {
            int g = group_of( x); bool ok;
            { Lib l( g); phase[y] = 0; ok = try_create( at( x), (int)y, g, handle[y]); }
            if ( !ok || !handle[y]) fail( "outcome", "creation of a context failed");
            if ( e[0] == NEWCTX) {
#if !defined(IF_CALLCC)
                Lib l( g); handle[y] = std::move( handle[y]).resume();
#endif
                if ( phase[y] != 1 || !handle[y]) fail( "control", "a new context did not run to its suspension");
            } else if ( phase[y] != 0) fail( "control", "a new context ran before it was resumed");
            break; }
        case START: {
            Lib l( 0); handle[y] = std::move( handle[y]).resume();
            if ( phase[y] != 1 || !handle[y]) fail( "control", "a new context did not run to its suspension");
            break; }
        case ENDCTX: case DESTROYCTX: {
            Region r = reg[y];
            int p = phase[y];
            {
                Lib l( 0);
                if ( e[0] == ENDCTX) {
                    if ( p == 0) handle[y] = std::move( handle[y]).resume();
                    handle[y] = std::move( handle[y]).resume();
                    if ( handle[y]) fail( "control", "a context that returned is still there");
                    handle[y] = F();    // (ucontext keeps the stack as long as the invalid handle)
                } else { F h = std::move( handle[y]); }
            }
            if ( phase[y] != ( e[0] == ENDCTX ? 6 : p == 0 ? 0 : 5) ) fail( "control", "%s: phase %d", name, phase[y]);
            if ( reg[y].live) fail( "release", "%s: the stack of the context was not released", name);
            if ( kind != K_POOL && overlaps( r.sp - r.size, r.size) ) fail( "release", "%s: the stack was not given back to the system", name);
            break; }
        default: abort();
        }
        // compare with the specification
        for ( int r = 1; r <= NR; ++r) {
            long want = e[5 + NG + r - 1];
            if ( want == 0 && reg[r].live) {
                if ( reg[r].ctx) fail( "release", "after %s: stack of context %d is still allocated", name, r);
                reg[r].live = false;            // went with its pool
#if defined(BOOST_USE_VALGRIND)
                for ( int k = 0; k < nvg; ++k)  // (nobody gave it back: it stays registered)
                    if ( vgs[k].id == reg[r].sc.valgrind_stack_id) { vgs[k] = vgs[--nvg]; break; }
#endif
            }
            if ( want != 0 && !reg[r].live) fail( "release", "after %s: stack %d was released", name, r);
        }
        check_registered( name);
        check_regions( name);
        for ( int g = 1; g <= NG; ++g)
            if ( e[5 + g - 1] == 0 && kind != K_SEG)
                for ( int i = 0; i < nblocks; ++i)
                    if ( blocks[i].group == g) fail( "leak", "after %s: nothing refers to allocator %d any more, %zu bytes of it are still held", name, g, blocks[i].n);
        track( e);
    }
    static int alg[MAXN + 1];
    static int group_of( long a) { return alg[a]; }
    static void track( std::vector< long > const& e) {
        switch ( e[0]) {
        case MAKEALLOC: alg[e[1]] = (int)e[2]; break;
        case COPYALLOC: case MOVEALLOC: alg[e[2]] = alg[e[1]]; break;
        case DROPALLOC: alg[e[1]] = 0; break;
        }
    }
    static void run() {
        { Lib l( 0); F warm; }
        for ( ;;) {
            if ( status->pos == (int)runner::path->steps.size() ) runner::done();
            std::vector< long > const& e = runner::path->steps[status->pos];
            status->pos = status->pos + 1;
            step( e);
        }
    }
};
template< typename A > A * Run< A >::obj[MAXN + 1];
template< typename A > int Run< A >::alg[MAXN + 1];
template< typename A > std::vector< A > Run< A >::more[MAXN + 1];

static void child( runner::Path &) {
    kind = (int)runner::constants[0]; NA = (int)runner::constants[1]; NR = (int)runner::constants[2]; NG = (int)runner::constants[3];
    // whatever the library sets up once per thread
    { F f = create( bc::default_stack(), MAXN);
#if !defined(IF_CALLCC)
      f = std::move( f).resume();
#endif
    }
    nblocks = 0; ngone = 0; nvg = 0;
    switch ( kind) {
#if defined(BOOST_USE_SEGMENTED_STACKS)
    case K_SEG: Run< bc::segmented_stack >::run(); break;
#else
    case K_FIXED: Run< fixed_t >::run(); break;
    case K_PROT: Run< protected_t >::run(); break;
    case K_POOL: Run< pooled_t >::run(); break;
#endif
    }
}
int main( int argc, char ** argv) { return runner::run( argc, argv, & child); }
