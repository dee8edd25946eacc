// Fibers of the Windows API on top of ucontext: the behaviour that is documented, and a
// report (win_misuse) where the documentation leaves the behaviour open.
#include "winapi.hpp"
#include <windows.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>

#define NOINLINE __attribute__((noinline))

namespace {
struct Fiber {
    ucontext_t uc;
    char * map; size_t len;
    LPFIBER_START_ROUTINE fn; LPVOID param;
    int id; bool main, alive; volatile int running;     // the thread it runs on, or 0
};
enum { MAXF = 8192 };
Fiber storage[MAXF]; Fiber * fibers[MAXF];     // (not reused: what is deleted stays recognizable)
volatile int nfibers, nthreads;
struct Thr { Fiber * cur; bool user; DWORD err; int id; };
enum { MAXTH = 4096 };
Thr thrs[MAXTH];
__thread Thr * thr;
// not inlined: the thread may be another one after a switch
NOINLINE Thr & self() {
    asm volatile( "" ::: "memory");
    if ( !thr) {
        const int id = __sync_add_and_fetch( & nthreads, 1);
        if ( id >= MAXTH) { fprintf( stderr, "too many threads\n"); abort(); }
        thr = & thrs[id]; thr->id = id;
    }
    return *thr;
}
enum { MAXV = 4096 };
struct { char * volatile p; volatile size_t n; } vmem[MAXV];
enum { MAXLOG = 20000 };
// not through the functions the harnesses watch: this memory is the system's own
void * sys_map( size_t n) {
    void * p = reinterpret_cast< void * >( syscall( SYS_mmap, 0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) );
    if ( p == MAP_FAILED) abort();
    return p;
}
void rec( int call, Fiber * f, int ok, int t = 0) {
    const int k = __sync_fetch_and_add( & nwinlog, 1);
    if ( k >= MAXLOG) { fprintf( stderr, "too many calls\n"); abort(); }
    WinRec r = { call, t ? t : self().id, f ? f->id : 0, ok }; winlog[k] = r;
}
void misuse( const char * what) {
    if ( win_misuse) win_misuse( what);
    fprintf( stderr, "winapi: %s\n", what); abort();
}
Fiber * fiber( LPVOID p, const char * what) {
    for ( int i = 0; i < nfibers; ++i) if ( fibers[i] == p) return fibers[i];
    misuse( what);
    return nullptr;
}
Fiber * make() {
    int k = __sync_fetch_and_add( & nfibers, 1);
    if ( k >= MAXF) { fprintf( stderr, "too many fibers\n"); abort(); }
    Fiber * f = & storage[k];
    f->id = k + 1; f->alive = true;
    fibers[k] = f;
    return f;
}
void entry( unsigned hi, unsigned lo) {
    Fiber * f = reinterpret_cast< Fiber * >( (unsigned long)hi << 32 | lo);
    f->fn( f->param);
    misuse( "the function of a fiber returned: its thread ends");
}
LPVOID convert( bool user) {
    Thr & t = self();
    if ( t.cur) { t.err = ERROR_ALREADY_FIBER; rec( W_CONVERT, t.cur, 0); return nullptr; }
    Fiber * f = make();
    f->main = true; f->running = t.id;
    t.cur = f; t.user = user;
    rec( user ? W_USER : W_CONVERT, f, 1);
    return f;
}
BOOL back( bool user) {
    Thr & t = self();
    if ( !t.cur) { t.err = ERROR_ALREADY_THREAD; misuse( "ConvertFiberToThread() in a thread that is no fiber"); }
    if ( t.user && !user) misuse( "ConvertFiberToThread() in a thread that was a fiber before the library was used");
    if ( !t.cur->main) misuse( "ConvertFiberToThread() by a fiber that was created with CreateFiber()");
    rec( user ? W_USERBACK : W_BACK, t.cur, 1);
    t.cur->alive = false; t.cur->running = 0;
    t.cur = nullptr; t.user = false;
    return TRUE;
}
}

WinRec winlog[MAXLOG];
volatile int nwinlog;
bool win_fail_create;
volatile int win_live;
void (*win_misuse)( const char *);
void win_user_convert() { if ( !self().cur) convert( true); }
void win_user_convert_back() { if ( self().cur && self().user) back( true); }
int win_thread() { return self().id; }
void win_thread_end( int id) {
    Thr & t = thrs[id];
    rec( W_END, t.cur, 1, id);
    if ( t.cur && !t.user) misuse( "a thread that the library made a fiber ended as one: what belongs to the fiber is left behind");
}

extern "C" {
LPVOID ConvertThreadToFiber( LPVOID) { return convert( false); }
BOOL ConvertFiberToThread( void) { return back( false); }
BOOL IsThreadAFiber( void) { return self().cur != nullptr; }
LPVOID GetCurrentFiber( void) {
    if ( !self().cur) misuse( "GetCurrentFiber() in a thread that is no fiber");
    return self().cur;
}
LPVOID CreateFiber( SIZE_T size, LPFIBER_START_ROUTINE fn, LPVOID param) {
    if ( win_fail_create) { self().err = ERROR_NOT_ENOUGH_MEMORY; rec( W_CREATE, nullptr, 0); return nullptr; }
    Fiber * f = make();
    f->len = ( ( size ? size : 1 << 20) + 4095 + 65536) & ~4095ul;
    f->map = static_cast< char * >( sys_map( f->len) );
    if ( syscall( SYS_mprotect, f->map, 4096, PROT_NONE) ) abort();
    f->fn = fn; f->param = param;
    if ( getcontext( & f->uc) ) abort();
    f->uc.uc_stack.ss_sp = f->map + 4096; f->uc.uc_stack.ss_size = f->len - 4096; f->uc.uc_link = nullptr;
    makecontext( & f->uc, reinterpret_cast< void (*)() >( & entry), 2, (unsigned)( reinterpret_cast< unsigned long >( f) >> 32), (unsigned)reinterpret_cast< unsigned long >( f) );
    __sync_fetch_and_add( & win_live, 1);
    rec( W_CREATE, f, 1);
    return f;
}
VOID SwitchToFiber( LPVOID p) {
    Thr & t = self();
    if ( !t.cur) misuse( "SwitchToFiber() in a thread that is no fiber");
    if ( !p) misuse( "SwitchToFiber() to a null pointer");
    Fiber * f = fiber( p, "SwitchToFiber() to something that is no fiber"), * from = t.cur;
    rec( W_SWITCH, f, 1);
    if ( !f->alive) misuse( "SwitchToFiber() to a fiber that was deleted");
    if ( f == from) misuse( "SwitchToFiber() to the running fiber");
    if ( f->running) misuse( "SwitchToFiber() to a fiber that is running in another thread");
    from->running = 0; f->running = t.id;
    t.cur = f;
    swapcontext( & from->uc, & f->uc);
}
VOID DeleteFiber( LPVOID p) {
    if ( !p) misuse( "DeleteFiber() of a null pointer");
    Fiber * f = fiber( p, "DeleteFiber() of something that is no fiber");
    rec( W_DELETE, f, 1);
    if ( !f->alive) misuse( "DeleteFiber() of a fiber that was deleted");
    if ( f->running) misuse( f == self().cur ? "DeleteFiber() of the running fiber: the thread ends" : "DeleteFiber() of a fiber that is running in another thread");
    if ( f->main) misuse( "DeleteFiber() of a converted thread");
    f->alive = false;
    syscall( SYS_munmap, f->map, f->len);
    __sync_fetch_and_sub( & win_live, 1);
}
DWORD GetLastError( void) { return self().err; }

LPVOID VirtualAlloc( LPVOID at, SIZE_T size, DWORD type, DWORD prot) {
    if ( !size) { self().err = 87; return nullptr; }
    if ( at || !( type & MEM_COMMIT) || prot != PAGE_READWRITE) misuse( "VirtualAlloc() with unexpected arguments");
    void * p = mmap( 0, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if ( p == MAP_FAILED) { self().err = ERROR_NOT_ENOUGH_MEMORY; return nullptr; }
    int k = 0;
    while ( k < MAXV && !__sync_bool_compare_and_swap( & vmem[k].p, (char*)nullptr, (char*)p) ) ++k;
    if ( k == MAXV) abort();
    vmem[k].n = size;
    return p;
}
BOOL VirtualProtect( LPVOID at, SIZE_T size, DWORD prot, PDWORD old) {
    if ( !old) { self().err = 998; return FALSE; }
    for ( int k = 0; k < MAXV; ++k)
        if ( vmem[k].p && (char*)at >= vmem[k].p && (char*)at + size <= vmem[k].p + ( ( vmem[k].n + 4095) & ~4095ul) ) {
            if ( mprotect( at, size, prot & ( PAGE_GUARD | PAGE_NOACCESS) ? PROT_NONE : PROT_READ | PROT_WRITE) ) { self().err = ERROR_NOT_ENOUGH_MEMORY; return FALSE; }
            *old = PAGE_READWRITE;
            return TRUE;
        }
    misuse( "VirtualProtect() of memory that is not allocated");
    return FALSE;
}
BOOL VirtualFree( LPVOID at, SIZE_T size, DWORD type) {
    if ( type != MEM_RELEASE || size) misuse( "VirtualFree() with unexpected arguments");
    for ( int k = 0; k < MAXV; ++k)
        if ( at && vmem[k].p == at) {
            munmap( at, vmem[k].n);
            vmem[k].p = nullptr;
            return TRUE;
        }
    misuse( "VirtualFree() of something that is not the base of an allocation");
    return FALSE;
}
VOID GetSystemInfo( SYSTEM_INFO * si) { si->dwPageSize = 4096; si->dwAllocationGranularity = 65536; }
}
