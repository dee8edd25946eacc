// Executes behaviours of spec/Fctx.tla with the real make/jump/ontop_fcontext and compares
// what every step shows.
#include "runner.hpp"
#include <boost/context/detail/fcontext.hpp>
namespace bd = boost::context::detail;
using runner::fail; using runner::rnd; using runner::status;
#define NOINLINE __attribute__((noinline))

enum { MAKE = 1, JUMP, ONTOP, ONTOPRETURN, CALL, POP, SETENV, FINISH };
static const char * const cmdname[] = { "start", "Make", "Jump", "Ontop", "OntopReturn", "Call", "Pop", "SetEnv", "Finish" };
static const int MAXC = 8;
static int NC, TSX;

extern "C" {
bd::fcontext_t make_fcontext( void * sp, std::size_t size, void (* fn)( bd::transfer_t) );
bd::transfer_t jump_fcontext( bd::fcontext_t const to, void * vp);
bd::transfer_t ontop_fcontext( bd::fcontext_t const to, void * vp, bd::transfer_t (* fn)( bd::transfer_t) );
// calls fn( a, b, c) with known values in rbx rbp r12 r13 r14 r15, which it finds in and leaves in regs
bd::transfer_t probe3( void * fn, const void * a, const void * b, const void * c, uint64_t * regs);
// entered by the library; note where the stack is
void fn_entry( bd::transfer_t);
bd::transfer_t ontop_entry( bd::transfer_t);
void fn_body( bd::transfer_t t, uint64_t rsp);
bd::transfer_t ontop_body( bd::transfer_t t, uint64_t rsp);
}
asm( R"(
    .text
    .globl probe3
    .type probe3,@function
probe3:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    pushq %r8
    movq %rdi, %rax
    movq %rsi, %rdi
    movq %rdx, %rsi
    movq %rcx, %rdx
    movq 0(%r8), %rbx
    movq 8(%r8), %rbp
    movq 16(%r8), %r12
    movq 24(%r8), %r13
    movq 32(%r8), %r14
    movq 40(%r8), %r15
    movq %rsp, 48(%r8)
    call *%rax
    movq (%rsp), %r8
    movq %rbx, 0(%r8)
    movq %rbp, 8(%r8)
    movq %r12, 16(%r8)
    movq %r13, 24(%r8)
    movq %r14, 32(%r8)
    movq %r15, 40(%r8)
    movq %rsp, 56(%r8)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
    .size probe3,.-probe3

    .globl fn_entry
    .type fn_entry,@function
fn_entry:
    endbr64
    movq %rsp, %rdx
    andq $-16, %rsp
    subq $8, %rsp
    movq %rdx, %rbx
    pushq %rdx
    call fn_body
    movq %rbx, %rsp
    ret
    .size fn_entry,.-fn_entry

    .globl ontop_entry
    .type ontop_entry,@function
ontop_entry:
    endbr64
    movq %rsp, %rdx
    pushq %rbx
    movq %rsp, %rbx
    andq $-16, %rsp
    call ontop_body
    movq %rbx, %rsp
    popq %rbx
    ret
    .size ontop_entry,.-ontop_entry
)");

//------------------------------------------------------------------ environment
static const unsigned MXCSR_CTL = 0xffc0, X87_CTL = 0x0f3f;
static void env_words( int v, unsigned & mx, unsigned & cw) {
    static const unsigned mxs[] = { 0x1f80, 0x3f80, 0xdfc0, 0x7f80, 0x9f80 };
    static const unsigned cws[] = { 0x037f, 0x077f, 0x0e7f, 0x0b7f, 0x027f };
    mx = mxs[v % 5]; cw = cws[v % 5];
}
#if defined(CHECK_GUARD)
static uint64_t guard0;
static uint64_t guard_now() { uint64_t g; asm volatile( "movq %%fs:0x28, %0" : "=r"(g)); return g; }
static uint64_t guard_env( int v) { return guard0 ^ ( 0x9e3779b97f4a7c00ull * (uint64_t)v); }
#endif
static NOINLINE void env_set( int v) {
    unsigned mx, cw; env_words( v, mx, cw);
    uint16_t c = (uint16_t)cw;
    asm volatile( "ldmxcsr %0\n\tfldcw %1" : : "m"(mx), "m"(c));
#if defined(CHECK_GUARD)
    uint64_t g = guard_env( v);
    asm volatile( "movq %0, %%fs:0x28" : : "r"(g));
#endif
}
static NOINLINE void env_check( int ctx, int v) {
    unsigned mx; uint16_t cw; unsigned emx, ecw;
    asm volatile( "stmxcsr %0\n\tfnstcw %1" : "=m"(mx), "=m"(cw));
    env_words( v, emx, ecw);
    if ( ( mx & MXCSR_CTL) != ( emx & MXCSR_CTL) || ( cw & X87_CTL) != ( ecw & X87_CTL) )
        fail( "fp", "context %d runs with MXCSR %04x x87 %04x, expected %04x %04x", ctx, mx & MXCSR_CTL, cw & X87_CTL, emx & MXCSR_CTL, ecw & X87_CTL);
#if defined(CHECK_GUARD)
    if ( guard_now() != guard_env( v) )
        fail( "guard", "context %d runs with stack guard %016lx, expected %016lx", ctx, (unsigned long)guard_now(), (unsigned long)guard_env( v) );
#endif
}

//------------------------------------------------------------------ program state
static const size_t BLOCK = 160 * 1024;
static char * block[MAXC + 1];
static size_t top[MAXC + 1], bottom[MAXC + 1];       // the stack of a context: block + [bottom, top)
static bd::fcontext_t handle[MAXC + 1];
static bool entered[MAXC + 1];
static int cur = 1, depth[MAXC + 1];
static int ev_what; static bd::transfer_t ev;

static void * data_word( long d) {
    static const uint64_t w[] = { 0, ~0ull, 1, 0x8000000000000000ull, 0x00000000ffffffffull, 0xdeadbeefcafebabeull };
    if ( d < 0) return 0;
    uint64_t r = runner::mix( runner::seed * 7 + (uint64_t)d + (uint64_t)runner::path->id);
    if ( ( r & 3) == 0) return (void*)runner::mix( r);
    return (void*)w[( r >> 8) % 6];
}
static unsigned char pat( int x, size_t i) { return (unsigned char)( 0xa5 + x * 29 + i * 7); }
static void check_outside( int x) {
    if ( !block[x]) return;
    for ( size_t i = top[x]; i < BLOCK; ++i)
        if ( (unsigned char)block[x][i] != pat( x, i) ) fail( "bounds", "byte %zu above the top of the stack of context %d was changed", i - top[x], x);
    for ( size_t i = 0; i < bottom[x]; ++i)
        if ( (unsigned char)block[x][i] != pat( x, i) ) fail( "bounds", "byte %zu below the stack of context %d was changed", bottom[x] - i, x);
}
static const uint64_t CAN = 0x5bd1e995c0ffee00ull;
struct Locals {
    volatile uint64_t v[12]; int ctx, d; uint64_t key;
    Locals( int c, int dd) : ctx( c), d( dd), key( runner::mix( CAN + (uint64_t)runner::seed * 31 + c * 64 + dd * 4096 + (uint64_t)status->pos)) {
        for ( int i = 0; i < 12; ++i) v[i] = key + i * 0x1111;
    }
    NOINLINE void check() {
        for ( int i = 0; i < 12; ++i)
            if ( v[i] != key + i * 0x1111) fail( "locals", "local variable of context %d depth %d changed", ctx, d);
    }
};
static const std::vector< long > & step() { return runner::path->steps[status->pos]; }

//------------------------------------------------------------------ execution
static void fill_regs( uint64_t * r, int salt) {
    for ( int i = 0; i < 6; ++i) r[i] = runner::mix( runner::seed + (uint64_t)status->pos * 77 + (uint64_t)( i + salt) );
    if ( rnd( salt + 9) % 5 == 0) for ( int i = 0; i < 6; ++i) r[i] = rnd( i) & 1 ? ~0ull : 0;
}
static bd::transfer_t probed( void * fn, const void * a, const void * b, const void * c, int ctx, const char * what) {
    uint64_t r[8], q[6];
    fill_regs( r, 3);
    memcpy( q, r, sizeof q);
    bd::transfer_t t = probe3( fn, a, b, c, r);
    static const char * const name[] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
    for ( int i = 0; i < 6; ++i)
        if ( r[i] != q[i]) fail( "registers", "%s of context %d changed across %s", name[i], ctx, what);
    if ( r[6] != r[7]) fail( "registers", "stack pointer of context %d moved by %ld across %s", ctx, (long)( r[7] - r[6]), what);
    return t;
}

static void frame( int ctx, bd::transfer_t * ret);
// what the last step has to show, now that ctx runs
static void compare( int ctx) {
    if ( status->pos == 0) return;
    const std::vector< long > & e = runner::path->steps[status->pos - 1];
    const char * name = cmdname[e[0]];
    if ( ctx != e[4]) fail( "control", "after %s context %d runs, expected context %ld", name, ctx, e[4]);
    if ( depth[ctx] != e[5]) fail( "control", "after %s context %d has %d frames, expected %ld", name, ctx, depth[ctx], e[5]);
    static const char * const evn[] = { "nothing is delivered", "its function is entered", "its jump returns", "a function is entered on top of it" };
    if ( ev_what != e[7]) fail( "event", "context %d: %s, expected that %s", ctx, evn[ev_what], evn[e[7]]);
    if ( ev_what) {
        if ( ev.data != data_word( e[9]) ) fail( "data", "context %d received data %p, expected %p", ctx, ev.data, data_word( e[9]) );
        if ( e[0] == ONTOPRETURN) {
            bd::fcontext_t h = e[8] ? handle[e[8]] : nullptr;
            if ( ev.fctx != h) fail( "handle", "context %d received handle %p, the function on top returned %p", ctx, ev.fctx, h);
        } else {
            if ( !ev.fctx) fail( "handle", "context %d received a null handle", ctx);
            // the handle of the jumper: its own, not the one of another suspended context
            for ( int c = 1; c <= NC; ++c)
                if ( c != e[8] && handle[c] && handle[c] == ev.fctx) fail( "handle", "context %d received the handle of context %d, expected the one of context %ld", ctx, c, e[8]);
            handle[e[8]] = ev.fctx;
        }
    }
    env_check( ctx, e[6]);
    for ( int c = 2; c <= NC; ++c) check_outside( c);
}

static void make( int x) {
    if ( !block[x]) block[x] = (char*)mmap( 0, BLOCK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    uint64_t r = rnd( 1);
    bottom[x] = 64 + ( r >> 8) % 200;
    top[x] = BLOCK - 128 + ( r & 63);
    for ( size_t i = 0; i < bottom[x]; ++i) block[x][i] = (char)pat( x, i);
    for ( size_t i = top[x]; i < BLOCK; ++i) block[x][i] = (char)pat( x, i);
    size_t size = top[x] - bottom[x];
    // what lies beyond must not matter
    void * sp = block[x] + top[x];
    if ( r >> 20 & 1) {
        bd::transfer_t t = probed( (void*)& ::make_fcontext, sp, (void*)size, (void*)& fn_entry, cur, "make_fcontext");
        handle[x] = t.fctx;
    } else handle[x] = bd::make_fcontext( sp, size, & fn_entry);
    entered[x] = false; depth[x] = 0;
    if ( !handle[x]) fail( "handle", "make_fcontext returned a null handle");
    check_outside( x);
}
// leaves the running context; returns when it runs again
static void switch_to( int self, int x, long d, bool ontop) {
    bd::fcontext_t to = handle[x];
    handle[x] = nullptr;

    bd::transfer_t t;
    void * vp = data_word( d);
    bool direct = rnd( 2) & 1;
    if ( direct) t = ontop ? bd::ontop_fcontext( to, vp, & ontop_entry) : bd::jump_fcontext( to, vp);
    else if ( rnd( 4) & 1) {
        bd::transfer_t (* j)( bd::fcontext_t const, void *) = & bd::jump_fcontext;
        bd::transfer_t (* o)( bd::fcontext_t const, void *, bd::transfer_t (*)( bd::transfer_t) ) = & bd::ontop_fcontext;
        t = ontop ? probed( (void*)o, to, vp, (void*)& ontop_entry, self, "ontop_fcontext") : probed( (void*)j, to, vp, nullptr, self, "jump_fcontext");
    } else t = ontop ? probed( (void*)& ::ontop_fcontext, to, vp, (void*)& ontop_entry, self, "ontop_fcontext")
                     : probed( (void*)& ::jump_fcontext, to, vp, nullptr, self, "jump_fcontext");
    cur = self;
    ev_what = 2; ev = t;
}
static NOINLINE void sub_frame( int ctx) { Locals l( ctx, depth[ctx]); frame( ctx, nullptr); l.check(); }

static NOINLINE void frame( int ctx, bd::transfer_t * ret) {
    ++depth[ctx];
    Locals l( ctx, depth[ctx]);
    for (;;) {
        l.check();
        compare( ctx);
        ev_what = 0;
        if ( status->pos == (int)runner::path->steps.size() ) runner::done();
        const std::vector< long > & e = step();
        status->pos = status->pos + 1;
        switch ( e[0]) {
        case MAKE: make( (int)e[1]); break;
        case JUMP: switch_to( ctx, (int)e[1], e[3], false); break;
        case ONTOP: switch_to( ctx, (int)e[1], e[3], true); break;
        case ONTOPRETURN:
            ret->fctx = e[2] ? handle[e[2]] : nullptr;
            ret->data = data_word( e[3]);
            --depth[ctx];
            return;
        case CALL: sub_frame( ctx); break;
        case POP: --depth[ctx]; return;
        case SETENV: env_set( (int)e[3]); break;
        case FINISH: --depth[ctx]; return;
        default: abort();
        }
    }
}
static int at_stack( uint64_t rsp) {
    for ( int c = 2; c <= NC; ++c)
        if ( block[c] && rsp > (uint64_t)block[c] + bottom[c] && rsp <= (uint64_t)block[c] + top[c]) return c;
    return 1;
}
void fn_body( bd::transfer_t t, uint64_t rsp) {
    int c = at_stack( rsp);
    if ( ( rsp & 15) != 8) fail( "alignment", "function of context %d entered with stack pointer %#lx (not aligned as after a call)", c, (unsigned long)rsp);
    if ( c == 1) fail( "bounds", "context function entered with stack pointer %#lx outside every stack made", (unsigned long)rsp);
    if ( entered[c]) fail( "control", "function of context %d entered twice", c);
    entered[c] = true;
    ev_what = 1; ev = t; cur = c;
    frame( c, nullptr);
    // the function returns: the process has to end with status 0
    status->state = 3;
}
bd::transfer_t ontop_body( bd::transfer_t t, uint64_t rsp) {
    int c = at_stack( rsp);
    if ( ( rsp & 15) != 8) fail( "alignment", "function on top of context %d entered with stack pointer %#lx (not aligned as after a call)", c, (unsigned long)rsp);
    ev_what = 3; ev = t; cur = c;
    bd::transfer_t r = { nullptr, nullptr };
    frame( c, & r);
    return r;
}

static void child( runner::Path &) {
    NC = (int)runner::constants[0]; TSX = (int)runner::constants[1];
#if defined(CHECK_GUARD)
    guard0 = guard_now();
#endif
    env_set( 0);
    frame( 1, nullptr);
}
int main( int argc, char ** argv) { return runner::run( argc, argv, & child); }
