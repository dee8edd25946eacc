// More contexts than the specification speaks of (see ctx_replay.cpp).  Those of the interface under test are made in
// ctx_replay.cpp, those of the other one in second.cpp, another translation unit that includes both.
#ifndef CROWD_HPP
#define CROWD_HPP
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <utility>
#include <boost/context/continuation.hpp>
#include <boost/context/fiber.hpp>

#if !defined(PARALLEL) && !defined(SANAPI) && !defined(BOOST_USE_WINFIB) && !defined(SHSTK) && !defined(BOOST_USE_SEGMENTED_STACKS) && !defined(BOOST_USE_TSAN)
# define CROWD
#endif
#if defined(SANITIZED)
enum { CROWD_STACK = 131072, CROWD_MAX = 40 };
#else
enum { CROWD_STACK = 32768, CROWD_MAX = 300 };
#endif
extern int crowd_gone, crowd_stacks;
extern void crowd_fail( const char *);

struct Member {
    long n; int id;     // how often it ran
    explicit Member( int i) : n( 0), id( i) {}
    virtual ~Member() {}
    virtual void resume() = 0;
    virtual int ontop() = 0;        // how often the function ran
    virtual bool valid() const = 0;
};
extern void crowd_visit( Member *);      // by a member that was resumed
extern Member * crowd_other( int id);

struct CrowdAlloc {
    boost::context::stack_context allocate() {
        boost::context::stack_context c; c.size = CROWD_STACK;
        char * p = (char*)malloc( CROWD_STACK); if ( !p) abort();
        c.sp = p + CROWD_STACK; ++crowd_stacks; return c;
    }
    void deallocate( boost::context::stack_context & c) noexcept { --crowd_stacks; free( (char*)c.sp - c.size); }
};
template< typename T > struct MemberRun {
    Member * m;
    struct G { ~G() { ++crowd_gone; } };
    T operator()( T && f) {
        G g; (void)g;
        const uint64_t k = 0x5bd1e995c0ffee00ull;
        volatile uint64_t own[4] = { k + m->id, k, ~k, k * m->id };
        for (;;) {
            ++m->n;
            if ( own[0] != k + m->id || own[1] != k || own[2] != ~k || own[3] != k * m->id)
                crowd_fail( "one of many contexts lost what it kept on its stack");
            crowd_visit( m);
            f = std::move( f).resume();
            if ( !f) crowd_fail( "one of many contexts was resumed without a handle");
        }
    }
};
inline void crowd_start( boost::context::fiber & f, Member * m) {
    f = boost::context::fiber( std::allocator_arg, CrowdAlloc(), MemberRun< boost::context::fiber >{ m });
    f = std::move( f).resume();
}
inline void crowd_start( boost::context::continuation & c, Member * m) {
    c = boost::context::callcc( std::allocator_arg, CrowdAlloc(), MemberRun< boost::context::continuation >{ m });
}
template< typename T > struct MemberOf : Member {
    T f;
    explicit MemberOf( int i) : Member( i) { crowd_start( f, this); }
    void resume() { f = std::move( f).resume(); }
    int ontop() { int on = 0; f = std::move( f).resume_with( [&on]( T && x) { ++on; return std::move( x); }); return on; }
    bool valid() const { return static_cast< bool >( f); }
};
#endif
