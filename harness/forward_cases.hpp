// Cases of spec/Forward.tla: one instantiation per behaviour, see tools/forwardmodel.py.
#pragma once
#include "runner.hpp"
#include <array>
#include <functional>
#include <memory>
#include <tuple>
#include <type_traits>
#include <utility>
#if __cplusplus < 202002L
#include <boost/context/detail/invoke.hpp>
#endif
#include <boost/context/detail/apply.hpp>
#include <boost/context/detail/exchange.hpp>
#include <boost/context/detail/tuple.hpp>
namespace bd = boost::context::detail;
typedef std::vector< long > Obs;
struct Entry { long id; void (* fn)( Obs &); };

struct V { int id; bool moved; explicit V( int i = -1) : id( i), moved( false) {} };
struct B {
    int id, copies, moves; mutable int copied; mutable bool moved;
    B( int i) : id( i), copies( 0), moves( 0), copied( 0), moved( false) {}
    void from( B const& o, bool copy) {
        id = o.id; copies = o.copies + ( copy ? 1 : 0); moves = o.moves + ( copy ? 0 : 1);
        if ( copy) ++o.copied; else o.moved = true;
    }
};
struct T : B {
    T( int i = -1) : B( i) {}
    T( T const& o) : B( 0) { from( o, true); }
    T( T && o) : B( 0) { from( o, false); }
    T( V const& v) : B( v.id) {}
    T( V && v) : B( v.id) { v.moved = true; }
    T & operator=( T const& o) { from( o, true); return * this; }
    T & operator=( T && o) { from( o, false); return * this; }
};
struct MO : B {
    MO( int i = -1) : B( i) {}
    MO( MO const&) = delete;
    MO( MO && o) : B( 0) { from( o, false); }
    MO & operator=( MO && o) { from( o, false); return * this; }
};
struct Err { int id; };

struct Log { long calls, self; bool badobj; std::vector< std::array< long, 4 > > seen; void const* orig[16]; void const* obj; int first; };
extern Log lg;
extern T rt;

template< typename X > struct Cat;
template< typename X > struct Cat< X & > { enum { v = 1 }; };
template< typename X > struct Cat< X const& > { enum { v = 2 }; };
template< typename X > struct Cat< X && > { enum { v = 3 }; };
template< typename X > struct Cat< X const&& > { enum { v = 4 }; };

// results
template< int R > struct Res;
template<> struct Res< 1 > { typedef void type; static void get() {} };
template<> struct Res< 2 > { typedef T type; static T get() { return T( 4242); } };
template<> struct Res< 3 > { typedef T & type; static T & get() { return rt; } };
template<> struct Res< 4 > { typedef T const& type; static T const& get() { return rt; } };
template<> struct Res< 5 > { typedef T && type; static T && get() { return std::move( rt); } };
template<> struct Res< 6 > { typedef MO type; static MO get() { return MO( 4242); } };
template<> struct Res< 7 > { typedef T type; static T get() { throw Err{ 77 }; } };

inline void see() {}
template< typename A, typename ... As >
void see( A && a, As && ... as) {
    std::size_t i = lg.seen.size();
    bool same = (void const*)std::addressof( a) == lg.orig[i + lg.first];
    lg.seen.push_back( { { (long)Cat< A && >::v, same ? 1 : 0, a.copies, a.moves } });
    see( std::forward< As >( as) ... );
}
inline void seeval() {}
template< typename A, typename ... As >
void seeval( A & a, As & ... as) {
    std::size_t i = lg.seen.size();
    bool right = a.id == 100 + (int)i + lg.first;
    lg.seen.push_back( { { right ? 0 : 9, 0, a.copies, a.moves } });
    seeval( as ... );
}
template< int R, typename ... A >
typename Res< R >::type body( int self, A && ... a) {
    ++lg.calls; lg.self = self;
    see( std::forward< A >( a) ... );
    return Res< R >::get();
}

template< int R > struct Fun {
    template< typename ... A > typename Res< R >::type operator()( A && ... a) & { return body< R >( 1, std::forward< A >( a) ... ); }
    template< typename ... A > typename Res< R >::type operator()( A && ... a) const& { return body< R >( 2, std::forward< A >( a) ... ); }
    template< typename ... A > typename Res< R >::type operator()( A && ... a) && { return body< R >( 3, std::forward< A >( a) ... ); }
    template< typename ... A > typename Res< R >::type operator()( A && ... a) const&& { return body< R >( 4, std::forward< A >( a) ... ); }
};
template< int R > struct FunV {
    template< typename ... A > typename Res< R >::type operator()( A ... a) { ++lg.calls; lg.self = 1; seeval( a ... ); return Res< R >::get(); }
};
template< int Q, int R > struct Only;
template< int R > struct Only< 1, R > { typedef Only & type; template< typename ... A > typename Res< R >::type operator()( A && ... a) & { return body< R >( 1, std::forward< A >( a) ... ); } };
template< int R > struct Only< 2, R > { typedef Only const& type; template< typename ... A > typename Res< R >::type operator()( A && ... a) const& { return body< R >( 2, std::forward< A >( a) ... ); }
    template< typename ... A > void operator()( A && ...) & = delete; template< typename ... A > void operator()( A && ...) && = delete; };
template< int R > struct Only< 3, R > { typedef Only && type; template< typename ... A > typename Res< R >::type operator()( A && ... a) && { return body< R >( 3, std::forward< A >( a) ... ); } };
template< int R > struct Only< 4, R > { typedef Only const&& type; template< typename ... A > typename Res< R >::type operator()( A && ... a) const&& { return body< R >( 4, std::forward< A >( a) ... ); } };
template< int R, typename ... P > typename Res< R >::type fun( P ... p) { return body< R >( 0, std::forward< P >( p) ... ); }

struct Obj {
    T data;
    Obj() : data( 55) {}
    void me( Obj const* o) const { if ( o != lg.obj) lg.badobj = true; }
    template< int R, typename ... P > typename Res< R >::type q1( P ... p) { me( this); return body< R >( 1, std::forward< P >( p) ... ); }
    template< int R, typename ... P > typename Res< R >::type q2( P ... p) const { me( this); return body< R >( 2, std::forward< P >( p) ... ); }
    template< int R, typename ... P > typename Res< R >::type q3( P ... p) & { me( this); return body< R >( 3, std::forward< P >( p) ... ); }
    template< int R, typename ... P > typename Res< R >::type q4( P ... p) const& { me( this); return body< R >( 4, std::forward< P >( p) ... ); }
    template< int R, typename ... P > typename Res< R >::type q5( P ... p) && { me( this); return body< R >( 5, std::forward< P >( p) ... ); }
    template< int R, typename ... P > typename Res< R >::type q6( P ... p) const&& { me( this); return body< R >( 6, std::forward< P >( p) ... ); }
};
struct Pad { long pad[3]; };
struct Der : Pad, Obj {};
template< int Q, int R, typename ... P > struct Mf;
template< int R, typename ... P > struct Mf< 1, R, P ... > { typedef typename Res< R >::type (Obj::* type)( P ... ); static type get() { return & Obj::template q1< R, P ... >; } };
template< int R, typename ... P > struct Mf< 2, R, P ... > { typedef typename Res< R >::type (Obj::* type)( P ... ) const; static type get() { return & Obj::template q2< R, P ... >; } };
template< int R, typename ... P > struct Mf< 3, R, P ... > { typedef typename Res< R >::type (Obj::* type)( P ... ) &; static type get() { return & Obj::template q3< R, P ... >; } };
template< int R, typename ... P > struct Mf< 4, R, P ... > { typedef typename Res< R >::type (Obj::* type)( P ... ) const&; static type get() { return & Obj::template q4< R, P ... >; } };
template< int R, typename ... P > struct Mf< 5, R, P ... > { typedef typename Res< R >::type (Obj::* type)( P ... ) &&; static type get() { return & Obj::template q5< R, P ... >; } };
template< int R, typename ... P > struct Mf< 6, R, P ... > { typedef typename Res< R >::type (Obj::* type)( P ... ) const&&; static type get() { return & Obj::template q6< R, P ... >; } };

// arguments of invoke
struct Args {
    T t[16]; MO mo[16]; Obj obj; Der der; std::unique_ptr< Obj > up;
    Args() : up( new Obj) { for ( int i = 0; i < 16; ++i) { t[i] = T( 100 + i); t[i].moves = 0; mo[i].id = 100 + i; } }
};
extern Args * ar;
template< int A > struct Arg;
template<> struct Arg< 1 > { typedef T & type; static type get( int i) { lg.orig[i] = & ar->t[i]; return ar->t[i]; } };
template<> struct Arg< 2 > { typedef T const& type; static type get( int i) { lg.orig[i] = & ar->t[i]; return ar->t[i]; } };
template<> struct Arg< 3 > { typedef T && type; static type get( int i) { lg.orig[i] = & ar->t[i]; return std::move( ar->t[i]); } };
template<> struct Arg< 4 > { typedef T const&& type; static type get( int i) { lg.orig[i] = & ar->t[i]; return std::move( const_cast< T const& >( ar->t[i]) ); } };
template<> struct Arg< 5 > { typedef MO && type; static type get( int i) { lg.orig[i] = & ar->mo[i]; return std::move( ar->mo[i]); } };
template<> struct Arg< 11 > { typedef Obj & type; static type get( int) { lg.obj = & ar->obj; return ar->obj; } };
template<> struct Arg< 12 > { typedef Obj const& type; static type get( int) { lg.obj = & ar->obj; return ar->obj; } };
template<> struct Arg< 13 > { typedef Obj && type; static type get( int) { lg.obj = & ar->obj; return std::move( ar->obj); } };
template<> struct Arg< 14 > { typedef Obj const&& type; static type get( int) { lg.obj = & ar->obj; return std::move( const_cast< Obj const& >( ar->obj) ); } };
template<> struct Arg< 15 > { typedef Obj * type; static type get( int) { lg.obj = & ar->obj; return & ar->obj; } };
template<> struct Arg< 16 > { typedef Obj const* type; static type get( int) { lg.obj = & ar->obj; return & ar->obj; } };
template<> struct Arg< 17 > { typedef std::reference_wrapper< Obj > type; static type get( int) { lg.obj = & ar->obj; return std::ref( ar->obj); } };
template<> struct Arg< 18 > { typedef std::unique_ptr< Obj > & type; static type get( int) { lg.obj = ar->up.get(); return ar->up; } };
template<> struct Arg< 19 > { typedef Der & type; static type get( int) { lg.obj = static_cast< Obj * >( & ar->der); return ar->der; } };
template<> struct Arg< 20 > { typedef Der && type; static type get( int) { lg.obj = static_cast< Obj * >( & ar->der); return std::move( ar->der); } };
template<> struct Arg< 21 > { typedef Der * type; static type get( int) { lg.obj = static_cast< Obj * >( & ar->der); return & ar->der; } };

// elements of the container given to apply
template< int A > struct El;
template<> struct El< 1 > { typedef T type; static T get( int i) { return T( 100 + i); } static void note( int i, T const& e) { lg.orig[i] = & e; const_cast< T & >( e).moves = 0; } };
template<> struct El< 2 > { typedef T & type; static type get( int i) { return ar->t[i]; } static void note( int i, T const&) { lg.orig[i] = & ar->t[i]; } };
template<> struct El< 3 > { typedef T const& type; static type get( int i) { return ar->t[i]; } static void note( int i, T const&) { lg.orig[i] = & ar->t[i]; } };
template<> struct El< 4 > { typedef T && type; static type get( int i) { return std::move( ar->t[i]); } static void note( int i, T const&) { lg.orig[i] = & ar->t[i]; } };
template<> struct El< 11 > { typedef Obj type; static Obj get( int) { return Obj(); } static void note( int, Obj const& o) { lg.obj = & o; } };
template<> struct El< 15 > { typedef Obj * type; static type get( int) { return & ar->obj; } static void note( int, Obj *) { lg.obj = & ar->obj; } };
template<> struct El< 17 > { typedef std::reference_wrapper< Obj > type; static type get( int) { return std::ref( ar->obj); } static void note( int, type const&) { lg.obj = & ar->obj; } };
template<> struct El< 22 > { typedef Obj & type; static type get( int) { return ar->obj; } static void note( int, Obj const&) { lg.obj = & ar->obj; } };

template< int ... > struct Ints {};
template< int N, int ... I > struct Count : Count< N - 1, N - 1, I ... > {};
template< int ... I > struct Count< 0, I ... > { typedef Ints< I ... > type; };

// what came back
inline void result( Obs & o, T & r) { o.push_back( & r == & rt || & r == & static_cast< Obj * >( const_cast< void * >( lg.obj) )->data ? 1 : -1); }
inline void result( Obs & o, T const& r) { o.push_back( & r == & rt || & r == & static_cast< Obj * >( const_cast< void * >( lg.obj) )->data ? 2 : -1); }
inline void result( Obs & o, T && r) { o.push_back( & r == & rt || & r == & static_cast< Obj * >( const_cast< void * >( lg.obj) )->data ? 3 : -1); }
inline void result( Obs & o, T const&& r) { o.push_back( & r == & rt || & r == & static_cast< Obj * >( const_cast< void * >( lg.obj) )->data ? 4 : -1); }
template< typename X > struct Take {
    template< typename F > static void run( Obs & o, F && f) { X && r = f(); result( o, std::forward< X >( r) ); }
};
template<> struct Take< void > { template< typename F > static void run( Obs & o, F && f) { f(); o.push_back( 0); } };
template<> struct Take< T > { template< typename F > static void run( Obs & o, F && f) { T r = f(); o.push_back( r.id == 4242 && r.copies == 0 ? 5 : -1); } };
template<> struct Take< MO > { template< typename F > static void run( Obs & o, F && f) { MO r = f(); o.push_back( r.id == 4242 ? 5 : -1); } };
template< typename X, typename F > void observe( Obs & o, F && f) {
    Obs r;
    try { Take< X >::run( r, std::forward< F >( f) ); } catch ( Err const& e) { r.clear(); r.push_back( e.id == 77 ? 0 : -1); }
    o.push_back( lg.calls); o.push_back( lg.badobj ? -1 : lg.self);
    for ( auto const& s : lg.seen) for ( long x : s) o.push_back( x);
    o.push_back( r[0]);
}

// callables: type and value
template< int FK, int FC, int R, typename ... P > struct Fn;
template< int R, typename ... P > struct Fn< 1, 1, R, P ... > { typedef Fun< R > & type; static type get() { static Fun< R > f; return f; } };
template< int R, typename ... P > struct Fn< 1, 2, R, P ... > { typedef Fun< R > const& type; static type get() { static Fun< R > f; return f; } };
template< int R, typename ... P > struct Fn< 1, 3, R, P ... > { typedef Fun< R > && type; static type get() { static Fun< R > f; return std::move( f); } };
template< int R, typename ... P > struct Fn< 1, 4, R, P ... > { typedef Fun< R > const&& type; static type get() { static Fun< R > f; return std::move( const_cast< Fun< R > const& >( f) ); } };
template< int R, typename ... P > struct Fn< 2, 0, R, P ... > { typedef typename Res< R >::type (* type)( P ... ); static type get() { return & fun< R, P ... >; } };
template< int R, typename ... P > struct Fn< 3, 0, R, P ... > { typedef typename Res< R >::type (& type)( P ... ); static type get() { return fun< R, P ... >; } };
template< int FC, int R, typename O, typename ... P > struct Fn< 4, FC, R, O, P ... > { typedef typename Mf< FC, R, P ... >::type const& type;
    static type get() { static typename Mf< FC, R, P ... >::type m = Mf< FC, R, P ... >::get(); return m; } };
template< int R, typename O > struct Fn< 5, 0, R, O > { typedef T Obj::* type; static type get() { return & Obj::data; } };
template< int R, typename ... P > struct Fn< 6, 0, R, P ... > { typedef FunV< R > && type; static type get() { static FunV< R > f; return std::move( f); } };
template< int FC, int R, typename ... P > struct Fn< 7, FC, R, P ... > { typedef typename Only< FC, R >::type type; static type get() { static Only< FC, R > f; return static_cast< type >( f); } };

inline void reset( int fk) {
    delete ar; ar = new Args;
    lg.calls = 0; lg.self = 0; lg.badobj = false; lg.seen.clear(); lg.first = fk == 4 || fk == 5 ? 1 : 0; lg.obj = & ar->obj;
}
#if __cplusplus < 202002L
template< int FK, int FC, int R, int ... A, int ... I >
void invoke_( Obs & o, Ints< A ... >, Ints< I ... >) {
    reset( FK);
    typedef Fn< FK, FC, R, typename Arg< A >::type ... > F;
    typedef decltype( bd::invoke( F::get(), Arg< A >::get( I) ... ) ) X;
    observe< X >( o, []() -> X { return bd::invoke( F::get(), Arg< A >::get( I) ... ); });
}
#endif
template< int TK, int ... A > struct Con { typedef std::tuple< typename El< A >::type ... > type; };
template< int A1, int A2 > struct Con< 2, A1, A2 > { typedef std::pair< typename El< A1 >::type, typename El< A2 >::type > type; };
template< int A1, int ... A > struct Con< 3, A1, A ... > { typedef std::array< T, 1 + sizeof...( A) > type; };
template< typename C, int TC > struct As;
template< typename C > struct As< C, 1 > { typedef C & type; };
template< typename C > struct As< C, 2 > { typedef C const& type; };
template< typename C > struct As< C, 3 > { typedef C && type; };
template< typename C > struct As< C, 4 > { typedef C const&& type; };
// parameter of a function called with element A of a container of category TC
template< typename C, int TC, int I > struct Par { typedef decltype( std::get< I >( std::declval< typename As< C, TC >::type >() ) ) type; };
template< int TK > struct Build { template< typename C, typename ... E > static C make( E && ... e) { return C( std::forward< E >( e) ... ); } };
template<> struct Build< 3 > { template< typename C, typename ... E > static C make( E && ... e) { return C{ { std::forward< E >( e) ... } }; } };
template< int ... > struct Notes { template< typename C > static void run( C &) {} };
template< int I, int A, int ... R > struct Notes< I, A, R ... > { template< typename C > static void run( C & c) { El< A >::note( I, std::get< I >( c) ); Notes< I + 1, R ... >::run( c); } };
template< int I > struct Notes< I > { template< typename C > static void run( C &) {} };
template< int FK, int FC, int TK, int TC, int R, int ... A, int ... I >
void apply_( Obs & o, Ints< A ... >, Ints< I ... >) {
    reset( FK);
    typedef typename Con< TK, A ... >::type C;
    C c = Build< TK >::template make< C >( El< A >::get( I) ... );
    Notes< 0, A ... >::run( c);
    typedef Fn< FK, FC, R, typename Par< C, TC, I >::type ... > F;
    typedef typename As< C, TC >::type U;
    typedef decltype( bd::apply( F::get(), static_cast< U >( c) ) ) X;
    observe< X >( o, [&c]() -> X { return bd::apply( F::get(), static_cast< U >( c) ); });
}
// head and tail: element types of source and target
template< int A > struct Se;
template<> struct Se< 1 > { typedef T s; typedef T t; static T get( int i) { return T( 100 + i); } static T tget( int) { return T( -5); } };
template<> struct Se< 2 > { typedef T & s; typedef T t; static s get( int i) { return ar->t[i]; } static T tget( int) { return T( -5); } };
template<> struct Se< 3 > { typedef T & s; typedef T & t; static s get( int i) { return ar->t[i]; } static t tget( int i) { static T x[16]; x[i] = T( -5); return x[i]; } };
template<> struct Se< 4 > { typedef V s; typedef T t; static s get( int i) { return V( 100 + i); } static T tget( int) { return T( -5); } };
template<> struct Se< 5 > { typedef MO s; typedef MO t; static s get( int i) { return MO( 100 + i); } static MO tget( int) { return MO( -5); } };
inline void clear( B const& b) { const_cast< B & >( b).copies = 0; const_cast< B & >( b).moves = 0; b.copied = 0; b.moved = false; }
inline void clear( V const&) {}
inline long copied( B const& b) { return b.copied; }
inline long copied( V const&) { return 0; }
template< int K, int N > struct Each {
    template< typename S > static void reset( S & s) { clear( std::get< K >( s) ); Each< K + 1, N >::reset( s); }
    template< typename U > static void ids( U & u, std::vector< long > & v) { v.push_back( std::get< K >( u).id); Each< K + 1, N >::ids( u, v); }
    template< typename S > static void out( Obs & o, S & s, std::vector< long > const& got) {
        long at = 0;
        for ( std::size_t i = 0; i < got.size(); ++i) if ( got[i] == 100 + K) at = at ? -1 : (long)i + 1;
        o.push_back( at); o.push_back( copied( std::get< K >( s) ) ); o.push_back( std::get< K >( s).moved ? 1 : 0);
        if ( std::get< K >( s).id != 100 + K) o.push_back( -7);
        Each< K + 1, N >::out( o, s, got);
    }
};
template< int N > struct Each< N, N > {
    template< typename S > static void reset( S &) {}
    template< typename U > static void ids( U &, std::vector< long > &) {}
    template< typename S > static void out( Obs &, S &, std::vector< long > const&) {}
};
template< int OFF, int M, int K, typename L, int ... A > struct Sub;
template< int OFF, int M, int K, int ... L, int A, int ... R > struct Sub< OFF, M, K, Ints< L ... >, A, R ... >
    : std::conditional< ( K >= OFF && K < OFF + M), Sub< OFF, M, K + 1, Ints< L ..., A >, R ... >, Sub< OFF, M, K + 1, Ints< L ... >, R ... > >::type {};
template< int OFF, int M, int K, int ... L > struct Sub< OFF, M, K, Ints< L ... > > { typedef Ints< L ... > type; };
template< int ... A > struct Tgt { typedef std::tuple< typename Se< A >::t ... > type;
    template< int ... I > static type make( Ints< I ... >) { return type( Se< A >::tget( I) ... ); } };
template< bool TAIL > struct Assign {
    template< typename U, typename S > static void run( U & u, S && s) { bd::head( u) = std::forward< S >( s); } };
template<> struct Assign< true > {
    template< typename U, typename S > static void run( U & u, S && s) { bd::tail( u) = std::forward< S >( s); } };
template< int H, int TC, int ... A, int ... I, int ... TA, int ... TI >
void tuple__( Obs & o, Ints< A ... >, Ints< I ... >, Ints< TA ... >, Ints< TI ... >) {
    reset( 0);
    typedef std::tuple< typename Se< A >::s ... > S;
    S s( Se< A >::get( I) ... );
    typedef typename Tgt< TA ... >::type U;
    U u( Se< TA >::tget( TI) ... );
    Each< 0, (int)sizeof...( A) >::reset( s);
    Assign< H == 4 >::run( u, static_cast< typename As< S, TC >::type >( s) );
    std::vector< long > got;
    Each< 0, (int)sizeof...( TA) >::ids( u, got);
    for ( long x : got) if ( x < 100) { o.push_back( -9); return; }
    Each< 0, (int)sizeof...( A) >::out( o, s, got);
}
template< int H, int TC, int M, int ... A >
void tuple_( Obs & o, Ints< A ... > a) {
    typedef typename Sub< ( H == 3 ? 0 : (int)sizeof...( A) - M), M, 0, Ints<>, A ... >::type TA;
    tuple__< H, TC >( o, a, typename Count< (int)sizeof...( A) >::type(), TA(), typename Count< M >::type() );
}
template< int A > struct Ex;
inline void exout( Obs & o, bool old, long oldcopies, long id, long copies, bool moved) { o.push_back( old && id == 2 ? 1 : -1); o.push_back( oldcopies); o.push_back( copies); o.push_back( moved ? 1 : 0); }
template<> struct Ex< 1 > { static void run( Obs & o) { T t( 1), n( 2); T r = bd::exchange( t, n); exout( o, r.id == 1, r.copies, t.id, n.copied, n.moved); } };
template<> struct Ex< 2 > { static void run( Obs & o) { T t( 1); const T n( 2); T r = bd::exchange( t, n); exout( o, r.id == 1, r.copies, t.id, n.copied, n.moved); } };
template<> struct Ex< 3 > { static void run( Obs & o) { T t( 1), n( 2); T r = bd::exchange( t, std::move( n) ); exout( o, r.id == 1, r.copies, t.id, n.copied, n.moved); } };
template<> struct Ex< 4 > { static void run( Obs & o) { T t( 1); V n( 2); T r = bd::exchange( t, n); exout( o, r.id == 1, r.copies, t.id, 0, n.moved); } };
template<> struct Ex< 5 > { static void run( Obs & o) { T t( 1); V n( 2); T r = bd::exchange( t, std::move( n) ); exout( o, r.id == 1, r.copies, t.id, 0, n.moved); } };
template<> struct Ex< 6 > { static void run( Obs & o) { MO t( 1), n( 2); MO r = bd::exchange( t, std::move( n) ); exout( o, r.id == 1, r.copies, t.id, n.copied, n.moved); } };
template<> struct Ex< 7 > { static void run( Obs & o) { T t( 1); T r = bd::exchange( t, { 2 }); exout( o, r.id == 1, r.copies, t.id, t.copies, true); } };

#if __cplusplus < 202002L
template< int FK, int FC, int R, int ... A > void case_invoke( Obs & o) { invoke_< FK, FC, R >( o, Ints< A ... >(), typename Count< (int)sizeof...( A) >::type() ); }
#endif
template< int FK, int FC, int TK, int TC, int R, int ... A > void case_apply( Obs & o) { apply_< FK, FC, TK, TC, R >( o, Ints< A ... >(), typename Count< (int)sizeof...( A) >::type() ); }
template< int H, int TC, int M, int ... A > void case_tuple( Obs & o) { tuple_< H, TC, M >( o, Ints< A ... >() ); }
template< int A > void case_exchange( Obs & o) { Ex< A >::run( o); }
