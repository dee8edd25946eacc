// what the replay harness uses of harness/sanapi.cpp
#ifndef SANAPI_HPP
#define SANAPI_HPP
// calls and events, as recorded for spec/SanFiber.tla
enum SanCall { S_START = 1, S_FINISH, S_CREATE, S_SWITCH, S_DESTROY, S_MAIN, S_RUN, S_ALLOC, S_RELEASE, S_EXIT };
struct SanRec { int call, thread, a, b; };
extern SanRec sanlog[];
extern volatile int nsanlog;
// a stack is handed out, a stack is given back, something is executed at `frame`, the thread ends
void san_alloc( int region, void * lo, void * hi);
void san_reserve( int region, void * hi);      // from here on it is used for other things
void san_release( int region);
void san_run( void * frame);
void san_exit();
#endif
