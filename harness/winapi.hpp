// what the harnesses use of harness/winapi.cpp beside the API itself
#ifndef WINAPI_HPP
#define WINAPI_HPP
// calls, as recorded for spec/WinFiber.tla
enum WinCall { W_CONVERT = 1, W_BACK, W_IS, W_CURRENT, W_CREATE, W_SWITCH, W_DELETE, W_USER, W_USERBACK, W_END };
struct WinRec { int call, thread, fiber, ok; };
extern WinRec winlog[];
extern volatile int nwinlog;
extern bool win_fail_create;            // CreateFiber fails
extern volatile int win_live;           // fibers created and not deleted
extern void (*win_misuse)( const char * what);
// the program itself makes its thread a fiber
void win_user_convert();
void win_user_convert_back();
// the thread with that number has ended
int win_thread();
void win_thread_end( int id);
#endif
