// The part of the Windows API that boost.context uses, for building its Windows code on
// Linux; implemented by harness/winapi.cpp, specified by spec/WinFiber.tla.
#ifndef WIN_STUB_WINDOWS_H
#define WIN_STUB_WINDOWS_H
#define VOID void
typedef void * LPVOID;
typedef unsigned DWORD;
typedef unsigned long SIZE_T;
typedef int BOOL;
typedef DWORD * PDWORD;
#define FALSE 0
#define TRUE 1
#define WINAPI
#define ERROR_NOT_ENOUGH_MEMORY 8u
#define ERROR_ALREADY_FIBER 1280u
#define ERROR_ALREADY_THREAD 1281u
#define MEM_COMMIT 0x1000u
#define MEM_RESERVE 0x2000u
#define MEM_RELEASE 0x8000u
#define PAGE_NOACCESS 0x01u
#define PAGE_READWRITE 0x04u
#define PAGE_GUARD 0x100u
typedef VOID (WINAPI * LPFIBER_START_ROUTINE)( LPVOID);
typedef struct { DWORD dwPageSize; DWORD dwAllocationGranularity; } SYSTEM_INFO;
#ifdef __cplusplus
extern "C" {
#endif
LPVOID ConvertThreadToFiber( LPVOID param);
BOOL ConvertFiberToThread( void);
BOOL IsThreadAFiber( void);
LPVOID GetCurrentFiber( void);
LPVOID CreateFiber( SIZE_T size, LPFIBER_START_ROUTINE fn, LPVOID param);
VOID SwitchToFiber( LPVOID fiber);
VOID DeleteFiber( LPVOID fiber);
DWORD GetLastError( void);
LPVOID VirtualAlloc( LPVOID at, SIZE_T size, DWORD type, DWORD prot);
BOOL VirtualProtect( LPVOID at, SIZE_T size, DWORD prot, PDWORD old);
BOOL VirtualFree( LPVOID at, SIZE_T size, DWORD type);
VOID GetSystemInfo( SYSTEM_INFO * si);
#ifdef __cplusplus
}
#endif
#endif
