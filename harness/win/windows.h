// Stand-in for <windows.h>; see winstub.hpp
#include "winstub.hpp"
typedef unsigned int DWORD; typedef int BOOL;
#define WINAPI
#define TRUE 1
#define FALSE 0
#define TLS_OUT_OF_INDEXES 0xffffffffu
#define TlsAlloc boost::winapi::TlsAlloc
#define TlsFree boost::winapi::TlsFree
#define TlsGetValue boost::winapi::TlsGetValue
#define TlsSetValue boost::winapi::TlsSetValue
#define SwitchToThread boost::winapi::SwitchToThread
// one-time initialization: the simulated pthread_once blocks concurrent callers and orders them, as InitOnceExecuteOnce does
extern "C" int pthread_once(int*, void (*)());
typedef int INIT_ONCE; typedef int (*PINIT_ONCE_FN)(void*, void*, void**);
#define INIT_ONCE_STATIC_INIT 0
static PINIT_ONCE_FN vsw_once_fn;
static inline void vsw_once_call() { vsw_once_fn(0, 0, 0); }
static inline int InitOnceExecuteOnce(INIT_ONCE* o, PINIT_ONCE_FN f, void*, void**) { __atomic_store_n(&vsw_once_fn, f, __ATOMIC_SEQ_CST); return pthread_once(o, &vsw_once_call) == 0; }
