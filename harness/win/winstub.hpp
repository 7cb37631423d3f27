// Stand-in for the parts of Boost.WinAPI, <windows.h> and Boost's interlocked operations that the Windows implementation of the
// library uses, backed by the simulated kernel objects of sim/vsim.cpp. It lets the Windows sources be compiled and run here.
#ifndef V_WINSTUB_HPP
#define V_WINSTUB_HPP
#include <cstddef>
#include <cstdint>
#include <climits>
#define BOOST_WINAPI_VERSION_WIN6 0x0600
#ifndef BOOST_USE_WINAPI_VERSION
#define BOOST_USE_WINAPI_VERSION 0x0501
#endif
#define BOOST_WINAPI_NTAPI_CC
#define BOOST_WINAPI_WINAPI_CC
#define ERROR_ALREADY_EXISTS 183
#define BOOST_INTERLOCKED_COMPARE_EXCHANGE(p, x, c) vsw_cas((p), (x), (c))
#define BOOST_INTERLOCKED_EXCHANGE(p, x) __atomic_exchange_n((p), (long)(x), __ATOMIC_SEQ_CST)
static inline long vsw_cas(long* p, long x, long c) { long e = c; __atomic_compare_exchange_n(p, &e, x, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
extern "C" {
void* vsw_event(int manual, int initial);
void* vsw_semaphore(int initial, int max, wchar_t const* name);
void* vsw_open_semaphore(wchar_t const* name);
void* vsw_timer(int manual);
int vsw_set_event(void* h);
int vsw_reset_event(void* h);
int vsw_release(void* h, int n);
int vsw_set_timer(void* h, long long due);
unsigned vsw_wait(int n, void* const* h, unsigned ms);
int vsw_close(void* h);
unsigned vsw_error();
unsigned vsw_tls_alloc();
int vsw_tls_free(unsigned k);
void* vsw_tls_get(unsigned k);
int vsw_tls_set(unsigned k, void* p);
int vsw_dup(void* h, void** out);
int vsw_register(void** out, void* h, void (*f)(void*, unsigned char), void* ctx);
unsigned long long vsw_filetime();
int vsw_query_sem(void* h, unsigned* info);
int sched_yield() noexcept;
}
namespace boost { namespace winapi {
typedef void* HANDLE_; typedef void* HMODULE_; typedef void* PVOID_; typedef void VOID_; typedef void* LPVOID_;
typedef unsigned int DWORD_; typedef int BOOL_; typedef unsigned char BOOLEAN_; typedef int LONG_; typedef unsigned int ULONG_; typedef int NTSTATUS_; typedef long long LONGLONG_;
struct LARGE_INTEGER_ { long long QuadPart; };
struct FILETIME_ { unsigned dwLowDateTime, dwHighDateTime; };
static HANDLE_ const invalid_handle_value = (HANDLE_)(intptr_t)-1;
const DWORD_ infinite = 0xffffffffu, wait_failed = 0xffffffffu, wait_object_0 = 0u, wait_timeout = 258u, wait_abandoned = 128u, max_non_infinite_wait = 0xfffffffeu;
const DWORD_ tls_out_of_indexes = 0xffffffffu, duplicate_same_access = 2u, semaphore_all_access = 0x1F0003u, wt_execute_in_wait_thread = 4u, wt_execute_only_once = 8u;
inline HANDLE_ create_anonymous_event(void*, BOOL_ manual, BOOL_ initial) { return vsw_event(manual, initial); }
inline HANDLE_ create_anonymous_semaphore(void*, LONG_ initial, LONG_ max) { return vsw_semaphore(initial, max, 0); }
inline HANDLE_ create_anonymous_waitable_timer(void*, BOOL_ manual) { return vsw_timer(manual); }
inline HANDLE_ CreateSemaphoreW(void*, LONG_ initial, LONG_ max, wchar_t const* name) { return vsw_semaphore(initial, max, name); }
inline HANDLE_ OpenSemaphoreW(DWORD_, BOOL_, wchar_t const* name) { return vsw_open_semaphore(name); }
inline BOOL_ SetEvent(HANDLE_ h) { return vsw_set_event(h); }
inline BOOL_ ResetEvent(HANDLE_ h) { return vsw_reset_event(h); }
inline BOOL_ ReleaseSemaphore(HANDLE_ h, LONG_ n, LONG_*) { return vsw_release(h, n); }
inline BOOL_ SetWaitableTimer(HANDLE_ h, LARGE_INTEGER_ const* due, LONG_, void*, void*, BOOL_) { return vsw_set_timer(h, due->QuadPart); }
inline DWORD_ WaitForSingleObject(HANDLE_ h, DWORD_ ms) { return vsw_wait(1, &h, ms); }
inline DWORD_ WaitForMultipleObjects(DWORD_ n, HANDLE_ const* h, BOOL_, DWORD_ ms) { return vsw_wait((int)n, h, ms); }
inline BOOL_ CloseHandle(HANDLE_ h) { return vsw_close(h); }
inline DWORD_ GetLastError() { return vsw_error(); }
inline DWORD_ TlsAlloc() { return vsw_tls_alloc(); }
inline BOOL_ TlsFree(DWORD_ k) { return vsw_tls_free(k); }
inline void* TlsGetValue(DWORD_ k) { return vsw_tls_get(k); }
inline BOOL_ TlsSetValue(DWORD_ k, void* p) { return vsw_tls_set(k, p); }
inline HANDLE_ GetCurrentProcess() { return (HANDLE_)(intptr_t)-1; }
inline DWORD_ GetCurrentProcessId() { return 0x1a2b3c4du; }
inline HANDLE_ GetCurrentThread() { return (HANDLE_)(intptr_t)-2; }
inline BOOL_ DuplicateHandle(HANDLE_, HANDLE_ h, HANDLE_, HANDLE_* out, DWORD_, BOOL_, DWORD_) { return vsw_dup(h, out); }
inline BOOL_ RegisterWaitForSingleObject(HANDLE_* out, HANDLE_ h, void (*f)(PVOID_, BOOLEAN_), void* ctx, ULONG_, ULONG_) { return vsw_register(out, h, f, ctx); }
inline BOOL_ UnregisterWait(HANDLE_) { return 1; }
inline BOOL_ SwitchToThread() { sched_yield(); return 1; }
inline void GetSystemTimeAsFileTime(FILETIME_* p) { unsigned long long v = vsw_filetime(); p->dwLowDateTime = (unsigned)v; p->dwHighDateTime = (unsigned)(v >> 32); }
inline HMODULE_ GetModuleHandleW(wchar_t const*) { return (HMODULE_)1; }
inline NTSTATUS_ vsw_nt_query(HANDLE_ h, unsigned, void* info, ULONG_, ULONG_*) { return vsw_query_sem(h, (unsigned*)info); }
inline void* get_proc_address(HMODULE_, char const*) { return (void*)&vsw_nt_query; }
}}
#undef LONG_MAX
#define LONG_MAX 2147483647L
#endif
