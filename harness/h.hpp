// Common part of the harness: interprets scenario programs against the public API of Boost.Sync.
#ifndef H_HPP
#define H_HPP
#ifdef V_NO_TIMEOUTS
#include <unistd.h>
#undef _POSIX_TIMEOUTS
#endif
#ifdef V_NO_SEM
#include <unistd.h>
#undef _POSIX_SEMAPHORES
#endif
#include <boost/assert.hpp>
#include <stdint.h>
#include <time.h>
#include <pthread.h>
#ifdef V_NO_STATIC_INIT
#include <mutex>
#include <condition_variable>
#include <iostream>
#include <ext/concurrence.h>
#endif
#include <chrono>
#include <boost/chrono/chrono.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include <boost/date_time/posix_time/conversion.hpp>
#ifdef V_NO_STATIC_INIT
#undef PTHREAD_MUTEX_INITIALIZER
#undef PTHREAD_COND_INITIALIZER
#endif
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/support/boost_chrono.hpp>
#include <boost/sync/support/boost_date_time.hpp>
#include <boost/sync/support/posix_time.hpp>
#include "../sim/vsim.h"

enum { K_NONE, K_MUTEX, K_TMUTEX, K_SPIN, K_SSPIN, K_CV, K_CVA, K_SEM, K_ARE, K_MRE, K_VAR, K_TSP, K_MISC, K_MAX };
typedef long long ll;
typedef ll (*OpFn)(int t, VsOp const& o, ll* aux);
struct Slot { int via; int sh; void* p; ll n; };
extern void* g_obj[1024];
extern int g_kind[1024];
extern int g_var[1024];
Slot& slot(int t, int o);
struct Reg { Reg(char const* name, int kind, OpFn fn, bool logged = true); };
struct RegKind { RegKind(int kind, void* (*create)(ll init), void (*destroy)(void*)); };

// ---- timed operations, in every supported unit and clock ---------------------------------------------------------------------
//  0 for std ns | 1 until std system | 2 until std steady | 3 timed std ms rel | 4 timed std system | 5 for boost ns
//  6 until boost system | 7 until boost steady | 8 timed posix_time rel | 9 timed ptime | 10 timed timespec | 11 timed std steady
//  12 until timespec | 13 for posix_time rel | 14 until ptime | 15 for std us | 16 for std s (double) | 17 timed boost ms rel
//  18 until std system seconds-resolution | 19 timed boost system | 20 for std minutes | 21 for boost us
inline bool form_is_rel(int f) { return f == 0 || f == 3 || f == 5 || f == 8 || f == 13 || f == 15 || f == 16 || f == 17 || f == 20 || f == 21; }
inline boost::posix_time::ptime mk_ptime(ll ns_since_epoch) {
    using namespace boost::posix_time;
    ll us = ns_since_epoch / 1000; ll s = us / 1000000, r = us % 1000000; if (r < 0) { r += 1000000; --s; }
    ll days = s / 86400, sod = s % 86400; if (sod < 0) { sod += 86400; --days; }
    return ptime(boost::gregorian::date(1970, 1, 1) + boost::gregorian::days((long)days), seconds((long)sod) + microseconds(r));
}
inline struct timespec mk_ts(ll ns) { struct timespec ts; ts.tv_sec = ns / 1000000000; ts.tv_nsec = ns % 1000000000; if (ts.tv_nsec < 0) { ts.tv_nsec += 1000000000; --ts.tv_sec; } return ts; }
typedef std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds> sys_ns;
typedef std::chrono::time_point<std::chrono::steady_clock, std::chrono::nanoseconds> std_ns;
// v: relative ns for relative forms, virtual absolute ns otherwise
template<class For, class Until, class Timed>
ll with_time(int form, ll v, For f, Until u, Timed t) {
    ll R = vs_real_base() + v, S = vs_steady_base() + v;
    switch (form) {
    case 0: return f(std::chrono::nanoseconds(v));
    case 1: return u(sys_ns(std::chrono::nanoseconds(R)));
    case 2: return u(std_ns(std::chrono::nanoseconds(S)));
    case 3: return t(std::chrono::milliseconds(v / 1000000));
    case 4: return t(sys_ns(std::chrono::nanoseconds(R)));
#ifndef V_FEWFORMS
    case 5: return f(boost::chrono::nanoseconds(v));
    case 6: return u(boost::chrono::time_point<boost::chrono::system_clock, boost::chrono::nanoseconds>(boost::chrono::nanoseconds(R)));
    case 7: return u(boost::chrono::time_point<boost::chrono::steady_clock, boost::chrono::nanoseconds>(boost::chrono::nanoseconds(S)));
    case 8: return t(boost::posix_time::microseconds(v / 1000));
    case 9: return t(mk_ptime(R));
    case 10: return t(mk_ts(R));
    case 11: return t(std_ns(std::chrono::nanoseconds(S)));
#endif
#ifdef V_ALLFORMS
    case 12: return u(mk_ts(R));
    case 13: return f(boost::posix_time::microseconds(v / 1000));
    case 14: return u(mk_ptime(R));
    case 15: return f(std::chrono::microseconds(v / 1000));
    case 16: return f(std::chrono::duration<double>(v * 1e-9));
    case 17: return t(boost::chrono::milliseconds(v / 1000000));
    case 18: return u(std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>(std::chrono::seconds(R / 1000000000)));
    case 19: return t(boost::chrono::time_point<boost::chrono::system_clock, boost::chrono::nanoseconds>(boost::chrono::nanoseconds(R)));
    case 20: return f(std::chrono::minutes(v / 60000000000LL));
    case 21: return f(boost::chrono::microseconds(v / 1000));
#endif
    }
    vs_bad("harness: unknown time form"); return 0;
}
#endif
