// timed condition variable waits with every time type: tt cv form method count mutex pred(0/1)
#include "time_forms.hpp"
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
namespace bs = boost::sync;
static ll st(bs::cv_status s) { return s == bs::cv_status::no_timeout; }
static ll st(bool b) { return b; }
template<class C, class L> static ll go(VsOp const& o, L& l) {
    C& cv = *static_cast<C*>(g_obj[o.a[0]]);
    // a wait without a predicate may end early on its own (spurious wakeup): wait again, as users do, until the time point or the notification
    if (!o.a[5]) { ll r; do r = tf::call((int)o.a[1], (int)o.a[2], o.a[3], [&](auto const& d) { return st(cv.wait_for(l, d)); }, [&](auto const& p) { return st(cv.wait_until(l, p)); }, [&](auto const& v) { return st(cv.timed_wait(l, v)); }); while (r && o.a[1] >= 30 && g_var[2] == 0); return r; }
    auto pr = [] { return g_var[2] > 0; };
    return tf::call((int)o.a[1], (int)o.a[2], o.a[3], [&](auto const& d) { return st(cv.wait_for(l, d, pr)); }, [&](auto const& p) { return st(cv.wait_until(l, p, pr)); }, [&](auto const& v) { return st(cv.timed_wait(l, v, pr)); });
}
static ll t1(int, VsOp const& o, ll*) { bs::unique_lock<bs::mutex> l(*static_cast<bs::mutex*>(g_obj[o.a[4]])); return go<bs::condition_variable>(o, l); }
static ll t2(int, VsOp const& o, ll*) { bs::unique_lock<bs::mutex> l(*static_cast<bs::mutex*>(g_obj[o.a[4]])); return go<bs::condition_variable_any>(o, l); }
static Reg a("tt", K_CV, t1), b("tt", K_CVA, t2);
