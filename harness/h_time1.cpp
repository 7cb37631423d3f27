// timed operations of mutexes, semaphores and events with every time type: tt obj form method count
#include "time_forms.hpp"
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
namespace bs = boost::sync;
template<class T> static T& x(VsOp const& o) { return *static_cast<T*>(g_obj[o.a[0]]); }
template<class T> static ll tt(int, VsOp const& o, ll*) {
    T& s = x<T>(o);
    return tf::call((int)o.a[1], (int)o.a[2], o.a[3], [&](auto const& d) { return s.wait_for(d); }, [&](auto const& p) { return s.wait_until(p); }, [&](auto const& v) { return s.timed_wait(v); });
}
static ll tl(int t, VsOp const& o, ll*) {
    bs::timed_mutex& m = x<bs::timed_mutex>(o);
    bool r = tf::call((int)o.a[1], (int)o.a[2], o.a[3], [&](auto const& d) { return m.try_lock_for(d); }, [&](auto const& p) { return m.try_lock_until(p); }, [&](auto const& v) { return m.timed_lock(v); });
    if (r) slot(t, (int)o.a[0]).via = 0;
    return r;
}
static Reg a("tt", K_SEM, tt<bs::semaphore>), b("tt", K_ARE, tt<bs::auto_reset_event>), c("tt", K_MRE, tt<bs::manual_reset_event>), d("tt", K_TMUTEX, tl);
