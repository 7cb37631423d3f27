// semaphore and events
#include "h.hpp"
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
namespace bs = boost::sync;
template<class T> static void rm(void* p) { delete static_cast<T*>(p); }
template<class T> static T& x(VsOp const& o) { return *static_cast<T*>(g_obj[o.a[0]]); }
static void* mksem(ll i) { return new bs::semaphore((unsigned)i); }
template<class T> static void* mk(ll) { return new T(); }
template<class T> static ll post(int, VsOp const& o, ll*) { x<T>(o).post(); return 1; }
template<class T> static ll wait(int, VsOp const& o, ll*) { x<T>(o).wait(); return 1; }
template<class T> static ll trywait(int, VsOp const& o, ll*) { return x<T>(o).try_wait(); }
template<class T> static ll twait(int, VsOp const& o, ll*) {
    T& s = x<T>(o);
    return with_time((int)o.a[1], o.a[2], [&](auto const& d) { return s.wait_for(d); }, [&](auto const& p) { return s.wait_until(p); }, [&](auto const& v) { return s.timed_wait(v); });
}
static ll mset(int, VsOp const& o, ll*) { x<bs::manual_reset_event>(o).set(); return 1; }
static ll mreset(int, VsOp const& o, ll*) { x<bs::manual_reset_event>(o).reset(); return 1; }
static RegKind k1(K_SEM, mksem, rm<bs::semaphore>), k2(K_ARE, mk<bs::auto_reset_event>, rm<bs::auto_reset_event>), k3(K_MRE, mk<bs::manual_reset_event>, rm<bs::manual_reset_event>);
#define R(T, K) static Reg a##K("wait", K, wait<T>), b##K("trywait", K, trywait<T>), c##K("twait", K, twait<T>)
R(bs::semaphore, K_SEM); R(bs::auto_reset_event, K_ARE); R(bs::manual_reset_event, K_MRE);
static Reg p1("post", K_SEM, post<bs::semaphore>), p2("post", K_ARE, post<bs::auto_reset_event>), s1("set", K_MRE, mset), s2("reset", K_MRE, mreset);
