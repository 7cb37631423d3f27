// condition variables
#include "h.hpp"
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/shared_lock.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
namespace bs = boost::sync;
template<class T> static void* mk(ll) { return new T(); }
template<class T> static void rm(void* p) { delete static_cast<T*>(p); }
// wait cv mutex form v pred need : pred = -1 none, otherwise index of a var; predicate is var >= need; need == 99: throws
template<class L> struct Pred {
    L* l; int var, need;
    static bool owns(bs::unique_lock<bs::mutex>& x) { return x.owns_lock(); }
    template<class Q> static bool owns(Q& x) { return owns2(x, 0); }
    template<class Q> static auto owns2(Q& x, int) -> decltype(x.owns_lock()) { return x.owns_lock(); }
    template<class Q> static bool owns2(Q&, long) { return true; }
    bool operator()() const { int v = g_var[var]; bool r = v >= need; bool ow = owns(*l); vs_note(2, need == 99 ? 2 : r, ow); if (need == 99) throw 7; return r; }
};
static ll st(bs::cv_status s) { return s == bs::cv_status::no_timeout; }
static ll st(bool b) { return b; }
template<class CV, class L> static ll do_wait(CV& cv, L& l, VsOp const& o) {
    int form = (int)o.a[2]; ll v = o.a[3]; int pv = (int)o.a[4];
    if (pv < 0) {
        if (form < 0) { cv.wait(l); return 1; }
        return with_time(form, v, [&](auto const& d) { return st(cv.wait_for(l, d)); }, [&](auto const& p) { return st(cv.wait_until(l, p)); }, [&](auto const& x) { return st(cv.timed_wait(l, x)); });
    }
    Pred<L> p = {&l, pv, (int)o.a[5]};
    if (form < 0) { cv.wait(l, p); return 1; }
    return with_time(form, v, [&](auto const& d) { return st(cv.wait_for(l, d, p)); }, [&](auto const& q) { return st(cv.wait_until(l, q, p)); }, [&](auto const& x) { return st(cv.timed_wait(l, x, p)); });
}
struct Own { template<class L> static bool get(L& l) { return l.owns_lock(); } };
template<class CV, class L> static ll waitul(CV& cv, void* p, VsOp const& o, ll* aux) {
    L& l = *static_cast<L*>(p); ll r;
    try { r = do_wait(cv, l, o); } catch (...) { if (!l.owns_lock()) vs_bad("lock not owned after an exception from wait"); throw; }
    *aux = l.owns_lock(); return r;
}
static ll cv_wait(int t, VsOp const& o, ll* aux) {
    bs::condition_variable& cv = *static_cast<bs::condition_variable*>(g_obj[o.a[0]]); int m = (int)o.a[1];
    switch (g_kind[m]) {
    case K_MUTEX: return waitul<bs::condition_variable, bs::unique_lock<bs::mutex> >(cv, slot(t, m).p, o, aux);
#ifndef V_NO_TIMEOUTS
    case K_TMUTEX: return waitul<bs::condition_variable, bs::unique_lock<bs::timed_mutex> >(cv, slot(t, m).p, o, aux);
#endif
    }
    vs_bad("harness: bad mutex kind"); return 0;
}
template<class M> static ll cva_w(bs::condition_variable_any& cv, int t, int m, VsOp const& o, ll* aux) {
    Slot& s = slot(t, m); typedef bs::condition_variable_any C;
    if (s.p) return waitul<C, bs::unique_lock<M> >(cv, s.p, o, aux);
    M& mm = *static_cast<M*>(g_obj[m]); ll r = do_wait(cv, mm, o); *aux = 1; return r;
}
static ll cva_wait(int t, VsOp const& o, ll* aux) {
    bs::condition_variable_any& cv = *static_cast<bs::condition_variable_any*>(g_obj[o.a[0]]); int m = (int)o.a[1];
    switch (g_kind[m]) {
    case K_MUTEX: return cva_w<bs::mutex>(cv, t, m, o, aux);
    case K_TMUTEX: return cva_w<bs::timed_mutex>(cv, t, m, o, aux);
    case K_SPIN: return cva_w<bs::spin_mutex>(cv, t, m, o, aux);
    case K_SSPIN:
        if (slot(t, m).sh) return waitul<bs::condition_variable_any, bs::shared_lock<bs::shared_spin_mutex> >(cv, slot(t, m).p, o, aux);
        return cva_w<bs::shared_spin_mutex>(cv, t, m, o, aux);
    }
    vs_bad("harness: bad mutex kind"); return 0;
}
template<class CV> static ll n1(int, VsOp const& o, ll*) { static_cast<CV*>(g_obj[o.a[0]])->notify_one(); return 1; }
template<class CV> static ll nN(int, VsOp const& o, ll*) { static_cast<CV*>(g_obj[o.a[0]])->notify_all(); return 1; }
static RegKind k1(K_CV, mk<bs::condition_variable>, rm<bs::condition_variable>), k2(K_CVA, mk<bs::condition_variable_any>, rm<bs::condition_variable_any>);
static Reg a1("cvwait", K_CV, cv_wait), a2("cvwait", K_CVA, cva_wait), b1("notify1", K_CV, n1<bs::condition_variable>), b2("notify1", K_CVA, n1<bs::condition_variable_any>), c1("notifyN", K_CV, nN<bs::condition_variable>), c2("notifyN", K_CVA, nN<bs::condition_variable_any>);
