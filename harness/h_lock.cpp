// mutexes and the lock objects that hold them
#include "h.hpp"
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
#include <boost/sync/locks/lock_guard.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/shared_lock.hpp>
#include <boost/sync/locks/shared_lock_guard.hpp>
#include <boost/sync/locks/unlock_guard.hpp>
#include <boost/sync/locks/lock_options.hpp>
namespace bs = boost::sync;
// via: 0 the mutex itself, 1 unique_lock (deferred, then lock()), 2 lock_guard, 3 unique_lock (locking constructor), 4 unique_lock(try/timed constructor)
template<class M> static M& mx(VsOp const& o) { return *static_cast<M*>(g_obj[o.a[0]]); }
template<class M> static void* mk(ll) { return new M(); }
template<class M> static void rm(void* p) { delete static_cast<M*>(p); }
template<class M> static ll lock(int t, VsOp const& o, ll* aux) {
    M& m = mx<M>(o); Slot& s = slot(t, (int)o.a[0]); int via = (int)o.a[1];
    if (s.p) {  // existing, unlocked unique_lock
        static_cast<bs::unique_lock<M>*>(s.p)->lock(); *aux = static_cast<bs::unique_lock<M>*>(s.p)->owns_lock(); return 1;
    }
    switch (via) {
    case 0: m.lock(); break;
    case 1: { bs::unique_lock<M>* l = new bs::unique_lock<M>(m, bs::defer_lock); try { l->lock(); } catch (...) { bool ow = l->owns_lock(); delete l; if (ow) vs_bad("lock object owns after a failed lock"); throw; } s.p = l; *aux = l->owns_lock(); break; }
    case 2: s.p = new bs::lock_guard<M>(m); break;
    case 3: { bs::unique_lock<M>* l = new bs::unique_lock<M>(m); s.p = l; *aux = l->owns_lock(); break; }
    case 4: { m.lock(); bs::unique_lock<M>* l = new bs::unique_lock<M>(m, bs::adopt_lock); s.p = l; *aux = l->owns_lock(); break; }
    case 5: { m.lock(); s.p = new bs::lock_guard<M>(m, bs::adopt_lock); via = 2; break; }
    }
    s.via = via; return 1;
}
template<class M> static ll trylock(int t, VsOp const& o, ll* aux) {
    M& m = mx<M>(o); Slot& s = slot(t, (int)o.a[0]); int via = (int)o.a[1]; bool r;
    if (s.p) { bs::unique_lock<M>* l = static_cast<bs::unique_lock<M>*>(s.p); r = l->try_lock(); *aux = l->owns_lock(); return r; }
    switch (via) {
    case 1: { bs::unique_lock<M>* l = new bs::unique_lock<M>(m, bs::defer_lock); r = l->try_lock(); *aux = l->owns_lock(); if (r) { s.p = l; s.via = 1; } else delete l; return r; }
    case 3: { bs::unique_lock<M>* l = new bs::unique_lock<M>(m, bs::try_to_lock); r = l->owns_lock(); *aux = r; if (r) { s.p = l; s.via = 1; } else delete l; return r; }
    default: r = m.try_lock(); if (r) s.via = 0; *aux = r; return r;
    }
}
template<class M> static ll unlock(int t, VsOp const& o, ll* aux) {
    M& m = mx<M>(o); Slot& s = slot(t, (int)o.a[0]); int mode = o.nargs > 1 ? (int)o.a[1] : 0; (void)aux;
    void* p = s.p;
    switch (s.via) {
    case 0: m.unlock(); s.via = -1; break;
    case 2: s.p = 0; s.via = -1; delete static_cast<bs::lock_guard<M>*>(p); break;
    default:
        if (mode == 1) { static_cast<bs::unique_lock<M>*>(p)->unlock(); break; }   // keep the object
        s.p = 0; s.via = -1; delete static_cast<bs::unique_lock<M>*>(p); break;
    }
    return 1;
}
// release and re-acquire through unlock_guard: two operations for the specification
template<class M> static ll tlock(int t, VsOp const& o, ll* aux) {
    M& m = mx<M>(o); Slot& s = slot(t, (int)o.a[0]); int via = (int)o.a[1]; int form = (int)o.a[2]; ll v = o.a[3]; bool r;
    if (via == 0 && !s.p) {
        r = with_time(form, v, [&](auto const& d) { return m.try_lock_for(d); }, [&](auto const& p) { return m.try_lock_until(p); }, [&](auto const& x) { return m.timed_lock(x); });
        if (r) s.via = 0; *aux = r; return r;
    }
    bs::unique_lock<M>* l = s.p ? static_cast<bs::unique_lock<M>*>(s.p) : 0;
    if (!l && via == 3) { l = (bs::unique_lock<M>*)(size_t)with_time(form, v, [&](auto const& d) { return (ll)(size_t)new bs::unique_lock<M>(m, d); }, [&](auto const& p) { return (ll)(size_t)new bs::unique_lock<M>(m, p); }, [&](auto const& x) { return (ll)(size_t)new bs::unique_lock<M>(m, x); }); r = l->owns_lock(); }
    else {
        if (!l) l = new bs::unique_lock<M>(m, bs::defer_lock);
        r = with_time(form, v, [&](auto const& d) { return l->try_lock_for(d); }, [&](auto const& p) { return l->try_lock_until(p); }, [&](auto const& x) { return l->timed_lock(x); });
    }
    *aux = l->owns_lock();
    if (r) { s.p = l; s.via = 1; } else if (!s.p) delete l;
    return r;
}
// shared: via 0 mutex, 1 shared_lock, 2 shared_lock_guard, 3 shared_lock(locking/trying ctor), 6 the mutex itself, as many shares at once as the third argument says
typedef bs::shared_spin_mutex SM;
static ll lock_sh(int t, VsOp const& o, ll* aux) {
    SM& m = mx<SM>(o); Slot& s = slot(t, (int)o.a[0]); int via = (int)o.a[1];
    switch (via) {
    case 0: m.lock_shared(); break;
    case 6: for (s.n = 0; s.n < o.a[2]; ++s.n) m.lock_shared(); break;
    case 1: { bs::shared_lock<SM>* l = new bs::shared_lock<SM>(m, bs::defer_lock); l->lock(); *aux = l->owns_lock(); s.p = l; break; }
    case 2: s.p = new bs::shared_lock_guard<SM>(m); break;
    case 3: { bs::shared_lock<SM>* l = new bs::shared_lock<SM>(m); *aux = l->owns_lock(); s.p = l; via = 1; break; }
    }
    s.via = via; s.sh = 1; return 1;
}
static ll trylock_sh(int t, VsOp const& o, ll* aux) {
    SM& m = mx<SM>(o); Slot& s = slot(t, (int)o.a[0]); int via = (int)o.a[1]; bool r;
    switch (via) {
    case 1: { bs::shared_lock<SM>* l = new bs::shared_lock<SM>(m, bs::defer_lock); r = l->try_lock(); *aux = l->owns_lock(); if (r) { s.p = l; s.via = 1; } else delete l; break; }
    case 3: { bs::shared_lock<SM>* l = new bs::shared_lock<SM>(m, bs::try_to_lock); r = l->owns_lock(); *aux = r; if (r) { s.p = l; s.via = 1; } else delete l; break; }
    default: r = m.try_lock_shared(); if (r) s.via = 0; *aux = r;
    }
    if (r) s.sh = 1; return r;
}
static ll unlock_sh(int t, VsOp const& o, ll*) {
    SM& m = mx<SM>(o); Slot& s = slot(t, (int)o.a[0]); void* p = s.p; int via = s.via; s.p = 0; s.via = -1; s.sh = 0;
    if (via == 0) m.unlock_shared(); else if (via == 6) for (; s.n; --s.n) m.unlock_shared(); else if (via == 2) delete static_cast<bs::shared_lock_guard<SM>*>(p); else delete static_cast<bs::shared_lock<SM>*>(p);
    return 1;
}
static RegKind k1(K_MUTEX, mk<bs::mutex>, rm<bs::mutex>), k2(K_TMUTEX, mk<bs::timed_mutex>, rm<bs::timed_mutex>), k3(K_SPIN, mk<bs::spin_mutex>, rm<bs::spin_mutex>), k4(K_SSPIN, mk<SM>, rm<SM>);
#define R(M, K) static Reg a##K("lock", K, lock<M>), b##K("trylock", K, trylock<M>), c##K("unlock", K, unlock<M>)
R(bs::mutex, K_MUTEX); R(bs::timed_mutex, K_TMUTEX); R(bs::spin_mutex, K_SPIN); R(SM, K_SSPIN);
static Reg t1("tlock", K_TMUTEX, tlock<bs::timed_mutex>), s1("lock_sh", K_SSPIN, lock_sh), s2("trylock_sh", K_SSPIN, trylock_sh), s3("unlock_sh", K_SSPIN, unlock_sh);
