// thread-specific pointers, exit callbacks, notification at thread exit
#include "h.hpp"
#include <boost/move/utility.hpp>
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <boost/sync/thread_specific/at_thread_exit.hpp>
#include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
#include <boost/sync/locks/unique_lock.hpp>
namespace bs = boost::sync;
extern "C" void vs_run_thread_exit();
// A value or callback may carry an action, performed when it is cleaned up or called:
//   100 + p  store a new value (id + 1000) in pointer p     200 + i  register exit callback i
//   300 + p  reset pointer p                                 400 + p  read pointer p
//   500      notify_all_at_thread_exit on object 0 (mutex, locked by this thread) and 1 (condition variable)
//   600 + i  register exit callbacks i and i + 1             700 + p  store, then register callback 77
struct Val { int id, act; Val(int i, int a) : id(i), act(a) {} ~Val(); };
typedef bs::thread_specific_ptr<Val> Ptr;
static Ptr* P(int o) { return static_cast<Ptr*>(g_obj[o]); }
static void act(int id, int a);
static void cleaned(Val* v, int fn) { vs_note(11, v->id, fn); int id = v->id, a = v->act; v->id = -1; act(id, a); }
Val::~Val() { if (id >= 0) cleaned(this, 0); }
static void raw(Val* v) { operator delete(static_cast<void*>(v)); }
static void fnA(Val* v) { cleaned(v, 1); raw(v); }
static void fnB(Val* v) { cleaned(v, 2); raw(v); }
static void* mkp(ll mode) {
    switch (mode) { case 0: return new Ptr(); case 1: return new Ptr(&fnA); case 2: return new Ptr(&fnB); default: return new Ptr(static_cast<void (*)(Val*)>(0)); }
}
static void rmp(void* p) { delete static_cast<Ptr*>(p); }
static int live[64];     // callback objects of each thread still alive
struct Cb {
    int id, act_, own;
    Cb(int i, int a) : id(i), act_(a), own(vs_self()) { ++live[own]; }
    Cb(Cb const& x) : id(x.id), act_(x.act_), own(x.own) { ++live[own]; }
    ~Cb() { --live[own]; }
    void operator()() const { vs_note(12, id, own); act(id, act_); }
};
static void plain() { vs_note(12, 99, vs_self()); }
static void act(int id, int a) {
    int k = a / 100, x = a % 100;
    switch (k) {
    case 1: case 7: vs_note(13, x, id + 1000); P(x)->reset(new Val(id + 1000, 0)); if (k == 7) { vs_note(14, 77, 0); bs::at_thread_exit(Cb(77, 0)); } break;
    case 2: vs_note(14, x, 0); bs::at_thread_exit(Cb(x, 0)); break;
    case 3: vs_note(13, x, 0); P(x)->reset(); break;
    case 4: { Val* v = P(x)->get(); vs_note(15, x, v ? v->id : 0); break; }
    case 5: { Slot& s = slot(vs_self(), 0); bs::unique_lock<bs::mutex>* l = static_cast<bs::unique_lock<bs::mutex>*>(s.p); s.p = 0; s.via = -1; vs_note(16, 0, 1); bs::notify_all_at_thread_exit(*static_cast<bs::condition_variable*>(g_obj[1]), boost::move(*l)); break; }
    case 6: vs_note(14, x, 0); bs::at_thread_exit(Cb(x, 0)); vs_note(14, x + 1, 0); bs::at_thread_exit(Cb(x + 1, 0)); break;
    }
}
struct Lib { Lib() { vs_alloc(1); } ~Lib() { vs_alloc(0); } };   // allocations in between are the library's
static ll pnew(int, VsOp const& o, ll*) { Lib l; g_obj[o.a[0]] = mkp(o.a[1]); return 1; }
static ll pdel(int, VsOp const& o, ll*) { delete P((int)o.a[0]); return 1; }
static ll pset(int, VsOp const& o, ll*) { Val* v = new Val((int)o.a[1], (int)o.a[2]); try { Lib l; P((int)o.a[0])->reset(v); } catch (std::bad_alloc&) { raw(v); throw; } return 1; }
static ll preset(int, VsOp const& o, ll*) { P((int)o.a[0])->reset(); return 1; }
static ll psame(int, VsOp const& o, ll*) { Ptr* p = P((int)o.a[0]); p->reset(p->get()); return 1; }
static ll prel(int, VsOp const& o, ll*) { Val* v = P((int)o.a[0])->release(); int r = v ? v->id : 0; if (v) raw(v); return r; }
static ll pget(int, VsOp const& o, ll* aux) {
    Ptr* p = P((int)o.a[0]); Val* v = p->get(); *aux = (!*p) ? 0 : 1; if (v && (&**p != v || p->operator->() != v || get_pointer(*p) != v)) vs_bad("accessors of thread_specific_ptr disagree"); return v ? v->id : 0;
}
static ll atexit_(int, VsOp const& o, ll*) { Lib l; if (o.a[0] == 99) bs::at_thread_exit(&plain); else bs::at_thread_exit(Cb((int)o.a[0], (int)o.a[1])); return 1; }
static ll nate(int t, VsOp const& o, ll* aux) {
    Slot& s = slot(t, (int)o.a[0]); bs::unique_lock<bs::mutex>* l = static_cast<bs::unique_lock<bs::mutex>*>(s.p); s.p = 0; s.via = -1; Lib lib;
    bs::notify_all_at_thread_exit(*static_cast<bs::condition_variable*>(g_obj[o.a[1]]), boost::move(*l)); *aux = l->owns_lock(); return 1;
}
// a key of the user's own, whose destructor uses the library: it may run before or after the library's own cleanup
struct Ext { int id, a; };
static void ext_dtor(void* p) { Ext e = *static_cast<Ext*>(p); operator delete(p); act(e.id, e.a); }
static ll ext(int, VsOp const& o, ll*) { pthread_key_t k; if (pthread_key_create(&k, &ext_dtor)) vs_bad("harness: no key"); Ext* e = static_cast<Ext*>(operator new(sizeof(Ext))); e->id = (int)o.a[0]; e->a = (int)o.a[1]; pthread_setspecific(k, e); return 0; }
#ifdef V_WIN   // what the system calls when a thread ends (TLS callback or DllMain)
namespace boost { namespace sync { namespace detail { namespace windows { void on_thread_exit(); void tss_cleanup_implemented() {} }}}}
static void thread_exit() { bs::detail::windows::on_thread_exit(); vs_run_thread_exit(); }
#else
static void thread_exit() { vs_run_thread_exit(); }
#endif
static ll exit_(int t, VsOp const&, ll* aux) { thread_exit(); *aux = live[t]; return 1; }
static RegKind k1(K_TSP, mkp, rmp);
static Reg r1("pnew", K_TSP, pnew), r2("pdel", K_TSP, pdel), r3("pset", K_TSP, pset), r4("preset", K_TSP, preset), r5("psame", K_TSP, psame), r6("prel", K_TSP, prel), r7("pget", K_TSP, pget),
    r8("atexit", K_MISC, atexit_), r9("nate", K_MUTEX, nate), r10("exit", K_MISC, exit_), r11("ext", K_MISC, ext, false);
