#include <cstring>
#include <cstdlib>
#include <new>
#include <boost/assert.hpp>
#include "h.hpp"
#include <boost/sync/exceptions/lock_error.hpp>
#include <boost/sync/exceptions/resource_error.hpp>
#include <boost/sync/exceptions/wait_error.hpp>
#include <boost/sync/exceptions/overflow_error.hpp>
#include <boost/sync/exceptions/runtime_exception.hpp>

namespace boost {
void assertion_failed(char const* expr, char const*, char const*, long) { char b[200]; strcpy(b, "assertion "); strncat(b, expr, 120); for (char* p = b; *p; ++p) if (*p == ';' || *p == '|') *p = '.'; vs_bad(b); }
void assertion_failed_msg(char const* expr, char const*, char const* f, char const* l, long n) { assertion_failed(expr, f, l, n); }
}
void* g_obj[1024]; int g_kind[1024]; int g_var[1024];
static Slot* g_slots; static int g_nobj;
Slot& slot(int t, int o) { return g_slots[t * g_nobj + o]; }
struct Op { char const* name; OpFn fn[K_MAX]; bool logged; int needs_lock; };
static Op g_ops[128]; static int g_nops;
struct KindRec { void* (*create)(ll); void (*destroy)(void*); };
static KindRec g_kinds[K_MAX];
static int findop(char const* n) { for (int i = 0; i < g_nops; ++i) if (!strcmp(g_ops[i].name, n)) return i; return -1; }
Reg::Reg(char const* name, int kind, OpFn fn, bool logged) {
    int i = findop(name); if (i < 0) { i = g_nops++; g_ops[i].name = name; g_ops[i].needs_lock = !strcmp(name, "unlock") || !strcmp(name, "unlock_sh") || !strcmp(name, "nate") ? 1 : !strcmp(name, "cvwait") ? 2 : 0; }
    g_ops[i].fn[kind] = fn; g_ops[i].logged = logged;
}
RegKind::RegKind(int kind, void* (*c)(ll), void (*d)(void*)) { g_kinds[kind].create = c; g_kinds[kind].destroy = d; }
thread_local volatile int tls_dummy;
extern "C" {
void h_touch_tls() { tls_dummy = 0; }   // makes the loader allocate the thread-local block
int h_opcode(char const* n) { return findop(n); }
int h_objkind(char const* n) {
    static char const* names[] = {"none", "mutex", "tmutex", "spin", "sspin", "cv", "cva", "sem", "are", "mre", "var", "tsp", "misc"};
    for (int i = 0; i < K_MAX; ++i) if (!strcmp(names[i], n)) return (i == K_VAR || i == K_NONE || i == K_TSP || g_kinds[i].create) ? i : -1; return -1;
}
void h_setup(VsScen const* s) {
    g_nobj = s->nobj ? s->nobj : 1; g_slots = (Slot*)operator new(sizeof(Slot) * g_nobj * (s->nthr + 1));
    for (int i = 0; i < g_nobj * (s->nthr + 1); ++i) { g_slots[i].via = -1; g_slots[i].sh = 0; g_slots[i].p = 0; }
    for (int i = 0; i < s->nobj; ++i) {
        g_kind[i] = s->obj[i].kind; g_obj[i] = 0;
        if (g_kind[i] == K_VAR) g_var[i] = (int)s->obj[i].init;
        else if (g_kinds[g_kind[i]].create && s->obj[i].init != -999) g_obj[i] = g_kinds[g_kind[i]].create(s->obj[i].init);
    }
}
void h_teardown(VsScen const* s) {
    for (int i = s->nobj - 1; i >= 0; --i) if (g_obj[i] && g_kind[i] != K_TSP && g_kinds[g_kind[i]].destroy) { void* p = g_obj[i]; g_obj[i] = 0; g_kinds[g_kind[i]].destroy(p); }
}
}
namespace bs = boost::sync;
struct pred_throw {};
static void run_op(int t, int k, VsOp const& o) {
    int kind = K_MISC; Op& op = g_ops[o.opc];
    if (o.nargs > 0 && o.a[0] >= 0 && o.a[0] < g_nobj && !op.fn[K_MISC] && op.fn[g_kind[o.a[0]]]) kind = g_kind[o.a[0]];
    if (!op.fn[kind]) { vs_bad("harness: operation not available for this object"); return; }
    if (!op.logged) { ll aux = 0; op.fn[kind](t, o, &aux); return; }
    if (op.needs_lock && slot(t, (int)o.a[op.needs_lock - 1]).via == -1) return;   // program steps that need a lock the thread did not get
    ll res, aux = 0;
    vs_call(k);
    try { res = op.fn[kind](t, o, &aux); }
    catch (bs::lock_error& e) { res = 10; aux = e.code().value(); }
    catch (bs::resource_error& e) { res = 11; aux = e.code().value(); }
    catch (bs::wait_error& e) { res = 12; aux = e.code().value(); }
    catch (bs::overflow_error& e) { res = 13; aux = e.code().value(); }
    catch (bs::runtime_exception& e) { res = 14; aux = e.code().value(); }
    catch (int e) { res = 20; aux = e; }
    catch (std::bad_alloc&) { res = 15; aux = 12; }
    catch (std::exception&) { res = 16; }
    vs_ret2(k, res, aux);
}
extern "C" void h_run(int t, VsScen const* s) {
    bool exited = false;
    for (int k = 0; k < s->nops[t]; ++k) run_op(t, k + 1, s->ops[t][k]);
    (void)exited;
}
// ---- objects and operations outside the library
static ll o_settle(int, VsOp const&, ll*) { vs_settle(); return 0; }
static ll o_open(int, VsOp const& o, ll*) { vs_open((int)o.a[0]); return 0; }
static ll o_await(int, VsOp const& o, ll*) { vs_await((int)o.a[0]); return 0; }
static ll o_sleep(int, VsOp const& o, ll*) { vs_sleep(o.a[0]); return 0; }
static ll o_jump(int, VsOp const& o, ll*) { vs_jump(o.a[0]); return 0; }
static ll o_watch(int, VsOp const& o, ll*) { vs_watch((int)o.a[0]); return 0; }
static ll o_setv(int, VsOp const& o, ll*) { g_var[o.a[0]] = (int)o.a[1]; vs_note(1, o.a[0], o.a[1]); return 0; }
static ll o_getv(int, VsOp const& o, ll*) { int v = g_var[o.a[0]]; vs_note(3, o.a[0], v); return 0; }
static char const* const fns[] = {"mutex_init", "mutex_lock", "mutex_trylock", "mutex_timedlock", "cond_init", "cond_wait", "cond_timedwait", "sem_init", "sem_post", "sem_wait", "sem_trywait", "sem_timedwait", "key_create", "futex_wait", "cond_signal", "mutex_unlock", "setspecific", "mutex_destroy", "cond_destroy",
    "create_event", "create_semaphore", "create_timer", "set_event", "reset_event", "release_semaphore", "set_timer", "wait", "tls_alloc", "tls_set", "dup_handle", "register_wait", "new"};
static ll o_inject(int t, VsOp const& o, ll*) { vs_inject(fns[o.a[0]], (int)o.a[1], (int)o.a[2], t); return 0; }
static ll o_create(int, VsOp const& o, ll*) { void* p = g_kinds[g_kind[o.a[0]]].create(o.a[1]); g_obj[o.a[0]] = p; return 1; }
static ll o_destroy(int, VsOp const& o, ll*) { void* p = g_obj[o.a[0]]; g_obj[o.a[0]] = 0; g_kinds[g_kind[o.a[0]]].destroy(p); return 1; }
static Reg r1("settle", K_MISC, o_settle, false), r2("open", K_MISC, o_open, false), r3("await", K_MISC, o_await, false), r4("sleep", K_MISC, o_sleep, false), r5("watch", K_MISC, o_watch, false),
    r6("setv", K_VAR, o_setv, false), r7("getv", K_VAR, o_getv, false), r8("inject", K_MISC, o_inject, false), r9("jump", K_MISC, o_jump, false);
static Reg c1("create", K_MUTEX, o_create), c2("create", K_TMUTEX, o_create), c3("create", K_SEM, o_create), c4("create", K_ARE, o_create), c5("create", K_MRE, o_create), c6("create", K_CV, o_create), c7("create", K_CVA, o_create),
    d1("destroy", K_MUTEX, o_destroy), d2("destroy", K_TMUTEX, o_destroy), d3("destroy", K_SEM, o_destroy), d4("destroy", K_ARE, o_destroy), d5("destroy", K_MRE, o_destroy), d6("destroy", K_CV, o_destroy), d7("destroy", K_CVA, o_destroy);
