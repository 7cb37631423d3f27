// vsim: deterministic simulator for concurrent C++ code.
//
// The code under test is compiled with -fsanitize=thread but linked against THIS runtime: every atomic operation (with its memory
// order), fence and plain access of the harness shared object calls into this file, and so does every OS primitive (futex, pthread
// mutex/cond/once/keys, POSIX semaphores, clocks). Threads are fibers on one OS thread, time is virtual, and every source of
// nondeterminism is a numbered choice, explored by bounded depth-first search and by seeded random search. The output is the set of
// distinct histories (calls, returns, happens-before vectors, quiescent points), which the TLA+ specification judges.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <iostream>
#include <new>
#include <dlfcn.h>
#include <link.h>
#include <elf.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>
#include <signal.h>
#include <cxxabi.h>
#include <execinfo.h>
#include <exception>
#include "vsim.h"

typedef unsigned long long u64;
typedef long long i64;
#define NOINL __attribute__((noinline))
#define CALLER ((u64)__builtin_return_address(0))

// ------------------------------------------------------------------------------------------------ configuration
static int MAXT = 0;               // number of fibers allocated
static const int HBN = 12;         // max threads (incl. thread 0) for happens-before tracking
struct VC { unsigned c[HBN]; };
static inline void vc_zero(VC& v) { memset(&v, 0, sizeof v); }
static inline void vc_join(VC& a, VC const& b) { for (int i = 0; i < HBN; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Opts {
    int bound = 2; long maxexec = 20000; long nrand = 200; u64 seed = 1; bool hb = true; int eintr = 0; int spurious = 0; int weakcas = 1;
    int timejump = 1; int leak = 0; long maxsteps = 20000; double maxsec = 20; int pctrand = 15; int maxhist = 100000; i64 rbase = 1700000000LL * 1000000000LL + 900000000LL; i64 sbase = 5000LL * 1000000000LL + 300000000LL;
};

enum BK { B_NONE, B_MUTEX, B_COND, B_SEM, B_FUTEX, B_ONCE, B_SLEEP, B_SETTLE, B_GATE, B_DONE, B_GUARD, B_RW, B_JOINALL, B_WIN };

struct Fiber {
    void* sp; char* stack; bool started; int tid;
    BK bk; u64 bobj; i64 dl;         // blocked on / deadline (absolute virtual ns, -1 none)
    bool woken; int intr;            // woken by signal/wake; intr: 1 = return EINTR/spurious at dl2
    i64 dl2; bool dlreal; i64 rb0;   // dlreal: dl is a reading of the system clock, made when that clock had offset rb0
    bool soft; u64 softG;            // spinning, no progress since change counter softG
    int grace;
    int err; void* ehglob[2]; std::vector<char> tls;
    VC clk, frel, acqp;
    std::vector<void*> keys;
    std::vector<unsigned> opclk;
    std::vector<u64> seen; u64 seenG;
    bool skip;                       // skip next scheduling point (just called)
    bool spurious; bool skip_spur; bool late;
    bool lib;
    int wn; unsigned wh[2]; unsigned wres, werr; std::vector<void*> wtls;
};
struct Mutex { int owner; VC rel; int kind; bool dead; bool inited; };
struct Cond { std::vector<int> q; bool dead; int clock; bool inited; };
struct Sem { unsigned val; VC rel; bool dead; };
struct Once { int st; VC rel; };
// Windows kernel objects: 1 auto-reset event, 2 manual-reset event, 3 semaphore, 4 waitable timer, 5 thread
struct Win { int kind; i64 val, max; i64 due; bool armed, mono; VC rel; int refs; std::wstring name; int thr; };
struct WReg { void (*f)(void*, unsigned char); void* ctx; int thr; };

static std::vector<Fiber> F;
static int cur = -1;                // current fiber, -1 = scheduler
static int in_sim = 1;
static void* sched_sp;
static i64 now_ns;
static u64 G;                        // global change counter
static std::vector<Mutex> M; static std::vector<Cond> C; static std::vector<Sem> S; static std::vector<Once> ON; static std::vector<Win> W; static std::vector<int> WH; static std::vector<WReg> WR; static unsigned wtls_n;
static Opts O;
static long steps;
static bool ended; static std::string endwhy;
static int nthr; static VsScen scen;
static std::vector<std::string> hist; static std::vector<char> histkind;
static std::vector<bool> gates; static std::vector<VC> gateclk;
static u64 lib_lo, lib_hi;

struct SimScope { int sv; SimScope() { sv = in_sim; in_sim = 1; } ~SimScope() { in_sim = sv; } };
static inline bool active() { return cur >= 0 && !in_sim; }
static inline bool from_lib(u64 pc) { return pc >= lib_lo && pc < lib_hi; }

// ------------------------------------------------------------------------------------------------ choices
struct Choice { unsigned short n, pick; unsigned char cost; unsigned char costs_hi; };
struct ChoiceRec { int n, pick; std::vector<unsigned char> costs; };
static std::vector<ChoiceRec> path; static size_t pathpos; static int costsofar; static bool randmode, replaymode;
static std::vector<int> replay_picks; static u64 rng; static long diverged;
static u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static std::vector<int> picks;
static int rand_left;
static int choose(int n, unsigned char const* costs) {
    if (n <= 1) return 0;
    int p = 0;
    if (replaymode) {
        p = picks.size() < replay_picks.size() ? replay_picks[picks.size()] : 0;
        if (p >= n) { p = 0; ++diverged; }
        picks.push_back(p); return p;
    }
    if (randmode) {
        int z = 0; for (int i = 0; i < n; ++i) if (!costs[i]) ++z;
        bool pay = (int)(rnd() % 100) < O.pctrand && z < n && rand_left > 0;
        if (pay || !z) { int k = rnd() % (n - z); for (int i = 0; i < n; ++i) if (costs[i] && k-- == 0) { p = i; break; } --rand_left; }
        else { int k = rnd() % z; for (int i = 0; i < n; ++i) if (!costs[i] && k-- == 0) { p = i; break; } }
        picks.push_back(p); return p;
    }
    if (pathpos < path.size()) {
        ChoiceRec& r = path[pathpos];
        if (r.n != n) { ++diverged; path.resize(pathpos); }
        else { p = r.pick; costsofar += r.costs[p]; ++pathpos; picks.push_back(p); return p; }
    }
    ChoiceRec r; r.n = n; r.pick = 0; r.costs.assign(costs, costs + n);
    // the first option must be affordable: options are ordered with a zero-cost one first
    path.push_back(r); ++pathpos; costsofar += costs[0]; picks.push_back(0);
    return 0;
}
static bool backtrack() {
    while (!path.empty()) {
        int base = 0; for (size_t i = 0; i + 1 < path.size(); ++i) base += path[i].costs[path[i].pick];
        ChoiceRec& r = path.back();
        int p = r.pick + 1;
        while (p < r.n && base + r.costs[p] > O.bound) ++p;
        if (p < r.n) { r.pick = p; return true; }
        path.pop_back();
    }
    return false;
}

// ------------------------------------------------------------------------------------------------ history
static void ev(char kind, const char* fmt, ...) {
    char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    hist.push_back(std::string(1, kind) + " " + b); histkind.push_back(kind);
}
static void to_sched();
static NOINL void die(std::string const& why) {   // ends the execution (from fiber context)
    if (!ended) { ended = true; endwhy = why; ev('B', "%d %s", cur, why.c_str()); }
    if (cur >= 0) { for (;;) to_sched(); }
}

// ------------------------------------------------------------------------------------------------ fibers
extern "C" void vs_swap(void** save, void* load);
asm(".text\n.globl vs_swap\n.type vs_swap,@function\nvs_swap:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
    "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n.size vs_swap,.-vs_swap\n");
static const size_t STK = 128 * 1024;
static char* tls_ptr; static size_t tls_size; static std::vector<char> tls_init;
struct EHG { void* a; unsigned b; };
static void save_ctx(Fiber& f) {
    f.err = errno; EHG* g = (EHG*)abi::__cxa_get_globals(); f.ehglob[0] = g->a; f.ehglob[1] = (void*)(u64)g->b;
    if (tls_size) memcpy(f.tls.data(), tls_ptr, tls_size);
}
static void load_ctx(Fiber& f) {
    errno = f.err; EHG* g = (EHG*)abi::__cxa_get_globals(); g->a = f.ehglob[0]; g->b = (unsigned)(u64)f.ehglob[1];
    if (tls_size) memcpy(tls_ptr, f.tls.data(), tls_size);
}
static void to_sched() {   // called with in_sim = 1
    Fiber& f = F[cur]; save_ctx(f); int me = cur; cur = -1; vs_swap(&f.sp, sched_sp); (void)me;
}
static void resume(int t) { cur = t; load_ctx(F[t]); vs_swap(&sched_sp, F[t].sp); in_sim = 1; }
static void switch_to(int t) {   // direct switch fiber -> fiber
    Fiber& f = F[cur]; save_ctx(f); cur = t; load_ctx(F[t]); vs_swap(&f.sp, F[t].sp);
}
static void fiber_body(int t);
static void fiber_entry() { int t = cur; fiber_body(t); for (;;) to_sched(); }
static void fiber_init(int t) {
    Fiber& f = F[t];
    if (!f.stack) {
        f.stack = (char*)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (f.stack == MAP_FAILED) { perror("mmap"); _exit(3); }
    }
    u64* sp = (u64*)(f.stack + STK - 64); sp = (u64*)((u64)sp & ~15ULL);
    *--sp = 0; *--sp = (u64)&fiber_entry; for (int i = 0; i < 6; ++i) *--sp = 0;
    f.sp = sp; f.started = false; f.tid = t; f.bk = B_NONE; f.dl = f.dl2 = -1; f.dlreal = false; f.rb0 = 0; f.woken = false; f.intr = 0; f.soft = false; f.grace = 0;
    f.err = 0; f.ehglob[0] = f.ehglob[1] = 0; f.tls = tls_init; vc_zero(f.clk); vc_zero(f.frel); vc_zero(f.acqp); f.keys.clear(); f.opclk.assign(1, 0u);
    f.seen.clear(); f.seenG = 0; f.skip = false; f.wn = 0; f.lib = false; f.werr = 0; f.wtls.clear(); if (t < HBN) f.clk.c[t] = 1;
}

// ------------------------------------------------------------------------------------------------ arena
static char* arena; static const size_t ARENA = 64u << 20; static size_t arena_top; static std::vector<unsigned char> ast; // per 16 bytes: 0 none 1 live 2 freed
struct AH { size_t n; size_t magic; };
static void* arena_alloc(size_t n) {
    size_t tot = ((n ? n : 1) + sizeof(AH) + 16 + 15) & ~15ULL;
    if (arena_top + tot > ARENA) { fprintf(stderr, "arena exhausted\n"); _exit(3); }
    AH* h = (AH*)(arena + arena_top); h->n = n; h->magic = 0xA11CA11CULL;
    size_t g0 = (arena_top + sizeof(AH)) / 16, g1 = (arena_top + sizeof(AH) + (n ? n : 1) + 15) / 16;
    if (ast.size() < g1 + 4) ast.resize(g1 * 2 + 64);
    for (size_t g = g0; g < g1; ++g) ast[g] = 1;
    ast[g1] = 3;
    arena_top += tot; memset(h + 1, 0xCD, n); return h + 1;
}
static inline bool in_arena(void const* p) { return (char const*)p >= arena && (char const*)p < arena + ARENA; }
static void arena_free(void* p) {
    AH* h = (AH*)p - 1; size_t off = (char*)p - arena; size_t g0 = off / 16;
    if (off % 16 || g0 >= ast.size() || h->magic != 0xA11CA11CULL || ast[g0] != 1) { SimScope s; die(ast[g0] == 2 ? "double-free" : "bad-free"); return; }
    size_t g1 = (off + (h->n ? h->n : 1) + 15) / 16; for (size_t g = g0; g < g1; ++g) ast[g] = 2;
}
static bool lib_alloc_fails();
void* operator new(size_t n) { if (active()) { SimScope s; if (lib_alloc_fails()) throw std::bad_alloc(); return arena_alloc(n); } void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return operator new(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return operator new(n); }
void operator delete(void* p) noexcept { if (!p) return; if (in_arena(p)) { arena_free(p); return; } free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ------------------------------------------------------------------------------------------------ shadow memory (plain accesses)
struct Cell { unsigned char off, size, tid, wr; unsigned ep; };
struct Gran { u64 key; unsigned gen; std::vector<Cell> cells; };
static std::vector<Gran> shadow(1 << 14); static unsigned sgen = 1; static size_t sused;
static Gran& gran(u64 key) {
    for (;;) {
        size_t m = shadow.size() - 1, i = (key * 0x9E3779B97F4A7C15ULL >> 20) & m;
        for (;; i = (i + 1) & m) {
            Gran& g = shadow[i];
            if (g.gen != sgen) {
                if (sused * 2 > shadow.size()) break;
                g.gen = sgen; g.key = key; g.cells.clear(); ++sused; return g;
            }
            if (g.key == key) return g;
        }
        std::vector<Gran> old; old.swap(shadow); shadow.resize(old.size() * 2); unsigned og = sgen; sgen = 1; sused = 0;
        for (auto& g : old) if (g.gen == og) { Gran& n = gran(g.key); n.cells.swap(g.cells); }
    }
}
static bool dbg = getenv("VS_DEBUG") != 0;
static void dbg_bt() { void* bt[16]; int n = backtrace(bt, 16); backtrace_symbols_fd(bt, n, 2); }
static void plain1(u64 a, unsigned sz, bool wr) {
    Gran& g = gran(a >> 3); unsigned off = a & 7; int t = cur; VC& my = F[t].clk; bool done = false;
    for (Cell& c : g.cells) {
        if (c.tid == t) { if (!done && c.off == off && c.size == sz && c.wr == wr) { c.ep = my.c[t]; done = true; } continue; }
        if (off < (unsigned)c.off + c.size && c.off < off + sz && (wr || c.wr) && c.ep > my.c[c.tid]) { if (dbg) { dbg_bt(); fprintf(stderr, "race at %llx, other thread %d\n", a, c.tid); } die("data-race"); return; }
    }
    if (!done) { Cell c; c.off = off; c.size = sz; c.tid = t; c.wr = wr; c.ep = my.c[t]; g.cells.push_back(c); }
}
static std::vector<std::pair<char*, char*>> datasegs;
static bool tracked(void* p) {
    if (in_arena(p)) return true;
    for (auto& r : datasegs) if ((char*)p >= r.first && (char*)p < r.second) return true;
    for (int t = 0; t <= nthr; ++t) if (p >= F[t].stack && p < F[t].stack + STK) return true;
    return false;
}
static NOINL void plain(void* p, size_t n, bool wr) {
    if (!active()) return;
    SimScope s; u64 a = (u64)p;
    if (a < 4096) { die("null-access"); return; }
    if (in_arena(p)) {
        size_t g0 = (a - (u64)arena) / 16, g1 = (a - (u64)arena + n - 1) / 16;
        for (size_t g = g0; g <= g1; ++g) { int st = g < ast.size() ? ast[g] : 0; if (st != 1) { die(st == 2 ? "use-after-free" : "out-of-bounds"); return; } }
    }
    if (!O.hb || nthr >= HBN) return;
    if (!tracked(p)) return;   // e.g. exception objects, recycled by the C++ runtime
    while (n) { unsigned k = 8 - (a & 7); if (k > n) k = n; plain1(a, k, wr); a += k; n -= k; }
}
// atomics: location clocks
struct ALoc { u64 key; unsigned gen; VC rel; };
static std::vector<ALoc> atab(1 << 12); static unsigned agen = 1;
static ALoc& aloc(u64 key) {
    size_t m = atab.size() - 1, i = (key * 0x9E3779B97F4A7C15ULL >> 24) & m;
    for (size_t k = 0; k <= m; ++k, i = (i + 1) & m) {
        ALoc& l = atab[i];
        if (l.gen != agen) { l.gen = agen; l.key = key; vc_zero(l.rel); return l; }
        if (l.key == key) return l;
    }
    fprintf(stderr, "atomic table full\n"); _exit(3);
}
static bool hbon() { return O.hb && nthr < HBN; }
static inline bool isacq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool isrel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void tickme() { if (cur < HBN) ++F[cur].clk.c[cur]; }
static void hb_load(u64 a, int mo) {
    if (!hbon()) return; ALoc& l = aloc(a); Fiber& f = F[cur];
    if (isacq(mo)) vc_join(f.clk, l.rel); vc_join(f.acqp, l.rel);
}
static void hb_store(u64 a, int mo, bool rmw) {
    if (!hbon()) return; ALoc& l = aloc(a); Fiber& f = F[cur];
    VC r; if (isrel(mo)) r = f.clk; else r = f.frel;
    if (rmw) vc_join(l.rel, r); else l.rel = r;
    if (isrel(mo)) tickme();
}
// acquire/release on OS objects
static void hb_acq(VC const& r) { if (hbon()) { vc_join(F[cur].clk, r); } }
static void hb_rel(VC& r) { if (hbon()) { vc_join(r, F[cur].clk); tickme(); } }

// ------------------------------------------------------------------------------------------------ scheduling
static bool enabled(int t) {
    Fiber& f = F[t];
    switch (f.bk) {
    case B_NONE: return true;
    case B_DONE: return false;
    case B_MUTEX: return M[f.bobj].owner == 0 || (f.dl >= 0 && now_ns >= f.dl) || (f.dl2 >= 0 && now_ns >= f.dl2);
    case B_SEM: return S[f.bobj].val > 0 || (f.dl >= 0 && now_ns >= f.dl) || (f.dl2 >= 0 && now_ns >= f.dl2);
    case B_COND: case B_FUTEX: return f.woken || (f.dl >= 0 && now_ns >= f.dl) || (f.dl2 >= 0 && now_ns >= f.dl2);
    case B_ONCE: return ON[f.bobj].st != 1;
    case B_GUARD: return f.woken;
    case B_SLEEP: return now_ns >= f.dl;
    case B_SETTLE: return f.woken;
    case B_GATE: return gates[f.bobj];
    case B_JOINALL: return f.woken;
    case B_WIN: return f.woken;
    default: return true;
    }
}
static int lo_t, hi_t;   // schedulable thread range [lo_t, hi_t]
static bool win_sig(Win const& w) { return w.kind == 4 ? w.armed && now_ns >= w.due : w.val > 0; }
static void win_take(Fiber& f, int i) { Win& w = W[f.wh[i]]; if (w.kind == 1) w.val = 0; else if (w.kind == 3) --w.val; else if (w.kind == 4 && !w.max) w.armed = false; if (hbon()) vc_join(f.clk, w.rel); }
static void win_wake(Fiber& f, unsigned res) { f.woken = true; f.wres = res; f.dl = f.dl2 = -1; }
// the kernel ends a wait at the moment its timer or its timeout expires
static void win_timeouts() {
    for (int t = lo_t; t <= hi_t; ++t) { Fiber& f = F[t]; if (f.bk != B_WIN || f.woken) continue;
        bool done = false; for (int i = 0; i < f.wn && !done; ++i) if (win_sig(W[f.wh[i]])) { win_take(f, i); win_wake(f, i); done = true; }
        if (!done && f.dl >= 0 && f.dl <= now_ns) win_wake(f, 258); }
}
// ... and hands a signalled object over to the threads blocked on it
static void win_satisfy(unsigned o) {
    while (win_sig(W[o])) {
        int c[64], k = 0; static unsigned char z[64]; for (int t = lo_t; t <= hi_t && k < 64; ++t) if (F[t].bk == B_WIN && !F[t].woken) for (int i = 0; i < F[t].wn; ++i) if (F[t].wh[i] == o) { c[k++] = t; break; }
        if (!k) break;
        int p = W[o].kind == 2 ? 0 : choose(k > 8 ? 8 : k, z); Fiber& f = F[c[p]]; int i = f.wh[0] == o ? 0 : 1; win_take(f, i); win_wake(f, i); ++G;
    }
}
static i64 next_deadline() {
    i64 m = -1;
    for (int t = lo_t; t <= hi_t; ++t) { Fiber& f = F[t]; if (f.bk == B_DONE || f.bk == B_NONE) continue;
        if (f.dl > now_ns && (m < 0 || f.dl < m)) m = f.dl; if (f.dl2 > now_ns && (m < 0 || f.dl2 < m)) m = f.dl2; }
    return m;
}
// A thread blocked on a mutex or semaphore may report a timeout only if the resource was unavailable when its deadline passed.
static void set_time(i64 t) {
    i64 old = now_ns; now_ns = t; ++G;
    for (int k = lo_t; k <= hi_t; ++k) { Fiber& f = F[k];
        if (f.dl > old && f.dl <= t) { if (f.bk == B_MUTEX) f.late = M[f.bobj].owner != 0; else if (f.bk == B_SEM) f.late = S[f.bobj].val == 0; }
    }
    win_timeouts();
}
static std::string tns(i64 t) { char b[40]; snprintf(b, sizeof b, "%lld", (long long)t); return b; }
static long timesteps = 0;
// the threads blocked in the system with a timeout that is running
static std::string timed_waiters() {
    std::string r; for (int t = lo_t; t <= hi_t; ++t) if (F[t].bk != B_NONE && F[t].bk != B_DONE && (F[t].dl > now_ns || (F[t].bk == B_WIN && F[t].dl2 > now_ns)) && !enabled(t)) r += (r.empty() ? "" : ",") + std::to_string(t);
    return r.empty() ? "-" : r;
}
// Picks the next thread to run. Returns -1 when the execution is over.
static int pick(bool cur_can) {
    static int opt[4096]; static unsigned char cost[4096];
    for (;;) {
        if (ended) return -1;
        if (++steps > O.maxsteps) { die_nofiber: ended = true; endwhy = "livelock"; ev('B', "%d livelock", cur); return -1; }
        int n = 0;
        if (cur_can && !(F[cur].soft && F[cur].softG == G)) { opt[n] = cur; cost[n++] = 0; }
        bool havecur = n > 0;
        for (int t = lo_t; t <= hi_t; ++t) {
            if (t == cur && cur_can) continue;
            Fiber& f = F[t];
            if (f.bk == B_NONE && f.soft && f.softG == G) continue;
            if (f.bk == B_DONE) continue;
            if (enabled(t)) { opt[n] = t; cost[n++] = havecur ? 1 : 0; if (n >= 4000) break; }
        }
        int nt = n;
        if (n > 0) {
            if (O.timejump) { i64 d = next_deadline(); if (d >= 0) { opt[n] = -2; cost[n++] = 1; } }
            int p = choose(n, cost);
            if (p < nt) return opt[p];
            i64 d = next_deadline(); std::string bl = timed_waiters(); set_time(d); ev('T', "%s %s", tns(d).c_str(), bl.c_str()); continue;
        }
        // nobody can make progress: give spinning threads a bounded number of further rounds
        bool any = false; int sp = -1;
        for (int t = lo_t; t <= hi_t; ++t) if (F[t].bk == B_NONE && F[t].soft && F[t].softG == G) { any = true; if (F[t].grace < 6 && (sp < 0 || F[t].grace < F[sp].grace)) sp = t; }
        if (any && sp >= 0) { ++F[sp].grace; F[sp].seen.clear(); F[sp].soft = false; return sp; }
        // quiescent
        bool settle = false; for (int t = lo_t; t <= hi_t; ++t) if (F[t].bk == B_SETTLE && !F[t].woken) settle = true;
        bool alldone = true; for (int t = lo_t; t <= hi_t; ++t) if (F[t].bk != B_DONE) alldone = false;
        if (!alldone) ev('Q', "%d", 0);
        if (settle) {
            int c[64], k = 0; unsigned char z[64]; for (int t = lo_t; t <= hi_t && k < 64; ++t) if (F[t].bk == B_SETTLE && !F[t].woken) { c[k] = t; z[k++] = 0; }
            int p = choose(k, z); F[c[p]].woken = true; ++G; continue;
        }
        i64 d = next_deadline();
        if (d >= 0) {
            // nothing was observed since the time last passed: one step of time says the same
            size_t k = histkind.size(); if (k >= 3 && histkind[k - 1] == 'Q' && histkind[k - 2] == 'T' && histkind[k - 3] == 'Q') { hist.resize(k - 2); histkind.resize(k - 2); }
            set_time(d); ev('T', "%s", tns(d).c_str()); steps = 0;
            if (++timesteps > 20000) { ended = true; endwhy = "cut"; return -1; }   // gives up without a verdict on what follows
            continue;
        }
        ended = true; endwhy = alldone ? "done" : "stuck";
        return -1;
        goto die_nofiber;
    }
}
// scheduling point of a running thread
static void sched_point() {
    Fiber& f = F[cur];
    if (f.skip) { f.skip = false; if (++steps > O.maxsteps) die("livelock"); return; }
    int t = pick(true);
    if (t < 0) { for (;;) to_sched(); }
    if (t != cur) switch_to(t);
    if (ended) for (;;) to_sched();
}
static void block() {   // current thread set its bk; returns when scheduled again (enabled)
    F[cur].skip = false;
    int t = pick(false);
    if (t < 0) { for (;;) to_sched(); }
    if (t != cur) switch_to(t);
    if (ended) for (;;) to_sched();
}
static void unblock_self() { Fiber& f = F[cur]; f.bk = B_NONE; f.dl = f.dl2 = -1; f.woken = false; f.soft = false; f.grace = 0; }
// a read that observed (pc, addr, val) without effect; detects spinning
static void observed(u64 pc, u64 addr, u64 val) {
    Fiber& f = F[cur];
    if (f.seenG != G) { f.seen.clear(); f.seenG = G; f.soft = false; f.grace = 0; }
    u64 h = (pc * 0x9E3779B97F4A7C15ULL) ^ (addr * 0xC2B2AE3D27D4EB4FULL) ^ (val * 0x165667B19E3779F9ULL);
    int k = 0; for (u64 x : f.seen) if (x == h) ++k;
    f.seen.push_back(h);
    if (k >= 2) { f.soft = true; f.softG = G; f.seen.clear(); }
    if (f.soft) { f.skip = false; sched_point(); }
}
static void changed() { ++G; }

// ------------------------------------------------------------------------------------------------ __tsan interface
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { plain(p, n, false); } void __tsan_write##n(void* p) { plain(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { plain(p, n, false); } void __tsan_unaligned_write##n(void* p) { plain(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { plain(p, n, false); } void __tsan_volatile_write##n(void* p) { plain(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) plain(p, n, false); }
void __tsan_write_range(void* p, size_t n) { if (n) plain(p, n, true); }
void __tsan_vptr_update(void** p, void*) { plain(p, 8, true); }
void __tsan_vptr_read(void** p) { plain(p, 8, false); }
void __tsan_atomic_thread_fence(int mo) {
    if (!active()) return; SimScope s; sched_point(); if (!hbon()) return;
    Fiber& f = F[cur]; if (isacq(mo)) vc_join(f.clk, f.acqp); if (isrel(mo)) { f.frel = f.clk; tickme(); }
}
void __tsan_atomic_signal_fence(int) {}
}
static bool achk(void const* p, size_t n) {
    if ((u64)p < 4096) { die("null-access"); return false; }
    if (in_arena(p)) { size_t g = ((u64)p - (u64)arena) / 16; int st = g < ast.size() ? ast[g] : 0; if (st != 1) { die(st == 2 ? "use-after-free" : "out-of-bounds"); return false; } }
    (void)n; return true;
}
template<class T> static T a_load(T const volatile* a, int mo, u64 pc) {
    if (!active()) return *a; SimScope s; sched_point(); achk((void*)a, sizeof(T)); T v = *a; hb_load((u64)a, mo); observed(pc, (u64)a, (u64)v); return v;
}
template<class T> static void a_store(T volatile* a, T v, int mo) {
    if (!active()) { *a = v; return; } SimScope s; sched_point(); achk((void*)a, sizeof(T)); if (*a != v) changed(); *a = v; hb_store((u64)a, mo, false);
}
template<class T, class Fn> static T a_rmw(T volatile* a, int mo, u64 pc, Fn fn) {
    if (!active()) { T o = *a; *a = fn(o); return o; }
    SimScope s; sched_point(); achk((void*)a, sizeof(T)); T o = *a; T n = fn(o); *a = n; hb_load((u64)a, mo); hb_store((u64)a, mo, true);
    if (n != o) changed(); else observed(pc, (u64)a, (u64)o); return o;
}
template<class T> static int a_cas(T volatile* a, T* c, T v, int mo, int fmo, bool weak, u64 pc) {
    if (!active()) { if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
    SimScope s; sched_point(); achk((void*)a, sizeof(T)); T o = *a;
    if (o == *c) {
        if (weak && O.weakcas && !F[cur].spurious) {
            static const unsigned char z[2] = {0, 1};
            if (choose(2, z) == 1) { F[cur].spurious = true; hb_load((u64)a, fmo); observed(pc, (u64)a, (u64)o); return 0; }
        }
        F[cur].spurious = false;
        *a = v; hb_load((u64)a, mo); hb_store((u64)a, mo, true); if (v != o) changed(); else observed(pc, (u64)a, (u64)o); return 1;
    }
    hb_load((u64)a, fmo); *c = o; observed(pc, (u64)a, (u64)o); return 0;
}
extern "C" {
#define AT(N, T) \
T __tsan_atomic##N##_load(T const volatile* a, int mo) { return a_load<T>(a, mo, CALLER); } \
void __tsan_atomic##N##_store(T volatile* a, T v, int mo) { a_store<T>(a, v, mo); } \
T __tsan_atomic##N##_exchange(T volatile* a, T v, int mo) { return a_rmw<T>(a, mo, CALLER, [=](T) { return v; }); } \
T __tsan_atomic##N##_fetch_add(T volatile* a, T v, int mo) { return a_rmw<T>(a, mo, CALLER, [=](T o) { return (T)(o + v); }); } \
T __tsan_atomic##N##_fetch_sub(T volatile* a, T v, int mo) { return a_rmw<T>(a, mo, CALLER, [=](T o) { return (T)(o - v); }); } \
T __tsan_atomic##N##_fetch_and(T volatile* a, T v, int mo) { return a_rmw<T>(a, mo, CALLER, [=](T o) { return (T)(o & v); }); } \
T __tsan_atomic##N##_fetch_or(T volatile* a, T v, int mo) { return a_rmw<T>(a, mo, CALLER, [=](T o) { return (T)(o | v); }); } \
T __tsan_atomic##N##_fetch_xor(T volatile* a, T v, int mo) { return a_rmw<T>(a, mo, CALLER, [=](T o) { return (T)(o ^ v); }); } \
T __tsan_atomic##N##_fetch_nand(T volatile* a, T v, int mo) { return a_rmw<T>(a, mo, CALLER, [=](T o) { return (T)~(o & v); }); } \
int __tsan_atomic##N##_compare_exchange_strong(T volatile* a, T* c, T v, int mo, int fmo) { return a_cas<T>(a, c, v, mo, fmo, false, CALLER); } \
int __tsan_atomic##N##_compare_exchange_weak(T volatile* a, T* c, T v, int mo, int fmo) { return a_cas<T>(a, c, v, mo, fmo, true, CALLER); } \
T __tsan_atomic##N##_compare_exchange_val(T volatile* a, T c, T v, int mo, int fmo) { a_cas<T>(a, &c, v, mo, fmo, false, CALLER); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
}

// ------------------------------------------------------------------------------------------------ fault injection
struct Inj { std::string fn; int err; int skip; int thr; };
static std::vector<Inj> injs;
static int injected(char const* fn) {
    for (size_t i = 0; i < injs.size(); ++i) if (injs[i].fn == fn && (injs[i].thr < 0 || injs[i].thr == cur)) {
        if (injs[i].skip-- > 0) return 0;
        int e = injs[i].err; injs.erase(injs.begin() + i); ++G; ev('N', "%d 95 %s %d", cur, fn, e); return e;
    }
    return 0;
}
static bool lib_alloc_fails() { return cur >= 0 && !injs.empty() && F[cur].lib && injected("new"); }
extern "C" void vs_alloc(int on) { if (cur >= 0) F[cur].lib = on; }
static bool os_watch;
static void watch_dl(i64 abs_ns_hi, i64 ns) { if (os_watch) ev('N', "%d 90 %lld %lld", cur, (long long)abs_ns_hi, (long long)ns); }

// ------------------------------------------------------------------------------------------------ OS objects
struct Tag { unsigned magic, id; };
static const unsigned MG_M = 0x4d555458, MG_C = 0x434f4e44, MG_S = 0x53454d31, MG_O = 0x4f4e4345;
static unsigned obj_gen_base_m, obj_gen_base_c;
static void* live(void* p) { achk(p, 1); return p; }
static unsigned mid(pthread_mutex_t* m, bool create = true) {
    Tag* t = (Tag*)live(m);
    if (t->magic != MG_M || t->id >= M.size() || M[t->id].dead) {
        if (!create) return ~0u;
        if (t->magic == MG_M && t->id < M.size() && M[t->id].dead) { die("use of destroyed mutex"); }
        if (t->magic != 0 && t->magic != MG_M) { die("use of uninitialized mutex"); }
        Mutex x; x.owner = 0; vc_zero(x.rel); x.kind = m->__data.__kind & 3; x.dead = false; x.inited = false; t->magic = MG_M; t->id = M.size(); M.push_back(x);
    }
    return t->id;
}
static unsigned cid(pthread_cond_t* c) {
    Tag* t = (Tag*)live(c);
    if (t->magic != MG_C || t->id >= C.size() || C[t->id].dead) {
        if (t->magic == MG_C && t->id < C.size() && C[t->id].dead) die("use of destroyed condition variable");
        if (t->magic != 0 && t->magic != MG_C) die("use of uninitialized condition variable");
        Cond x; x.dead = false; x.inited = false; x.clock = CLOCK_REALTIME; t->magic = MG_C; t->id = C.size(); C.push_back(x);
    }
    return t->id;
}
static unsigned sid(sem_t* s) {
    Tag* t = (Tag*)live(s);
    if (t->magic != MG_S || t->id >= S.size() || S[t->id].dead) { die("use of uninitialized or destroyed semaphore"); return 0; }
    return t->id;
}
static i64 abs2virt(struct timespec const* ts, int clock) {   // saturating
    i64 base = clock == CLOCK_REALTIME ? O.rbase : O.sbase; __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec - base;
    if (v < 0) v = 0; if (v > (__int128)4000000000000000000LL) v = 4000000000000000000LL; return (i64)v;
}
// an absolute deadline on the system clock moves when that clock is set
static i64 absdl(struct timespec const* ts, int clock) { F[cur].dlreal = clock == CLOCK_REALTIME; F[cur].rb0 = O.rbase; return abs2virt(ts, clock); }
static void redl(i64& dl) { Fiber& f = F[cur]; if (dl >= 0 && f.dlreal && O.rbase != f.rb0) { i64 d = O.rbase - f.rb0; dl = dl > d ? dl - d : 0; f.rb0 = O.rbase; } }
static bool badts(struct timespec const* ts) { return ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000; }
static const unsigned char Z01[3] = {0, 1, 1};

static int mtx_lock(unsigned id, i64 dl) {   // after scheduling point; dl -1 = none
    Fiber& f = F[cur];
    for (;;) {
        if (M[id].owner == 0) break;
        if (M[id].owner == cur) { if (M[id].kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; }
        if (dl >= 0 && now_ns >= dl) return ETIMEDOUT;
        f.late = false; f.bk = B_MUTEX; f.bobj = id; f.dl = dl; f.dl2 = -1; block();
        dl = f.dl; bool exp = dl >= 0 && now_ns >= dl; unblock_self();
        if (exp && M[id].owner == 0 && f.late) { if (choose(2, Z01) == 1) return ETIMEDOUT; }
    }
    M[id].owner = cur; hb_acq(M[id].rel); changed(); return 0;
}
static void mtx_unlock(unsigned id) { hb_rel(M[id].rel); M[id].owner = 0; changed(); }

extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, pthread_mutexattr_t const* a) {
    if (!active()) { memset(m, 0, sizeof *m); return 0; }
    SimScope s; sched_point(); if (int e = injected("mutex_init")) return e; live(m); memset(m, 0, sizeof *m); if (a) m->__data.__kind = *(int*)a & 3; M[mid(m)].inited = true; return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!active()) return 0;
    SimScope s; sched_point(); if (int e = injected("mutex_destroy")) return e; unsigned id = mid(m); if (M[id].owner) { die("destroyed a locked mutex"); return EBUSY; } M[id].dead = true; return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!active() || !from_lib(CALLER)) return 0;
    SimScope s; sched_point(); if (int e = injected("mutex_lock")) return e; unsigned id = mid(m);
    return mtx_lock(id, -1);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!active() || !from_lib(CALLER)) return 0;
    SimScope s; sched_point(); if (int e = injected("mutex_trylock")) return e; unsigned id = mid(m);
    if (M[id].owner) { observed(CALLER, (u64)m, M[id].owner); return EBUSY; }
    return mtx_lock(id, -1);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, struct timespec const* ts) {
    if (!active()) return 0;
    SimScope s; sched_point(); if (int e = injected("mutex_timedlock")) return e; unsigned id = mid(m);
    if (badts(ts) && M[id].owner) return EINVAL;
    watch_dl(ts->tv_sec, ts->tv_nsec);
    return mtx_lock(id, absdl(ts, CLOCK_REALTIME));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t clk, struct timespec const* ts) {
    if (!active()) return 0;
    SimScope s; sched_point(); if (int e = injected("mutex_timedlock")) return e; unsigned id = mid(m);
    if (badts(ts) && M[id].owner) return EINVAL;
    return mtx_lock(id, absdl(ts, clk));
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!active() || !from_lib(CALLER)) return 0;
    SimScope s; sched_point(); if (int e = injected("mutex_unlock")) return e; unsigned id = mid(m);
    if (M[id].owner != cur) { die("unlock of a mutex the thread does not own"); return EPERM; }
    mtx_unlock(id); return 0;
}
int pthread_cond_init(pthread_cond_t* c, pthread_condattr_t const* a) {
    if (!active()) { memset(c, 0, sizeof *c); return 0; }
    SimScope s; sched_point(); if (int e = injected("cond_init")) return e; live(c); memset(c, 0, sizeof *c); unsigned id = cid(c); C[id].inited = true; if (a && ((*(int*)a >> 1) & 1)) C[id].clock = CLOCK_MONOTONIC; return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if (!active()) return 0;
    SimScope s; sched_point(); if (int e = injected("cond_destroy")) return e; unsigned id = cid(c);
    if (!C[id].q.empty()) { die("destroyed a condition variable with waiters"); return EBUSY; } C[id].dead = true; return 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!active()) return 0;
    SimScope s; sched_point(); if (int e = injected("cond_signal")) return e; unsigned id = cid(c);
    std::vector<int>& q = C[id].q; if (q.empty()) return 0;
    static unsigned char z[4096]; int n = q.size(); if (n > 8) n = 8; int p = choose(n, z);
    int t = q[p]; q.erase(q.begin() + p); F[t].woken = true; changed(); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!active()) return 0;
    SimScope s; sched_point(); if (int e = injected("cond_broadcast")) return e; unsigned id = cid(c);
    for (int t : C[id].q) F[t].woken = true; if (!C[id].q.empty()) changed(); C[id].q.clear(); return 0;
}
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, i64 dl, char const* inj) {
    SimScope s; sched_point(); redl(dl); if (int e = injected(inj)) return e;
    unsigned id = cid(c), mi = mid(m);
    if (M[mi].owner != cur) { die("condition wait without owning the mutex"); return EPERM; }
    int mode = 0; Fiber& f = F[cur];
    if (O.spurious > 0) { --O.spurious; mode = choose(dl >= 0 && dl > now_ns ? 3 : 2, Z01); if (!mode) ++O.spurious; }
    mtx_unlock(mi);
    int r = 0;
    if (mode == 1 && !(dl >= 0 && dl <= now_ns)) { /* spurious wakeup: just reacquire */ sched_point(); }
    else {
        C[id].q.push_back(cur); f.bk = B_COND; f.bobj = id; f.dl = dl; f.dl2 = mode == 2 ? now_ns + (dl - now_ns) / 2 : -1; f.woken = false;
        block(); dl = f.dl;
        bool w = f.woken; bool exp = dl >= 0 && now_ns >= dl; unblock_self();
        if (!w) { std::vector<int>& q = C[id].q; q.erase(std::find(q.begin(), q.end(), cur)); r = exp ? ETIMEDOUT : 0; }
    }
    mtx_lock(mi, -1);
    return r;
}
extern "C" {
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!active()) return 0; return cond_wait(c, m, -1, "cond_wait"); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, struct timespec const* ts) {
    if (!active()) return 0; if (badts(ts)) return EINVAL; int clk; i64 dl; { SimScope s; unsigned id = cid(c); clk = C[id].clock; watch_dl(ts->tv_sec, ts->tv_nsec); dl = absdl(ts, clk); } return cond_wait(c, m, dl, "cond_timedwait");
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, struct timespec const* ts) {
    if (!active()) return 0; if (badts(ts)) return EINVAL; return cond_wait(c, m, absdl(ts, clk), "cond_timedwait");
}
int pthread_condattr_setclock(pthread_condattr_t* a, clockid_t c) { *(int*)a = (*(int*)a & ~2) | (c == CLOCK_MONOTONIC ? 2 : 0); return 0; }

// ---- semaphores
int sem_init(sem_t* p, int, unsigned v) noexcept {
    if (!active()) return 0;
    SimScope s; sched_point(); if (int e = injected("sem_init")) { errno = e; return -1; }
    live(p);
    if (v > (unsigned)INT_MAX) { errno = EINVAL; return -1; }
    Sem x; x.val = v; vc_zero(x.rel); x.dead = false; hb_rel(x.rel); Tag* t = (Tag*)p; t->magic = MG_S; t->id = S.size(); S.push_back(x); return 0;
}
int sem_destroy(sem_t* p) noexcept { if (!active()) return 0; SimScope s; sched_point(); if (int e = injected("sem_destroy")) { errno = e; return -1; } S[sid(p)].dead = true; return 0; }
int sem_post(sem_t* p) noexcept {
    if (!active()) return 0;
    SimScope s; sched_point(); if (int e = injected("sem_post")) { errno = e; return -1; } Sem& x = S[sid(p)];
    if (x.val == (unsigned)INT_MAX) { errno = EOVERFLOW; return -1; }
    hb_rel(x.rel); ++x.val; changed(); return 0;
}
int sem_getvalue(sem_t* p, int* v) noexcept { if (!active()) return 0; SimScope s; sched_point(); *v = S[sid(p)].val; observed(CALLER, (u64)p, *v); return 0; }
int sem_trywait(sem_t* p) noexcept {
    if (!active()) return 0;
    SimScope s; sched_point(); if (int e = injected("sem_trywait")) { errno = e; return -1; } Sem& x = S[sid(p)];
    if (!x.val) { observed(CALLER, (u64)p, 0); errno = EAGAIN; return -1; } --x.val; hb_acq(x.rel); changed(); return 0;
}
}
static int sem_w(sem_t* p, i64 dl, bool bad, char const* inj) {
    SimScope s; sched_point(); redl(dl); if (int e = injected(inj)) { errno = e; return -1; }
    unsigned id = sid(p); Fiber& f = F[cur];
    if (!S[id].val) {
        if (bad) { errno = EINVAL; return -1; }
        if (dl >= 0 && now_ns >= dl) { errno = ETIMEDOUT; return -1; }
        int mode = 0; if (O.eintr > 0) { --O.eintr; mode = choose(dl >= 0 ? 3 : 2, Z01); if (!mode) ++O.eintr; }
        if (mode == 1) { changed(); errno = EINTR; return -1; }
        f.late = false; f.bk = B_SEM; f.bobj = id; f.dl = dl; f.dl2 = mode == 2 ? now_ns + (dl - now_ns) / 2 : -1; block(); dl = f.dl;
        bool exp = dl >= 0 && now_ns >= dl; bool i2 = f.dl2 >= 0 && now_ns >= f.dl2; unblock_self();
        if (exp && (!S[id].val || (f.late && choose(2, Z01) == 1))) { changed(); errno = ETIMEDOUT; return -1; }
        if (!S[id].val && i2) { changed(); errno = EINTR; return -1; }
    }
    --S[id].val; hb_acq(S[id].rel); changed(); return 0;
}
extern "C" {
int sem_wait(sem_t* p) { if (!active()) return 0; return sem_w(p, -1, false, "sem_wait"); }
int sem_timedwait(sem_t* p, struct timespec const* ts) { if (!active()) return 0; { SimScope s; watch_dl(ts->tv_sec, ts->tv_nsec); } return sem_w(p, absdl(ts, CLOCK_REALTIME), badts(ts), "sem_timedwait"); }
int sem_clockwait(sem_t* p, clockid_t c, struct timespec const* ts) { if (!active()) return 0; return sem_w(p, absdl(ts, c), badts(ts), "sem_timedwait"); }

// ---- once, keys
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    if (!active() || !from_lib(CALLER)) { if (*o == 0) { *o = 2; fn(); } return 0; }
    unsigned id; bool run = false;
    {
        SimScope s; sched_point(); int v = *o;
        if (v == 0) { Once x; x.st = 1; vc_zero(x.rel); ON.push_back(x); *o = (int)(ON.size() << 4) | 1; id = ON.size() - 1; run = true; changed(); }
        else { id = (v >> 4) - 1; if (id >= ON.size()) { die("bad once"); return 0; }
            if (ON[id].st == 1) { F[cur].bk = B_ONCE; F[cur].bobj = id; block(); unblock_self(); } hb_acq(ON[id].rel); }
    }
    if (run) { fn(); SimScope s; hb_rel(ON[id].rel); ON[id].st = 2; changed(); }
    return 0;
}
}
static std::vector<void (*)(void*)> keydtor; static std::vector<bool> keylive; static std::vector<VC> keyrel;
extern "C" {
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) noexcept {
    SimScope s; if (cur >= 0) { sched_point(); if (int e = injected("key_create")) return e; }
    keydtor.push_back(d); keylive.push_back(true); *k = keydtor.size() - 1; return 0;
}
int pthread_key_delete(pthread_key_t k) noexcept { SimScope s; if (k >= keylive.size() || !keylive[k]) return EINVAL; keylive[k] = false; return 0; }
void* pthread_getspecific(pthread_key_t k) noexcept {
    if (cur < 0) return 0; SimScope s; if (k >= keylive.size()) return 0; return k < F[cur].keys.size() ? F[cur].keys[k] : 0;
}
int pthread_setspecific(pthread_key_t k, void const* v) noexcept {
    if (cur < 0) return 0; SimScope s; if (int e = injected("setspecific")) return e; if (k >= keylive.size() || !keylive[k]) return EINVAL; Fiber& f = F[cur]; if (f.keys.size() <= k) f.keys.resize(k + 1); f.keys[k] = (void*)v; return 0;
}
pthread_t pthread_self() noexcept { return (pthread_t)(cur + 1000); }
}
// ---- thread_local destructors of the library under test
struct TDtor { void (*f)(void*); void* o; };
static std::vector<std::vector<TDtor>> tdtors;
extern "C" int __cxa_thread_atexit(void (*f)(void*), void* o, void*) noexcept {
    if (cur < 0) return 0; SimScope s; if ((int)tdtors.size() <= cur) tdtors.resize(cur + 1); TDtor d; d.f = f; d.o = o; tdtors[cur].push_back(d); return 0;
}
extern "C" int __cxa_thread_atexit_impl(void (*f)(void*), void* o, void* d) { return __cxa_thread_atexit(f, o, d); }
// ---- guards of function-local statics (state byte 0 = done, byte 1 = in progress)
static std::map<u64, VC> guardrel;
extern "C" {
int __cxa_guard_acquire(u64* g) {
    char* b = (char*)g;
    if (!active()) return b[0] ? 0 : 1;
    SimScope s;
    for (;;) {
        if (b[0]) { auto it = guardrel.find((u64)g); if (it != guardrel.end()) hb_acq(it->second); return 0; }
        if (!b[1]) { b[1] = 1; return 1; }
        F[cur].bk = B_GUARD; F[cur].bobj = (u64)g; F[cur].woken = false; block(); unblock_self();
    }
}
void __cxa_guard_release(u64* g) {
    char* b = (char*)g; if (!active()) { b[0] = 1; b[1] = 0; return; }
    SimScope s; VC& v = guardrel[(u64)g]; if (hbon()) hb_store((u64)g, __ATOMIC_RELEASE, false); hb_rel(v); b[0] = 1; b[1] = 0; for (auto& f : F) if (f.bk == B_GUARD && f.bobj == (u64)g) f.woken = true; changed();
}
void __cxa_guard_abort(u64* g) { char* b = (char*)g; b[1] = 0; if (cur >= 0) for (auto& f : F) if (f.bk == B_GUARD && f.bobj == (u64)g) f.woken = true; }

// ---- clocks
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
    if (cur < 0) return syscall(SYS_clock_gettime, c, ts);
    i64 v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? O.rbase : O.sbase) + now_ns; ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
    if (active() && ++steps > O.maxsteps) { SimScope sc; die("livelock"); }
    return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept { if (cur < 0) { tv->tv_sec = 0; tv->tv_usec = 0; return 0; } i64 v = O.rbase + now_ns; tv->tv_sec = v / 1000000000; tv->tv_usec = v % 1000000000 / 1000; return 0; }
time_t time(time_t* t) noexcept { i64 v = (O.rbase + now_ns) / 1000000000; if (t) *t = v; return v; }
int sched_yield() noexcept { if (!active()) return 0; SimScope s; observed(CALLER, 1, 1); sched_point(); return 0; }
int nanosleep(struct timespec const* ts, struct timespec*) { if (!active()) return 0; vs_sleep((i64)ts->tv_sec * 1000000000 + ts->tv_nsec); return 0; }
int clock_nanosleep(clockid_t c, int fl, struct timespec const* ts, struct timespec*) { if (!active()) return 0; i64 v = (i64)ts->tv_sec * 1000000000 + ts->tv_nsec; if (fl) v = abs2virt(ts, c) - now_ns; vs_sleep(v); return 0; }
int usleep(useconds_t u) { if (!active()) return 0; vs_sleep((i64)u * 1000); return 0; }
}
// ---- futex
static long futex_wait(unsigned* a, unsigned val, i64 dl, bool badt) {
    SimScope s; sched_point(); redl(dl); if (int e = injected("futex_wait")) { errno = e; return -1; }
    achk(a, 4); Fiber& f = F[cur];
    if (badt) { errno = EINVAL; return -1; }
    if (*(unsigned volatile*)a != val) { observed(0, (u64)a, *a); errno = EAGAIN; return -1; }
    if (dl >= 0 && now_ns >= dl) { changed(); errno = ETIMEDOUT; return -1; }
    int mode = 0; if (O.eintr > 0) { --O.eintr; static const unsigned char z[4] = {0, 1, 1, 1}; mode = choose(dl >= 0 ? 4 : 3, z); if (!mode) ++O.eintr; }
    if (mode == 1) { changed(); errno = EINTR; return -1; }
    if (mode == 2) { changed(); return 0; }      // spurious wake
    f.bk = B_FUTEX; f.bobj = (u64)a; f.dl = dl; f.dl2 = mode == 3 ? now_ns + (dl - now_ns) / 2 : -1; f.woken = false; block(); dl = f.dl;
    bool w = f.woken; bool exp = dl >= 0 && now_ns >= dl; unblock_self();
    if (w) return 0;
    changed();
    errno = exp ? ETIMEDOUT : EINTR; return -1;
}
static long futex_wake(unsigned* a, int n) {
    SimScope s; sched_point(); if (int e = injected("futex_wake")) { errno = e; return -1; }
    achk(a, 4); long k = 0;
    while (n > 0) {
        static int c[4096]; int m = 0; for (int t = lo_t; t <= hi_t && m < 4096; ++t) if (F[t].bk == B_FUTEX && F[t].bobj == (u64)a && !F[t].woken) c[m++] = t;
        if (!m) break;
        int p = 0; static unsigned char z[16]; if (m > n) p = choose(m > 8 ? 8 : m, z);
        F[c[p]].woken = true; ++k; --n;
    }
    if (k) changed(); return k;
}
static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = -r; return -1; } return r;
}
extern "C" long syscall(long n, ...) noexcept {
    va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
    if (n == SYS_futex && active()) {
        int op = b & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT) {
            struct timespec* ts = (struct timespec*)d; i64 dl = -1; bool bad = false; F[cur].dlreal = false;
            if (ts) { bad = badts(ts) || ts->tv_sec < 0; __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec + now_ns; if (v > (__int128)4000000000000000000LL) v = 4000000000000000000LL; dl = (i64)v;
                if (os_watch && !bad) { SimScope s; __int128 ab = (__int128)O.rbase + now_ns + (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec; watch_dl((i64)(ab / 1000000000), (i64)(ab % 1000000000)); } }
            return futex_wait((unsigned*)a, (unsigned)c, dl, bad);
        }
        if (op == FUTEX_WAIT_BITSET) {
            struct timespec* ts = (struct timespec*)d; i64 dl = -1; bool bad = false; F[cur].dlreal = false;
            if (ts) { bad = badts(ts); dl = absdl(ts, (b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC); }
            return futex_wait((unsigned*)a, (unsigned)c, dl, bad);
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) return futex_wake((unsigned*)a, (int)c);
        SimScope s; die("unsupported futex operation"); return -1;
    }
    if (n == SYS_gettid && cur >= 0) return cur + 1000;
    return raw_syscall(n, a, b, c, d, e, f);
}

// ------------------------------------------------------------------------------------------------ Windows kernel objects (Windows variant of the library)
static unsigned wid(void* h) {
    u64 i = (u64)h >> 4; if (((u64)h & 15) != 8 || i >= WH.size() || WH[i] < 0) { die("use of a closed or invalid handle"); return 0; }
    return WH[i];
}
static void* whandle(unsigned o) { WH.push_back(o); ++W[o].refs; return (void*)(((u64)(WH.size() - 1) << 4) | 8); }
static void* wnew(int kind, i64 val, i64 max) { Win w; w.kind = kind; w.val = val; w.max = max; w.due = 0; w.armed = w.mono = false; vc_zero(w.rel); w.refs = 0; w.thr = -1; W.push_back(w); hb_rel(W.back().rel); return whandle(W.size() - 1); }
static bool wfail(char const* fn) { int e = injected(fn); if (e) F[cur].werr = e; return e != 0; }
extern "C" {
void* vsw_event(int manual, int initial) { if (!active()) return 0; SimScope s; sched_point(); if (wfail("create_event")) return 0; return wnew(manual ? 2 : 1, initial ? 1 : 0, 1); }
void* vsw_semaphore(int initial, int max, wchar_t const* name) {
    if (!active()) return 0; SimScope s; sched_point(); if (wfail("create_semaphore")) return 0;
    if (initial < 0 || max <= 0 || initial > max) { F[cur].werr = 87; return 0; }
    F[cur].werr = 0;
    if (name) for (size_t i = 0; i < W.size(); ++i) if (W[i].refs && W[i].name == name) { F[cur].werr = 183; return whandle(i); }
    void* h = wnew(3, initial, max); if (name) W.back().name = name; return h;
}
void* vsw_open_semaphore(wchar_t const* name) { if (!active()) return 0; SimScope s; sched_point(); for (size_t i = 0; i < W.size(); ++i) if (W[i].refs && W[i].name == name) return whandle(i); F[cur].werr = 2; return 0; }
void* vsw_timer(int manual) { if (!active()) return 0; SimScope s; sched_point(); if (wfail("create_timer")) return 0; void* h = wnew(4, 0, 1); W.back().max = manual; return h; }
int vsw_set_event(void* h) { if (!active()) return 0; SimScope s; sched_point(); if (wfail("set_event")) return 0; Win& w = W[wid(h)]; hb_rel(w.rel); if (!w.val) changed(); w.val = 1; win_satisfy(wid(h)); return 1; }
int vsw_reset_event(void* h) { if (!active()) return 0; SimScope s; sched_point(); if (wfail("reset_event")) return 0; Win& w = W[wid(h)]; if (w.val) changed(); w.val = 0; return 1; }
int vsw_release(void* h, int n) {
    if (!active()) return 0; SimScope s; sched_point(); if (wfail("release_semaphore")) return 0; Win& w = W[wid(h)];
    if (n <= 0 || w.val + n > w.max) { F[cur].werr = 298; return 0; } hb_rel(w.rel); w.val += n; changed(); win_satisfy(wid(h)); return 1;
}
int vsw_set_timer(void* h, long long due) {
    if (!active()) return 0; SimScope s; sched_point(); if (wfail("set_timer")) return 0; Win& w = W[wid(h)];
    __int128 v = due < 0 ? (__int128)now_ns + (__int128)(-due) * 100 : ((__int128)due - (__int128)116444736000000000LL) * 100 - O.rbase;
    if (v < 0) v = 0; if (v > (__int128)4000000000000000000LL) v = 4000000000000000000LL;
    w.due = (i64)v; w.armed = true; w.mono = due < 0; if (os_watch) { __int128 ab = (__int128)O.rbase + w.due; watch_dl((i64)(ab / 1000000000), (i64)(ab % 1000000000)); } return 1;
}
unsigned vsw_wait(int n, void* const* h, unsigned ms) {
    if (!active()) return ~0u; SimScope s; sched_point(); if (wfail("wait")) return ~0u;
    Fiber& f = F[cur]; if (n > 2) { die("harness: too many handles"); return ~0u; }
    f.wn = n; for (int i = 0; i < n; ++i) f.wh[i] = wid(h[i]);
    for (int i = 0; i < n; ++i) if (win_sig(W[f.wh[i]])) { win_take(f, i); changed(); return i; }
    if (ms == 0) { observed(CALLER, (u64)h[0], 0); return 258; }
    i64 dl = -1; if (ms != ~0u) { dl = now_ns + (i64)ms * 1000000; if (os_watch) { __int128 ab = (__int128)O.rbase + dl; watch_dl((i64)(ab / 1000000000), (i64)(ab % 1000000000)); } }
    f.bk = B_WIN; f.woken = false; f.dl = dl; f.dlreal = false; f.dl2 = -1; for (int i = 0; i < n; ++i) if (W[f.wh[i]].kind == 4 && W[f.wh[i]].armed) f.dl2 = W[f.wh[i]].due;
    block(); unblock_self(); changed(); return f.wres;
}
int vsw_close(void* h) { if (!active()) return 1; SimScope s; sched_point(); unsigned o = wid(h); WH[(u64)h >> 4] = -1; --W[o].refs; return 1; }
unsigned vsw_error() { return cur >= 0 ? F[cur].werr : 0; }
unsigned vsw_tls_alloc() { if (!active()) return ~0u; SimScope s; sched_point(); if (wfail("tls_alloc")) return ~0u; return ++wtls_n; }
int vsw_tls_free(unsigned) { return 1; }
void* vsw_tls_get(unsigned k) { if (cur < 0) return 0; return k < F[cur].wtls.size() ? F[cur].wtls[k] : 0; }
int vsw_tls_set(unsigned k, void* p) { if (cur < 0) return 0; SimScope s; if (wfail("tls_set")) return 0; if (k > wtls_n) { die("use of an unallocated TLS slot"); return 0; } Fiber& f = F[cur]; if (f.wtls.size() <= k) f.wtls.resize(k + 1); f.wtls[k] = p; return 1; }
int vsw_dup(void* h, void** out) { if (!active()) return 0; SimScope s; if (wfail("dup_handle")) return 0; if ((i64)h == -2) { *out = wnew(5, 0, 1); W.back().thr = cur; } else *out = whandle(wid(h)); return 1; }
int vsw_register(void** out, void* h, void (*f)(void*, unsigned char), void* ctx) { if (!active()) return 0; SimScope s; if (wfail("register_wait")) return 0; WReg r; r.f = f; r.ctx = ctx; r.thr = W[wid(h)].thr; WR.push_back(r); *out = (void*)(u64)(0x7000 + WR.size()); return 1; }
unsigned long long vsw_filetime() { return 116444736000000000ULL + (u64)((O.rbase + now_ns) / 100); }
int vsw_query_sem(void* h, unsigned* info) { SimScope s; info[0] = (unsigned)W[wid(h)].val; info[1] = (unsigned)W[wid(h)].max; return 0; }
}
extern "C" void abort() noexcept {
    if (cur >= 0) { in_sim = 1; die("abort"); }
    raw_syscall(SYS_exit_group, 134, 0, 0, 0, 0, 0); __builtin_trap();
}

// ------------------------------------------------------------------------------------------------ harness services
extern "C" {
int vs_self() { return cur; }
void vs_call(int k) {
    SimScope s; F[cur].skip = false; sched_point(); Fiber& f = F[cur]; f.seen.clear(); f.soft = false; f.grace = 0; f.spurious = false;
    if (cur < HBN) { tickme(); f.opclk.resize(k + 1, f.clk.c[cur]); f.opclk[k] = f.clk.c[cur]; }
    ev('C', "%d %d", cur, k); f.skip = true; changed();
}
void vs_ret2(int k, long long res, long long aux) {
    SimScope s; Fiber& f = F[cur]; f.skip = false; f.seen.clear(); f.soft = false; f.grace = 0; changed();
    if (ended) for (;;) to_sched();
    std::string hb;
    if (hbon()) for (int u = 1; u <= nthr; ++u) {
        int h = 0; if (u == cur) h = k; else { std::vector<unsigned>& oc = F[u].opclk; for (int i = (int)oc.size() - 1; i > 0; --i) if (oc[i] <= f.clk.c[u]) { h = i; break; } }
        char b[16]; snprintf(b, sizeof b, "%s%d", u > 1 ? "," : "", h); hb += b;
    }
    ev('R', "%d %d %lld %lld %s", cur, k, res, aux, hb.empty() ? "-" : hb.c_str());
}
void vs_ret(int k, long long res) { vs_ret2(k, res, 0); }
void vs_note(int what, long long a, long long b) { SimScope s; ev('N', "%d %d %lld %lld", cur, what, a, b); changed(); if (++steps > O.maxsteps) die("livelock"); }
void vs_settle() { SimScope s; Fiber& f = F[cur]; f.bk = B_SETTLE; f.woken = false; block(); unblock_self(); }
void vs_open(int g) { SimScope s; sched_point(); if ((int)gates.size() <= g) { gates.resize(g + 1); gateclk.resize(g + 1); } gates[g] = true; if (g >= 32) hb_rel(gateclk[g]); changed(); }   // gates from 32 on synchronize
void vs_await(int g) { SimScope s; sched_point(); if ((int)gates.size() <= g) { gates.resize(g + 1); gateclk.resize(g + 1); } if (!gates[g]) { F[cur].bk = B_GATE; F[cur].bobj = g; block(); unblock_self(); } if (g >= 32) hb_acq(gateclk[g]); }
void vs_sleep(long long ns) { SimScope s; sched_point(); if (ns <= 0) return; F[cur].bk = B_SLEEP; F[cur].dl = now_ns + ns; block(); unblock_self(); changed(); }
void vs_bad(char const* w) { SimScope s; die(w); }
void vs_inject(char const* fn, int err, int skip, int thr) { SimScope s; Inj i; i.fn = fn; i.err = err; i.skip = skip; i.thr = thr; injs.push_back(i); }
// the system clock is set forward: a wait on it may end before its time on any other clock has come. Deadlines already
// computed from the old reading stay absolute, so a call made after the jump sees them closer.
void vs_jump(long long ns) {
    SimScope s; sched_point(); O.rbase += ns;
    for (int t = lo_t; t <= hi_t; ++t) { Fiber& f = F[t]; if (f.dl >= 0 && f.dlreal && (f.bk == B_MUTEX || f.bk == B_SEM || f.bk == B_COND || f.bk == B_FUTEX)) {
        bool was = f.dl > now_ns; f.dl = f.dl > ns ? f.dl - ns : 0;
        if (was && f.dl <= now_ns) { if (f.bk == B_MUTEX) f.late = M[f.bobj].owner != 0; else if (f.bk == B_SEM) f.late = S[f.bobj].val == 0; } } }
    for (auto& w : W) if (w.kind == 4 && w.armed && !w.mono) w.due = w.due > ns ? w.due - ns : 0;
    for (int t = lo_t; t <= hi_t; ++t) { Fiber& f = F[t]; if (f.bk == B_WIN && f.dl2 >= 0) for (int i = 0; i < f.wn; ++i) if (W[f.wh[i]].kind == 4 && W[f.wh[i]].armed) f.dl2 = W[f.wh[i]].due; }
    win_timeouts();
    changed();
}
long long vs_now() { return now_ns; }
long long vs_real_base() { return O.rbase; }
long long vs_steady_base() { return O.sbase; }
void vs_watch(int on) { os_watch = on; }
}

// ------------------------------------------------------------------------------------------------ execution
static void (*p_setup)(VsScen const*), (*p_run)(int, VsScen const*), (*p_teardown)(VsScen const*), (*p_touch)();
static int (*p_opcode)(char const*), (*p_objkind)(char const*);
static int phase;   // 0 setup 1 run 2 teardown
static bool has_teardown;
static void run_key_dtors(int t) {
    for (int it = 0; it < 4; ++it) {
        bool any = false;
        for (size_t k = 0; k < keydtor.size(); ++k) {
            void* v = k < F[t].keys.size() ? F[t].keys[k] : 0;
            if (v && keylive[k]) { F[t].keys[k] = 0; if (keydtor[k]) { any = true; in_sim = 0; keydtor[k](v); in_sim = 1; } }
        }
        if (!any) break;
    }
}
extern "C" void vs_run_thread_exit() {   // what the OS does when a thread ends
    int sv = in_sim; in_sim = 1; int t = cur;
    while ((int)tdtors.size() > t && !tdtors[t].empty()) { TDtor d = tdtors[t].back(); tdtors[t].pop_back(); in_sim = 0; d.f(d.o); in_sim = 1; }
    run_key_dtors(t);
    for (size_t i = 0; i < WR.size(); ++i) if (WR[i].thr == t) { WR[i].thr = -2; in_sim = 0; WR[i].f(WR[i].ctx, 0); in_sim = 1; }
    in_sim = sv;
}
static void fiber_body(int t) {
    in_sim = 0;
    try {
        if (t == 0) { if (phase == 0) p_setup(&scen); else p_teardown(&scen); }
        else p_run(t, &scen);
    } catch (...) { in_sim = 1; die("uncaught exception"); }
    in_sim = 1;
    F[t].bk = B_DONE; changed();
    int n = pick(false);
    if (n < 0) { for (;;) to_sched(); }
    switch_to(n);
}
struct Seg { char* p; size_t n; std::vector<char> copy; }; static std::vector<Seg> segs;
static void on_term() { in_sim = 1; if (cur >= 0) die("std::terminate"); _exit(3); }
static void on_segv(int sig, siginfo_t* si, void*) {
    if (cur >= 0) {  // report as an event: jump back to the scheduler
        in_sim = 1; sigset_t ss; sigemptyset(&ss); sigaddset(&ss, sig); sigprocmask(SIG_UNBLOCK, &ss, 0);
        if (!ended) { ended = true; endwhy = "crash"; ev('B', "%d crash-signal-%d", cur, sig); }
        for (;;) to_sched();
    }
    (void)si; _exit(3);
}
// An operation that computes for seconds without reaching any point of interest to the simulator does not return at all.
static volatile int hung = 0;
static void on_tick(int sig, siginfo_t*, void* uc) {
    static long s0, e0; static int n; long e = (long)G * 1000003 + timesteps;
    if (s0 != steps || e0 != e || cur < 0) { s0 = steps; e0 = e; n = 0; return; }
    if (++n < 30 || in_sim || !from_lib((u64)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP])) return;
    n = 0; hung = 1; in_sim = 1; sigset_t ss; sigemptyset(&ss); sigaddset(&ss, sig); sigprocmask(SIG_UNBLOCK, &ss, 0);
    if (!ended) { ended = true; endwhy = "hang"; ev('B', "%d does-not-return", cur); }
    for (;;) to_sched();
}
static void run_phase(int lo, int hi) { lo_t = lo; hi_t = hi; int n = pick(false); if (n >= 0) resume(n); }
static void execute() {
    for (auto& s : segs) memcpy(s.p, s.copy.data(), s.n);
    if (tls_size) memcpy(tls_ptr, tls_init.data(), tls_size);
    std::fill(ast.begin(), ast.begin() + std::min(ast.size(), arena_top / 16 + 8), 0); arena_top = 0;
    M.clear(); C.clear(); S.clear(); ON.clear(); W.clear(); WH.assign(1, -1); WR.clear(); wtls_n = 0; keydtor.clear(); keylive.clear(); injs.clear(); gates.clear(); gateclk.clear(); guardrel.clear(); tdtors.clear();
    // keep one dummy OS object so that identifiers start at 1
    M.resize(1); M[0].dead = true; C.resize(1); C[0].dead = true; S.resize(1); S[0].dead = true;
    ++sgen; sused = 0; ++agen; G = 1; steps = 0; timesteps = 0; now_ns = 0; ended = false; endwhy.clear(); hist.clear(); histkind.clear(); picks.clear(); pathpos = 0; costsofar = 0; os_watch = false;
    Opts keep = O;
    for (int t = 0; t <= nthr; ++t) fiber_init(t);
    phase = 0; int tj = O.timejump; O.timejump = 0; run_phase(0, 0); O.timejump = tj;
    if (endwhy == "done") {
        ended = false; endwhy.clear(); phase = 1;
        for (int t = 1; t <= nthr; ++t) { F[t].clk = F[0].clk; if (t < HBN) F[t].clk.c[t] = 1; }
        hist.clear(); histkind.clear();
        run_phase(1, nthr);
        if (endwhy == "done" && has_teardown) {
            ended = false; endwhy.clear(); phase = 2; fiber_init(0); for (int t = 1; t <= nthr; ++t) vc_join(F[0].clk, F[t].clk); if (0 < HBN) F[0].clk.c[0] = 1000;
            int tj2 = O.timejump; O.timejump = 0; run_phase(0, 0); O.timejump = tj2;
            if (endwhy == "done" && O.leak) {
                bool l = false; for (auto& x : M) if (x.inited && !x.dead) l = true; for (auto& x : C) if (x.inited && !x.dead) l = true; for (auto& x : S) if (!x.dead) l = true; for (auto& x : W) if (x.refs && x.kind <= 3 && x.name.empty()) l = true;
                if (l) { endwhy = "leak"; ev('B', "0 leaked-an-operating-system-object"); }
            }
        }
    }
    O = keep;
}
static std::string canon() {   // canonical form: adjacent calls and adjacent returns commute
    size_t i = 0; while (i < hist.size()) {
        if (histkind[i] == 'C' || histkind[i] == 'R') { size_t j = i; while (j < hist.size() && histkind[j] == histkind[i]) ++j; std::sort(hist.begin() + i, hist.begin() + j); i = j; }
        else ++i;
    }
    std::string s; for (auto& h : hist) { s += h; s += ';'; } return s;
}
static std::string picks_str() { std::string s; size_t last = 0; for (size_t i = 0; i < picks.size(); ++i) if (picks[i]) last = i + 1; for (size_t i = 0; i < last; ++i) { char b[16]; snprintf(b, sizeof b, "%s%d", i ? "." : "", picks[i]); s += b; } return s.empty() ? "-" : s; }

// ------------------------------------------------------------------------------------------------ main
struct Seg0 { int ph(struct dl_phdr_info* i); };
static std::string libpath;
static int phdr_cb(struct dl_phdr_info* i, size_t, void*) {
    if (!i->dlpi_name || libpath != i->dlpi_name) return 0;
    for (int k = 0; k < i->dlpi_phnum; ++k) {
        ElfW(Phdr) const& p = i->dlpi_phdr[k]; u64 a = i->dlpi_addr + p.p_vaddr;
        if (p.p_type == PT_LOAD) {
            if (p.p_flags & PF_W) { Seg s; s.p = (char*)a; s.n = p.p_memsz; s.copy.assign(s.p, s.p + s.n); segs.push_back(s); datasegs.push_back(std::make_pair(s.p, s.p + s.n)); }
            if (p.p_flags & PF_X) { lib_lo = a; lib_hi = a + p.p_memsz; }
        }
        if (p.p_type == PT_TLS) { tls_ptr = (char*)i->dlpi_tls_data; tls_size = tls_ptr ? p.p_memsz : 0; tls_init.assign(tls_size, 0); if (tls_size) memcpy(tls_init.data(), (char*)a, p.p_filesz); }
    }
    return 0;
}
static std::vector<VsObj> objs; static std::vector<std::vector<VsOp>> progs; static std::vector<int> nops; static std::vector<VsOp const*> opp;
static void set_opt(std::string const& kv) {
    size_t e = kv.find('='); if (e == std::string::npos) return; std::string k = kv.substr(0, e); double v = atof(kv.c_str() + e + 1); std::string sv = kv.substr(e + 1);
    if (k == "bound") O.bound = v; else if (k == "maxexec") O.maxexec = v; else if (k == "rand") O.nrand = v; else if (k == "seed") O.seed = v; else if (k == "hb") O.hb = v;
    else if (k == "eintr") O.eintr = v; else if (k == "leak") O.leak = v; else if (k == "spurious") O.spurious = v; else if (k == "weakcas") O.weakcas = v; else if (k == "timejump") O.timejump = v; else if (k == "maxsteps") O.maxsteps = v;
    else if (k == "maxsec") O.maxsec = v; else if (k == "pctrand") O.pctrand = v; else if (k == "maxhist") O.maxhist = v; else if (k == "rbase") O.rbase = atoll(sv.c_str()); else if (k == "sbase") O.sbase = atoll(sv.c_str());
    else { fprintf(stderr, "unknown option %s\n", k.c_str()); exit(3); }
}
static double wall() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static std::ofstream out;
static void explore(std::string const& name) {
    for (int i = 0; i <= nthr; ++i) {}
    if ((int)F.size() < nthr + 1) F.resize(nthr + 1);
    std::unordered_map<u64, int> seen; long ex = 0; double t0 = wall(); bool complete = false; diverged = 0; int bad = 0; size_t written = 0; size_t const maxwritten = 40u << 20;
    path.clear(); randmode = false;
    auto emit = [&]() {
        std::string c = canon(); u64 h = 1469598103934665603ULL; for (unsigned char ch : c) { h ^= ch; h *= 1099511628211ULL; } h ^= c.size() << 40;
        if (seen.emplace(h, 1).second) { out << "H " << picks_str() << " | " << c << " | "  << endwhy << "\n"; written += c.size() + picks.size() * 2; if (endwhy != "done" && endwhy != "stuck" && endwhy != "cut") bad += hung ? 4 : 1; }
    };
    if (!replaymode) {
        path.clear();
        for (;;) {
            execute(); ++ex; emit();
            if (!backtrack()) { complete = true; break; }
            if (ex >= O.maxexec || (int)seen.size() >= O.maxhist || wall() - t0 > O.maxsec || bad > 3 || written > maxwritten) break;
        }
        long dfs = ex; size_t dfsh = seen.size();
        randmode = true; rng = O.seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL; path.clear();
        for (long i = 0; i < O.nrand && (int)seen.size() < O.maxhist && wall() - t0 < O.maxsec * 1.5 && bad <= 3 && written <= maxwritten; ++i) { rand_left = 8; execute(); ++ex; emit(); }
        randmode = false;
        out << "E execs=" << ex << " dfs=" << dfs << " complete=" << complete << " bound=" << O.bound << " hist=" << seen.size() << " dfshist=" << dfsh << " diverged=" << diverged << " wall=" << wall() - t0 << "\n";
    } else { execute(); emit(); out << "E execs=1\n"; }
    (void)name;
}
int main(int argc, char** argv) {
    std::string scenf, outf; std::vector<std::string> ov;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--lib") libpath = argv[++i]; else if (a == "--scen") scenf = argv[++i]; else if (a == "--out") outf = argv[++i];
        else if (a == "--opt") ov.push_back(argv[++i]);
        else if (a == "--replay") { replaymode = true; std::string s = argv[++i]; if (s != "-") { std::stringstream ss(s); std::string x; while (std::getline(ss, x, '.')) replay_picks.push_back(atoi(x.c_str())); } }
    }
    std::set_terminate(on_term);
    static char altstk[65536]; stack_t st; st.ss_sp = altstk; st.ss_size = sizeof altstk; st.ss_flags = 0; sigaltstack(&st, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0);
    sa.sa_sigaction = on_tick; sa.sa_flags = SA_SIGINFO | SA_RESTART; sigaction(SIGVTALRM, &sa, 0);
    struct itimerval tv; tv.it_interval.tv_sec = tv.it_value.tv_sec = 0; tv.it_interval.tv_usec = tv.it_value.tv_usec = 100000; setitimer(ITIMER_VIRTUAL, &tv, 0);
    arena = (char*)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    void* h = dlopen(libpath.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    *(void**)&p_setup = dlsym(h, "h_setup"); *(void**)&p_run = dlsym(h, "h_run"); *(void**)&p_teardown = dlsym(h, "h_teardown"); *(void**)&p_opcode = dlsym(h, "h_opcode"); *(void**)&p_objkind = dlsym(h, "h_objkind"); *(void**)&p_touch = dlsym(h, "h_touch_tls");
    p_touch(); dl_iterate_phdr(phdr_cb, 0);
    if (!lib_hi) { fprintf(stderr, "library segment not found\n"); return 3; }
    std::ifstream in(scenf); out.open(outf); Opts base; std::string line, name; std::vector<std::string> lopts;
    auto flush = [&]() {
        if (name.empty()) return;
        O = base; for (auto& s : lopts) set_opt(s); for (auto& s : ov) set_opt(s);
        nthr = (int)progs.size() - 1; scen.nobj = objs.size(); scen.obj = objs.data(); scen.nthr = nthr; nops.clear(); opp.clear();
        for (auto& p : progs) { nops.push_back(p.size()); opp.push_back(p.data()); } scen.nops = nops.data(); scen.ops = opp.data();
        out << "S " << name << "\n"; explore(name); out.flush(); name.clear();
    };
    has_teardown = true;
    while (std::getline(in, line)) {
        std::stringstream ss(line); std::string w; if (!(ss >> w) || w[0] == '#') continue;
        if (w == "scenario") { flush(); ss >> name; objs.clear(); progs.clear(); progs.resize(1); lopts.clear(); std::string kv; while (ss >> kv) lopts.push_back(kv); }
        else if (w == "obj") { std::string k; long long i = 0; ss >> k >> i; VsObj o; o.kind = p_objkind(k.c_str()); if (o.kind < 0) { fprintf(stderr, "unknown object kind %s\n", k.c_str()); return 3; } o.init = i; objs.push_back(o); }
        else if (w == "thread") { int rep = 1; ss >> rep; progs.push_back(std::vector<VsOp>()); }
        else { VsOp o; memset(&o, 0, sizeof o); o.opc = p_opcode(w.c_str()); if (o.opc < 0) { fprintf(stderr, "unknown op %s\n", w.c_str()); return 3; } long long v; while (o.nargs < VS_MAXARG && (ss >> v)) o.a[o.nargs++] = v; progs.back().push_back(o); }
    }
    flush();
    out.close();
    _exit(0);
}
