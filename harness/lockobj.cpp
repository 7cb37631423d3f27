// Replays operation sequences of LockObj.tla on the real lock objects over an instrumented mutex.
// stdin: "<kinds> <number of mutexes>", then one sequence per line: op a b;op a;...   stdout: per operation what was observed.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <new>
#include <string>
#include <iostream>
#include <sstream>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/shared_lock.hpp>
#include <boost/sync/locks/upgrade_lock.hpp>
#include <boost/sync/locks/lock_guard.hpp>
#include <boost/sync/locks/shared_lock_guard.hpp>
#include <boost/sync/locks/unlock_guard.hpp>
#include <boost/sync/exceptions/lock_error.hpp>
#include <boost/sync/support/boost_chrono.hpp>
#include <boost/sync/support/boost_date_time.hpp>
#include <boost/chrono/duration.hpp>
#include <boost/chrono/system_clocks.hpp>
#include <boost/move/utility_core.hpp>
namespace bs = boost::sync;
namespace bc = boost::chrono;
struct Blocked {};
struct IM {
    int x, p, s, acq, rel, cnv, bad;
    long arg;                           // the timeout the lock object was given
    IM() { reset(); }
    void reset() { x = p = s = acq = rel = cnv = bad = 0; arg = -1; }
    int& of(char k) { return k == 'x' ? x : k == 'p' ? p : s; }
    bool avail(char k) { return k == 'x' ? !x && !p && !s : k == 'p' ? !x && !p : !x; }
    bool take(char k) { if (!avail(k)) return false; ++of(k); ++acq; return true; }
    void block(char k) { if (!take(k)) throw Blocked(); }
    void drop(char k) { if (of(k) <= 0) ++bad; --of(k); ++rel; }
    bool conv(char a, char b) {
        if (of(a) <= 0) ++bad;
        --of(a);
        if (!avail(b)) { ++of(a); return false; }
        ++of(b); ++cnv; return true;
    }
    void bconv(char a, char b) { if (!conv(a, b)) throw Blocked(); }
    void seen(long v) { if (v != arg) ++bad; }
    static long val(bc::milliseconds const& d) { return d.count(); }
    static long val(bc::system_clock::time_point const& t) { return 1000000 + bc::duration_cast< bc::milliseconds >(t.time_since_epoch()).count(); }
    static long val(boost::posix_time::time_duration const& d) { return 2000000 + d.total_milliseconds(); }
    void lock() { block('x'); }
    bool try_lock() { return take('x'); }
    template< typename T > bool timed_lock(T const& t) { seen(val(t)); return take('x'); }
    template< typename T > bool try_lock_for(T const& t) { seen(val(t)); return take('x'); }
    template< typename T > bool try_lock_until(T const& t) { seen(val(t)); return take('x'); }
    void unlock() { drop('x'); }
    void lock_shared() { block('s'); }
    bool try_lock_shared() { return take('s'); }
    template< typename T > bool timed_lock_shared(T const& t) { seen(val(t)); return take('s'); }
    template< typename T > bool try_lock_shared_for(T const& t) { seen(val(t)); return take('s'); }
    template< typename T > bool try_lock_shared_until(T const& t) { seen(val(t)); return take('s'); }
    void unlock_shared() { drop('s'); }
    void lock_upgrade() { block('p'); }
    bool try_lock_upgrade() { return take('p'); }
    template< typename T > bool timed_lock_upgrade(T const& t) { seen(val(t)); return take('p'); }
    template< typename T > bool try_lock_upgrade_for(T const& t) { seen(val(t)); return take('p'); }
    template< typename T > bool try_lock_upgrade_until(T const& t) { seen(val(t)); return take('p'); }
    void unlock_upgrade() { drop('p'); }
    void unlock_and_lock_shared() { bconv('x', 's'); }
    void unlock_and_lock_upgrade() { bconv('x', 'p'); }
    void unlock_upgrade_and_lock_shared() { bconv('p', 's'); }
    void unlock_upgrade_and_lock() { bconv('p', 'x'); }
    bool try_unlock_upgrade_and_lock() { return conv('p', 'x'); }
    bool try_unlock_shared_and_lock() { return conv('s', 'x'); }
    bool try_unlock_shared_and_lock_upgrade() { return conv('s', 'p'); }
    template< typename T > bool timed_unlock_shared_and_lock(T const& t) { seen(val(t)); return conv('s', 'x'); }
    template< typename T > bool timed_unlock_shared_and_lock_upgrade(T const& t) { seen(val(t)); return conv('s', 'p'); }
};
typedef bs::unique_lock< IM > X;
typedef bs::upgrade_lock< IM > P;
typedef bs::shared_lock< IM > S;
static IM mx[4];
static int nm;
static std::string kinds;
static void* slot[8];
static int orph[4][3];
static int oi(char k) { return k == 'x' ? 0 : k == 'p' ? 1 : 2; }
static std::string gname = "none"; static int gidx; static void* gobj;
static const bc::milliseconds DUR(1234);
static const bc::system_clock::time_point TP((bc::system_clock::time_point(bc::duration_cast< bc::system_clock::duration >(bc::milliseconds(77001)))));
static const boost::posix_time::time_duration PT = boost::posix_time::milliseconds(4321);
static void arg(long v) { for (int i = 0; i < 4; ++i) mx[i].arg = v; }
static int midx(IM* m) { return m ? int(m - mx) : 0; }
static long incons;
template< class L > void look(int i, std::ostream& o) {
    L* l = static_cast< L* >(slot[i]);
    bool w = l->owns_lock();
    bool b = *l ? true : false;
    if (b != w || !*l == w) ++incons;
    o << '[' << midx(l->mutex()) << ',' << (w ? 1 : 0) << ']';
}
static const char* code(bs::lock_error const& e) {
    if (e.code() == bs::detail::system_ns::errc::operation_not_permitted) return "eperm";
    if (e.code() == bs::detail::system_ns::errc::resource_deadlock_would_occur) return "edeadlk";
    return "lock_error";
}
template< class L > struct Killer { int i; ~Killer() { delete static_cast< L* >(slot[i]); slot[i] = 0; } };
template< class L > std::string own(char k, std::string const& op, int i, int a) {
    L* l = static_cast< L* >(slot[i]);
    if (op == "new_default") slot[i] = new L();
    else if (op == "new_lock") slot[i] = new L(mx[a]);
    else if (op == "new_defer") slot[i] = new L(mx[a], bs::defer_lock);
    else if (op == "new_try") slot[i] = new L(mx[a], bs::try_to_lock);
    else if (op == "new_for") { arg(1234); slot[i] = new L(mx[a], DUR); }
    else if (op == "new_until") { arg(1000000 + 77001); slot[i] = new L(mx[a], TP); }
    else if (op == "new_adopt") { --orph[a][oi(k)]; slot[i] = new L(mx[a], bs::adopt_lock); }
    else if (op == "new_move") slot[i] = new L(boost::move(*static_cast< L* >(slot[a])));
    else if (op == "scope") { try { L t(mx[a]); if (!t.owns_lock()) return "notowned"; throw 1; } catch (int) {} }
    else if (op == "lock") l->lock();
    else if (op == "try_lock") return l->try_lock() ? "true" : "false";
    else if (op == "timed_lock") { arg(2000000 + 4321); return l->timed_lock(PT) ? "true" : "false"; }
    else if (op == "timed_lock_abs") { arg(1000000 + 77001); return l->timed_lock(TP) ? "true" : "false"; }
    else if (op == "try_lock_for") { arg(1234); return l->try_lock_for(DUR) ? "true" : "false"; }
    else if (op == "try_lock_until") { arg(1000000 + 77001); return l->try_lock_until(TP) ? "true" : "false"; }
    else if (op == "unlock") l->unlock();
    else if (op == "release") {
        IM* before = l->mutex(); bool w = l->owns_lock();
        IM* r = l->release();
        if (r != before) return "wrong";
        if (w) ++orph[midx(r)][oi(k)];
        return r ? "mutex" : "null";
    }
    else if (op == "destroy") { slot[i] = 0; delete l; }
    else if (op == "unwind") { try { Killer< L > d = { i }; throw 1; } catch (int) {} }
    else if (op == "swap") l->swap(*static_cast< L* >(slot[a]));
    else if (op == "swap_free") { swap(*l, *static_cast< L* >(slot[a])); }
    else if (op == "assign") { L& r = (*l = boost::move(*static_cast< L* >(slot[a]))); if (&r != l) return "wrong"; }
    else return "unknown";
    return "ok";
}
template< class T, class F > std::string cblock(int i, int j) { slot[i] = new T(boost::move(*static_cast< F* >(slot[j]))); return "ok"; }
template< class T, class F > std::string ctry(int i, int j) { slot[i] = new T(boost::move(*static_cast< F* >(slot[j])), bs::try_to_lock); return "ok"; }
template< class T, class F > std::string cfor(int i, int j) { arg(1234); slot[i] = new T(boost::move(*static_cast< F* >(slot[j])), DUR); return "ok"; }
template< class T, class F > std::string cuntil(int i, int j) { arg(1000000 + 77001); slot[i] = new T(boost::move(*static_cast< F* >(slot[j])), TP); return "ok"; }
template< class T, class F > std::string cassign(int i, int j) { T* l = static_cast< T* >(slot[i]); T& r = (*l = boost::move(*static_cast< F* >(slot[j]))); return &r == l ? "ok" : "wrong"; }
static std::string conv(std::string const& op, int i, int j) {
    std::string d = std::string(1, kinds[j]) + kinds[i];
    if (op == "conv_block") return d == "xs" ? cblock< S, X >(i, j) : d == "xp" ? cblock< P, X >(i, j) : d == "ps" ? cblock< S, P >(i, j) : cblock< X, P >(i, j);
    if (op == "conv_try") return d == "px" ? ctry< X, P >(i, j) : d == "sx" ? ctry< X, S >(i, j) : ctry< P, S >(i, j);
    if (op == "conv_for") return d == "sx" ? cfor< X, S >(i, j) : cfor< P, S >(i, j);
    if (op == "conv_until") return d == "sx" ? cuntil< X, S >(i, j) : cuntil< P, S >(i, j);
    return d == "xs" ? cassign< S, X >(i, j) : d == "xp" ? cassign< P, X >(i, j) : d == "ps" ? cassign< S, P >(i, j) : cassign< X, P >(i, j);
}
typedef bs::lock_guard< IM > LG; typedef bs::shared_lock_guard< IM > SG; typedef bs::unlock_guard< IM > UM;
typedef bs::unlock_guard< X > UX; typedef bs::unlock_guard< P > UP; typedef bs::unlock_guard< S > US;
template< class G > void finish() { G* g = static_cast< G* >(gobj); gobj = 0; std::string n = gname; gname = "none"; int i = gidx; gidx = 0;
    struct Mem { void* p; ~Mem() { ::operator delete(p); } } m = { g };
    (void)n; (void)i; g->~G(); }
struct GKill { std::string n; ~GKill() { if (n == "lg") finish< LG >(); else finish< SG >(); } };
static std::string guard(std::string const& op, int a) {
    if (op == "guard_unwind") { try { GKill k = { gname }; throw 1; } catch (int) {} return "ok"; }
    if (op == "guard_end") {
        std::string n = gname; int i = gidx;
        if (n == "lg") finish< LG >();
        else if (n == "slg") finish< SG >();
        else if (n == "um") { finish< UM >(); ++orph[i][0]; }
        else if (kinds[i] == 'x') finish< UX >();
        else if (kinds[i] == 'p') finish< UP >();
        else finish< US >();
        return "ok";
    }
    void* mem = ::operator new(64); std::string n;
    try {
        if (op == "guard_lg") { new (mem) LG(mx[a]); n = "lg"; }
        else if (op == "guard_slg") { new (mem) SG(mx[a]); n = "slg"; }
        else if (op == "guard_lga") { --orph[a][0]; new (mem) LG(mx[a], bs::adopt_lock); n = "lg"; }
        else if (op == "guard_slga") { --orph[a][2]; new (mem) SG(mx[a], bs::adopt_lock); n = "slg"; }
        else if (op == "guard_um") { --orph[a][0]; new (mem) UM(mx[a]); n = "um"; }
        else if (kinds[a] == 'x') { new (mem) UX(*static_cast< X* >(slot[a])); n = "ul"; }
        else if (kinds[a] == 'p') { new (mem) UP(*static_cast< P* >(slot[a])); n = "ul"; }
        else { new (mem) US(*static_cast< S* >(slot[a])); n = "ul"; }
    } catch (...) { ::operator delete(mem); throw; }
    gobj = mem; gname = n; gidx = a;
    return "ok";
}
static std::string step(std::string const& op, int a, int b) {
    try {
        if (op.compare(0, 5, "take_") == 0) { char k = op[5]; mx[a].block(k); ++orph[a][oi(k)]; return "ok"; }
        if (op.compare(0, 5, "drop_") == 0) { char k = op[5]; mx[a].drop(k); --orph[a][oi(k)]; return "ok"; }
        if (op.compare(0, 6, "guard_") == 0) return guard(op, a);
        if (op.compare(0, 5, "conv_") == 0 || op == "assign_conv") return conv(op, a, b);
        char k = kinds[a];
        return k == 'x' ? own< X >(k, op, a, b) : k == 'p' ? own< P >(k, op, a, b) : own< S >(k, op, a, b);
    } catch (bs::lock_error const& e) { return code(e); }
      catch (Blocked const&) { return "block"; }
      catch (std::exception const&) { return "exception"; }
}
static void crash(int) { static const char m[] = "\nCRASH\n"; (void)!write(1, m, sizeof m - 1); _exit(0); }
int main() {
    signal(SIGSEGV, crash); signal(SIGABRT, crash); signal(SIGBUS, crash); signal(SIGFPE, crash); signal(SIGILL, crash);
    std::ios::sync_with_stdio(false);
    std::string line;
    std::getline(std::cin, line);
    { std::istringstream h(line); h >> kinds >> nm; kinds = " " + kinds; }
    while (std::getline(std::cin, line)) {
        for (int i = 0; i < 4; ++i) { mx[i].reset(); orph[i][0] = orph[i][1] = orph[i][2] = 0; }
        bool last = line[0] == '!';
        if (last) line.erase(0, 1);
        std::istringstream seq(line); std::string item; std::ostringstream out;
        while (std::getline(seq, item, ';')) {
            std::istringstream w(item); std::string op; int a = 0, b = 0; w >> op >> a >> b;
            for (int m = 0; m < 4; ++m) mx[m].acq = mx[m].rel = mx[m].cnv = mx[m].bad = 0;
            incons = 0; arg(-1);
            std::string r = step(op, a, b);
            if (last && !seq.eof()) continue;
            out << "[\"" << r << "\",[";
            for (int m = 1; m <= nm; ++m) out << (m > 1 ? "," : "") << '[' << mx[m].acq << ',' << mx[m].rel << ',' << mx[m].cnv << ']';
            out << "],[[";
            for (size_t i = 1; i < kinds.size(); ++i) {
                if (i > 1) out << ',';
                if (!slot[i]) out << "[-1,0]";
                else if (kinds[i] == 'x') look< X >(int(i), out);
                else if (kinds[i] == 'p') look< P >(int(i), out);
                else look< S >(int(i), out);
            }
            out << "],[";
            int bad = 0;
            for (int m = 1; m <= nm; ++m) { out << (m > 1 ? "," : "") << '[' << mx[m].x << ',' << mx[m].p << ',' << mx[m].s << ']'; bad += mx[m].bad; }
            out << "],[";
            for (int m = 1; m <= nm; ++m) out << (m > 1 ? "," : "") << '[' << orph[m][0] << ',' << orph[m][1] << ',' << orph[m][2] << ']';
            out << "],[\"" << gname << "\"," << gidx << "]]," << bad << ',' << incons << "];";
            std::cout << out.str() << std::flush; out.str("");
        }
        std::cout << '\n';
        // forget the objects of this sequence
        for (size_t i = 1; i < kinds.size(); ++i) if (slot[i]) { if (kinds[i] == 'x') static_cast< X* >(slot[i])->release(); else if (kinds[i] == 'p') static_cast< P* >(slot[i])->release(); else static_cast< S* >(slot[i])->release(); ::operator delete(slot[i]); slot[i] = 0; }
        if (gobj) { ::operator delete(gobj); gobj = 0; gname = "none"; gidx = 0; }
    }
    std::cout << "DONE\n";
}
