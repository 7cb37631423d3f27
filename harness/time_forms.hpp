// Timeouts of every supported type; c is the count in the type's own unit (since the clock's epoch for time points)
#ifndef TIME_FORMS_HPP
#define TIME_FORMS_HPP
#include "h.hpp"
namespace tf {
// clocks of the user: half speed, one that ticks in milliseconds, and one whose epoch lies in the future
template<class D, class TP, class Self> struct HalfBase {
    typedef D duration; typedef typename D::rep rep; typedef typename D::period period; typedef TP time_point; static const bool is_steady = true;
    static time_point now() { return time_point(duration(vs_now() / 2)); }
};
struct Half { typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<Half> time_point; static const bool is_steady = true; static time_point now() { return time_point(duration(vs_now() / 2)); } };
struct Coarse { typedef std::chrono::milliseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<Coarse> time_point; static const bool is_steady = true; static time_point now() { return time_point(duration(vs_now() / 1000000)); } };
struct BHalf { typedef boost::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef boost::chrono::time_point<BHalf> time_point; static const bool is_steady = true; static time_point now() { return time_point(duration(vs_now() / 2)); } };
struct Future { typedef std::chrono::microseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<Future> time_point; static const bool is_steady = true; static time_point now() { return time_point(duration(vs_now() / 1000 - 5000000000LL)); } };
typedef std::chrono::duration<ll, std::ratio<1, 3> > third; typedef boost::chrono::duration<ll, boost::ratio<1, 3> > bthird;
typedef std::chrono::duration<ll, std::ratio<1, 10000000> > hns; typedef std::chrono::duration<int, std::milli> ms32;
namespace sc = std::chrono; namespace bc = boost::chrono;
template<class D> using ssys = sc::time_point<sc::system_clock, D>;
template<class D> using bsys = bc::time_point<bc::system_clock, D>;
template<class D> using sst = sc::time_point<sc::steady_clock, D>;
template<class D> using bst = bc::time_point<bc::steady_clock, D>;
template<class For, class Until, class Timed>
ll call(int form, int m, ll c, For f, Until u, Timed t) {
#define REL(id, expr) case id: return m ? t(expr) : f(expr);
#define ABS(id, expr) case id: return m ? t(expr) : u(expr);
    switch (form) {
    REL(0, sc::nanoseconds(c)) REL(1, sc::microseconds(c)) REL(2, sc::milliseconds(c)) REL(3, sc::seconds(c)) REL(4, sc::minutes(c)) REL(5, sc::hours(c))
    REL(6, sc::duration<double>(c * 1e-9)) REL(7, third(c)) REL(8, ms32((int)c)) REL(9, hns(c)) REL(10, (sc::duration<float, std::milli>((float)c)))
    REL(12, bc::nanoseconds(c)) REL(13, bc::microseconds(c)) REL(14, bc::milliseconds(c)) REL(15, bc::seconds(c)) REL(16, bc::minutes(c)) REL(17, bc::hours(c))
    REL(18, bc::duration<double>(c * 1e-9)) REL(19, bthird(c)) REL(20, boost::posix_time::microseconds(c))
    ABS(30, ssys<sc::nanoseconds>(sc::nanoseconds(c))) ABS(31, ssys<sc::microseconds>(sc::microseconds(c))) ABS(32, ssys<sc::milliseconds>(sc::milliseconds(c))) ABS(33, ssys<sc::seconds>(sc::seconds(c)))
    ABS(34, ssys<sc::minutes>(sc::minutes(c))) ABS(35, ssys<sc::hours>(sc::hours(c))) ABS(36, bsys<bc::nanoseconds>(bc::nanoseconds(c))) ABS(37, bsys<bc::microseconds>(bc::microseconds(c)))
    ABS(38, bsys<bc::milliseconds>(bc::milliseconds(c))) ABS(39, bsys<bc::seconds>(bc::seconds(c))) ABS(40, mk_ptime(c * 1000)) ABS(41, mk_ts(c)) ABS(42, ssys<hns>(hns(c)))
    ABS(50, sst<sc::nanoseconds>(sc::nanoseconds(c))) ABS(51, sst<sc::milliseconds>(sc::milliseconds(c))) ABS(52, sst<sc::seconds>(sc::seconds(c))) ABS(53, bst<bc::nanoseconds>(bc::nanoseconds(c))) ABS(54, bst<bc::milliseconds>(bc::milliseconds(c)))
    ABS(60, Half::time_point(sc::nanoseconds(c))) ABS(61, Coarse::time_point(sc::milliseconds(c))) ABS(62, BHalf::time_point(bc::nanoseconds(c))) ABS(63, Future::time_point(sc::microseconds(c)))
    case 70: { struct timespec ts; ts.tv_sec = c; ts.tv_nsec = 500000000; return m ? t(ts) : u(ts); }
    case 71: { boost::posix_time::ptime p(boost::gregorian::date((unsigned short)c, 1, 1), boost::posix_time::milliseconds(1)); return m ? t(p) : u(p); }
    }
#undef REL
#undef ABS
    vs_bad("harness: unknown time form"); return 0;
}
}
#endif
