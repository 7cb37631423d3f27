// Stand-in for the semaphores of libdispatch, on top of the simulated POSIX semaphores. Times are encoded as libdispatch does:
// 0 is now, ~0 is never, other positive values are on the monotonic clock and negative ones are minus the nanoseconds since the epoch,
// where dispatch_walltime turns times up to the epoch into "never".
#ifndef V_DISPATCH_H
#define V_DISPATCH_H
#include <cerrno>
#include <cstdint>
#include <cstdlib>
#include <ctime>
#include <semaphore.h>
struct dispatch_semaphore_s { sem_t s; };
typedef struct dispatch_semaphore_s* dispatch_semaphore_t;
typedef uint64_t dispatch_time_t;
#define DISPATCH_TIME_NOW (0ull)
#define DISPATCH_TIME_FOREVER (~0ull)
static inline dispatch_semaphore_t dispatch_semaphore_create(long v) {
    if (v < 0) return 0;
    dispatch_semaphore_t p = (dispatch_semaphore_t)std::malloc(sizeof(dispatch_semaphore_s));
    if (!p || sem_init(&p->s, 0, (unsigned)v) != 0) { std::free(p); return 0; }
    return p;
}
static inline void dispatch_release(dispatch_semaphore_t p) { sem_destroy(&p->s); std::free(p); }
static inline long dispatch_semaphore_signal(dispatch_semaphore_t p) { sem_post(&p->s); return 0; }
static inline dispatch_time_t dispatch_time(dispatch_time_t when, int64_t delta) {
    if (when == DISPATCH_TIME_FOREVER) return when;
    if (when == 0) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); when = (uint64_t)t.tv_sec * 1000000000u + (uint64_t)t.tv_nsec; }
    if (delta >= 0) { when += (uint64_t)delta; return (int64_t)when <= 0 ? DISPATCH_TIME_FOREVER : when; }
    when += (uint64_t)delta; return (int64_t)when < 1 ? 1 : when;
}
static inline dispatch_time_t dispatch_walltime(struct timespec const* t, int64_t delta) {
    struct timespec n; if (!t) { clock_gettime(CLOCK_REALTIME, &n); t = &n; }
    int64_t ns = (int64_t)((uint64_t)t->tv_sec * 1000000000u + (uint64_t)t->tv_nsec + (uint64_t)delta);
    if (ns <= 1) return delta >= 0 ? DISPATCH_TIME_FOREVER : (dispatch_time_t)-2ll;
    return (dispatch_time_t)-ns;
}
static inline long dispatch_semaphore_wait(dispatch_semaphore_t p, dispatch_time_t t) {
    for (;;) {
        int r;
        if (t == DISPATCH_TIME_NOW) r = sem_trywait(&p->s);
        else if (t == DISPATCH_TIME_FOREVER) r = sem_wait(&p->s);
        else {
            int64_t v = (int64_t)t; struct timespec ts; int64_t n = v < 0 ? -v : v; ts.tv_sec = n / 1000000000; ts.tv_nsec = n % 1000000000;
            r = sem_clockwait(&p->s, v < 0 ? CLOCK_REALTIME : CLOCK_MONOTONIC, &ts);
        }
        if (r == 0) return 0;
        if (errno != EINTR) return 1;
    }
}
#endif
