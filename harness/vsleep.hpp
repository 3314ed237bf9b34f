// Virtual sleeping: the executable's own nanosleep & co. hand the requested time to the harness instead of passing it.
#pragma once
#include <errno.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <cstdint>
#include <ctime>

#include "vclock.hpp"

namespace vs {
inline thread_local bool harness_thread = false;    // sleeps for real
inline void (*on_sleep)(std::int64_t ns) = nullptr;

inline void
real_sleep(std::int64_t ns)
{
    timespec ts{static_cast<time_t>(ns / 1000000000), static_cast<long>(ns % 1000000000)};
    ::syscall(SYS_nanosleep, &ts, nullptr);
}
inline void
sleep_ns(std::int64_t ns)
{
    if (ns < 0)
        ns = 0;
    if (harness_thread || !on_sleep)
        real_sleep(ns);
    else
        on_sleep(ns);
}
inline std::int64_t
ns_of(timespec const* t)
{
    return std::int64_t{t->tv_sec} * 1000000000 + t->tv_nsec;
}
}    // namespace vs

extern "C" {
__attribute__((noinline, used)) int
nanosleep(timespec const* t, timespec*)
{
    vs::sleep_ns(vs::ns_of(t));
    return 0;
}
__attribute__((noinline, used)) int
clock_nanosleep(clockid_t clk, int flags, timespec const* t, timespec*)
{
    vs::sleep_ns((flags & TIMER_ABSTIME) ? vs::ns_of(t) - vclock::now_ns.load() - (clk == CLOCK_REALTIME ? vclock::wall_ns.load() : 0) : vs::ns_of(t));
    return 0;
}
__attribute__((noinline, used)) int
usleep(unsigned us)
{
    vs::sleep_ns(std::int64_t{us} * 1000);
    return 0;
}
// a timed wait of the code under test is a sleep that nobody cuts short
__attribute__((noinline, used)) int
pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, timespec const* t)
{
    pthread_mutex_unlock(m);
    vs::sleep_ns(vs::ns_of(t) - vclock::now_ns.load());
    pthread_mutex_lock(m);
    return ETIMEDOUT;
}
__attribute__((noinline, used)) int
pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, timespec const* t)
{
    pthread_mutex_unlock(m);
    vs::sleep_ns(vs::ns_of(t) - vclock::now_ns.load() - vclock::wall_ns.load());
    pthread_mutex_lock(m);
    return ETIMEDOUT;
}
}
