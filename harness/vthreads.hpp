// Helpers for concurrent harnesses: start threads at once, perturb their schedule at chosen points.
#pragma once
#include <sched.h>

#include <atomic>
#include <cstdint>
#include <thread>
#include <vector>

namespace vt {
inline thread_local std::uint64_t t_rng   = 0;    // 0: this thread is not perturbed
inline thread_local unsigned      t_level = 0;

inline std::uint64_t
trand()
{
    t_rng ^= t_rng << 13;
    t_rng ^= t_rng >> 7;
    t_rng ^= t_rng << 17;
    return t_rng;
}
inline void
spin(unsigned n)
{
    for (unsigned volatile i = 0; i < n; i = i + 1) {}
}
/// Called at points inside the operations under test (user-supplied copies, hashes, handlers): sometimes gives
/// the processor away or dawdles.
inline void
jitter()
{
    if (!t_rng || !t_level)
        return;
    std::uint64_t const r = trand() % 64;
    switch (t_level) {
    case 1:
        if (r < 4)
            ::sched_yield();
        break;
    case 2:
        if (r < 16)
            ::sched_yield();
        else if (r < 24)
            spin(200);
        break;
    default:
        if (r < 24)
            ::sched_yield();
        else if (r < 40)
            spin(static_cast<unsigned>(r * 40));
        else if (r == 63) {
            timespec ts{0, 20000};
            ::nanosleep(&ts, nullptr);
        }
    }
}
inline void
perturb(std::uint64_t seed, unsigned level)
{
    t_rng   = seed | 1;
    t_level = level;
}
/// A global event counter.  Under ThreadSanitizer it orders nothing, so that it hides no race of the code under test.
struct Ticks {
    std::atomic<std::uint64_t> n{1};
    std::uint64_t
    operator()()
    {
#ifdef VF_TSAN
        return n.fetch_add(1, std::memory_order_relaxed);
#else
        return n.fetch_add(1, std::memory_order_seq_cst);
#endif
    }
};
/// Run f(0..n-1) in n threads that start together.
template <class F>
inline void
run(int n, std::uint64_t seed, unsigned level, F f)
{
    std::atomic<int>         ready{0};
    std::atomic<bool>        go{false};
    std::vector<std::thread> ts;
    for (int t = 0; t < n; t++)
        ts.emplace_back([&, t] {
            perturb(seed * 0x9E3779B97F4A7C15ull + static_cast<std::uint64_t>(t) * 0xD1342543DE82EF95ull + 12345, level);
            ready.fetch_add(1);
            while (!go.load())
                ::sched_yield();
            f(t);
        });
    while (ready.load() < n)
        ::sched_yield();
    go.store(true);
    for (auto& t : ts)
        t.join();
}
}    // namespace vt
