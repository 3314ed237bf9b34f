// Virtual system clock: the executable's own definition of system_clock::now() (and steady_clock::now()) takes
// the place of the C++ runtime's, so the code under test reads the time the harness sets.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdint>
#include <ctime>

namespace vclock {
inline std::atomic<std::int64_t>  now_ns{1'700'000'000'000'000'000};
inline std::atomic<std::uint64_t> reads{0};
inline std::atomic<std::int64_t>  step_ns{0};    // the clock moves by this much each time it is read
inline std::atomic<std::int64_t>  wall_ns{0};    // how far the wall clock has been set away from now_ns
#ifdef VF_CLOCK_SET
inline std::atomic<std::uint64_t> set_rng{1}, sets{0};
inline void
restart(std::uint64_t seed)
{
    set_rng = seed | 1;
    wall_ns = 0;
}
/// Somebody sets the wall clock now and then: back or forth, by little or by years.
inline void
maybe_set(unsigned one_in)
{
    std::uint64_t r = set_rng.load(std::memory_order_relaxed);
    r ^= r << 13;
    r ^= r >> 7;
    r ^= r << 17;
    set_rng.store(r, std::memory_order_relaxed);
    if (r % one_in)
        return;
    static constexpr std::int64_t by[] = {0, 1'000'000, 7'000'000, 60'000'000, 2'000'000'000, 3'600'000'000'000, 86'400'000'000'000, 300'000'000'000'000'000};
    std::int64_t const            d    = by[(r >> 20) % 8];
    wall_ns.store((r >> 40) & 1 ? -d : d, std::memory_order_relaxed);
    sets.fetch_add(1, std::memory_order_relaxed);
}
#else
inline void
maybe_set(unsigned)
{}
#endif
inline void
advance(std::int64_t ns)
{
    now_ns.fetch_add(ns, std::memory_order_relaxed);
    maybe_set(5);
}
inline std::int64_t
real_ns()
{
    timespec t{};
    ::clock_gettime(CLOCK_MONOTONIC, &t);
    return std::int64_t{t.tv_sec} * 1'000'000'000 + t.tv_nsec;
}
}    // namespace vclock

namespace std::chrono {
inline namespace _V2 {
__attribute__((noinline, used)) system_clock::time_point
system_clock::now() noexcept
{
    vclock::reads.fetch_add(1, std::memory_order_relaxed);
    vclock::maybe_set(40);
    auto const st = vclock::step_ns.load(std::memory_order_relaxed);
    return time_point{duration{vclock::wall_ns.load(std::memory_order_relaxed) + (st ? vclock::now_ns.fetch_add(st, std::memory_order_relaxed) : vclock::now_ns.load(std::memory_order_relaxed))}};
}
__attribute__((noinline, used)) steady_clock::time_point
steady_clock::now() noexcept
{
    vclock::reads.fetch_add(1, std::memory_order_relaxed);
    auto const st = vclock::step_ns.load(std::memory_order_relaxed);
    return time_point{duration{st ? vclock::now_ns.fetch_add(st, std::memory_order_relaxed) : vclock::now_ns.load(std::memory_order_relaxed)}};
}
}    // namespace _V2
}    // namespace std::chrono
