// Common runtime of all harnesses: case loop, random source, oracle reports, event counters, traces.
//
// A harness defines   void vf_case(vf::Src&)   (one generated case)   and optionally   void vf_directed()
// (deterministic probes, run once by the first shard).  Reports carry the ids of the properties they refute;
// a check counts those of its own property only (VF_PROP).
#pragma once
#include <fcntl.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#ifdef VF_CLOCK_SET
#    include "vclock.hpp"
#endif

#ifndef VF_PROP
#    define VF_PROP "C00"
#endif

#if defined(__SANITIZE_ADDRESS__)
#    define VF_ASAN 1
#elif defined(__SANITIZE_THREAD__)
#    define VF_TSAN 1
#endif
#if defined(__has_feature)
#    if __has_feature(address_sanitizer)
#        define VF_ASAN 1
#    endif
#    if __has_feature(thread_sanitizer)
#        define VF_TSAN 1
#    endif
#endif
#if defined(VF_VG)
#    include <valgrind/memcheck.h>
#endif
#if defined(VF_ASAN)
extern "C" void
__sanitizer_set_death_callback(void (*)(void));
#endif

namespace vf {

inline std::uint64_t
splitmix(std::uint64_t& s)
{
    std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z               = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z               = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

/// Source of every random choice: a seeded generator, or the bytes of a fuzzer input.
struct Src {
    std::uint64_t       s_{};
    std::uint8_t const* p_{};
    std::size_t         n_{};
    bool                bytes_{};

    explicit Src(std::uint64_t seed) : s_{seed} {}
    Src(std::uint8_t const* p, std::size_t n) : p_{p}, n_{n}, bytes_{true} {}

    bool
    dry() const
    {
        return bytes_ && n_ == 0;
    }
    std::uint64_t
    u64()
    {
        if (!bytes_)
            return splitmix(s_);
        std::uint64_t r{};
        for (int i = 0; i < 8; i++)
            r = (r << 8) | byte();
        return r;
    }
    std::uint8_t
    byte()
    {
        if (!bytes_)
            return static_cast<std::uint8_t>(splitmix(s_) >> 32);
        if (!n_)
            return 0;
        n_--;
        return *p_++;
    }
    std::uint64_t
    below(std::uint64_t n)
    {
        if (n <= 1)
            return 0;
        if (!bytes_)
            return splitmix(s_) % n;
        std::uint64_t r{};
        for (std::uint64_t m = n - 1; m; m >>= 8)
            r = (r << 8) | byte();
        return r % n;
    }
    std::int64_t
    range(std::int64_t lo, std::int64_t hi)
    {
        return lo + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(hi - lo) + 1));
    }
    bool
    chance(unsigned num, unsigned den)
    {
        return below(den) < num;
    }
    template <class C>
    auto&
    pick(C& c)
    {
        return c[below(c.size())];
    }
};

/// Memory for an object to be made in: what it holds must not matter.
inline void
garbage(void* p, int fill, std::size_t n)
{
    std::memset(p, fill, n);
#if defined(VF_VG)
    (void)VALGRIND_MAKE_MEM_UNDEFINED(p, n);
#endif
}

/// Says that the calling thread is inside this runtime, whose own memory requests are not the code's.
inline thread_local int t_internal = 0;
struct Internal {
    Internal() { t_internal++; }
    ~Internal() { t_internal--; }
};

struct Abort {};    // thrown to leave a case after a fatal report

inline int                                 g_out = -1, g_prog = -1;
inline std::uint64_t                       g_seed = 1, g_case = 0, g_first = 0, g_n = 1;
inline std::mutex                          g_mx;
inline std::map<std::string, std::uint64_t> g_counts;
inline std::unordered_set<std::uint64_t>   g_sigs;
inline std::vector<std::string>            g_samples;
inline std::map<std::string, int>          g_keys;
inline std::string                         g_trace;
inline std::uint64_t                       g_sig = 0;
inline bool                                g_nontrivial = false;
inline bool                                g_only       = false;
inline std::uint64_t                       g_reports = 0, g_foreign = 0, g_incon = 0;
inline std::size_t constexpr trace_max = 24000;

inline std::string
jesc(std::string const& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c == '\n') {
            o += "\\n";
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else {
            o += static_cast<char>(c);
        }
    }
    return o;
}

inline std::string
vfmt(char const* f, va_list ap)
{
    char b[2048];
    std::vsnprintf(b, sizeof b, f, ap);
    return b;
}
__attribute__((format(printf, 1, 2))) inline std::string
fmt(char const* f, ...)
{
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    return s;
}

/// Append one line to the current case's trace (what is printed with a violation).
__attribute__((format(printf, 1, 2), noinline)) inline void
tr(char const* f, ...)
{
    Internal in;
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    std::lock_guard l(g_mx);
    if (g_trace.size() > trace_max)
        g_trace.erase(0, g_trace.size() / 2);
    g_trace += s;
    g_trace += '\n';
}
/// Fold something observed or done into the case's signature (for counting distinct cases).
inline void
mix(std::uint64_t x)
{
    std::uint64_t s = g_sig ^ x;
    g_sig           = splitmix(s);
}
inline void
nontrivial()
{
    g_nontrivial = true;
}
__attribute__((noinline)) inline void
count(char const* name, std::uint64_t n = 1)
{
    Internal in;
    std::lock_guard l(g_mx);
    g_counts[name] += n;
}
/// A distinct state/interleaving seen.
inline void
seen(std::uint64_t h)
{
    Internal in;
    std::lock_guard l(g_mx);
    if (g_sigs.size() < 2000000)
        g_sigs.insert(h);
}
inline void
inconclusive(char const* why)
{
    Internal in;
    std::lock_guard l(g_mx);
    g_incon++;
    g_counts[std::string("inconclusive: ") + why]++;
}

inline void
emit(std::string const& line)
{
    std::string s = line + "\n";
    if (g_out >= 0) {
        [[maybe_unused]] auto r = ::write(g_out, s.data(), s.size());
    } else {
        [[maybe_unused]] auto r = ::write(1, s.data(), s.size());
    }
}

/// Does the list of property ids `tags` contain the property this binary checks?
inline bool
mine(char const* tags)
{
    if (std::strstr(tags, VF_PROP))
        return true;
#ifdef VF_AS    // what these say is part of this property, under the circumstances this binary makes
    for (char const* p = VF_AS; *p; p += 3)
        if (std::strstr(tags, std::string(p, 3).c_str()))
            return true;
#endif
    return false;
}

inline void
report(char const* tags, std::string const& key, std::string const& msg)
{
    Internal in;
    std::lock_guard l(g_mx);
    if (!mine(tags)) {
        g_foreign++;
        return;
    }
    g_reports++;
    if (g_keys[key]++ >= 3)
        return;
    emit("{\"t\":\"viol\",\"key\":\"" + jesc(key) + "\",\"case\":" + std::to_string(g_case) + ",\"seed\":"
         + std::to_string(g_seed) + ",\"msg\":\"" + jesc(msg) + "\",\"trace\":\"" + jesc(g_trace) + "\"}");
}

__attribute__((format(printf, 3, 4), noinline, cold)) inline void
reportf(char const* tags, char const* key, char const* f, ...)
{
    Internal in;
    va_list ap;
    va_start(ap, f);
    auto m = vfmt(f, ap);
    va_end(ap);
    report(tags, key, m);
}
__attribute__((noinline, cold, noreturn)) inline void
leave()
{
    throw Abort{};
}

// EXPECT: report and go on.  REQUIRE: report and leave the case (not in noexcept code).
#define VF_EXPECT(tags, cond, key, ...)               \
    do {                                              \
        if (__builtin_expect(!(cond), 0))             \
            ::vf::reportf(tags, key, __VA_ARGS__);    \
    } while (0)
#define VF_REQUIRE(tags, cond, key, ...)              \
    do {                                              \
        if (__builtin_expect(!(cond), 0)) {           \
            ::vf::reportf(tags, key, __VA_ARGS__);    \
            ::vf::leave();                            \
        }                                             \
    } while (0)

inline void
dump_on_death()
{
#ifndef VF_TSAN    // inside a race report nothing instrumented may run (the case number is in the progress file)
    static std::atomic<bool> once{};
    if (once.exchange(true))
        return;
    // no lock: the dying thread may hold it
    emit("{\"t\":\"death\",\"case\":" + std::to_string(g_case) + ",\"seed\":" + std::to_string(g_seed) + ",\"trace\":\""
         + jesc(g_trace.substr(0, trace_max)) + "\"}");
#endif
}
inline void
on_abort(int)
{
    dump_on_death();
    ::signal(SIGABRT, SIG_DFL);
    ::raise(SIGABRT);
}

inline void
progress(std::uint64_t c)
{
    g_case = c;
    if (g_prog >= 0) {
        [[maybe_unused]] auto r = ::pwrite(g_prog, &c, sizeof c, 0);
    }
}
/// A long case tells that it advances (the runner takes a minute without progress for a hang).
inline void
alive(std::uint64_t step)
{
    if (g_prog >= 0) {
        [[maybe_unused]] auto r = ::pwrite(g_prog, &step, sizeof step, 8);
    }
}

inline std::uint64_t
case_seed(std::uint64_t seed, std::uint64_t c)
{
    std::uint64_t s = seed * 0xD1342543DE82EF95ull + c;
    splitmix(s);
    return splitmix(s);
}
}    // namespace vf

void
vf_case(vf::Src& s);
void
vf_directed();    // every harness defines it (possibly empty)

namespace vf {
inline void
begin_case(std::uint64_t c)
{
    progress(c);
    std::lock_guard l(g_mx);
    g_trace.clear();
    g_sig        = 0x1234567;
    g_nontrivial = false;
}
inline void
end_case()
{
    std::lock_guard l(g_mx);
    g_counts["cases"]++;
    if (g_nontrivial && g_sigs.size() < 2000000)
        g_sigs.insert(g_sig);
    if (g_samples.size() < 2 && g_nontrivial && !g_trace.empty())
        g_samples.push_back(g_trace.substr(0, 1500));
}
inline void
run_one(std::uint64_t c)
{
    begin_case(c);
    Src s{case_seed(g_seed, c)};
#ifdef VF_CLOCK_SET
    vclock::restart(case_seed(g_seed, c) ^ 0x5e7);
    auto const sets = vclock::sets.load();
    struct Count {
        std::uint64_t sets;
        ~Count() { count("clock.sets", vclock::sets.load() - sets); }
    } counted{sets};
#endif
    try {
        vf_case(s);
    } catch (Abort const&) {
    }
    end_case();
}
inline void
finish(char const* sigfile)
{
    std::string o = "{\"t\":\"stats\",\"counts\":{";
    bool        f = true;
    for (auto& [k, v] : g_counts) {
        if (!f)
            o += ',';
        f = false;
        o += "\"" + jesc(k) + "\":" + std::to_string(v);
    }
    o += "},\"distinct\":" + std::to_string(g_sigs.size()) + ",\"reports\":" + std::to_string(g_reports)
         + ",\"foreign\":" + std::to_string(g_foreign) + ",\"inconclusive\":" + std::to_string(g_incon) + ",\"samples\":[";
    f = true;
    for (auto& s : g_samples) {
        if (!f)
            o += ',';
        f = false;
        o += "\"" + jesc(s) + "\"";
    }
    o += "]}";
    if (sigfile && *sigfile) {
        int fd = ::open(sigfile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0) {
            std::vector<std::uint64_t> v(g_sigs.begin(), g_sigs.end());
            [[maybe_unused]] auto      r = ::write(fd, v.data(), v.size() * 8);
            ::close(fd);
        }
    }
    emit(o);
}
}    // namespace vf

#ifdef VF_FUZZ
extern "C" int
LLVMFuzzerInitialize(int*, char***)
{
    if (char const* o = std::getenv("VF_OUT"))
        vf::g_out = ::open(o, O_WRONLY | O_CREAT | O_APPEND, 0644);
    __sanitizer_set_death_callback(vf::dump_on_death);
    std::atexit([] { vf::finish(std::getenv("VF_SIGS")); });
    return 0;
}
extern "C" int
LLVMFuzzerTestOneInput(std::uint8_t const* p, std::size_t n)
{
    static std::uint64_t c = 0;
    vf::begin_case(c++);
    vf::Src s{p, n};
    auto    before = vf::g_reports;
    try {
        vf_case(s);
    } catch (vf::Abort const&) {
    }
    vf::end_case();
    if (vf::g_reports != before)
        std::abort();    // let libFuzzer write the input
    return 0;
}
#else
int
main(int argc, char** argv)
{
    char const* sig = "";
    bool        directed = false;
    long        secs     = 0;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        char const* v = argv[i + 1];
        if (a == "--seed")
            vf::g_seed = std::strtoull(v, nullptr, 10);
        else if (a == "--first")
            vf::g_first = std::strtoull(v, nullptr, 10);
        else if (a == "--n")
            vf::g_n = std::strtoull(v, nullptr, 10);
        else if (a == "--out")
            vf::g_out = ::open(v, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
        else if (a == "--prog")
            vf::g_prog = ::open(v, O_RDWR | O_CREAT | O_TRUNC, 0644);
        else if (a == "--sigs")
            sig = v;
        else if (a == "--secs")
            secs = std::atol(v);
        else if (a == "--directed")
            directed = std::atoi(v) != 0;
    }
#    if defined(VF_ASAN)
    __sanitizer_set_death_callback(vf::dump_on_death);
#    endif
    ::signal(SIGABRT, vf::on_abort);
    if (directed) {
        vf::begin_case(~0ull);
        try {
            vf_directed();
        } catch (vf::Abort const&) {
        }
    }
    auto monotonic = [] {
        timespec t{};
        ::clock_gettime(CLOCK_MONOTONIC, &t);
        return static_cast<long>(t.tv_sec);
    };
    long const until = monotonic() + secs;
    for (std::uint64_t i = 0; i < vf::g_n && (!secs || i == 0 || monotonic() < until); i++)
        vf::run_one(vf::g_first + i);
    vf::finish(sig);
    std::fflush(nullptr);
#    if defined(VF_RETURNS)
    return 0;    // what happens after main belongs to the run
#    else
    ::_exit(0);
#    endif
}
#endif
