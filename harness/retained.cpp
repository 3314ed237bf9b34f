// C38 (what is dismissed is destroyed; memory does not grow with use): elements are counted by identity, and the memory the
// process holds is compared between rounds of the same calls on one long-lived instance of each component.
#include "vf.hpp"

#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <xitren/allocators/static_heap.hpp>
#include <xitren/allocators/static_heap_allocator.hpp>
#include <xitren/cache/lru.hpp>
#include <xitren/comm/mediator.hpp>
#include <xitren/comm/observer.hpp>
#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/comm/pipeline_stage_pool.hpp>
#include <xitren/comm/values/observable.hpp>
#include <xitren/func/argv_parser.hpp>
#include <xitren/func/fast_pimpl.hpp>
#include <xitren/func/interval_event.hpp>

namespace cm  = xitren::comm;
namespace val = xitren::comm::values;
namespace fn  = xitren::func;
namespace al  = xitren::allocators;
using vf::Src;
using vf::tr;

// ---- memory held by the process
#if defined(VF_ASAN)
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
static long
held_bytes()
{
    return static_cast<long>(__sanitizer_get_current_allocated_bytes());
}
#else
static std::atomic<long> g_bytes{};
static void*
get_mem(std::size_t n)
{
    auto* p = static_cast<std::size_t*>(std::malloc(n + 16));
    if (!p)
        throw std::bad_alloc();
    p[0] = n;
    g_bytes.fetch_add(static_cast<long>(n) + 16, std::memory_order_relaxed);
    return p + 2;
}
static void
put_mem(void* q)
{
    if (!q)
        return;
    auto* p = static_cast<std::size_t*>(q) - 2;
    g_bytes.fetch_sub(static_cast<long>(p[0]) + 16, std::memory_order_relaxed);
    std::free(p);
}
void* operator new(std::size_t n) { return get_mem(n); }
void* operator new[](std::size_t n) { return get_mem(n); }
void  operator delete(void* p) noexcept { put_mem(p); }
void  operator delete[](void* p) noexcept { put_mem(p); }
void  operator delete(void* p, std::size_t) noexcept { put_mem(p); }
void  operator delete[](void* p, std::size_t) noexcept { put_mem(p); }
static long
held_bytes()
{
    return g_bytes.load(std::memory_order_relaxed);
}
#endif

static double
seconds()
{
    timespec t{};
    ::clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}
static void
nap(long us)
{
    timespec ts{us / 1000000, us % 1000000 * 1000};
    ::nanosleep(&ts, nullptr);
}
template <class F>
static bool
await(F f, double s = 20)
{
    double const until = seconds() + s;
    while (!f()) {
        if (seconds() > until)
            return false;
        nap(50);
    }
    return true;
}

// ---- elements that are counted; copied only, so that a copy left somewhere is a whole element
static constexpr std::uint32_t most = 1u << 16;
static std::atomic<int>       g_live[most];
static std::atomic<long>      g_all{};
struct Tk {
    std::uint32_t id;
    Tk() : id{0} { in(); }    // a cache needs one
    explicit Tk(std::uint32_t i) : id{i % most} { in(); }
    Tk(Tk const& o) : id{o.id} { in(); }
    Tk&
    operator=(Tk const& o)
    {
        if (this != &o) {
            out();
            id = o.id;
            in();
        }
        return *this;
    }
    ~Tk() { out(); }
    bool operator==(Tk const& o) const { return id == o.id; }
    void in() { g_live[id]++, g_all++; }
    void out() { g_live[id]--, g_all--; }
};
template <>
struct std::hash<Tk> {
    std::size_t operator()(Tk const& t) const { return t.id; }
};
/// The ids of all elements that are alive.
static std::vector<std::uint32_t>
alive(std::uint32_t from, std::uint32_t to)
{
    std::vector<std::uint32_t> v;
    if (!g_all)
        return v;
    for (auto i = from; i < to; i++)
        if (g_live[i])
            v.push_back(i);
    return v;
}

struct Nul {
    template <class T>
    Nul const& operator<<(T const&) const { return *this; }
};
struct Log {
    static Nul trace() { return {}; }
    static Nul debug() { return {}; }
    static Nul warning() { return {}; }
    static Nul error() { return {}; }
};

// ---- cache
template <std::size_t N, bool E>
static void
cache_elements(Src& s)
{
    auto                       c = std::make_unique<xitren::cache::lru<Tk, Tk, N, E>>(std::chrono::hours(s.chance(1, 4) ? 0 : 10));
    std::map<std::uint32_t, std::uint32_t> latest;    // key -> the value put last
    std::uint32_t              next = 1000;
    auto const                 keys = static_cast<std::uint32_t>(1 + s.below(3 * N + 2));
    for (int i = 0; i < 60; i++) {
        auto const k = static_cast<std::uint32_t>(1 + s.below(keys));
        if (s.chance(2, 3)) {
            auto const v = next++;
            c->put(Tk{k}, Tk{v});
            tr("put %u -> #%u", k, v);
            latest[k] = v;
            auto const ks = alive(1, 1000), vs = alive(1000, next);
            VF_EXPECT("C38,C06", ks.size() <= N && vs.size() <= N, "cache-keeps", "a cache for %zu holds elements of %zu keys and %zu values", N, ks.size(), vs.size());
            for (auto x : vs) {
                bool now = false;
                for (auto& [kk, vv] : latest)
                    now = now || vv == x;
                VF_EXPECT("C38", now, "cache-overwritten", "value #%u is still alive after it was overwritten", x);
            }
            VF_EXPECT("C38", vs.size() == ks.size(), "cache-pairs", "%zu keys and %zu values are alive", ks.size(), vs.size());
            vf::count("kept.cache_puts");
            vf::mix(k);
            if (latest.size() > N)
                vf::nontrivial();
        } else {
            auto const before = g_all.load();
            try {
                (void)c->get(Tk{k});
            } catch (xitren::cache::cache_timeout const&) {
            }
            VF_EXPECT("C38", g_all <= before, "cache-get", "a get left %ld more elements alive", g_all - before);
        }
    }
    c.reset();
    VF_EXPECT("C38,C33", g_all == 0, "cache-destroyed", "%ld elements outlive their cache", g_all.load());
}

// ---- pipelines
template <std::size_t Buf, int Pool>
static void
pipe_elements(Src& s)
{
    std::atomic<bool>          hold{false};
    std::atomic<std::uint32_t> done{0}, in{0};
    bool const                 gated = Pool == 0 && s.chance(1, 2);
    auto                       h     = [&](Tk const& t) {
        (void)t;
        in++;
        while (hold)
            nap(20);
        done++;
    };
    std::unique_ptr<cm::pipeline_stage<Tk, int, Buf, Log>>                                             st;
    std::unique_ptr<cm::pipeline_stage_pool<Tk, int, Buf, static_cast<std::size_t>(Pool ? Pool : 1), Log>> po;
    if constexpr (Pool == 0)
        st = std::make_unique<cm::pipeline_stage<Tk, int, Buf, Log>>([&h](cm::pipeline_stage_exception, Tk const t, std::pair<int, int> const) -> int const {
            h(t);
            return 0;
        });
    else
        po = std::make_unique<cm::pipeline_stage_pool<Tk, int, Buf, static_cast<std::size_t>(Pool ? Pool : 1), Log>>(
            [&h](cm::pipeline_stage_exception, Tk const t, cm::measure_data const) -> int const {
                h(t);
                return 0;
            });
    auto push = [&](std::uint32_t k) {
        Tk const t{k};
        if constexpr (Pool == 0)
            k & 1 ? st->push(t) : st->push(Tk{k});
        else
            k & 1 ? po->push(t) : po->push(Tk{k});
    };
    std::uint32_t k = 1;
    for (int round = 0; round < 4; round++) {
        auto const n = 1 + s.below(2 * Buf);
        for (std::size_t i = 0; i < n; i++)
            push(k++);
        if (!await([&] { return done + 1 == k; })) {
            vf::inconclusive("items are not handled");    // for C20, C21
            break;
        }
        VF_EXPECT("C38", await([&] { return g_all == 0; }), "item-kept", "%ld copies of items are alive although all %u were handled", g_all.load(), k - 1);
        vf::count("kept.drained");
        vf::mix(n);
        vf::nontrivial();
        if (gated) {
            // the one before is gone while the next is handled
            push(k++);
            if (!await([&] { return done + 1 == k; }))
                break;
            hold = true;
            push(k++);
            if (!await([&] { return in + 1 == k; })) {
                hold = false;
                break;
            }
            bool const gone = await([&] { return g_live[k - 2] == 0; });
            hold            = false;
            VF_EXPECT("C38", gone, "item-kept", "a copy of an item is alive while the one after it is handled");
            if (!await([&] { return done + 1 == k; }))
                break;
            vf::count("kept.gone_before_next");
        }
    }
    st.reset();
    po.reset();
    VF_EXPECT("C38,C33", g_all == 0, "item-outlives", "%ld copies of items outlive their pipeline", g_all.load());
    vf::mix(k);
}

// ---- functions that were replaced
static void
functions(Src& s)
{
    std::uint32_t                         next = 1;
    std::vector<std::unique_ptr<val::observed<int>>> vals;
    auto                                  heap = std::make_unique<al::static_heap<512>>();
    for (int i = 0; i < 3; i++)
        vals.push_back(std::make_unique<val::observed<int>>());
    std::uint32_t of[4]{};
    for (int i = 0; i < 40; i++) {
        auto const w = s.below(4);
        of[w]        = next++;
        {
            Tk const t{of[w]};
            if (w < 3) {
                if (s.chance(1, 2))
                    vals[w]->on_update([t](int) { (void)t; });
                else {
                    std::function<void(int)> f{[t](int) { (void)t; }};
                    vals[w]->on_update(f);
                }
            } else
                heap->on_fail([t] { (void)t; });
        }
        auto const a = alive(1, next);
        for (auto x : a)
            VF_EXPECT("C38", std::find(std::begin(of), std::end(of), x) != std::end(of), "function-kept", "function #%u is alive although it was replaced", x);
        vf::count("kept.replaced");
        vf::mix(w);
        vf::nontrivial();
    }
    vals.clear();
    heap.reset();
    VF_EXPECT("C38,C33", g_all == 0, "function-outlives", "%ld functions outlive their owners", g_all.load());
    {
        std::atomic<int> calls{0};
        auto ev = std::make_unique<fn::interval_event>([t = Tk{1}, &calls] { (void)t; calls++; }, std::chrono::milliseconds(1), std::chrono::milliseconds(1));
        if (s.chance(1, 2))
            await([&] { return calls > 1; });
        ev.reset();
        VF_EXPECT("C38,C33,C24", g_all == 0, "function-outlives", "the callback outlives its interval event");
    }
    vf::mix(next);
}

// ---- growth
/// `round` is called many times; what the process holds after late rounds must not exceed what it held after early ones.
template <class F>
static void
grows(char const* what, int rounds, F round)
{
    long early = 0, late = 0;
    for (int i = 0; i < rounds; i++) {
        round(i);
        long const b = held_bytes();
        if (i < rounds / 2)
            early = i ? std::max(early, b) : b;
        else
            late = std::max(late, b);
        if (i % 16 == 0)
            vf::alive(i);
    }
    long const slack = 600 + rounds;
    tr("%s: at most %ld bytes in the first half of %d rounds, %ld in the second", what, early, rounds, late);
    VF_EXPECT("C38", late <= early + slack, "grows", "%s: the memory held grew by %ld bytes from the first to the second half of %d rounds of the same calls", what,
              late - early, rounds);
    vf::count("kept.rounds", static_cast<std::uint64_t>(rounds));
    vf::mix(static_cast<std::uint64_t>(late) * 31 + static_cast<std::uint64_t>(what[0]) * 7 + static_cast<std::uint64_t>(what[1]));
    vf::nontrivial();
}
template <std::size_t N>
static void
cache_grows(Src& s)
{
    xitren::cache::lru<int, std::string, N, false> c{std::chrono::hours(s.chance(1, 3) ? 0 : 10)};
    auto const                                     seed  = s.u64();
    bool const                                     fresh = s.chance(2, 3);
    int                                            base  = 0;
    grows("cache", 200, [&](int) {
        Src r{seed};
        for (int i = 0; i < 30; i++) {
            int const k = base + static_cast<int>(r.below(2 * N));
            if (r.chance(2, 3))
                c.put(k, std::string(40, 'v'));
            else
                c.get(k);
        }
        if (fresh)
            base += 10007;
    });
}
template <bool Static, std::size_t Max>
static void
observable_grows(Src& s)
{
    struct O : cm::observer<int> {
        void disconnect(void const*) override {}
        void data(void const*, int const&) override {}
    };
    std::vector<O>                   o(12);
    cm::observable<int, Static, Max> x;
    auto const                       seed  = s.u64();
    bool const                       clear = s.chance(1, 2);
    auto                             quiet = [](auto f) {
        try {
            f();
        } catch (std::exception const&) {
        }
    };
    grows("observable", 200, [&](int i) {
        Src r{seed};
        for (int k = 0; k < 40; k++) {
            auto& w = o[r.below(o.size())];
            switch (r.below(3)) {
            case 0: quiet([&] { (void)x.add_observer(w); }); break;
            case 1: quiet([&] { (void)x.remove_observer(w); }); break;
            default: quiet([&] { (void)x.notify_observers(i); });
            }
        }
        if (clear)
            x.clear_observers();
        else
            for (auto& w : o)
                quiet([&] { (void)x.remove_observer(w); });
    });
    x.clear_observers();
}
template <std::size_t Max>
static void
values_grow(Src& s)
{
    val::observable<int, Max>                        v;
    std::vector<std::unique_ptr<val::observed<int>>> o;
    for (int i = 0; i < 6; i++)
        o.push_back(std::make_unique<val::observed<int>>());
    auto const seed = s.u64();
    long       sum  = 0;
    grows("observable value", 200, [&](int) {
        Src r{seed};
        for (int k = 0; k < 40; k++) {
            auto& w = *o[r.below(o.size())];
            switch (r.below(5)) {
            case 0: (void)v.add_observer(w); break;
            case 1: (void)v.remove_observer(w); break;
            case 2: {
                std::array<long, 8> big{};
                w.on_update([big, &sum](int x) { sum += x + big[0]; });
                break;
            }
            case 3: v = static_cast<int>(r.below(5)); break;
            default: ++v;
            }
        }
        v.clear_observers();
    });
}
static void
mediator_grows(Src& s)
{
    struct A {
        int x;
    };
    struct B {
        char c[40];
    };
    struct M : cm::module<A, B> {
        using cm::module<A, B>::module;
        using cm::module<A, B>::send;
        void data(B const&) override {}
    };
    struct N : cm::module<B, A> {
        using cm::module<B, A>::module;
        using cm::module<B, A>::send;
        void data(A const&) override {}
    };
    auto       m    = std::make_unique<cm::manager<6>>();
    auto const seed = s.u64();
    grows("mediator", 200, [&](int) {
        Src                             r{seed};
        std::vector<std::unique_ptr<M>> ms;
        std::vector<std::unique_ptr<N>> ns;
        for (int k = 0; k < 20; k++)
            switch (r.below(4)) {
            case 0:
                try {
                    ms.push_back(std::make_unique<M>(*m));
                } catch (std::exception const&) {
                }
                break;
            case 1:
                try {
                    ns.push_back(std::make_unique<N>(*m));
                } catch (std::exception const&) {
                }
                break;
            case 2:
                if (!ms.empty())
                    ms.back()->send(A{3});
                break;
            default:
                if (!ns.empty())
                    ns.front()->send(B{});
            }
    });
}
template <std::size_t Buf, int Pool>
static void
pipe_grows(Src& s)
{
    std::atomic<int> done{0};
    std::unique_ptr<cm::pipeline_stage<std::string, int, Buf, Log>>                                             st;
    std::unique_ptr<cm::pipeline_stage_pool<std::string, int, Buf, static_cast<std::size_t>(Pool ? Pool : 1), Log>> po;
    if constexpr (Pool == 0)
        st = std::make_unique<cm::pipeline_stage<std::string, int, Buf, Log>>([&](cm::pipeline_stage_exception, std::string const, std::pair<int, int> const) -> int const {
            done++;
            return 0;
        });
    else
        po = std::make_unique<cm::pipeline_stage_pool<std::string, int, Buf, static_cast<std::size_t>(Pool ? Pool : 1), Log>>(
            [&](cm::pipeline_stage_exception, std::string const, cm::measure_data const) -> int const {
                done++;
                return 0;
            });
    int const per = static_cast<int>(12 + s.below(30));
    int       all = 0;
    bool      ok  = true;
    grows(Pool ? "pool" : "stage", 60, [&](int) {
        std::string const t(60, 'i');
        for (int i = 0; i < per; i++, all++)
            if constexpr (Pool == 0)
                st->push(t);
            else
                po->push(t);
        ok = ok && await([&] { return done == all; });
        nap(500);    // the workers note their figures
    });
    if (!ok)
        vf::inconclusive("items are not handled");
}
struct Opts {
    std::string name{};
    int         number{};
    bool        flag{};
};
static void
parser_grows(Src& s)
{
    auto                     p = fn::argv_parser<Opts>::instance({{"--name", &Opts::name}, {"--number", &Opts::number}, {"--flag", &Opts::flag}});
    std::vector<char const*> v;
    static char const* const words[] = {"--name", "--number", "--flag", "a value too long to be kept inside", "12", "--no"};
    for (auto k = 1 + s.below(12); k; k--)
        v.push_back(words[s.below(std::size(words))]);
    grows("parser", 200, [&](int) { (void)p->parse(static_cast<int>(v.size()), v.data()); });
}
static void
event_grows(Src& s)
{
    std::atomic<int>   calls{0};
    fn::interval_event ev{[&] { calls++; }, std::chrono::milliseconds(1), std::chrono::milliseconds(0)};
    bool               ok = true;
    grows("interval event", 20, [&](int i) {
        ok = ok && await([&] { return calls >= 5 * (i + 1); });
        ev.period(std::chrono::milliseconds(1));
    });
    if (!ok)
        vf::inconclusive("no calls");
    vf::mix(s.u64());
}
static void
container_grows(Src& s)
{
    constexpr std::size_t N = 4096;
    using A                 = al::static_heap_allocator<std::pair<int const, std::string>, N>;
    auto const seed         = s.u64();
    auto       h            = std::make_unique<al::static_heap<N>>();
    std::size_t early = 0;
    {
        std::map<int, std::string, std::less<int>, A> m{std::less<int>{}, A{*h}};
        for (int i = 0; i < 200; i++) {
            Src r{seed};
            for (int k = 0; k < 30; k++) {
                int const x = static_cast<int>(r.below(10));
                if (r.chance(1, 2))
                    m[x] = "v";
                else
                    m.erase(x);
            }
            m.clear();
            if (i == 0)
                early = h->free_heap_size();
            VF_EXPECT("C38,C02", h->free_heap_size() == early, "heap-grows", "after %d rounds an empty map leaves %zu bytes free, %zu at first", i, h->free_heap_size(), early);
        }
    }
    vf::count("kept.rounds", 200);
    vf::mix(seed);
}

void
vf_case(vf::Src& s)
{
    switch (s.below(24)) {
    case 0: cache_elements<1, true>(s); break;
    case 1: cache_elements<2, false>(s); break;
    case 2: cache_elements<5, true>(s); break;
    case 3: cache_elements<16, false>(s); break;
    case 4: pipe_elements<1, 0>(s); break;
    case 5: pipe_elements<4, 0>(s); break;
    case 6: pipe_elements<20, 0>(s); break;
    case 7: pipe_elements<1, 1>(s); break;
    case 8: pipe_elements<4, 3>(s); break;
    case 9: pipe_elements<9, 2>(s); break;
    case 10:
    case 11: functions(s); break;
    case 12: cache_grows<1>(s); break;
    case 13: cache_grows<7>(s); break;
    case 14: observable_grows<false, 1>(s); break;
    case 15: observable_grows<true, 5>(s); break;
    case 16: values_grow<3>(s); break;
    case 17: values_grow<1>(s); break;
    case 18: mediator_grows(s); break;
    case 19: pipe_grows<4, 0>(s); break;
    case 20: pipe_grows<4, 2>(s); break;
    case 21: parser_grows(s); break;
    case 22: s.chance(1, 3) ? event_grows(s) : parser_grows(s); break;
    default: container_grows(s);
    }
}
void
vf_directed()
{
    Src s{99};
    event_grows(s);
    pipe_grows<16, 3>(s);
    cache_grows<40>(s);
}
