// C20, C21: every pushed item is handled exactly once, intact, in order, before destruction returns.
#include "vf.hpp"
#include "vthreads.hpp"

#include <cstddef>
#include <deque>
#include <limits>
#include <sstream>
#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/comm/pipeline_stage_pool.hpp>

#include <memory>

namespace comm = xitren::comm;
using vf::Src;
using vf::tr;

#ifdef VF_TSAN
static constexpr auto mo = std::memory_order_relaxed;
#else
static constexpr auto mo = std::memory_order_seq_cst;
#endif

struct Log {
    static std::ostringstream&
    trace()
    {
        thread_local std::ostringstream o;
        o.str("");
        return o;
    }
    static auto&
    debug()
    {
        return trace();
    }
    static auto&
    warning()
    {
        return trace();
    }
    static auto&
    error()
    {
        return trace();
    }
};

static std::uint64_t
mixh(std::uint64_t a, std::uint64_t b)
{
    std::uint64_t s = a * 0x9E3779B97F4A7C15ull + b;
    return vf::splitmix(s);
}

// ---- items: copying takes a while, now and then a long one
struct Item {
    std::uint32_t prod{~0u}, seq{};
    std::uint64_t a[6]{};
    std::string   text;
    std::uint64_t sum{};

    Item() = default;
    Item(std::uint32_t p, std::uint32_t q) : prod{p}, seq{q}
    {
        for (int i = 0; i < 6; i++)
            a[i] = mixh(p, q * 7ull + static_cast<std::uint64_t>(i));
        text.assign(20 + q % 40, static_cast<char>('a' + (p + q) % 26));
        sum = check();
    }
    std::uint64_t
    check() const
    {
        std::uint64_t h = mixh(prod, seq);
        for (auto x : a)
            h = mixh(h, x);
        for (char c : text)
            h = mixh(h, static_cast<unsigned char>(c));
        return h;
    }
    Item(Item const& o) { copy(o); }
    Item(Item&& o) noexcept { steal(o); }
    Item&
    operator=(Item const& o)
    {
        if (this != &o)
            copy(o);
        return *this;
    }
    Item&
    operator=(Item&& o) noexcept
    {
        if (this != &o)
            steal(o);
        return *this;
    }
    ~Item()
    {
        prod = ~0u;
        sum  = 0xdead;
    }

private:
    void
    copy(Item const& o)
    {
        prod = o.prod;
        vt::jitter();
        seq = o.seq;
        for (int i = 0; i < 6; i++)
            a[i] = o.a[i];
        vt::jitter();
        text = o.text;
        sum  = o.sum;
        vt::jitter();
    }
    void
    steal(Item& o)
    {
        prod = o.prod;
        vt::jitter();
        seq = o.seq;
        for (int i = 0; i < 6; i++) {
            a[i]   = o.a[i];
            o.a[i] = 0;
        }
        vt::jitter();
        text  = std::move(o.text);
        sum   = o.sum;
        o.sum = 1;
        vt::jitter();
    }
};
static std::uint32_t
prod_of(Item const& i)
{
    return i.prod;
}
static std::uint32_t
seq_of(Item const& i)
{
    return i.seq;
}
static bool
intact(Item const& i)
{
    return i.sum == i.check();
}
static void
make(Item& i, std::uint32_t p, std::uint32_t q)
{
    i = Item(p, q);
}
// plain items: a number; a string
static std::uint32_t
prod_of(std::uint64_t v)
{
    return static_cast<std::uint32_t>(v >> 32) & 0xff;
}
static std::uint32_t
seq_of(std::uint64_t v)
{
    return static_cast<std::uint32_t>(v);
}
static bool
intact(std::uint64_t v)
{
    return (v >> 40) == (mixh(prod_of(v), seq_of(v)) & 0xffffff);
}
static void
make(std::uint64_t& v, std::uint32_t p, std::uint32_t q)
{
    v = (mixh(p, q) & 0xffffff) << 40 | std::uint64_t{p} << 32 | q;
}
static std::uint32_t
prod_of(std::string const& s)
{
    return static_cast<std::uint32_t>(s.empty() ? 255 : std::atoi(s.c_str()));
}
static std::uint32_t
seq_of(std::string const& s)
{
    auto p = s.find(':');
    return p == s.npos ? ~0u : static_cast<std::uint32_t>(std::atoi(s.c_str() + p + 1));
}
static void
make(std::string& s, std::uint32_t p, std::uint32_t q)
{
    s = std::to_string(p) + ":" + std::to_string(q) + ":";
    s.append(mixh(p, q) % 60, static_cast<char>('A' + q % 26));
}
static bool
intact(std::string const& s)
{
    std::string x;
    make(x, prod_of(s), seq_of(s));
    return x == s;
}

// ---- one run
struct Rec {    // one handling
    std::uint32_t prod, seq;
    std::uint64_t t;
};
struct Push {
    std::uint64_t b{}, e{};
};
static constexpr int max_workers = 16;
struct Run {
    int                              pool;    // workers; 0: a stage
    std::vector<std::vector<Push>>   pushed;    // [producer][seq]
    std::vector<std::vector<Rec>>    handled;    // [worker]
    std::atomic<int>                 busy[max_workers]{};
    std::atomic<std::uint64_t>       total{0};
    std::atomic<bool>                destroyed{false};
    vt::Ticks                        tick;
    std::uint64_t                    hseed{};
    unsigned                         hlevel{}, hslow{};    // handler's jitter, and chance (of 256) of a long handling
    std::atomic<int>                 bad{0};
    char const*                      prop;

    template <class T>
    void
    handle(T const& v, int worker)
    {
        if (worker < 0 || worker >= std::max(pool, 1)) {
            if (bad++ < 3)
                vf::reportf(prop, "worker-number", "the handler was told worker %d of %d", worker, pool);
            return;
        }
        if (busy[worker].fetch_add(1, mo) != 0 && bad++ < 3)
            vf::reportf(prop, "overlap", "worker %d handles two items at once", worker);
        if (destroyed.load(mo) && bad++ < 3)
            vf::reportf(prop, "handled-after-destruction", "an item was handled after the destructor had returned");
        if (!vt::t_rng)
            vt::perturb(hseed + static_cast<std::uint64_t>(worker) * 77777, hlevel);
        auto p = prod_of(v), q = seq_of(v);
        if (!intact(v) && bad++ < 3)
            vf::reportf(prop, "content", "an item came damaged or empty (reads as item %u of producer %u)", q, p);
        vt::jitter();
        if (hslow && vt::trand() % 256 < hslow) {
            timespec ts{0, static_cast<long>(20000 + vt::trand() % 200000)};
            ::nanosleep(&ts, nullptr);
        }
        handled[static_cast<std::size_t>(worker)].push_back({p, q, tick()});
        if (!intact(v) && bad++ < 3)
            vf::reportf(prop, "content-changed", "an item changed while it was being handled");
        busy[worker].fetch_sub(1, mo);
        if (auto n = total.fetch_add(1, mo); n % 4096 == 4095)
            vf::alive(n);
    }
    template <class T, class Pipe>
    void
    produce(Pipe& pipe, std::uint32_t p, std::uint64_t seed, int pauses)
    {
        Src r{seed};
        for (std::uint32_t q = 0; q < pushed[p].size(); q++) {
            T x{};
            make(x, p, q);
            int const how   = static_cast<int>(r.below(3));
            pushed[p][q].b  = tick();
            if (how == 0)
                pipe.push(x);
            else if (how == 1)
                pipe.push(std::move(x));
            else {
                T const& c = x;
                pipe.push(c);
            }
            pushed[p][q].e = tick();
            if (pauses && r.below(64) < static_cast<unsigned>(pauses)) {
                timespec ts{0, static_cast<long>(r.below(150000))};
                ::nanosleep(&ts, nullptr);
            }
        }
    }
    void
    judge()
    {
        std::size_t                           n = 0, all = 0;
        std::vector<std::vector<int>>         times(pushed.size());
        for (std::size_t p = 0; p < pushed.size(); p++) {
            times[p].resize(pushed[p].size());
            all += pushed[p].size();
        }
        for (std::size_t w = 0; w < handled.size(); w++) {
            auto& h = handled[w];
            std::map<std::uint32_t, std::uint32_t> last;
            for (auto& r : h) {
                n++;
                if (r.prod >= pushed.size() || r.seq >= pushed[r.prod].size()) {
                    vf::reportf(prop, "foreign-item", "an item that nobody pushed was handled (%u of %u)", r.seq, r.prod);
                    continue;
                }
                if (++times[r.prod][r.seq] == 2)
                    vf::reportf(prop, "twice", "item %u of producer %u was handled twice", r.seq, r.prod);
                auto it = last.find(r.prod);
                if (it != last.end() && it->second > r.seq)
                    vf::reportf(prop, "order", "worker %zu handled item %u of producer %u before item %u", w, it->second, r.prod, r.seq);
                last[r.prod] = r.seq;
            }
            if (pool == 0) {    // real-time order across producers
                std::uint64_t least = ~0ull;
                for (std::size_t i = h.size(); i-- > 0;) {
                    auto& r = h[i];
                    if (r.prod >= pushed.size() || r.seq >= pushed[r.prod].size())
                        continue;
                    if (pushed[r.prod][r.seq].b > least) {
                        vf::reportf(prop, "push-order", "item %u of producer %u was handled before an item whose push had returned before it was pushed",
                                    r.seq, r.prod);
                        break;
                    }
                    least = std::min(least, pushed[r.prod][r.seq].e);
                }
            }
        }
        for (std::size_t p = 0; p < pushed.size(); p++)
            for (std::size_t q = 0; q < pushed[p].size(); q++)
                if (times[p][q] == 0) {
                    vf::reportf(prop, "lost", "item %zu of producer %zu was never handled (%zu of %zu were)", q, p, n, all);
                    p = pushed.size() - 1;
                    break;
                }
        vf::count(pool ? "pipe.pool_items" : "pipe.stage_items", n);
        std::size_t used = 0, sw = 0;
        for (auto& h : handled) {
            if (!h.empty())
                used++;
            for (std::size_t i = 1; i < h.size(); i++) {
                if (h[i].prod != h[i - 1].prod)
                    sw++;
                if (i < 400)
                    vf::mix(h[i].prod * 64ull + (h[i].seq & 63));
            }
        }
        if (used > 1)
            vf::count("pipe.pool_several_workers");
        if (pushed.size() > 1 && sw > pushed.size()) {
            vf::nontrivial();
            vf::count("pipe.producers_interleaved");
        }
    }
};

template <class T, std::size_t Buf, int Pool>
static void
drive(Src& s, char const* prop)
{
    Run                 run;
    int const           prods = static_cast<int>(1 + s.below(6));
    std::uint64_t const seed  = s.u64();
    run.prop                  = prop;
    run.pool                  = Pool;
    run.hseed                 = s.u64();
    run.hlevel                = static_cast<unsigned>(s.below(4));
    run.hslow                 = s.chance(1, 3) ? static_cast<unsigned>(s.below(24)) : 0;
    unsigned const level      = static_cast<unsigned>(s.below(4));
    int const      pauses     = s.chance(1, 3) ? static_cast<int>(s.below(12)) : 0;
    bool const     late       = s.chance(1, 3);    // destroy when all was handled, or at once
#ifdef VF_TSAN
    int const scale = 1;
#else
    int const scale = 3;
#endif
    run.pushed.resize(static_cast<std::size_t>(prods));
    for (auto& v : run.pushed)
        v.resize(s.chance(1, 12) ? s.below(3) : 1 + s.below(static_cast<std::uint64_t>((s.chance(1, 6) ? 400 : 60) * scale)));
    std::size_t all = 0;
    for (auto& v : run.pushed)
        all += v.size();
    tr("%s, buffer %zu, %d producers, %zu items, jitter %u/%u, slow %u, pauses %d%s", Pool ? vf::fmt("pool of %d", Pool).c_str() : "stage", Buf, prods, all, level,
       run.hlevel, run.hslow, pauses, late ? "" : ", destroyed at once");
    run.handled.resize(static_cast<std::size_t>(std::max(Pool, 1)));
    auto go = [&](auto& pipe) {
        vt::run(prods, seed, level, [&](int t) { run.produce<T>(*pipe, static_cast<std::uint32_t>(t), seed + static_cast<std::uint64_t>(t), pauses); });
        if (late) {
            for (int i = 0; i < 2000 && run.total.load(mo) < all; i++) {
                timespec ts{0, 50000};
                ::nanosleep(&ts, nullptr);
            }
        } else
            vf::count("pipe.destroyed_with_backlog");
        pipe.reset();
        run.destroyed.store(true, mo);
        vf::count("pipe.destroyed");
    };
    if constexpr (Pool == 0) {
        auto pipe = std::make_unique<comm::pipeline_stage<T, int, Buf, Log>>(
            [&run](comm::pipeline_stage_exception, T const v, std::pair<int, int> const) -> int const {
                run.handle(v, 0);
                return 0;
            });
        go(pipe);
    } else {
        auto pipe = std::make_unique<comm::pipeline_stage_pool<T, int, Buf, static_cast<std::size_t>(Pool), Log>>(
            [&run](comm::pipeline_stage_exception, T const v, comm::measure_data const m) -> int const {
                run.handle(v, m.id);
                return 0;
            });
        go(pipe);
    }
    run.judge();
}

// a stage whose handler pushes into a second stage or pool, and sometimes into itself
template <std::size_t B1, std::size_t B2, int Pool>
static void
chain(Src& s, char const* prop)
{
    using stage2 = std::conditional_t<Pool == 0, comm::pipeline_stage<Item, int, B2, Log>,
                                      comm::pipeline_stage_pool<Item, int, B2, static_cast<std::size_t>(Pool ? Pool : 1), Log>>;
    Run                 run, first;
    std::uint64_t const seed = s.u64();
    int const           prods = static_cast<int>(1 + s.below(3));
    std::size_t const   per  = 1 + s.below(80);
    run.prop = first.prop = prop;
    run.pool  = Pool;
    first.pool = 0;
    run.hseed = first.hseed = s.u64();
    run.hlevel = first.hlevel = static_cast<unsigned>(s.below(4));
    // producer prods: items the first stage's handler pushed into itself
    bool const feed = B1 >= 1024;
    first.pushed.resize(static_cast<std::size_t>(prods) + (feed ? 1 : 0));
    for (int p = 0; p < prods; p++)
        first.pushed[static_cast<std::size_t>(p)].resize(per);
    if (feed)
        first.pushed.back().resize(per);
    run.pushed.resize(1);
    run.pushed[0].resize(per * first.pushed.size());
    first.handled.resize(1);
    run.handled.resize(static_cast<std::size_t>(std::max(Pool, 1)));
    std::function<void(Item const&)> fwd;
    {
        std::unique_ptr<stage2> second;
        auto                    h2 = [&run](auto, Item const v, auto const m) -> int const {
            if constexpr (std::is_same_v<std::remove_cv_t<decltype(m)>, comm::measure_data>)
                run.handle(v, m.id);
            else
                run.handle(v, 0);
            return 0;
        };
        if constexpr (Pool == 0)
            second = std::make_unique<stage2>(
                [h2](comm::pipeline_stage_exception e, Item const v, std::pair<int, int> const m) -> int const { return h2(e, v, m); });
        else
            second = std::make_unique<stage2>(
                [h2](comm::pipeline_stage_exception e, Item const v, comm::measure_data const m) -> int const { return h2(e, v, m); });
        using stage1  = comm::pipeline_stage<Item, int, B1, Log>;
        stage1*                 self{};
        std::atomic<stage1*>    selfp{};
        std::uint32_t           out = 0, fed = 0;
        std::unique_ptr<stage1> st1 = std::make_unique<stage1>([&](comm::pipeline_stage_exception, Item const v, std::pair<int, int> const) -> int const {
            first.handle(v, 0);
            Item x(0, out);
            run.pushed[0][out].b = run.tick();
            second->push(x);
            run.pushed[0][out].e = run.tick();
            out++;
            if (feed && v.prod != static_cast<std::uint32_t>(prods) && v.prod == 0 && fed < per) {
                stage1* me;
                while (!(me = selfp.load()))
                    ::sched_yield();
                Item y(static_cast<std::uint32_t>(prods), fed);
                first.pushed.back()[fed].b = first.tick();
                me->push(std::move(y));
                first.pushed.back()[fed].e = first.tick();
                fed++;
            }
            return 0;
        });
        self = st1.get();
        selfp.store(self);
        vt::run(prods, seed, static_cast<unsigned>(s.below(4)), [&](int t) { first.produce<Item>(*st1, static_cast<std::uint32_t>(t), seed + static_cast<std::uint64_t>(t), 0); });
        st1.reset();
        first.destroyed.store(true, mo);
        second.reset();
        run.destroyed.store(true, mo);
    }
    tr("chain of a stage and a %s, %d producers of %zu items", Pool ? "pool" : "stage", prods, per);
    first.prop = "C20";
    first.judge();
    run.judge();
    vf::count("pipe.chains");
}

void
vf_case(Src& s)
{
#ifdef POOL
    char const* prop = "C21";
    switch (s.below(16)) {
    case 0:
        return drive<Item, 1, 1>(s, prop);
    case 1:
        return drive<Item, 1, 2>(s, prop);
    case 2:
        return drive<Item, 2, 3>(s, prop);
    case 3:
        return drive<Item, 3, 2>(s, prop);
    case 4:
        return drive<Item, 8, 3>(s, prop);
    case 5:
        return drive<Item, 1, 8>(s, prop);
    case 6:
        return drive<Item, 4, 12>(s, prop);
    case 7:
        return drive<Item, 64, 4>(s, prop);
    case 8:
        return drive<Item, 1024, 2>(s, prop);
    case 9:
        return drive<std::uint64_t, 1, 3>(s, prop);
    case 10:
        return drive<std::uint64_t, 16, 4>(s, prop);
    case 11:
        return drive<std::string, 2, 3>(s, prop);
    case 12:
        return drive<std::string, 3, 5>(s, prop);
    case 13:
        return drive<std::uint64_t, 2, 2>(s, prop);
    case 14:
        return drive<Item, 5, 4>(s, prop);
    default:
        return chain<4, 3, 3>(s, prop);
    }
#else
    char const* prop = "C20";
    switch (s.below(14)) {
    case 0:
    case 1:
        return drive<Item, 1, 0>(s, prop);
    case 2:
    case 3:
        return drive<Item, 2, 0>(s, prop);
    case 4:
        return drive<Item, 3, 0>(s, prop);
    case 5:
        return drive<Item, 8, 0>(s, prop);
    case 6:
        return drive<Item, 64, 0>(s, prop);
    case 7:
        return drive<Item, 1024, 0>(s, prop);
    case 8:
        return drive<std::uint64_t, 1, 0>(s, prop);
    case 9:
        return drive<std::uint64_t, 16, 0>(s, prop);
    case 10:
        return drive<std::string, 2, 0>(s, prop);
    case 11:
        return drive<std::string, 7, 0>(s, prop);
    case 12:
        return chain<1024, 2, 0>(s, prop);
    default:
        return chain<3, 5, 0>(s, prop);
    }
#endif
}
// more items through one worker than any 16-bit count of them holds
template <std::size_t Buf, int Pool>
static void
longrun(char const* prop, int prods, std::size_t per)
{
    Run run;
    run.prop = prop;
    run.pool = Pool;
    run.pushed.resize(static_cast<std::size_t>(prods));
    for (auto& v : run.pushed)
        v.resize(per);
    run.handled.resize(static_cast<std::size_t>(std::max(Pool, 1)));
    tr("long run through a %s, buffer %zu, %d producers of %zu items", Pool ? vf::fmt("pool of %d", Pool).c_str() : "stage", Buf, prods, per);
    auto go = [&](auto& pipe) {
        vt::run(prods, 7, 0, [&](int t) { run.produce<std::uint64_t>(*pipe, static_cast<std::uint32_t>(t), 99 + static_cast<std::uint64_t>(t), 0); });
        pipe.reset();
        run.destroyed.store(true, mo);
    };
    if constexpr (Pool == 0) {
        auto pipe = std::make_unique<comm::pipeline_stage<std::uint64_t, int, Buf, Log>>(
            [&run](comm::pipeline_stage_exception, std::uint64_t const v, std::pair<int, int> const) -> int const {
                run.handle(v, 0);
                return 0;
            });
        go(pipe);
    } else {
        auto pipe = std::make_unique<comm::pipeline_stage_pool<std::uint64_t, int, Buf, static_cast<std::size_t>(Pool), Log>>(
            [&run](comm::pipeline_stage_exception, std::uint64_t const v, comm::measure_data const m) -> int const {
                run.handle(v, m.id);
                return 0;
            });
        go(pipe);
    }
    run.judge();
    std::size_t most = 0;
    for (auto& h : run.handled)
        most = std::max(most, h.size());
    if (most > 70000)
        vf::count("pipe.long_runs");
}

void
vf_directed()
{
#ifdef POOL
    longrun<3, 1>("C21", 1, 75000);
    longrun<64, 2>("C21", 2, 80000);
#else
    longrun<3, 0>("C20", 1, 75000);
    longrun<64, 0>("C20", 2, 40000);
#endif
}
