// C06, C07: the LRU cache driven by one thread against a reference model, on a virtual clock.
#include "vf.hpp"
#include "vclock.hpp"

#include <xitren/cache/lru.hpp>

#include <list>
#include <map>
#include <memory>

using vf::Src;
using vf::tr;
using namespace std::chrono;

static long g_live = 0;
struct Tok {
    std::uint64_t id;
    std::string   pad;
    Tok(std::uint64_t i = 0) : id{i}, pad(i % 40, static_cast<char>('a' + i % 26)) { g_live++; }
    Tok(Tok const& o) : id{o.id}, pad{o.pad} { g_live++; }
    Tok(Tok&& o) noexcept : id{o.id}, pad{std::move(o.pad)} { g_live++; }
    Tok&
    operator=(Tok const&)
        = default;
    Tok&
    operator=(Tok&&) noexcept
        = default;
    ~Tok() { g_live--; }
    bool
    ok(std::uint64_t want) const
    {
        return id == want && pad == std::string(want % 40, static_cast<char>('a' + want % 26));
    }
};
struct CKey {    // a key type whose hash collides
    int  k;
    bool
    operator==(CKey const&) const
        = default;
};
template <>
struct std::hash<CKey> {
    std::size_t
    operator()(CKey const& c) const noexcept
    {
        return static_cast<std::size_t>(c.k % 3);
    }
};
template <class K>
static K
key(int i)
{
    if constexpr (std::is_same_v<K, int>)
        return i;
    else if constexpr (std::is_same_v<K, CKey>)
        return CKey{i};
    else
        return (i % 2 ? "key-which-is-longer-than-the-small-string-buffer-" : "k") + std::to_string(i);
}

template <class Cache, class K, std::size_t Cap, bool Ex>
static void
drive(Src& s)
{
    bool const    timed = std::string(VF_PROP) == "C07" || std::string(VF_PROP) == "C41";
    system_clock::duration period;
    if (!timed) {
        period = s.chance(1, 2) ? system_clock::duration::max() : system_clock::duration(hours(24 * 365));
    } else {
        switch (s.below(6)) {
        case 0:
            period = milliseconds(1 + s.below(5));
            break;
        case 1:
            period = nanoseconds(1 + s.below(3));
            break;
        case 2:
            period = seconds(1 + s.below(100));
            break;
        case 3:
            period = s.chance(1, 4) ? nanoseconds(0) : nanoseconds(999 + s.below(3));
            break;
        case 4:
            period = hours(1 + s.below(5000));
            break;
        default:
            period = microseconds(1 + s.below(5000));
        }
    }
    long const live0 = g_live;
    auto       c     = std::make_unique<Cache>(period);
    VF_EXPECT("C07", c->expired_after() == period, "period-lost", "the cache reports another expiry period than it was given");
    bool const evicting = s.chance(timed ? 1u : 9u, timed ? 4u : 10u);
    int const  nkeys    = evicting ? static_cast<int>(Cap + 1 + s.below(Cap + 3)) : static_cast<int>(1 + s.below(Cap));
    tr("capacity %zu, period %lld ns, %d keys, exceptions %d", Cap, static_cast<long long>(period.count()), nkeys, int(Ex));
    struct E {
        std::uint64_t id;
        std::int64_t  at;
    };
    std::list<int>   order;    // model: most recent first, of keys held
    std::map<int, E> last;     // last put of every key ever put
    std::uint64_t    next = 1 + s.below(1000);
    int const        n    = static_cast<int>(10 + s.below(timed ? 60 : 120));
    auto             use  = [&](int k) {
        order.remove(k);
        order.push_front(k);
        while (order.size() > Cap)
            order.pop_back();
    };
    for (int i = 0; i < n && !s.dry(); i++) {
        int k = static_cast<int>(s.below(nkeys));
        if (s.chance(1, 5) && !order.empty())
            k = s.chance(1, 2) ? order.back() : order.front();
        auto const now = vclock::now_ns.load();
        if (timed && s.chance(1, 2)) {
            // move the clock: a little, or to just before / at / after the moment some key expires
            std::int64_t d = 0;
            auto const   p = period.count();
            if (s.chance(2, 3) && !last.empty()) {
                auto it = last.find(k);
                if (it == last.end())
                    it = last.begin();
                std::int64_t const target = it->second.at + p + s.range(-1, 1);
                d                         = std::max<std::int64_t>(0, target - now);
            } else {
                d = static_cast<std::int64_t>(s.below(static_cast<std::uint64_t>(p / 3 + 2)));
            }
            vclock::advance(d);
            tr("clock +%lld", static_cast<long long>(d));
            vf::mix(d);
        } else if (!timed && s.chance(1, 8)) {
            vclock::advance(static_cast<std::int64_t>(s.below(1'000'000'000)));
        }
        std::int64_t const t = vclock::now_ns.load();
        if (s.chance(timed ? 2u : 3u, timed ? 5u : 6u)) {
            std::uint64_t id = next++;
            tr("put %d = #%llu", k, static_cast<unsigned long long>(id));
            vf::mix(k * 2 + 1);
            try {
                c->put(key<K>(k), Tok{id});
            } catch (std::exception& e) {
                VF_REQUIRE("C06 C07", false, "put-throws", "put of key %d threw: %s", k, e.what());
            }
            last[k] = {id, t};
            use(k);
            vf::count("lru.puts");
        } else {
            tr("get %d", k);
            vf::mix(k * 2);
            bool          held = std::find(order.begin(), order.end(), k) != order.end();
            bool          timeout = false, other = false, has = false;
            std::uint64_t gid = 0;
            bool          intact = true, samekey = true;
            try {
                auto r = c->get(key<K>(k));
                if (r) {
                    has     = true;
                    gid     = std::get<1>(*r).id;
                    intact  = std::get<1>(*r).ok(gid);
                    samekey = std::get<0>(*r) == key<K>(k);
                }
            } catch (xitren::cache::cache_timeout&) {
                timeout = true;
            } catch (std::exception&) {
                other = true;
            }
            vf::count("lru.gets");
            VF_REQUIRE("C06 C07", !other, "get-throws", "get of key %d threw something else than cache_timeout", k);
            VF_EXPECT("C06 C07", Ex || !timeout, "throws-without-exceptions", "cache without exceptions threw cache_timeout");
            auto it = last.find(k);
            if (has) {
                VF_REQUIRE("C06 C07", it != last.end(), "never-put", "get returned a value for key %d, which was never put", k);
                VF_REQUIRE("C06", gid == it->second.id && intact && samekey, "wrong-value",
                           "get of key %d returned value #%llu, the last put was #%llu", k, static_cast<unsigned long long>(gid),
                           static_cast<unsigned long long>(it->second.id));
                VF_REQUIRE("C07", gid == it->second.id, "stale-value", "get of key %d returned an overwritten value", k);
            }
            if (it == last.end()) {
                VF_EXPECT("C06 C07", !timeout, "timeout-never-put", "get of a key never put threw cache_timeout");
                vf::count("lru.misses");
                continue;
            }
            bool const expired = t - it->second.at >= period.count();
            if (!timed) {
                VF_EXPECT("C06", !timeout, "timeout-fresh", "nothing can have expired but get threw cache_timeout");
                VF_REQUIRE("C06", has == held, held ? "lost" : "not-evicted",
                           held ? "get of key %d returned nothing, though fewer than %zu other keys were used since it was"
                                : "get of key %d returned its value, though %zu or more other keys were used since it was",
                           k, Cap);
                vf::count(held ? "lru.hits" : "lru.evicted_misses");
                if (!held)
                    vf::nontrivial();
            } else if (expired) {
                VF_REQUIRE("C07", !has, "expired-returned", "key %d was put %lld ns ago (period %lld ns) and still returned", k,
                           static_cast<long long>(t - it->second.at), static_cast<long long>(period.count()));
                if (!evicting)
                    VF_EXPECT("C07", timeout == Ex, "timeout-not-signalled", "get of expired key %d: thrown %d, exceptions %d", k,
                              int(timeout), int(Ex));
                vf::count("lru.expired");
                vf::nontrivial();
            } else {
                VF_REQUIRE("C07", !timeout, "fresh-times-out", "key %d was put %lld ns ago (period %lld ns) and timed out", k,
                           static_cast<long long>(t - it->second.at), static_cast<long long>(period.count()));
                if (!evicting)
                    VF_REQUIRE("C07", has, "fresh-hidden", "key %d was put %lld ns ago (period %lld ns), nothing was evicted, and get returned nothing",
                               k, static_cast<long long>(t - it->second.at), static_cast<long long>(period.count()));
                vf::count("lru.fresh");
            }
            if (has)
                use(k);
        }
        VF_EXPECT("C06", g_live - live0 <= static_cast<long>(4 * Cap + 8), "holds-more-than-capacity",
                  "a cache of capacity %zu holds %ld values", Cap, g_live - live0);
    }
    c.reset();
    VF_EXPECT("C06", g_live == live0, "leak", "destroying the cache left %ld values", g_live - live0);
}

template <class K, std::size_t Cap>
static void
pick_ex(Src& s)
{
    if (s.chance(1, 2))
        drive<xitren::cache::lru<K, Tok, Cap, true>, K, Cap, true>(s);
    else
        drive<xitren::cache::lru<K, Tok, Cap, false>, K, Cap, false>(s);
}

void
vf_case(Src& s)
{
    vclock::now_ns = 1'700'000'000'000'000'000 + static_cast<std::int64_t>(s.below(1'000'000'000'000));
    switch (s.below(6)) {
    case 0:
        return pick_ex<int, 1>(s);
    case 1:
        return pick_ex<std::string, 2>(s);
    case 2:
        return pick_ex<CKey, 3>(s);
    case 3:
        return pick_ex<int, 4>(s);
    case 4:
        return pick_ex<std::string, 8>(s);
    default:
        return pick_ex<int, 17>(s);
    }
}
// Large caches: filled beyond capacity, the most recent ones all held, the others gone; then ages.
template <class K, std::size_t Cap>
static void
large(std::size_t more)
{
    bool const timed = std::string(VF_PROP) == "C07" || std::string(VF_PROP) == "C41";
    vclock::now_ns   = 1'700'000'000'000'000'000;
    long const live0 = g_live;
    tr("large: capacity %zu, %zu keys", Cap, Cap + more);
    {
        auto const period = seconds(1000);
        auto       c      = std::make_unique<xitren::cache::lru<K, Tok, Cap, true>>(period);
        int const  n      = static_cast<int>(Cap + more);
        for (int i = 0; i < n; i++) {
            c->put(key<K>(i), Tok{static_cast<std::uint64_t>(i) + 7});
            if (i % 2 == 1 && i % 5 == 0)
                vclock::advance(1);
            vf::count("lru.puts");
            if (i % 1000 == 0)
                vf::alive(static_cast<std::uint64_t>(i) + 1);
        }
        // oldest held one used, so that the next one is evicted by the next put
        int const oldest = n - static_cast<int>(Cap);
        VF_EXPECT("C06 C07", c->get(key<K>(oldest)).has_value(), "large-lost", "capacity %zu: the key used %zu keys ago is gone", Cap, Cap);
        c->put(key<K>(n), Tok{static_cast<std::uint64_t>(n) + 7});
        int const step = std::max(1, n / 97);
        for (int i = 0; i <= n; i += (i < oldest + 3 && i + step > oldest - 3) ? 1 : step) {
            bool const held = i == oldest || i > oldest + (Cap > 1 ? 1 : 0);
            auto       r    = c->get(key<K>(i));
            VF_REQUIRE("C06", r.has_value() == held, held ? "large-lost" : "large-not-evicted", "capacity %zu: key %d of %d %s", Cap, i, n,
                       held ? "is gone" : "is still held");
            if (r) {
                VF_REQUIRE("C06 C07", std::get<1>(*r).ok(static_cast<std::uint64_t>(i) + 7), "large-wrong", "capacity %zu: key %d has another value", Cap, i);
                vf::count("lru.hits");
                vf::count("lru.fresh");
            } else {
                vf::count("lru.evicted_misses");
            }
        }
        VF_EXPECT("C06", g_live - live0 <= static_cast<long>(4 * Cap + 8), "holds-more-than-capacity", "a cache of capacity %zu holds %ld values", Cap, g_live - live0);
        if (timed) {
            vclock::advance(duration_cast<nanoseconds>(period).count());
            bool thrown = false;
            try {
                auto r = c->get(key<K>(n));
                VF_EXPECT("C07", !r.has_value(), "expired-returned", "capacity %zu: a key of exactly the period's age is returned", Cap);
            } catch (xitren::cache::cache_timeout&) {
                thrown = true;
            }
            VF_EXPECT("C07", thrown, "timeout-not-signalled", "capacity %zu: an expired key is not signalled", Cap);
            vf::count("lru.expired");
        }
        vf::count("lru.large");
    }
    VF_EXPECT("C06", g_live == live0, "leak", "destroying the cache left %ld values", g_live - live0);
}

void
vf_directed()
{
    large<int, 300>(200);
    large<std::string, 1000>(700);
    large<CKey, 130>(140);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    large<int, 66000>(40);
#endif
}
