// C08: concurrent put/get on one LRU cache: short histories checked for linearizability, long ones for races and
// for reads of overwritten values.
#include "vf.hpp"
#include "vthreads.hpp"

#include <xitren/cache/lru.hpp>

#include <list>
#include <map>

using vf::Src;
using vf::tr;
using namespace std::chrono;

struct YKey {    // comparing or hashing a key may give the processor away
    int  k;
    bool
    operator==(YKey const& o) const
    {
        vt::jitter();
        return k == o.k;
    }
};
template <>
struct std::hash<YKey> {
    std::size_t
    operator()(YKey const& c) const noexcept
    {
        vt::jitter();
        return static_cast<std::size_t>(c.k % 3);
    }
};
struct YVal {
    std::uint64_t               id{};
    std::unique_ptr<std::uint64_t> own;    // heap memory, so a torn or stale copy is a memory error
    YVal(std::uint64_t i = 0) : id{i}, own{new std::uint64_t(i)} {}
    YVal(YVal const& o) : id{o.id}, own{new std::uint64_t(o.own ? *o.own : 0)} { vt::jitter(); }
    YVal(YVal&&) = default;
    YVal&
    operator=(YVal const& o)
    {
        id = o.id;
        vt::jitter();
        own.reset(new std::uint64_t(o.own ? *o.own : 0));
        return *this;
    }
    YVal&
    operator=(YVal&&)
        = default;
};

struct Op {
    bool          put;
    int           key;
    std::uint64_t val;    // put: value; get: value or 0
    std::uint64_t call, ret;
    int           th;
};

template <std::size_t Cap>
struct Lin {
    using state = std::vector<std::pair<int, std::uint64_t>>;    // most recent first
    std::vector<Op> const&                ops;
    std::unordered_set<std::uint64_t>     memo;
    std::uint64_t                         steps{};
    explicit Lin(std::vector<Op> const& o) : ops{o} {}
    static bool
    apply(state& s, Op const& o)
    {
        auto it = std::find_if(s.begin(), s.end(), [&](auto& e) { return e.first == o.key; });
        if (o.put) {
            if (it != s.end())
                s.erase(it);
            else if (s.size() >= Cap)
                s.pop_back();
            s.insert(s.begin(), {o.key, o.val});
            return true;
        }
        if (it == s.end())
            return o.val == 0;
        if (it->second != o.val)
            return false;
        auto e = *it;
        s.erase(it);
        s.insert(s.begin(), e);
        return true;
    }
    bool
    go(std::uint64_t done, state const& s)
    {
        if (done == (std::uint64_t{1} << ops.size()) - 1)
            return true;
        if (++steps > 2'000'000)
            return true;    // inconclusive, counted by the caller
        std::uint64_t h = done;
        for (auto& e : s)
            h = h * 0x100000001b3ull + e.first * 1000003ull + e.second;
        if (!memo.insert(h * 0x9E3779B97F4A7C15ull + done).second)
            return false;
        std::uint64_t first_ret = ~0ull;
        for (std::size_t i = 0; i < ops.size(); i++)
            if (!(done >> i & 1))
                first_ret = std::min(first_ret, ops[i].ret);
        for (std::size_t i = 0; i < ops.size(); i++) {
            if ((done >> i & 1) || ops[i].call > first_ret)
                continue;
            state n = s;
            if (apply(n, ops[i]) && go(done | std::uint64_t{1} << i, n))
                return true;
        }
        return false;
    }
};

template <std::size_t Cap>
static void
short_history(Src& s)
{
    xitren::cache::lru<YKey, YVal, Cap, true> c(hours(1000));
    int const                                 th = 2 + static_cast<int>(s.below(3)), per = 3 + static_cast<int>(s.below(th == 2 ? 8 : th == 3 ? 5 : 3));
    int const                                 keys = 1 + static_cast<int>(s.below(Cap + 2));
    std::vector<std::vector<Op>>              hist(th);
    for (int t = 0; t < th; t++)
        for (int i = 0; i < per; i++)
            hist[t].push_back({s.chance(1, 2), static_cast<int>(s.below(keys)), 0, 0, 0, t});
    std::uint64_t const jseed = s.u64();
    unsigned const      level = static_cast<unsigned>(s.below(4));
    vt::Ticks tick;
    vt::run(th, jseed, level, [&](int t) {
        for (std::size_t i = 0; i < hist[t].size(); i++) {
            Op& o = hist[t][i];
            if (o.put) {
                o.val  = (t + 1) * 1000 + i;
                o.call = tick();
                c.put(YKey{o.key}, YVal{o.val});
                o.ret = tick();
            } else {
                o.call = tick();
                auto r = c.get(YKey{o.key});
                o.ret  = tick();
                o.val  = r ? std::get<1>(*r).id : 0;
                if (r && (*std::get<1>(*r).own != o.val || std::get<0>(*r).k != o.key))
                    vf::report("C08", "torn-value", vf::fmt("get(%d) returned a torn entry: key %d, #%llu with content #%llu", o.key,
                                                            std::get<0>(*r).k, (unsigned long long)o.val,
                                                            (unsigned long long)*std::get<1>(*r).own));
            }
        }
    });
    std::vector<Op> all;
    for (auto& h : hist)
        all.insert(all.end(), h.begin(), h.end());
    // observation: what everybody finds afterwards, one thread
    for (int k = 0; k < keys && all.size() < 40; k++) {
        Op o{false, k, 0, tick(), 0, 9};
        auto r = c.get(YKey{k});
        o.val  = r ? std::get<1>(*r).id : 0;
        o.ret  = tick();
        all.push_back(o);
    }
    auto by_call = all;
    std::sort(by_call.begin(), by_call.end(), [](Op const& a, Op const& b) { return a.call < b.call; });
    bool          overlap = false;
    std::uint64_t mx      = 0;
    for (auto& o : by_call) {
        if (o.call < mx)
            overlap = true;
        mx = std::max(mx, o.ret);
        tr("[%llu,%llu] T%d %s %d %s#%llu", (unsigned long long)o.call, (unsigned long long)o.ret, o.th, o.put ? "put" : "get", o.key,
           o.put ? "= " : "-> ", (unsigned long long)o.val);
        vf::mix(o.call * 4096 + o.ret * 64 + o.key * 4 + o.put + o.th * 999983 + o.val * 7);
    }
    Lin<Cap> lin(all);
    bool     ok = lin.go(0, {});
    if (lin.steps > 2'000'000)
        vf::inconclusive("linearizability search too large");
    VF_EXPECT("C08", ok, "not-linearizable", "no sequential order of these calls on a cache of capacity %zu explains their results", Cap);
    vf::count("lru_mt.histories");
    if (overlap) {
        vf::count("lru_mt.overlapping");
        vf::nontrivial();
    }
}

template <std::size_t Cap>
static void
long_run(Src& s)
{
    xitren::cache::lru<YKey, YVal, Cap, true> c(hours(1000));
    int const                                 th = 4 + static_cast<int>(s.below(4)), per = 400;
    int const                                 keys  = static_cast<int>(Cap + 1 + s.below(4));
    std::uint64_t const                       jseed = s.u64(), seed2 = s.u64();
    vt::Ticks tick;
    std::vector<std::vector<Op>>              hist(th);
    vt::run(th, jseed, static_cast<unsigned>(s.below(2)), [&](int t) {
        Src r{seed2 + t};
        for (int i = 0; i < per; i++) {
            Op o{r.chance(1, 2), static_cast<int>(r.below(keys)), 0, 0, 0, t};
            if (o.put) {
                o.val  = (t + 1) * 1000000ull + i;
                o.call = tick();
                c.put(YKey{o.key}, YVal{o.val});
                o.ret = tick();
            } else {
                o.call = tick();
                auto r = c.get(YKey{o.key});
                o.ret  = tick();
                o.val  = r ? std::get<1>(*r).id : 0;
                if (r && *std::get<1>(*r).own != o.val)
                    vf::report("C08", "torn-value", "get returned a torn value");
            }
            hist[t].push_back(o);
        }
    });
    // per key: a get's value was put for that key, before the get returned, and not wholly superseded before it began
    std::map<std::uint64_t, Op>   puts;
    std::map<int, std::vector<Op>> bykey;
    for (auto& h : hist)
        for (auto& o : h)
            if (o.put) {
                puts[o.val] = o;
                bykey[o.key].push_back(o);
            }
    for (auto& h : hist)
        for (auto& o : h) {
            if (o.put || !o.val)
                continue;
            vf::count("lru_mt.long_hits");
            auto it = puts.find(o.val);
            VF_REQUIRE("C08", it != puts.end() && it->second.key == o.key && it->second.call < o.ret, "value-from-nowhere",
                       "get(%d) returned #%llu, which was not put for that key before", o.key, (unsigned long long)o.val);
            for (auto& p : bykey[o.key])
                VF_REQUIRE("C08", !(p.call > it->second.ret && p.ret < o.call), "overwritten-value",
                           "get(%d) returned #%llu although #%llu was put wholly after it and before the get", o.key,
                           (unsigned long long)o.val, (unsigned long long)p.val);
        }
    int held = 0;
    for (int k = 0; k < keys; k++)
        held += c.get(YKey{k}).has_value();
    VF_EXPECT("C08", held <= static_cast<int>(Cap), "over-capacity", "after a concurrent run a cache of %zu holds %d keys", Cap, held);
    vf::count("lru_mt.long_runs");
}

void
vf_case(Src& s)
{
#ifdef VF_LONG
    if (s.chance(1, 2))
        long_run<2>(s);
    else
        long_run<5>(s);
    vf::nontrivial();
    vf::mix(s.u64());
#else
    switch (s.below(3)) {
    case 0:
        return short_history<1>(s);
    case 1:
        return short_history<2>(s);
    default:
        return short_history<3>(s);
    }
#endif
}
void
vf_directed()
{}
