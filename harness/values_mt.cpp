// C17: concurrent updates of one observable value.
#include "vf.hpp"
#include "vthreads.hpp"

#include <vector>
#include <xitren/comm/values/observable.hpp>

#include <memory>

namespace val = xitren::comm::values;
using vf::Src;
using vf::tr;

static int g_room[4096];

template <class T>
static std::int64_t
num(T v)
{
    if constexpr (std::is_pointer_v<T>)
        return v - g_room;
    else
        return static_cast<std::int64_t>(v);
}

template <class T>
struct Edge {
    std::int64_t from, to;
};

template <class T, std::size_t Max>
static void
drive(Src& s)
{
    using op_t  = std::conditional_t<std::is_pointer_v<T>, std::ptrdiff_t, T>;
    struct Watch {
        val::observed<T>                        o;
        std::vector<std::vector<std::int64_t>>  seen;
    };
    std::vector<std::unique_ptr<Watch>> ws;    // outlives the value
    auto x = std::make_unique<val::observable<T, Max>>();
    int const th = 2 + static_cast<int>(s.below(5)), per = 5 + static_cast<int>(s.below(s.chance(1, 4) ? 300 : 40));
    int const nobs = static_cast<int>(s.below(4));
    unsigned const level = static_cast<unsigned>(s.below(4));
    std::uint64_t const js = s.u64(), rs = s.u64();
    T init{};
    if constexpr (std::is_pointer_v<T>)
        init = g_room + 2048;
    else
        init = static_cast<T>(s.below(100));
    *x = init;
    static thread_local int me;
    for (int i = 0; i < nobs; i++) {
        ws.push_back(std::make_unique<Watch>());
        auto* w = ws.back().get();
        w->seen.resize(th);
        w->o.on_update([w](T const v) {
            w->seen[me].push_back(num(v));
            vt::jitter();
        });
        x->add_observer(w->o);
    }
    std::vector<std::vector<Edge<T>>> edges(th);
    std::vector<std::vector<std::int64_t>> set(th);    // values assigned
    bool const                        assigning = s.chance(1, 2), quiet = s.chance(1, 4);
    auto volatile&                    vx = *x;
    int const                         span = std::is_pointer_v<T> ? 1 : 3;
    vt::run(th, js, level, [&](int t) {
        Src r{rs + t};
        me         = t;
        auto norm  = [](auto v) { return num(static_cast<T>(v)); };
        for (int i = 0; i < per; i++) {
            op_t d = static_cast<op_t>(1 + r.below(span));
            bool const vol = r.chance(1, 4);
            switch (r.below(assigning ? (quiet ? 18 : 9) : 7)) {
            case 0: {
                T n = vol ? ++vx : ++*x;
                edges[t].push_back({norm(n - 1), num(n)});
                break;
            }
            case 1: {
                T o = vol ? vx++ : (*x)++;
                edges[t].push_back({num(o), norm(o + 1)});
                break;
            }
            case 2: {
                T n = vol ? --vx : --*x;
                edges[t].push_back({norm(n + 1), num(n)});
                break;
            }
            case 3: {
                T o = vol ? vx-- : (*x)--;
                edges[t].push_back({num(o), norm(o - 1)});
                break;
            }
            case 4: {
                T n = vol ? (vx += d) : (*x += d);
                edges[t].push_back({norm(n - d), num(n)});
                break;
            }
            case 5: {
                T n = vol ? (vx -= d) : (*x -= d);
                edges[t].push_back({norm(n + d), num(n)});
                break;
            }
            case 6:
                (void)x->value();    // readers too
                for (auto& w : ws)
                    (void)w->o.value();
                break;
            default: {
                T v = init;
                if (r.chance(3, 4))    // the same few values again and again, or one of this call only
                    v += static_cast<op_t>(r.below(4));
                else
                    v += static_cast<op_t>(std::is_same_v<T, unsigned char> ? 100 : 400 + 4 * (t * per + i) % 1600);
                T n = vol ? (vx = v) : (*x = v);
                VF_EXPECT("C17", n == v, "assigned", "an assignment of %lld gave %lld", (long long)num(v), (long long)num(n));
                set[t].push_back(num(v));
            }
            }
        }
    });
    // ---- an Eulerian path from the initial to the final value must exist over all reported (old,new) pairs
    std::int64_t const a = num(init), b = num(x->value());
    std::map<std::int64_t, long>                      bal;
    std::map<std::int64_t, std::vector<std::int64_t>> adj;
    std::map<std::int64_t, long>                      produced;
    std::size_t                                       n = 0;
    for (auto& v : edges)
        for (auto& e : v) {
            bal[e.from]++;
            bal[e.to]--;
            adj[e.from].push_back(e.to);
            adj[e.to].push_back(e.from);
            produced[e.to]++;
            n++;
        }
    bal[a]--;
    bal[b]++;
    std::size_t sets = 0;
    for (auto& v : set)
        for (auto y : v) {
            bal[y]--;
            produced[y]++;
            sets++;
        }
    vf::count("valmt.assignments", sets);
    // A value reached more often than left by an update is left by an assignment; there are just as many of these by counting.
    for (auto& [v, c] : bal)
        VF_REQUIRE("C17", sets == 0 || c <= 0, "no-order",
                   "no order of the calls explains what they reported: value %lld is left %ld times more often than it is reached", (long long)v, c);
    if (sets == 0)
      for (auto& [v, c] : bal)
        VF_REQUIRE("C17", c == 0, "no-chain", "the reported old/new pairs do not chain from %lld to %lld: value %lld is left %ld times more often than reached",
                   (long long)a, (long long)b, (long long)v, c);
    if (n) {
        std::set<std::int64_t>    done{a};
        std::vector<std::int64_t> st{a};
        for (auto& v : set)
            for (auto y : v)
                if (done.insert(y).second)
                    st.push_back(y);
        while (!st.empty()) {
            auto v = st.back();
            st.pop_back();
            for (auto t : adj[v])
                if (done.insert(t).second)
                    st.push_back(t);
        }
        for (auto& [v, l] : adj)
            VF_REQUIRE("C17", done.count(v), "disconnected", "reported values do not form one chain");
    }
    for (auto& w : ws) {
        std::map<std::int64_t, long> got;
        for (auto& v : w->seen)
            for (auto y : v)
                got[y]++;
        VF_REQUIRE("C17", got == produced, "notifications-differ", "an observer's update function was not called exactly once per produced value");
        VF_EXPECT("C17", n + sets == 0 || produced.count(num(w->o.value())), "observer-foreign-value", "an observer holds a value nobody produced");
    }
    tr("%d threads x %d operations, %d observers, jitter %u: %zu updates from %lld to %lld", th, per, nobs, level, n, (long long)a, (long long)b);
    vf::count("valmt.updates", n);
    vf::count("valmt.notifications", (n + sets) * nobs);
    vf::mix(sets);
    // did the threads interleave at all?
    bool inter = false;
    for (auto& v : edges)
        for (std::size_t i = 1; i < v.size(); i++)
            if (v[i].from != v[i - 1].to)
                inter = true;
    for (auto& v : edges)
        for (auto& e : v)
            vf::mix(static_cast<std::uint64_t>(e.from * 31 + e.to));
    if (inter) {
        vf::count("valmt.interleaved");
        vf::nontrivial();
    }
}
void
vf_case(Src& s)
{
    switch (s.below(7)) {
    case 0:
        return drive<int, 4>(s);
    case 1:
        return drive<int, 0>(s);
    case 2:
        return drive<unsigned char, 4>(s);
    case 3:
        return drive<long, 0>(s);
    case 4:
        return drive<double, 4>(s);
    case 5:
        return drive<double, 0>(s);
    default:
        return drive<int*, 0>(s);
    }
}
void
vf_directed()
{}
