// C14: observables bound to their observers at compile time.
#include "vf.hpp"

#include <xitren/comm/observer_static.hpp>

#include <functional>
#include <memory>
#include <tuple>

using namespace xitren::comm;
using vf::Src;
using vf::tr;

struct Ev {
    int           who;
    void const*   src;
    std::uint64_t val;
};
static std::vector<Ev> g_log;
// a delivery that makes another notification: the n-th from now
static int                   g_nest_at = -1;
static std::function<void()> g_nest;

struct Rec {
    std::uint64_t a;
    char          text[30];
};
static std::uint64_t
val(int x)
{
    return static_cast<std::uint64_t>(x);
}
static std::uint64_t
val(std::string const& x)
{
    return std::strtoull(x.c_str(), nullptr, 10);
}
static std::uint64_t
val(Rec const& r)
{
    return std::string(r.text) == "rec" + std::to_string(r.a) ? r.a : ~0ull;
}
template <class D>
static D
mk(std::uint64_t v)
{
    if constexpr (std::is_same_v<D, int>)
        return static_cast<int>(v);
    else if constexpr (std::is_same_v<D, Rec>) {
        Rec r{v, {}};
        std::snprintf(r.text, sizeof r.text, "rec%llu", (unsigned long long)v);
        return r;
    } else
        return std::to_string(v) + " is the number in this string";
}

// three observer types per data type
template <class D, int N>
struct O : observer<D, O<D, N>> {
    int  id{};
    long pad{N};
    void
    notification_impl(observable_impl<D> const& src, D const& data)
    {
        if (pad != N)
            vf::report("C14", "wrong-object", "a notification reached an object of another type");
        g_log.push_back({id, &src, val(data)});
        if (g_nest_at >= 0 && g_nest_at-- == 0)
            g_nest();
    }
};

template <class D>
struct Pool {
    std::vector<std::unique_ptr<O<D, 1>>> a;
    std::vector<std::unique_ptr<O<D, 2>>> b;
    std::vector<std::unique_ptr<O<D, 3>>> c;
    explicit Pool(Src& s)
    {
        int id = 0;
        auto n = [&] { return 1 + s.below(3); };
        for (auto k = n(); k; k--) {
            a.push_back(std::make_unique<O<D, 1>>());
            a.back()->id = id++;
        }
        for (auto k = n(); k; k--) {
            b.push_back(std::make_unique<O<D, 2>>());
            b.back()->id = id++;
        }
        for (auto k = n(); k; k--) {
            c.push_back(std::make_unique<O<D, 3>>());
            c.back()->id = id++;
        }
    }
    template <int N>
    auto&
    get(Src& s)
    {
        if constexpr (N == 1)
            return *a[s.below(a.size())];
        else if constexpr (N == 2)
            return *b[s.below(b.size())];
        else
            return *c[s.below(c.size())];
    }
};

template <class D>
struct Subject {
    std::vector<int> ids;
    virtual ~Subject()                     = default;
    virtual void        notify(D const& d) = 0;
    virtual void const* root() const       = 0;
};
template <class D, int... N>
struct Chain : Subject<D> {
    std::tuple<O<D, N>&...>    refs;
    observable<D, O<D, N>...>  o;
    Chain(Pool<D>&, std::tuple<O<D, N>&...> r) : refs{r}, o{std::get<O<D, N>&>(r)...} {}
    void
    notify(D const& d) override
    {
        o.notify(d);
    }
    void const*
    root() const override
    {
        return &o.root;
    }
};
// positional construction, also with a type occurring several times
template <class D, int... N>
struct PChain : Subject<D> {
    std::tuple<O<D, N>*...>                   refs;
    std::unique_ptr<observable<D, O<D, N>...>> o;
    PChain(Pool<D>& p, Src& s)
    {
        refs = std::tuple<O<D, N>*...>{&p.template get<N>(s)...};
        std::apply(
            [&](auto*... x) {
                o = std::make_unique<observable<D, O<D, N>...>>(*x...);
                (this->ids.push_back(x->id), ...);
            },
            refs);
    }
    void
    notify(D const& d) override
    {
        o->notify(d);
    }
    void const*
    root() const override
    {
        return &o->root;
    }
};

template <class D>
static void
drive(Src& s)
{
    Pool<D>                                  pool(s);
    std::vector<std::unique_ptr<Subject<D>>> subs;
    std::vector<void const*>                 srcs;
    int const                                n = static_cast<int>(1 + s.below(4));
    for (int i = 0; i < n; i++) {
        switch (s.below(8)) {
        case 0:
            subs.push_back(std::make_unique<PChain<D, 1>>(pool, s));
            break;
        case 1:
            subs.push_back(std::make_unique<PChain<D, 1, 2>>(pool, s));
            break;
        case 2:
            subs.push_back(std::make_unique<PChain<D, 2, 1>>(pool, s));
            break;
        case 3:
            subs.push_back(std::make_unique<PChain<D, 1, 1>>(pool, s));
            break;
        case 4:
            subs.push_back(std::make_unique<PChain<D, 1, 2, 3>>(pool, s));
            break;
        case 5:
            subs.push_back(std::make_unique<PChain<D, 3, 2, 1, 2>>(pool, s));
            break;
        case 6:
            subs.push_back(std::make_unique<PChain<D, 2, 2, 2, 2>>(pool, s));
            break;
        default:
            subs.push_back(std::make_unique<PChain<D, 1, 3, 2, 3, 1, 2, 3>>(pool, s));
        }
        srcs.push_back(nullptr);
        std::string l;
        for (int id : subs.back()->ids)
            l += std::to_string(id) + " ";
        tr("observable %d of observers %s", i, l.c_str());
    }
    std::uint64_t v = 1 + s.below(1000);
    for (int k = static_cast<int>(2 + s.below(20)); k && !s.dry(); k--) {
        int i = static_cast<int>(s.below(subs.size()));
        g_log.clear();
        v += 1 + s.below(1000);
        auto& ids = subs[i]->ids;
        // what must be called: the chain's observers in order; a notification made inside a delivery comes at that place
        struct Want {
            int           who;
            std::uint64_t val;
            void const*   src;
        };
        std::vector<Want> want;
        for (int x : ids)
            want.push_back({x, v, subs[i]->root()});
        g_nest_at = -1;
        if (s.chance(1, 3)) {
            auto const  at = s.below(ids.size());
            auto const  j  = s.below(subs.size());
            auto const  v2 = v + 500000;
            std::vector<Want> in;
            for (int x : subs[j]->ids)
                in.push_back({x, v2, subs[j]->root()});
            want.insert(want.begin() + static_cast<long>(at) + 1, in.begin(), in.end());
            g_nest    = [&subs, j, v2] { subs[j]->notify(mk<D>(v2)); };
            g_nest_at = static_cast<int>(at);
            vf::count("chain.nested");
        }
        subs[i]->notify(mk<D>(v));
        tr("notify %d #%llu: %zu calls", i, (unsigned long long)v, g_log.size());
        for (int x : ids)
            vf::mix(x + 1);
        vf::mix(i + 100);
        vf::count("chain.notifications");
        vf::count("chain.deliveries", g_log.size());
        VF_REQUIRE("C14", g_log.size() == want.size(), "count", "a chain of %zu made %zu calls, not %zu", ids.size(), g_log.size(), want.size());
        for (std::size_t p = 0; p < want.size(); p++) {
            VF_REQUIRE("C14", g_log[p].who == want[p].who, "order", "call %zu went to observer %d, due is %d", p, g_log[p].who, want[p].who);
            VF_REQUIRE("C14", g_log[p].val == want[p].val, "value", "call %zu carried %llu, notified was %llu", p, (unsigned long long)g_log[p].val,
                       (unsigned long long)want[p].val);
            VF_EXPECT("C14", g_log[p].src == want[p].src, "source-not-root", "the source of call %zu is not the observable's root", p);
        }
        srcs[i] = g_log[0].src;
        for (std::size_t q = 0; q < subs.size(); q++)
            if (q != static_cast<std::size_t>(i) && srcs[q])
                VF_EXPECT("C14", srcs[q] != srcs[i], "source-shared", "two observables have the same source");
        if (ids.size() > 1)
            vf::nontrivial();
    }
}

void
vf_case(Src& s)
{
    switch (s.below(3)) {
    case 0:
        return drive<int>(s);
    case 1:
        return drive<std::string>(s);
    default:
        return drive<Rec>(s);
    }
}
template <class D, std::size_t... I>
static void
long_chain(Src& s, std::index_sequence<I...>)
{
    Pool<D>                                                pool(s);
    PChain<D, static_cast<int>(1 + I * I % 3)...>          c(pool, s);
    for (std::uint64_t k = 1; k < 4; k++) {
        g_log.clear();
        g_nest_at = -1;
        c.notify(mk<D>(k));
        VF_REQUIRE("C14", g_log.size() == sizeof...(I), "count", "a chain of %zu made %zu calls", sizeof...(I), g_log.size());
        for (std::size_t p = 0; p < g_log.size(); p++)
            VF_REQUIRE("C14", g_log[p].who == c.ids[p] && g_log[p].val == k && g_log[p].src == c.root(), "order", "call %zu of a long chain is not the one due", p);
    }
    vf::count("chain.long");
}
void
vf_directed()
{
    Src s{15};
    long_chain<int>(s, std::make_index_sequence<12>{});
    long_chain<std::string>(s, std::make_index_sequence<40>{});
    long_chain<int>(s, std::make_index_sequence<130>{});
    // many notifications through one chain
    Pool<int>             pool(s);
    PChain<int, 1, 2, 1>  c(pool, s);
    for (int k = 0; k < 70000; k++) {
        g_log.clear();
        c.notify(k);
        VF_REQUIRE("C14", g_log.size() == 3 && g_log[2].who == c.ids[2] && g_log[2].val == static_cast<std::uint64_t>(k), "count", "notification %d made %zu calls", k, g_log.size());
    }
}
