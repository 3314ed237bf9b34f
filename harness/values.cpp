// C15, C16 (and C09-C11 for observable values): observable values and their observers, one thread.
#include "vf.hpp"

#include <vector>
// observable.hpp uses std::vector
#include <xitren/comm/values/observable.hpp>

#include <limits>
#include <memory>
#include <new>

using xitren::comm::observer_errors;
namespace val = xitren::comm::values;
using vf::Src;
using vf::tr;

static int g_room[512];    // what pointer values point into

template <class T>
static std::string
str(T v)
{
    if constexpr (std::is_pointer_v<T>)
        return vf::fmt("room+%td", v - g_room);
    else if constexpr (std::is_floating_point_v<T>)
        return vf::fmt("%.17g", static_cast<double>(v));
    else if constexpr (std::is_signed_v<T>)
        return vf::fmt("%lld", static_cast<long long>(v));
    else
        return vf::fmt("%llu", static_cast<unsigned long long>(v));
}
template <class T>
static bool
same(T a, T b)
{
    return a == b;
}

template <class T>
struct World;

template <class T>
struct Obs : val::observed<T> {
    World<T>* w{};
    int       id{};
    int       gone{0};
    void const* gone_src{};
    Obs() = default;
    explicit Obs(std::function<void(T const)> f) : val::observed<T>(std::move(f)) {}
    void
    disconnect(void const* src) override
    {
        gone++;
        gone_src = src;
    }
};

/// The value under test behind one face.  Every operator is applied through the class's own overloads.
template <class T>
struct Subject {
    using op_t = std::conditional_t<std::is_pointer_v<T>, std::ptrdiff_t, T>;
    virtual ~Subject()                                 = default;
    virtual T               value()                    = 0;
    virtual T               apply(int op, T set, op_t d) = 0;
    virtual observer_errors add(Obs<T>& o)             = 0;
    virtual observer_errors remove(Obs<T> const& o)    = 0;
    virtual void            clear()                    = 0;
    virtual observer_errors tell(T const& v)           = 0;
    virtual void const*     address()                  = 0;
    virtual std::size_t     capacity()                 = 0;
};
template <class T, std::size_t Max>
struct Sub : Subject<T> {
    using typename Subject<T>::op_t;
    alignas(val::observable<T, Max>) unsigned char room[sizeof(val::observable<T, Max>)];
    val::observable<T, Max>* o;
    Sub()
    {
        vf::garbage(room, 0xC3, sizeof room);
        o = new (room) val::observable<T, Max>;
    }
    ~Sub() override { o->~observable(); }
    T
    value() override
    {
        return o->value();
    }
    T
    apply(int op, T set, op_t d) override
    {
        // from 7 on: the same through a reference to volatile
        if (auto volatile& x = *o; op >= 7)
            return on(op - 7, x, set, d);
        return on(op, *o, set, d);
    }
    template <class X>
    static T
    on(int op, X& x, T set, op_t d)
    {
        switch (op) {
        case 0:
            return ++x;
        case 1:
            return x++;
        case 2:
            return --x;
        case 3:
            return x--;
        case 4:
            return x += d;
        case 5:
            return x -= d;
        default:
            return x = set;
        }
    }
    observer_errors
    add(Obs<T>& b) override
    {
        return o->add_observer(b);
    }
    observer_errors
    remove(Obs<T> const& b) override
    {
        return o->remove_observer(b);
    }
    void
    clear() override
    {
        o->clear_observers();
    }
    observer_errors
    tell(T const& v) override
    {
        return o->notify_observers(v);
    }
    void const*
    address() override
    {
        return o;
    }
    std::size_t
    capacity() override
    {
        return Max;
    }
};

template <class T>
struct World {
    using op_t = typename Subject<T>::op_t;
    struct Call {
        int who;
        T   v;
    };
    Src&                                     s;
    std::vector<Call>                        calls;
    std::vector<std::unique_ptr<Obs<T>>>     obs;
    std::vector<int>                         fn;      // generation of the update function, 0: none
    std::vector<T>                           held;    // model: what each observer holds
    std::vector<std::unique_ptr<Subject<T>>> subj;
    std::vector<std::vector<int>>            reg;
    std::vector<T>                           model;
    int                                      updating{-1};    // value whose operator is running

    static constexpr T zero = T{};

    std::unique_ptr<Subject<T>>
    fresh()
    {
        switch (s.below(4)) {
        case 0:
            return std::make_unique<Sub<T, 3>>();
        case 1:
            if constexpr (std::is_same_v<T, int>)
                return std::make_unique<Sub<T, 1>>();
            else
                return std::make_unique<Sub<T, 3>>();
        default:
            return std::make_unique<Sub<T, 0>>();
        }
    }
    void
    set_fn(int i, bool by_ctor = false)
    {
        (void)by_ctor;
        int g = fn[i] = 1 + static_cast<int>(s.below(1000));
        obs[i]->on_update([this, i, g](T const v) {
            if (fn[i] != g)
                vf::report("C15", "stale-function", "a replaced update function was called");
            on_call(i, v);
        });
    }
    // inside an update function: its observer holds the new value already, and so does the observable
    void
    on_call(int i, T v)
    {
        calls.push_back({i, v});
        VF_EXPECT("C15", same(obs[i]->value(), v), "observer-value-in-update", "inside its update function observer %d holds %s, was given %s", i,
                  str(obs[i]->value()).c_str(), str(v).c_str());
        if (updating >= 0) {
            T now = subj[static_cast<std::size_t>(updating)]->value();
            VF_EXPECT("C15 C16", same(now, v), "observable-value-in-update", "while the update to %s is reported, the observable value is %s", str(v).c_str(),
                      str(now).c_str());
            vf::count("val.looked_inside");
        }
    }
    explicit World(Src& src) : s{src}
    {
        int n = static_cast<int>(1 + s.below(7)), m = static_cast<int>(1 + s.below(2));
        fn.assign(n, 0);
        held.assign(n, T{});
        for (int i = 0; i < n; i++) {
            void* raw = ::operator new(sizeof(Obs<T>));
            vf::garbage(raw, 0xC3, sizeof(Obs<T>));
            if (s.chance(1, 3)) {
                int g = fn[i] = 1 + static_cast<int>(s.below(1000));
                obs.emplace_back(new (raw) Obs<T>([this, i, g](T const v) {
                    if (fn[i] != g)
                        vf::report("C15", "stale-function", "a replaced update function was called");
                    on_call(i, v);
                }));
            } else {
                obs.emplace_back(new (raw) Obs<T>());
                if (s.chance(2, 3))
                    set_fn(i);
            }
            VF_EXPECT("C16", same(obs[i]->value(), T{}), "observer-not-zero", "a new observer holds %s", str(obs[i]->value()).c_str());
        }
        for (int i = 0; i < m; i++)
            spawn();
    }
    void
    spawn()
    {
        subj.push_back(fresh());
        VF_EXPECT("C16", same(subj.back()->value(), T{}), "observable-not-zero", "a new observable value is %s", str(subj.back()->value()).c_str());
        reg.emplace_back();
        model.push_back(T{});
        tr("value %zu: room for %zu observers (0: any number)", subj.size() - 1, subj.back()->capacity());
        if constexpr (std::is_pointer_v<T>) {
            subj.back()->apply(6, g_room + 256, 0);
            model.back() = g_room + 256;
        }
    }
    T
    any()
    {
        if constexpr (std::is_pointer_v<T>)
            return g_room + 128 + s.below(256);
        else if constexpr (std::is_floating_point_v<T>) {
            switch (s.below(4)) {
            case 0:
                return static_cast<T>(s.range(-1000, 1000)) / 4;
            case 1:
                return static_cast<T>(s.range(-1000000, 1000000)) * static_cast<T>(1.1e3);
            case 2:
                return static_cast<T>(0.1) * static_cast<T>(s.range(-50, 50));
            default:
                return static_cast<T>(s.range(0, 3));
            }
        } else {
            using L = std::numeric_limits<T>;
            switch (s.below(5)) {
            case 0:
                return L::max();
            case 1:
                return L::min();
            case 2:
                return static_cast<T>(s.u64());
            default:
                return static_cast<T>(s.range(0, 100));
            }
        }
    }
    // what plain arithmetic does; false if it is undefined there (signed overflow, outside the array)
    static bool
    plain(int op, T& x, T set, op_t d, T& ret)
    {
        if constexpr (std::is_pointer_v<T>) {
            std::ptrdiff_t at = x - g_room, to = at + (op == 0 || op == 1 ? 1 : op == 2 || op == 3 ? -1 : op == 4 ? d : op == 5 ? -d : 0);
            if (op != 6 && (to < 2 || to > 510))
                return false;
        } else if constexpr (std::is_integral_v<T> && std::is_signed_v<T> && sizeof(T) >= sizeof(int)) {
            T r;
            if (op == 0 || op == 1) {
                if (__builtin_add_overflow(x, T{1}, &r))
                    return false;
            } else if (op == 2 || op == 3) {
                if (__builtin_sub_overflow(x, T{1}, &r))
                    return false;
            } else if (op == 4) {
                if (__builtin_add_overflow(x, d, &r))
                    return false;
            } else if (op == 5) {
                if (__builtin_sub_overflow(x, d, &r))
                    return false;
            }
        }
        switch (op) {
        case 0:
            ret = ++x;
            break;
        case 1:
            ret = x++;
            break;
        case 2:
            ret = --x;
            break;
        case 3:
            ret = x--;
            break;
        case 4:
            ret = x += d;
            break;
        case 5:
            ret = x -= d;
            break;
        default:
            ret = x = set;
        }
        return true;
    }
    void
    verify_others(char const* what)
    {
        for (std::size_t i = 0; i < obs.size(); i++)
            VF_EXPECT("C15", same(obs[i]->value(), held[i]), "observer-value", "after %s observer %zu holds %s, expected %s", what, i,
                      str(obs[i]->value()).c_str(), str(held[i]).c_str());
    }
    void
    deliver_check(int k, T v, char const* what, char const* tags)
    {
        for (int o : reg[k])
            held[o] = v;
        std::vector<int> want, got;
        for (int o : reg[k])
            if (fn[o])
                want.push_back(o);
        bool vals = true;
        for (auto& c : calls) {
            got.push_back(c.who);
            if (!same(c.v, v))
                vals = false;
        }
        auto gs = got, ws = want;
        std::sort(gs.begin(), gs.end());
        std::sort(ws.begin(), ws.end());
        VF_REQUIRE(tags, gs == ws, "update-calls", "%s: update functions were called %zu times, %zu registered observers have one", what, got.size(),
                   want.size());
        VF_REQUIRE(tags, vals, "update-value", "%s: an update function got another value than %s", what, str(v).c_str());
        VF_EXPECT("C09", got == want, "value-order", "%s: observers were notified out of their order of addition", what);
        vf::count("val.updates", got.size());
        if (reg[k].size() > 1)
            vf::nontrivial();
    }
    void
    update(int k)
    {
        static char const* const names[] = {"++x", "x++", "--x", "x--", "x += d", "x -= d", "x = v"};
        int const raw = static_cast<int>(s.below(14)), op = raw % 7;    // from 7 on: of a volatile x
        T    set = any();
        op_t d{};
        if constexpr (std::is_pointer_v<T>)
            d = s.range(-20, 20);
        else
            d = any();
        T m = model[k], want{};
        if (!plain(op, m, set, d, want))
            return;
        calls.clear();
        T before = model[k];
        updating = k;
        T ret    = subj[k]->apply(raw, set, d);
        if (raw >= 7)
            vf::count("val.volatile");
        updating = -1;
        T now    = subj[k]->value();
        tr("%s on value %d = %s (d %s, v %s) -> %s, now %s", names[op], k, str(before).c_str(), str(d).c_str(), str(set).c_str(), str(ret).c_str(),
           str(now).c_str());
        vf::mix(op * 8 + k);
        vf::count("val.operations");
        VF_EXPECT("C16", same(ret, want), "return-value", "%s on %s (d %s, v %s) returned %s, plain arithmetic returns %s", names[op],
                  str(before).c_str(), str(d).c_str(), str(set).c_str(), str(ret).c_str(), str(want).c_str());
        VF_REQUIRE("C16", same(now, m), "left-value", "%s on %s (d %s, v %s) left %s, plain arithmetic leaves %s", names[op], str(before).c_str(),
                   str(d).c_str(), str(set).c_str(), str(now).c_str(), str(m).c_str());
        model[k] = now;
        deliver_check(k, now, names[op], "C15");
        verify_others(names[op]);
    }
    void
    run()
    {
        int n = static_cast<int>(10 + s.below(60));
        for (int i = 0; i < n && !s.dry(); i++) {
            int k = static_cast<int>(s.below(subj.size())), o = static_cast<int>(s.below(obs.size()));
            auto& r = reg[k];
            switch (s.below(12)) {
            case 0:
            case 1:
            case 2: {
                bool in = std::find(r.begin(), r.end(), o) != r.end(), full = subj[k]->capacity() && r.size() >= subj[k]->capacity();
                // an observer follows one value at a time, so that "mirrors the value" has one meaning
                bool elsewhere = false;
                for (std::size_t q = 0; q < reg.size(); q++)
                    if (q != static_cast<std::size_t>(k) && std::find(reg[q].begin(), reg[q].end(), o) != reg[q].end())
                        elsewhere = true;
                if (elsewhere)
                    break;
                calls.clear();
                auto e = subj[k]->add(*obs[o]);
                tr("add %d to %d -> %d", o, k, static_cast<int>(e));
                vf::mix(o * 16 + k + 1000);
                VF_EXPECT("C15", calls.empty(), "add-updates", "adding an observer called an update function");
                if (in || full) {
                    VF_REQUIRE("C10", (in && e == observer_errors::already_contains) || (full && e == observer_errors::list_is_full),
                               "value-wrong-error", "adding observer %d (registered %d, full %d) returned %d", o, in, full, static_cast<int>(e));
                    vf::count(in ? "obs.add_refused_contains" : "obs.add_refused_full");
                } else {
                    VF_REQUIRE("C10", e == observer_errors::ok, "value-add-refused", "adding an observer to %zu of %zu returned %d", r.size(),
                               subj[k]->capacity(), static_cast<int>(e));
                    r.push_back(o);
                    vf::count("obs.added");
                }
                break;
            }
            case 3:
            case 4: {
                if (s.chance(2, 3) && !r.empty())
                    o = r[s.below(r.size())];
                auto it = std::find(r.begin(), r.end(), o);
                calls.clear();
                auto e = subj[k]->remove(*obs[o]);
                tr("remove %d from %d -> %d", o, k, static_cast<int>(e));
                vf::mix(o * 16 + k + 2000);
                VF_EXPECT("C15", calls.empty(), "remove-updates", "removing an observer called an update function");
                if (it == r.end()) {
                    VF_REQUIRE("C10", e == observer_errors::not_found, "value-wrong-error", "removing an unregistered observer returned %d",
                               static_cast<int>(e));
                    vf::count("obs.remove_refused");
                } else {
                    VF_REQUIRE("C10", e == observer_errors::ok, "value-remove-refused", "removing a registered observer returned %d",
                               static_cast<int>(e));
                    r.erase(it);
                    vf::count("obs.removed");
                }
                break;
            }
            case 5:
                if (s.chance(1, 3)) {
                    for (auto& x : obs)
                        x->gone = 0;
                    calls.clear();
                    void const* a    = subj[k]->address();
                    bool        dead = s.chance(1, 2);
                    if (dead)
                        subj[k].reset();
                    else
                        subj[k]->clear();
                    tr("%s %d", dead ? "destroy" : "clear", k);
                    vf::mix(k + 3000 + dead);
                    for (std::size_t q = 0; q < obs.size(); q++) {
                        int want = std::count(r.begin(), r.end(), static_cast<int>(q));
                        VF_EXPECT("C11", obs[q]->gone == want, "value-disconnects", "%s called the disconnect hook of observer %zu %d times, expected %d",
                                  dead ? "destroying" : "clearing", q, obs[q]->gone, want);
                        if (want)
                            VF_EXPECT("C11", obs[q]->gone_src == a, "value-disconnect-source", "another source");
                        vf::count("obs.disconnects", want);
                    }
                    VF_EXPECT("C15 C11", calls.empty(), "clear-updates", "clearing called an update function");
                    vf::count(dead ? "obs.destroyed" : "obs.cleared");
                    r.clear();
                    verify_others("a clear");
                    if (dead) {
                        subj[k]  = fresh();
                        model[k] = T{};
                        if constexpr (std::is_pointer_v<T>) {
                            subj[k]->apply(6, g_room + 256, 0);
                            model[k] = g_room + 256;
                        }
                    }
                } else if (s.chance(1, 2)) {
                    if (s.chance(1, 4)) {
                        obs[o]->on_update(nullptr);
                        fn[o] = 0;
                        tr("observer %d: no update function", o);
                    } else {
                        set_fn(o);
                        tr("observer %d: new update function", o);
                    }
                } else {
                    // an explicit notification delivers its value and changes nothing else
                    T v = any();
                    calls.clear();
                    auto e = subj[k]->tell(v);
                    tr("notify %d with %s", k, str(v).c_str());
                    VF_EXPECT("C09", e == observer_errors::ok, "value-notify-result", "notify_observers returned %d", static_cast<int>(e));
                    deliver_check(k, v, "notify_observers", "C09");
                    vf::count("obs.deliveries", calls.size());
                    for (std::size_t q = 0; q < obs.size(); q++)
                        VF_EXPECT("C09", same(obs[q]->value(), held[q]), "value-notify-held", "after an explicit notification observer %zu holds another value", q);
                    VF_EXPECT("C16", same(subj[k]->value(), model[k]), "notify-changes-value", "an explicit notification changed the value");
                }
                break;
            default:
                update(k);
            }
        }
    }
};

// chained values: one value's observer updates the next value
static void
chain(Src& s)
{
    val::observed<int>       oa;
    val::observed<long>      ob;
    val::observed<double>    oc;
    val::observable<int, 4>  a;
    val::observable<long, 0> b;
    val::observable<double, 2> c;
    int                      na = 0, nb = 0, nc = 0;
    oa.on_update([&](int v) {
        na++;
        b = static_cast<long>(v) * 3;
        c += 0.5;
    });
    ob.on_update([&](long) { nb++; });
    oc.on_update([&](double) { nc++; });
    a.add_observer(oa);
    b.add_observer(ob);
    c.add_observer(oc);
    int    m  = 0, n = 0;
    double mc = 0;
    for (int i = static_cast<int>(2 + s.below(20)); i; i--) {
        int d = static_cast<int>(s.range(-50, 50));
        switch (s.below(4)) {
        case 0:
            a += d;
            m += d;
            break;
        case 1:
            a++;
            m++;
            break;
        case 2:
            --a;
            m--;
            break;
        default:
            a = d;
            m = d;
        }
        n++;
        mc += 0.5;
        VF_EXPECT("C15", a.value() == m && oa.value() == m && b.value() == 3l * m && ob.value() == 3l * m && c.value() == mc && oc.value() == mc
                             && na == n && nb == n && nc == n,
                  "chained", "values updated from an update function are not mirrored (a %d/%d b %ld)", a.value(), m, b.value());
        vf::mix(d);
    }
    vf::count("val.chains");
    vf::nontrivial();
}

template <class T>
static void
go(Src& s)
{
    World<T> w(s);
    w.run();
}
void
vf_case(Src& s)
{
    switch (s.below(10)) {
    case 0:
        return go<int>(s);
    case 1:
        return go<unsigned char>(s);
    case 2:
        return go<short>(s);
    case 3:
        return go<unsigned>(s);
    case 4:
        return go<long>(s);
    case 5:
        return go<std::uint64_t>(s);
    case 6:
        return go<double>(s);
    case 7:
        return go<float>(s);
    case 8:
        return go<int*>(s);
    default:
        return chain(s);
    }
}
// many observers of one value: more than a narrow count holds
template <std::size_t Max>
static void
mass(std::size_t n)
{
    vf::alive(n);
    struct Obs1 : val::observed<long> {
        int  gone{}, got{};
        void
        disconnect(void const*) override
        {
            gone++;
        }
    };
    std::vector<Obs1> o(n);
    Obs1              extra;
    std::size_t       bad = 0;
    auto const        step = n / 20 + 1;
    {
        auto s = std::make_unique<val::observable<long, Max>>();
        for (auto& x : o) {
            x.on_update([&x](long) { x.got++; });
            bad += s->add_observer(x) != observer_errors::ok;
            vf::alive(static_cast<std::uint64_t>(&x - o.data()) + 1);
        }
        VF_EXPECT("C10", !bad, "many-refused", "%zu of %zu observers were refused by a value with room for them", bad, n);
        if (Max == n)
            VF_EXPECT("C10", s->add_observer(extra) == observer_errors::list_is_full, "many-overfull", "a full value of %zu took another observer", n);
        *s = 41;
        ++*s;
        for (auto& x : o)
            bad += x.value() != 42 || x.got != 2;
        VF_EXPECT("C15 C09", !bad, "many-updates", "an update of %zu observers went wrong for %zu", n, bad);
        for (std::size_t i = 0; i < n; i += step)
            bad += s->remove_observer(o[i]) != observer_errors::ok;
        VF_EXPECT("C10", !bad, "many-remove", "removing a registered observer of %zu failed", n);
        *s -= 2;
        for (std::size_t i = 0; i < n; i++)
            bad += o[i].value() != (i % step ? 40 : 42) || o[i].got != (i % step ? 3 : 2);
        VF_EXPECT("C15 C09", !bad, "many-updates", "an update after removals from %zu observers went wrong for %zu", n, bad);
        vf::count("val.updates", 2 * n);
    }
    for (std::size_t i = 0; i < n; i++)
        bad += o[i].gone != (i % step ? 1 : 0);
    VF_EXPECT("C11", !bad, "many-disconnects", "destroying a value of %zu observers called %zu disconnect hooks wrongly", n, bad);
}

void
vf_directed()
{
    mass<300>(300);
    mass<400>(300);
    mass<0>(300);
#if !defined(VF_ASAN) && !defined(VF_TSAN)
    mass<66000>(66000);
    mass<0>(66000);
#endif
}
