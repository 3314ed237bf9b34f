// C09, C10, C11, C12: observables of fixed capacity and growing ones, one thread, against a registration model.
#include "vf.hpp"

#include <xitren/comm/observer.hpp>

#include <memory>
#include <optional>

using namespace xitren::comm;
using vf::Src;
using vf::tr;

struct Big {
    std::uint64_t id{};
    std::uint8_t  fill[100]{};
};
static std::uint64_t
idof(int v)
{
    return static_cast<std::uint64_t>(v);
}
static std::uint64_t
idof(Big const& b)
{
    for (std::size_t i = 0; i < sizeof b.fill; i++)
        if (b.fill[i] != static_cast<std::uint8_t>(b.id + i))
            return ~0ull;
    return b.id;
}
static std::uint64_t
idof(std::string const& s)
{
    return std::strtoull(s.c_str() + 21, nullptr, 10);
}
template <class T>
static T
make(std::uint64_t id)
{
    if constexpr (std::is_same_v<T, int>)
        return static_cast<int>(id);
    else if constexpr (std::is_same_v<T, Big>) {
        Big b;
        b.id = id;
        for (std::size_t i = 0; i < sizeof b.fill; i++)
            b.fill[i] = static_cast<std::uint8_t>(id + i);
        return b;
    } else
        return "a-notified-string-..." + std::to_string(id);
}

struct Event {
    char          kind;    // 'n' notified, 'd' disconnected, 'r' result of a nested notify
    int           who;
    void const*   src;
    std::uint64_t id;
    bool
    operator==(Event const&) const
        = default;
};
static std::string
show(std::vector<Event> const& v)
{
    std::string s;
    for (std::size_t i = 0; i < v.size() && i < 30; i++)
        s += vf::fmt("%c%d:%llu@%p ", v[i].kind, v[i].who, (unsigned long long)v[i].id, v[i].src);
    return s + vf::fmt("(%zu)", v.size());
}

template <class T>
struct World;

template <class T>
struct Obs : observer<T> {
    World<T>* w{};
    int       id{};
    void
    disconnect(void const* src) override;

protected:
    void
    data(void const* src, T const& nd) override;
};

/// One observable of whatever kind behind one face.
template <class T>
struct Subject {
    virtual ~Subject()                                    = default;
    virtual observer_errors add(observer<T>& o)           = 0;
    virtual observer_errors remove(observer<T> const& o)  = 0;
    virtual void            clear()                       = 0;
    virtual observer_errors notify(T const& v)            = 0;
    virtual void const*     address() const               = 0;
    virtual std::size_t     capacity() const              = 0;    // 0: grows
};
template <class T, std::size_t Max>
struct Fixed : Subject<T> {
    observable<T, true, Max> o;
    observer_errors
    add(observer<T>& x) override
    {
        return o.add_observer(x);
    }
    observer_errors
    remove(observer<T> const& x) override
    {
        return o.remove_observer(x);
    }
    void
    clear() override
    {
        o.clear_observers();
    }
    observer_errors
    notify(T const& v) override
    {
        return o.notify_observers(v);
    }
    void const*
    address() const override
    {
        return &o;
    }
    std::size_t
    capacity() const override
    {
        return Max;
    }
};
template <class T>
struct Growing : Subject<T> {
    using obs_t = observable_dynamic<T>;
    obs_t o;
    observer_errors
    add(observer<T>& x) override
    {
        try {
            o.add_observer(x);
        } catch (typename obs_t::exception& e) {
            return e.error;
        }
        return observer_errors::ok;
    }
    observer_errors
    remove(observer<T> const& x) override
    {
        try {
            o.remove_observer(x);
        } catch (typename obs_t::exception& e) {
            return e.error;
        }
        return observer_errors::ok;
    }
    void
    clear() override
    {
        o.clear_observers();
    }
    observer_errors
    notify(T const& v) override
    {
        o.notify_observers(v);
        return observer_errors::ok;
    }
    void const*
    address() const override
    {
        return &o;
    }
    std::size_t
    capacity() const override
    {
        return 0;
    }
};

template <class T>
struct World {
    Src&                                     s;
    std::vector<Event>                       log;
    std::vector<std::unique_ptr<Obs<T>>>     obs;
    std::vector<std::unique_ptr<Subject<T>>> subj;
    std::vector<std::vector<int>>            reg;    // model: registered observers, in order of addition
    struct Plan {
        int           target{-1};
        std::uint64_t id{};
    };
    std::vector<Plan>  plan;    // what an observer does when notified
    int                depth{0};
    bool               recursion{};
    std::uint64_t      next{1};

    std::unique_ptr<Subject<T>>
    fresh()
    {
        switch (s.below(6)) {
        case 0:
            return std::make_unique<Fixed<T, 1>>();
        case 1:
            return std::make_unique<Fixed<T, 2>>();
        case 2:
            return std::make_unique<Fixed<T, 5>>();
        case 3:
            return std::make_unique<Fixed<T, 8>>();
        default:
            return std::make_unique<Growing<T>>();
        }
    }
    explicit World(Src& src) : s{src}
    {
        int n = static_cast<int>(2 + (s.chance(1, 10) ? s.below(50) : s.below(11))), m = static_cast<int>(1 + s.below(3));
        recursion = s.chance(1, 2);
        for (int i = 0; i < n; i++) {
            obs.push_back(std::make_unique<Obs<T>>());
            obs.back()->w  = this;
            obs.back()->id = i;
        }
        plan.resize(n);
        for (int i = 0; i < m; i++) {
            subj.push_back(fresh());
            reg.emplace_back();
            tr("observable %d: capacity %zu", i, subj.back()->capacity());
        }
    }

    // ---- the model's prediction of a notification, nested ones included
    observer_errors
    predict(int k, std::uint64_t id, std::vector<Event>& out, std::vector<int>& inside, int d)
    {
        if (inside[k])
            return observer_errors::notify_recursion_detected;
        inside[k] = 1;
        for (int o : reg[k]) {
            out.push_back({'n', o, subj[k]->address(), id});
            if (plan[o].target >= 0 && d < 3) {
                auto e = predict(plan[o].target, plan[o].id, out, inside, d + 1);
                out.push_back({'r', o, nullptr, static_cast<std::uint64_t>(e)});
            }
        }
        inside[k] = 0;
        return observer_errors::ok;
    }
    void
    notify(int k)
    {
        std::uint64_t id = next++;
        T const       v  = make<T>(id);
        std::vector<Event> want;
        std::vector<int>   inside(subj.size(), 0);
        auto               we = predict(k, id, want, inside, 0);
        log.clear();
        depth  = 0;
        auto e = subj[k]->notify(v);
        auto got = std::move(log);
        log.clear();
        tr("notify %d #%llu -> %zu events", k, (unsigned long long)id, got.size());
        bool nested = false;
        for (auto& x : want)
            if (x.kind == 'r')
                nested = true;
        bool refused = false;
        for (auto& x : want)
            if (x.kind == 'r' && x.id == static_cast<std::uint64_t>(observer_errors::notify_recursion_detected))
                refused = true;
        char const* tags = nested ? "C12" : "C09";
        if (nested) {
            vf::count("obs.nested_notifications");
            if (refused) {
                vf::count("obs.recursion_refused");
                vf::nontrivial();
            }
        }
        vf::count("obs.notifications");
        vf::count("obs.deliveries", got.size());
        VF_EXPECT("C09 C12", e == we, "notify-result", "notify of observable %d returned %d", k, static_cast<int>(e));
        VF_REQUIRE(tags, got == want, nested ? "nested-delivery" : "delivery", "notification #%llu of observable %d: delivered %s, registered are %s",
                   (unsigned long long)id, k, show(got).c_str(), show(want).c_str());
        // whatever the nesting: each observer registered with k got #id exactly once
        for (int o : reg[k]) {
            long c = std::count(got.begin(), got.end(), Event{'n', o, subj[k]->address(), id});
            VF_EXPECT("C09 C12", c == 1, "not-once", "observer %d registered with %d got #%llu %ld times", o, k, (unsigned long long)id, c);
        }
        if (got.size() > 1)
            vf::nontrivial();
        if (got != want)
            throw vf::Abort{};
    }
    void
    plain_notify_all()
    {
        auto keep = plan;
        for (auto& p : plan)
            p = {};
        for (std::size_t k = 0; k < subj.size(); k++)
            notify(static_cast<int>(k));
        plan = keep;
    }
    void
    verify_unchanged(int k, char const* after)
    {
        // the refused call must not have changed the set: seen by notifying
        std::vector<Event> want;
        auto               keep = plan;
        for (auto& p : plan)
            p = {};
        std::uint64_t    id = next++;
        std::vector<int> inside(subj.size(), 0);
        predict(k, id, want, inside, 0);
        log.clear();
        depth = 0;
        subj[k]->notify(make<T>(id));
        VF_REQUIRE("C10", log == want, "refused-changes-set", "after %s the observers reached are %s, expected %s", after, show(log).c_str(),
                   show(want).c_str());
        log.clear();
        plan = keep;
    }
    void
    add(int k, int o)
    {
        auto& r    = reg[k];
        bool  in   = std::find(r.begin(), r.end(), o) != r.end();
        auto  cap  = subj[k]->capacity();
        bool  full = cap && r.size() >= cap;
        log.clear();
        auto e = subj[k]->add(*obs[o]);
        tr("add %d to %d -> %d", o, k, static_cast<int>(e));
        vf::mix(k * 64 + o * 4 + 1);
        VF_EXPECT("C09", log.empty(), "add-calls", "adding an observer called somebody");
        if (in || full) {
            bool ok = (in && e == observer_errors::already_contains) || (full && e == observer_errors::list_is_full);
            VF_REQUIRE("C10", ok, "wrong-error", "adding observer %d to observable %d (registered %d, full %d) returned %d", o, k, in, full,
                       static_cast<int>(e));
            vf::count(in ? "obs.add_refused_contains" : "obs.add_refused_full");
            verify_unchanged(k, "a refused addition");
        } else {
            VF_REQUIRE("C10", e == observer_errors::ok, "add-refused", "adding observer %d to observable %d (%zu of %zu registered) returned %d", o,
                       k, r.size(), cap, static_cast<int>(e));
            r.push_back(o);
            vf::count("obs.added");
        }
    }
    void
    remove(int k, int o)
    {
        auto& r  = reg[k];
        auto  it = std::find(r.begin(), r.end(), o);
        log.clear();
        auto e = subj[k]->remove(*obs[o]);
        tr("remove %d from %d -> %d", o, k, static_cast<int>(e));
        vf::mix(k * 64 + o * 4 + 2);
        VF_EXPECT("C09 C11", std::none_of(log.begin(), log.end(), [](auto& x) { return x.kind == 'n'; }), "remove-notifies",
                  "removing an observer notified somebody");
        if (it == r.end()) {
            VF_REQUIRE("C10", e == observer_errors::not_found, "wrong-error", "removing the unregistered observer %d from %d returned %d", o, k,
                       static_cast<int>(e));
            vf::count("obs.remove_refused");
            verify_unchanged(k, "a refused removal");
        } else {
            VF_REQUIRE("C10", e == observer_errors::ok, "remove-refused", "removing the registered observer %d from %d returned %d", o, k,
                       static_cast<int>(e));
            r.erase(it);
            vf::count("obs.removed");
        }
    }
    void
    expect_disconnects(int k, void const* addr, char const* what)
    {
        auto got = std::move(log);
        log.clear();
        std::vector<int> a, b = reg[k];
        bool             src_ok = true, only = true;
        for (auto& x : got) {
            if (x.kind != 'd')
                only = false;
            else {
                a.push_back(x.who);
                if (x.src != addr)
                    src_ok = false;
            }
        }
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        VF_REQUIRE("C11", a == b && only, "disconnects", "%s of observable %d with %zu registered: events %s", what, k, b.size(), show(got).c_str());
        VF_EXPECT("C11", src_ok, "disconnect-source", "%s of observable %d gave another source to the disconnect hook", what, k);
        vf::count("obs.disconnects", a.size());
        reg[k].clear();
    }
    void
    run()
    {
        int n = static_cast<int>(10 + s.below(60));
        for (int i = 0; i < n && !s.dry(); i++) {
            int k = static_cast<int>(s.below(subj.size())), o = static_cast<int>(s.below(obs.size()));
            switch (s.below(12)) {
            case 0:
            case 1:
            case 2:
            case 3:
                add(k, o);
                break;
            case 4:
            case 5:
                remove(k, s.chance(2, 3) && !reg[k].empty() ? reg[k][s.below(reg[k].size())] : o);
                break;
            case 6:
            case 7:
            case 8:
                notify(k);
                break;
            case 9:
                if (recursion) {
                    Plan& p = plan[o];
                    p.target = s.chance(1, 3) ? -1 : static_cast<int>(s.below(subj.size()));
                    p.id     = 1000000 + next++;
                    // a growing observable cannot be notified from inside its own notification (it is locked)
                    tidy();
                    tr("observer %d from now on notifies %d", o, plan[o].target);
                }
                break;
            case 10:
                if (s.chance(1, 3)) {
                    log.clear();
                    subj[k]->clear();
                    tr("clear %d", k);
                    vf::mix(k + 900);
                    expect_disconnects(k, subj[k]->address(), "clearing");
                    vf::count("obs.cleared");
                    if (s.chance(1, 2))
                        plain_notify_all();
                } else {
                    // fill it up
                    for (std::size_t q = 0; q < obs.size(); q++)
                        if (s.chance(3, 4))
                            add(k, static_cast<int>(q));
                }
                break;
            default:
                if (s.chance(1, 3)) {
                    void const* addr = subj[k]->address();
                    log.clear();
                    subj[k].reset();
                    tr("destroy %d", k);
                    vf::mix(k + 950);
                    expect_disconnects(k, addr, "destroying");
                    vf::count("obs.destroyed");
                    subj[k] = fresh();
                    tidy();
                    tr("observable %d: capacity %zu", k, subj[k]->capacity());
                }
            }
        }
        plain_notify_all();
        for (std::size_t k = 0; k < subj.size(); k++) {
            void const* addr = subj[k]->address();
            log.clear();
            subj[k].reset();
            expect_disconnects(static_cast<int>(k), addr, "destroying");
        }
    }
    /// No plan may lead back into a growing observable that is notifying: nested targets are fixed-capacity ones.
    void
    tidy()
    {
        for (auto& p : plan)
            if (p.target >= 0 && subj[p.target]->capacity() == 0) {
                // allowed only if no observer of that growing observable has a plan at all; keep it simple: never
                p.target = -1;
            }
    }
    void
    notified(int who, void const* src, std::uint64_t id)
    {
        log.push_back({'n', who, src, id});
        if (log.size() > 5000) {
            vf::report("C09 C12", "runaway", "a notification never ends");
            std::fflush(nullptr);
            vf::dump_on_death();
            ::_exit(98);
        }
        if (plan[who].target >= 0 && depth < 3) {
            depth++;
            auto e = subj[plan[who].target]->notify(make<T>(plan[who].id));
            depth--;
            log.push_back({'r', who, nullptr, static_cast<std::uint64_t>(e)});
        }
    }
};
template <class T>
void
Obs<T>::disconnect(void const* src)
{
    w->log.push_back({'d', id, src, 0});
}
template <class T>
void
Obs<T>::data(void const* src, T const& nd)
{
    w->notified(id, src, idof(nd));
}

void
vf_case(Src& s)
{
    switch (s.below(3)) {
    case 0: {
        World<int> w(s);
        w.run();
        break;
    }
    case 1: {
        World<Big> w(s);
        w.run();
        break;
    }
    default: {
        World<std::string> w(s);
        w.run();
    }
    }
}

// many observers at once: more than a narrow count holds
namespace {
struct Mass : observer<int> {
    int       got{}, gone{};
    long long sum{};
    void
    disconnect(void const*) override
    {
        gone++;
    }

protected:
    void
    data(void const*, int const& v) override
    {
        got++;
        sum += v;
    }
};
template <std::size_t Max>
void
mass(std::size_t n)
{
    vf::alive(n);
    std::vector<Mass> o(n);
    Mass              extra;
    std::size_t       wrong = 0, missed = 0, again = 0;
    {
        std::unique_ptr<Subject<int>> s;
        if constexpr (Max == 0)
            s = std::make_unique<Growing<int>>();
        else
            s = std::make_unique<Fixed<int, Max>>();
        for (auto& x : o)
            if (vf::alive(static_cast<std::uint64_t>(&x - o.data()) + 1); s->add(x) != observer_errors::ok)
                wrong++;
        VF_EXPECT("C10", !wrong, "many-refused", "%zu of %zu observers were refused by an observable with room for them", wrong, n);
        if (Max == n)
            VF_EXPECT("C10", s->add(extra) == observer_errors::list_is_full, "many-overfull", "a full observable of %zu took another observer", n);
        for (std::size_t i = 0; i < n; i += n / 7 + 1)
            if (auto e = s->add(o[i]); e != observer_errors::already_contains && !(Max == n && e == observer_errors::list_is_full))
                again++;
        VF_EXPECT("C10", !again, "many-twice", "of %zu observers %zu were taken twice", n, again);
        s->notify(5);
        for (auto& x : o)
            if (x.got != 1 || x.sum != 5)
                missed++;
        VF_EXPECT("C09", !missed, "many-delivery", "a notification of %zu observers went wrong for %zu", n, missed);
        // remove some, from all over
        std::size_t gone = 0;
        for (std::size_t i = 0; i < n; i += n / 20 + 1, gone++)
            if (s->remove(o[i]) != observer_errors::ok)
                wrong++;
        VF_EXPECT("C10", !wrong, "many-remove", "removing a registered observer of %zu failed", n);
        s->notify(7);
        missed = 0;
        for (std::size_t i = 0; i < n; i++)
            if (o[i].got != (i % (n / 20 + 1) ? 2 : 1))
                missed++;
        VF_EXPECT("C09", !missed, "many-delivery", "after %zu removals from %zu a notification went wrong for %zu", gone, n, missed);
        vf::count("obs.deliveries", 2 * n - gone);
    }
    missed = 0;
    for (std::size_t i = 0; i < n; i++)
        if (o[i].gone != (i % (n / 20 + 1) ? 1 : 0))
            missed++;
    VF_EXPECT("C11", !missed, "many-disconnects", "destroying an observable of %zu called %zu disconnect hooks wrongly", n, missed);
    vf::count("obs.many");
}
}    // namespace

void
vf_directed()
{
    mass<300>(300);
    mass<400>(300);
    mass<0>(300);
#if !defined(VF_ASAN) && !defined(VF_TSAN)
    mass<66000>(66000);
    mass<0>(66000);
#endif
}
