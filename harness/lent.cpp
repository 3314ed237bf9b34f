// C42: what a call is lent it leaves as it was and does not keep, and what it returned is the caller's.
//
// Everything handed over lives in memory of its own.  Once the call has returned it is compared with what it was, then
// overwritten, and destroyed at once or somewhat later; the component is used on, and its results are compared with a model.
// Results are kept, and compared again after further calls and after the component's end.  Sanitizers see what is read late.
#include "vf.hpp"
#include "vthreads.hpp"

#include <condition_variable>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <thread>
#include <vector>
#include <xitren/allocators/static_heap.hpp>
#include <xitren/allocators/static_heap_allocator.hpp>
#include <xitren/cache/lru.hpp>
#include <xitren/comm/mediator.hpp>
#include <xitren/comm/observer.hpp>
#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/comm/pipeline_stage_pool.hpp>
#include <xitren/comm/values/observable.hpp>
#include <xitren/func/argv_parser.hpp>
#include <xitren/func/data.hpp>
#include <xitren/func/fast_pimpl.hpp>
#include <xitren/func/interval_event.hpp>
#include <xitren/func/packet.hpp>

namespace cm = xitren::comm;
namespace fn = xitren::func;
namespace al = xitren::allocators;
using vf::Src;
using vf::tr;

struct Nul {
    template <class T>
    Nul const& operator<<(T const&) const { return *this; }
};
struct Log {
    static Nul trace() { return {}; }
    static Nul debug() { return {}; }
    static Nul warning() { return {}; }
    static Nul error() { return {}; }
};
static void
nap(long us)
{
    timespec ts{us / 1000000, us % 1000000 * 1000};
    ::nanosleep(&ts, nullptr);
}

// ---- what is lent
struct Thing {
    int         id{};
    std::string text;
    std::vector<int> more;

    Thing() = default;
    explicit Thing(int k) : id{k}, text(static_cast<std::size_t>(k % 60), static_cast<char>('a' + k % 26)), more(static_cast<std::size_t>(k % 5), k) {}
    Thing(Thing const&)            = default;
    Thing& operator=(Thing const&) = default;
    Thing(Thing&& o) noexcept : id{o.id}, text{std::move(o.text)}, more{std::move(o.more)} { o.gut(); }
    Thing&
    operator=(Thing&& o) noexcept
    {
        if (this != &o) {
            id   = o.id;
            text = std::move(o.text);
            more = std::move(o.more);
            o.gut();
        }
        return *this;
    }
    bool operator==(Thing const&) const = default;

private:
    void
    gut()
    {
        id = -1;
        text.clear();
        more.clear();
    }
};
template <>
struct std::hash<Thing> {
    std::size_t
    operator()(Thing const& t) const
    {
        return static_cast<std::size_t>(t.id) % 7 + t.text.size();
    }
};
static void
spoil(Thing& t)
{
    t.id = -77;
    for (auto& c : t.text)
        c = '?';
    for (auto& m : t.more)
        m = -7;
}
static void
spoil(std::string& s)
{
    for (auto& c : s)
        c = '?';
}
static void
spoil(std::function<void(int)>& f)
{
    f = [](int) { vf::report("C42", "function-kept", "a function that was put in the place of the one lent was called"); };
}
template <class T>
    requires std::is_trivially_copyable_v<T>
static void
spoil(T& t)
{
    std::memset(static_cast<void*>(&t), 0x5A, sizeof t);
}
template <class T>
static bool
alike(T const& a, T const& b)
{
    if constexpr (requires { a == b; })
        return a == b;
    else
        return std::memcmp(&a, &b, sizeof a) == 0;
}
static std::vector<std::function<void()>> g_later;    // destroys what was lent some calls ago
static void
settle(std::size_t keep = 0)
{
    while (g_later.size() > keep) {
        auto f = std::move(g_later.front());
        g_later.erase(g_later.begin());
        f();
    }
}
template <class T>
struct Lent {
    std::unique_ptr<T> p;
    T                  was;
    explicit Lent(T const& t) : p{new T(t)}, was(t) {}
    T& operator*() { return *p; }
    /// The call has returned.
    void
    back(Src& s, char const* what, bool mine = false)
    {
        if (!mine)
            VF_EXPECT("C42", alike(*p, was), "changed", "%s changed an object it was lent", what);
        if constexpr (requires { was.id; })
            vf::mix(static_cast<std::uint64_t>(was.id));
        vf::count("lent.objects");
        spoil(*p);
        if (s.chance(1, 2))
            p.reset();
        else {
            g_later.push_back([q = p.release()] { delete q; });
            settle(5);
        }
    }
};

// ---- caches
template <bool Throw>
static void
cache(Src& s)
{
    using C = xitren::cache::lru<Thing, Thing, 4, Throw>;
    auto                               c = std::make_unique<C>(std::chrono::hours(100));
    std::list<std::pair<Thing, Thing>> model;    // most recent first
    using Res = decltype(c->get(std::declval<Thing>()));
    std::vector<std::pair<Res, Thing>> results;
    int const                          keys = 3 + static_cast<int>(s.below(5)), ops = 10 + static_cast<int>(s.below(40));
    for (int i = 0; i < ops; i++) {
        Lent<Thing> k{Thing(static_cast<int>(s.below(static_cast<std::uint64_t>(keys))) * 13 + 5)};
        auto        it = std::find_if(model.begin(), model.end(), [&](auto& e) { return e.first == k.was; });
        if (s.chance(1, 2)) {
            Lent<Thing> v{Thing(static_cast<int>(s.below(1000)))};
            if (s.chance(1, 3)) {    // as constants
                Thing const &ck = *k, &cv = *v;
                c->put(ck, cv);
            } else
                c->put(*k, *v);
            if (it != model.end())
                model.erase(it);
            else if (model.size() == 4)
                model.pop_back();
            model.push_front({k.was, v.was});
            v.back(s, "a cache's put (the value)");
            k.back(s, "a cache's put (the key)");
        } else {
            auto r = c->get(*k);
            k.back(s, "a cache's get");
            VF_EXPECT("C42", r.has_value() == (it != model.end()), "cache-content", "a cache %s a key whose put had been lent objects", r ? "has" : "lacks");
            if (r && it != model.end()) {
                VF_EXPECT("C42", std::get<0>(*r) == it->first && std::get<1>(*r) == it->second, "cache-content", "a cache returned an item other than it was given by objects since changed");
                results.emplace_back(r, it->second);
                if (s.chance(1, 2)) {    // the result is the caller's
                    spoil(std::get<1>(*r));
                    spoil(std::get<0>(*r));
                }
                model.splice(model.begin(), model, it);
            }
        }
        vf::mix(static_cast<std::uint64_t>(k.was.id));
    }
    c.reset();
    settle();
    for (auto& [r, v] : results)
        VF_EXPECT("C42", std::get<1>(*r) == v, "result-changed", "what a cache had returned changed by later calls");
    vf::count("lent.results", results.size());
}

// ---- pipelines: items, and the function
template <class Pipe>
static void
pipeline(Src& s, char const* what)
{
    struct Gate {
        std::mutex              mx;
        std::condition_variable cv;
        bool                    open{};
        std::vector<Thing>      got;
    } g;
    using F = std::function<int const(cm::pipeline_stage_exception, Thing const, std::conditional_t<requires(Pipe p) { p.time_for_unit(); }, std::pair<int, int>, cm::measure_data> const)>;
    auto fun = std::make_unique<F>([&g](auto, Thing const t, auto const) -> int const {
        std::unique_lock l(g.mx);
        g.cv.wait(l, [&] { return g.open; });
        g.got.push_back(t);
        return 0;
    });
    auto p = std::make_unique<Pipe>(*fun);
    VF_EXPECT("C42", static_cast<bool>(*fun), "changed", "the constructor of a %s emptied the function it was lent", what);
    *fun = nullptr;
    fun.reset();
    std::vector<Thing> want;
    int const          n    = 1 + static_cast<int>(s.below(16));
    bool const         held = s.chance(2, 3);
    if (!held) {
        std::lock_guard l(g.mx);
        g.open = true;
    }
    for (int i = 0; i < n; i++) {
        Lent<Thing> t{Thing(1 + i + 100 * static_cast<int>(s.below(50)))};
        switch (s.below(3)) {
        case 0: {
            Thing const& c = *t;
            p->push(c);
            t.back(s, "a push");
            break;
        }
        case 1:
            p->push(*t);
            t.back(s, "a push");
            break;
        default:
            p->push(std::move(*t));
            t.back(s, "a push", true);    // given away
        }
        want.push_back(t.was);
    }
    settle();
    {
        std::lock_guard l(g.mx);
        g.open = true;
        g.cv.notify_all();
    }
    p.reset();
    auto by = [](Thing const& a, Thing const& b) { return std::tie(a.id, a.text) < std::tie(b.id, b.text); };
    std::sort(g.got.begin(), g.got.end(), by);
    std::sort(want.begin(), want.end(), by);
    VF_EXPECT("C42", g.got == want, "item-content", "the handler of a %s was not given the items as they were pushed, after their originals had been changed", what);
    vf::count("lent.pushes", static_cast<std::uint64_t>(n));
}

// ---- functions of observed values, interval events
static long            g_plain;
static std::atomic<int> g_ticks;
static void
plain(int)
{
    g_plain++;
}
static void
tick()
{
    g_ticks++;
}
struct Small {    // fits inside a function object
    long* n;
    void operator()(int) const { ++*n; }
};
static void
functions(Src& s)
{
    cm::values::observable<int, 4> x;
    long                           calls = 0, want = 0;
    g_plain                              = 0;
    {
        auto                                     f = std::make_unique<std::function<void(int)>>([&calls](int) { calls++; });
        auto                                     o = std::make_unique<cm::values::observed<int>>(*f);
        VF_EXPECT("C42", static_cast<bool>(*f), "changed", "the constructor of an observer emptied the function it was lent");
        spoil(*f);
        x.add_observer(*o);
        std::function<void(int)>* late = f.get();
        int const                 n    = 2 + static_cast<int>(s.below(6));
        Small                     keep[8]{};
        for (int i = 0; i < n; i++) {
            ++x;
            want++;
            if (s.chance(1, 2)) {
                long const pad[6] = {i, i, i, i, i, i};    // too big to be kept inside
                auto       h      = std::make_unique<std::function<void(int)>>([&calls, pad](int) { calls += pad[0] == pad[5]; });
                switch (s.below(4)) {
                case 0: *h = plain; break;
                case 1: *h = Small{&calls}; break;
                case 2: *h = std::ref(*new (&keep[i]) Small{&calls}); break;
                default:;
                }
                o->on_update(*h);
                VF_EXPECT("C42", static_cast<bool>(*h), "changed", "on_update emptied the function it was lent");
                spoil(*h);
                if (s.chance(1, 2)) {
                    f    = std::move(h);
                    late = f.get();
                }
            }
            if (late && s.chance(1, 3)) {
                f.reset();
                late = nullptr;
            }
        }
        ++x;
        want++;
        x.remove_observer(*o);
    }
    VF_EXPECT("C42", calls + g_plain == want, "function-content", "update functions that had been lent were called %ld times, not %ld", calls + g_plain, want);
    vf::count("lent.functions");
}
static void
event(Src& s)
{
    std::atomic<int> calls{0};
    auto             f = std::make_unique<std::function<void()>>([&calls, big = std::string(50, 'e')] { calls += big.size() == 50; });
    bool const       bare = s.chance(1, 2);
    if (bare)
        *f = tick;
    g_ticks = 0;
    auto             period = std::make_unique<std::chrono::milliseconds>(1), check = std::make_unique<std::chrono::milliseconds>(0);
    fn::interval_event ev{*f, *period, *check};
    VF_EXPECT("C42", static_cast<bool>(*f), "changed", "the constructor of an interval event emptied the function it was lent");
    *f = nullptr;
    if (s.chance(1, 2))
        f.reset();
    *period = std::chrono::hours(10000);
    *check  = std::chrono::hours(10000);
    period.reset();
    check.reset();
    for (int i = 0; i < 100000 && (bare ? g_ticks : calls) < 3; i++)
        nap(200);
    ev.stop();
    VF_EXPECT("C42", (bare ? g_ticks : calls) >= 3, "event-stuck", "an interval event whose arguments were changed after its construction made %d calls", calls + g_ticks);
    vf::count("lent.events");
}

// ---- notifications
struct Obs : cm::observer<Thing> {
    std::vector<std::pair<Thing, Thing const*>> seen;
    std::vector<Thing>*                         want{};
    void
    data(void const*, Thing const& t) override
    {
        seen.emplace_back(t, &t);
    }
};
template <class O>
static void
notify(Src& s, char const* what)
{
    auto               o = std::make_unique<O>();
    std::vector<std::unique_ptr<Obs>> obs;
    for (auto n = 1 + s.below(4); n; n--) {
        obs.push_back(std::make_unique<Obs>());
        o->add_observer(*obs.back());
    }
    std::vector<Thing> want;
    for (auto n = 1 + s.below(8); n; n--) {
        Lent<Thing> t{Thing(static_cast<int>(s.below(5000)))};
        Thing const& c = *t;
        o->notify_observers(c);
        want.push_back(t.was);
        t.back(s, what);
    }
    if (s.chance(1, 2))
        o.reset();
    else
        o->clear_observers();
    for (auto& b : obs) {
        bool same = b->seen.size() == want.size();
        for (std::size_t i = 0; same && i < want.size(); i++)
            same = b->seen[i].first == want[i];
        VF_EXPECT("C42", same, "notified-content", "an observer was not shown what the notifications were lent");
    }
    o.reset();
    settle();
    vf::count("lent.notifications", want.size());
}
static void
value(Src& s)
{
    struct Pt {
        short x, y, z, w;
        bool operator==(Pt const&) const = default;
    };
    cm::values::observed<Pt>      o, q;
    cm::values::observable<Pt, 2> x;
    cm::values::observable<Pt, 0> y;
    x.add_observer(o);
    y.add_observer(q);
    for (auto n = 1 + s.below(6); n; n--) {
        Pt const p{static_cast<short>(s.below(100)), static_cast<short>(s.below(100)), 3, 4};
        Lent<Pt> l{p};
        bool const direct = s.chance(1, 3);
        if (direct) {
            x.notify_observers(*l);
            y.notify_observers(*l);
        } else {
            x = *l;
            y = *l;
        }
        l.back(s, "an observable value");
        VF_EXPECT("C42", o.value() == p && q.value() == p && (direct || (x.value() == p && y.value() == p)), "value-content",
                  "an observable value or its observer does not hold what it was lent before that was changed");
    }
    settle();
    vf::count("lent.values");
}

// ---- messages
struct Ma {
    int  a[3];
    bool operator==(Ma const&) const = default;
};
struct Mb {
    char c[40];
    bool operator==(Mb const&) const = default;
};
struct Man : cm::manager<4> {
    std::vector<Ma> as;
    void
    data(std::size_t, std::uint8_t* p, std::size_t n) override
    {
        if (n == sizeof(Ma))
            as.push_back(convert_field<Ma>(p, n));
    }
};
struct ModA : cm::module<Ma, Mb> {
    using cm::module<Ma, Mb>::module;
    using cm::module<Ma, Mb>::send;
    std::vector<Mb> got;
    void
    data(Mb const& b) override
    {
        got.push_back(b);
    }
};
struct ModB : cm::module<Mb, Ma> {
    using cm::module<Mb, Ma>::module;
    using cm::module<Mb, Ma>::send;
    std::vector<Ma> got;
    void
    data(Ma const& a) override
    {
        got.push_back(a);
    }
};
static void
messages(Src& s)
{
    auto            m = std::make_unique<Man>();
    ModA            a{*m};
    ModB            b{*m};
    std::vector<Ma> wa;
    std::vector<Mb> wb;
    std::size_t     shown = 0;
    for (auto n = 2 + s.below(8); n; n--) {
        if (s.chance(1, 2)) {
            int const k = static_cast<int>(s.below(1000));
            Lent<Ma>  l{Ma{{k, k + 1, k * 2}}};
            wa.push_back(l.was);
            if (s.chance(1, 2)) {
                a.send(*l);
                shown++;
                VF_EXPECT("C42", !m->as.empty() && m->as.back() == l.was, "message-content", "the manager was not shown the message that was lent");
            } else
                m->send(*l);
            l.back(s, "sending a message");
        } else {
            Mb x{};
            std::snprintf(x.c, sizeof x.c, "%d times", static_cast<int>(s.below(1000)));
            Lent<Mb> l{x};
            wb.push_back(x);
            s.chance(1, 2) ? b.send(*l) : m->send(*l);
            l.back(s, "sending a message");
        }
    }
    VF_EXPECT("C42", a.got == wb && b.got == wa && m->as.size() == shown, "message-content", "modules were not given the messages that were lent");
    settle();
    vf::count("lent.messages", wa.size() + wb.size());
}

// ---- the parser
struct Opts {
    std::string name{"none"}, other;
    int         number{};
    double      real{};
    bool        flag{};
};
static void
parser(Src& s)
{
    using P = fn::argv_parser<Opts>;
    std::unique_ptr<P> p;
    // some names short, some longer than a string keeps inside
    std::string const pre = s.chance(1, 2) ? "--" : "--an-option-with-quite-a-long-name-";
    {
        std::vector<std::string> names{pre + "name", pre + "number", pre + "real", pre + "flag", pre + "other"};
        auto                     was = names;
        p                            = P::instance({{names[0], &Opts::name}, {names[1], &Opts::number}, {names[2], &Opts::real}, {names[3], &Opts::flag}, {names[4], &Opts::other}});
        VF_EXPECT("C42", names == was, "changed", "making a parser changed the names it was lent");
        for (auto& n : names)
            spoil(n);
    }
    Opts                                            want;
    std::vector<std::pair<Opts, Opts>>              results;
    auto same = [](Opts const& x, Opts const& y) { return x.name == y.name && x.other == y.other && x.number == y.number && x.real == y.real && x.flag == y.flag; };
    for (auto runs = 1 + s.below(3); runs; runs--) {
        std::vector<std::string> words{"program"};
        for (auto n = s.below(5); n; n--)
            switch (s.below(5)) {
            case 0:
                words.push_back(pre + "name");
                words.push_back(std::string(static_cast<std::size_t>(1 + s.below(60)), 'n'));
                want.name = words.back();
                break;
            case 1: {
                int const k = static_cast<int>(s.range(-5000, 5000));
                words.push_back(pre + "number");
                words.push_back(std::to_string(k));
                want.number = k;
                break;
            }
            case 2: {
                int const k = static_cast<int>(s.range(-500, 500));
                words.push_back(pre + "real");
                words.push_back(std::to_string(k) + ".5");
                want.real = (words.back()[0] == '-' ? -1 : 1) * (std::abs(k) + 0.5);
                break;
            }
            case 3:
                words.push_back(pre + "flag");
                want.flag = true;
                break;
            default:
                words.push_back(pre + "other");
                words.push_back(std::string(static_cast<std::size_t>(1 + s.below(60)), 'o'));
                want.other = words.back();
            }
        std::vector<std::unique_ptr<char[]>> mem;
        std::unique_ptr<char const*[]>       argv{new char const*[words.size() + 1]()};
        std::vector<char const*>             ptrs;
        for (std::size_t i = 0; i < words.size(); i++) {
            mem.emplace_back(new char[words[i].size() + 1]);
            std::memcpy(mem.back().get(), words[i].c_str(), words[i].size() + 1);
            argv[i] = mem.back().get();
            ptrs.push_back(argv[i]);
        }
        Opts r = p->parse(static_cast<int>(words.size()), argv.get());
        for (std::size_t i = 0; i < words.size(); i++)
            VF_EXPECT("C42", argv[i] == ptrs[i] && words[i] == mem[i].get(), "changed", "parsing changed argument %zu", i);
        for (std::size_t i = 0; i < words.size(); i++)
            std::memset(mem[i].get(), '?', words[i].size());
        VF_EXPECT("C42", same(r, want), "parsed-content", "the options are not those that the arguments gave before they were changed");
        results.emplace_back(r, want);
        if (s.chance(1, 2)) {    // the result is the caller's
            spoil(r.name);
            r.number = -1;
        }
        vf::count("lent.arguments", words.size());
    }
    p.reset();
    for (auto& [r, w] : results)
        VF_EXPECT("C42", same(r, w), "result-changed", "options that a parser had returned changed by later calls");
    vf::count("lent.results", results.size());
}

// ---- bytes
struct Crc {
    using value_type = fn::msb_t<std::uint16_t>;
    template <class It>
    static constexpr value_type
    calculate(It b, It e)
    {
        std::uint16_t c = 0x1d0f;
        for (; b != e; ++b)
            c = static_cast<std::uint16_t>((c << 1) ^ (c >> 11) ^ *b);
        return value_type(c);
    }
};
struct __attribute__((__packed__)) Head {
    fn::lsb_t<std::uint16_t> kind;
    std::uint8_t             n;
};
struct __attribute__((__packed__)) Body {
    fn::msb_t<std::uint32_t> a;
    std::uint8_t             t[11];
};
static void
bytes(Src& s)
{
    using Pack = fn::packet<Head, Body, Crc>;
    using Acc  = fn::packet_accessor<256>;
    auto any   = [&](auto& x) {
        for (std::size_t i = 0; i < sizeof x; i++)
            reinterpret_cast<unsigned char*>(&x)[i] = static_cast<unsigned char>(s.u64());
    };
    for (auto n = 1 + s.below(6); n; n--) {
        Head h;
        Body b;
        any(h);
        any(b);
        // a packet made of parts, and serialised of parts
        Lent<Head> lh{h};
        Lent<Body> lb{b};
        auto       p   = std::make_unique<Pack>(*lh, *lb);
        auto       out = Pack::serialize(*lh, *lb);
        lh.back(s, "a packet");
        lb.back(s, "a packet");
        auto const whole = p->to_array();
        VF_EXPECT("C42", out == whole && std::memcmp(whole.data(), &h, sizeof h) == 0 && std::memcmp(whole.data() + sizeof h, &b, sizeof b) == 0, "packet-content",
                  "a packet does not hold what it was lent before that was changed");
        // a packet of received bytes, read from a vector that goes at once
        auto v = std::make_unique<std::vector<std::uint8_t>>(whole.begin(), whole.end());
        Pack q{v->begin()};
        auto const [sound, dh, df] = Pack::deserialize(whole);
        VF_EXPECT("C42", std::equal(whole.begin(), whole.end(), v->begin()), "changed", "a packet changed the bytes it was read from");
        std::memset(v->data(), 0x5A, v->size());
        v.reset();
        VF_EXPECT("C42", q.to_array() == whole && q.valid() && sound && std::memcmp(&dh, &h, sizeof h) == 0 && std::memcmp(&df, &b, sizeof b) == 0, "packet-content",
                  "a packet does not hold the bytes it was read from before they were changed");
        p.reset();
        // the accessor copies what it is given
        auto                   acc = std::make_unique<Acc>();
        std::size_t const      k   = s.below(40);
        auto                   var = std::make_unique<std::vector<std::uint32_t>>(k);
        for (auto& x : *var)
            x = static_cast<std::uint32_t>(s.u64());
        auto const was = *var;
        using In       = Acc::fields_in<Head, Body, std::uint32_t>;
        auto in        = std::make_unique<In>(In{h, b, k, var->data()});
        bool const ok  = acc->serialize<Head, Body, std::uint32_t, Crc>(*in);
        VF_EXPECT("C42", *var == was && in->size == k && in->data == var->data() && std::memcmp(&in->header, &h, sizeof h) == 0, "changed", "an accessor changed what it was to serialise");
        std::fill(var->begin(), var->end(), 0x5A5A5A5Au);
        var.reset();
        spoil(in->header);
        spoil(in->fields);
        in.reset();
        auto r = acc->deserialize<Head, Body, std::uint32_t, Crc>();
        VF_EXPECT("C42", ok && r.valid && r.size == k && std::memcmp(&r.header, &h, sizeof h) == 0 && std::memcmp(&r.fields, &b, sizeof b) == 0
                             && (k == 0 || std::memcmp(r.data, was.data(), k * sizeof(std::uint32_t)) == 0),
                  "accessor-content", "an accessor does not hold what it was given before that was changed");
        acc.reset();    // the parts that were returned by value remain
        VF_EXPECT("C42", std::memcmp(&r.header, &h, sizeof h) == 0 && std::memcmp(&r.fields, &b, sizeof b) == 0, "result-changed", "parts an accessor had returned changed when it ended");
        // single structures
        Lent<Body> ls{b};
        auto const raw = fn::data<Body>::serialize(*ls);
        std::array<std::uint8_t, sizeof(Body)> into{};
        fn::data<Body>::serialize(*ls, into.begin());
        ls.back(s, "data::serialize");
        VF_EXPECT("C42", raw == into && std::memcmp(raw.data(), &b, sizeof b) == 0, "data-content", "the bytes of a structure are not what it held");
        auto from = std::make_unique<std::vector<std::uint8_t>>(raw.begin(), raw.end());
        Body const again = fn::data<Body>::deserialize(from->begin());
        VF_EXPECT("C42", std::equal(raw.begin(), raw.end(), from->begin()), "changed", "data::deserialize changed the bytes it read");
        std::memset(from->data(), 0x5A, from->size());
        from.reset();
        VF_EXPECT("C42", std::memcmp(&again, &b, sizeof b) == 0, "data-content", "a structure is not what the bytes held");
        // integers
        auto const num = static_cast<std::uint64_t>(s.u64());
        Lent<std::uint64_t> li{num};
        fn::msb_t<std::uint64_t> m{*li};
        fn::lsb_t<std::uint64_t> l{};
        l = *li;
        li.back(s, "an endian integer");
        VF_EXPECT("C42", m.get() == num && l.get() == num, "integer-content", "an endian integer does not hold the value it was lent");
        vf::mix(num);
    }
    settle();
    vf::count("lent.bytes");
}

// ---- pimpl, containers on a heap
static void
pimpl(Src& s)
{
    struct Two {
        Thing a, b;
        Two(Thing const& x, Thing const& y) : a{x}, b{y} {}
    };
    using P = fn::fast_pimpl<Two, sizeof(Two), alignof(Two)>;
    Lent<Thing> x{Thing(static_cast<int>(s.below(3000)))}, y{Thing(static_cast<int>(s.below(3000)))};
    auto        p = std::make_unique<P>(*x, *y);
    x.back(s, "constructing a pimpl");
    y.back(s, "constructing a pimpl");
    auto holds = [&](P const& q) { return q->a == x.was && q->b == y.was; };
    VF_EXPECT("C42", holds(*p), "pimpl-content", "a pimpl does not hold what it was made of before that was changed");
    auto q = std::make_unique<P>(*p);
    P    r{Thing(1), Thing(2)};
    r = *p;
    VF_EXPECT("C42", holds(*p), "changed", "copying a pimpl changed it");
    spoil((*p)->a);
    spoil((*p)->b);
    if (s.chance(1, 2))
        p.reset();
    VF_EXPECT("C42", holds(*q) && holds(r), "pimpl-content", "copies of a pimpl changed with it");
    P const& cq = *q;
    P        t{cq};
    q.reset();
    VF_EXPECT("C42", holds(t), "pimpl-content", "a copy of a pimpl changed when it ended");
    settle();
    vf::count("lent.pimpls");
}
static void
container(Src& s)
{
    constexpr std::size_t N = 16384;
    using A                 = al::static_heap_allocator<Thing, N>;
    auto                mem = std::make_unique<al::static_heap<N>>();
    A const             a{*mem};
    std::list<Thing, A> l{a};
    std::vector<Thing>  want;
    for (auto n = 1 + s.below(20); n; n--) {
        Lent<Thing> t{Thing(static_cast<int>(s.below(3000)))};
        l.push_back(*t);
        want.push_back(t.was);
        t.back(s, "a container on a heap");
    }
    VF_EXPECT("C42", std::equal(l.begin(), l.end(), want.begin(), want.end()), "container-content", "a container on a heap does not hold what was put in");
    settle();
    vf::count("lent.containers");
}

void
vf_case(Src& s)
{
    g_later.reserve(16);
    vf::nontrivial();
    auto const kind = s.below(13);
    vf::mix(kind);
    switch (kind) {
    case 0: return cache<true>(s);
    case 1: return cache<false>(s);
    case 2: return pipeline<cm::pipeline_stage<Thing, int, 16, Log>>(s, "stage");
    case 3: return pipeline<cm::pipeline_stage_pool<Thing, int, 16, 2, Log>>(s, "pool");
    case 4: return functions(s);
    case 5: return s.chance(1, 8) ? event(s) : value(s);
    case 6: return notify<cm::observable<Thing, true, 5>>(s, "a notification");
    case 7: return notify<cm::observable<Thing, false>>(s, "a notification");
    case 8: return messages(s);
    case 9: return parser(s);
    case 10: return bytes(s);
    case 11: return pimpl(s);
    default: return container(s);
    }
}
void
vf_directed()
{
    Src s{99};
    event(s);
}
