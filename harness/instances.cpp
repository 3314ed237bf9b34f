// C32: separate instances of the library's components do not affect one another.  C33 (leaks): an instance gives back
// all the memory it requested.
//
// An actor owns one instance of a component and drives it by a seeded script; its digest says what it observed.  Every
// actor is run alone first.  Then the same scripts run on fresh instances, (1) interleaved step by step on one thread,
// partly from inside one another's callbacks, (2) on several threads at once without synchronisation, (3) step by step on
// several threads taking turns, so that instances wander between threads.  Every digest must be what it was alone.
#include "vf.hpp"

#include <functional>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <vector>
#include <xitren/allocators/static_heap.hpp>
#include <xitren/allocators/static_heap_allocator.hpp>
#include <xitren/cache/lru.hpp>
#include <xitren/comm/mediator.hpp>
#include <xitren/comm/observer.hpp>
#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/comm/pipeline_stage_pool.hpp>
#include <xitren/comm/values/observable.hpp>
#include <xitren/func/argv_parser.hpp>
#include <xitren/func/data.hpp>
#include <xitren/func/fast_pimpl.hpp>
#include <xitren/func/interval_event.hpp>
#include <xitren/func/packet.hpp>
// the compile-time observers use the names of the run-time ones: give them a namespace of their own
#define comm comm_static
#include <xitren/comm/observer_static.hpp>
#undef comm

namespace cm  = xitren::comm;
namespace cst = xitren::comm_static;
namespace val = xitren::comm::values;
namespace fn  = xitren::func;
namespace al  = xitren::allocators;
using vf::Src;
using vf::tr;

// ---- memory requested and not given back
static std::atomic<long> g_blocks{};
#if !defined(VF_TSAN) && !defined(VF_VG)
#    define COUNTS_MEMORY 1
static void*
get_mem(std::size_t n, std::size_t a)
{
    void* p = a > 16 ? std::aligned_alloc(a, (n + a - 1) / a * a) : std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    g_blocks.fetch_add(1, std::memory_order_relaxed);
    return p;
}
static void
put_mem(void* p)
{
    if (p)
        g_blocks.fetch_sub(1, std::memory_order_relaxed);
    std::free(p);
}
void* operator new(std::size_t n) { return get_mem(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return get_mem(n, static_cast<std::size_t>(a)); }
void  operator delete(void* p) noexcept { put_mem(p); }
void  operator delete(void* p, std::size_t) noexcept { put_mem(p); }
void  operator delete(void* p, std::align_val_t) noexcept { put_mem(p); }
void  operator delete(void* p, std::size_t, std::align_val_t) noexcept { put_mem(p); }
#endif

struct Nul {
    template <class T>
    Nul const& operator<<(T const&) const { return *this; }
};
struct Log {
    static Nul trace() { return {}; }
    static Nul debug() { return {}; }
    static Nul warning() { return {}; }
    static Nul error() { return {}; }
};

// ================================================================ actors
struct Actor {
    Src                   r;
    std::uint64_t         digest{0x9E3779B97F4A7C15ull};
    int                   left;
    bool                  busy{false};
    std::function<void()> nest;    // lets others take a step from inside a callback of this one
    std::vector<std::uint64_t>* log{};

    Actor(std::uint64_t seed, int n) : r{seed}, left{n} {}
    virtual ~Actor() = default;
    virtual void        step()   = 0;
    virtual void        finish() = 0;    // destroys the instance
    void
    see(std::uint64_t x)
    {
        digest = (digest ^ x) * 0xff51afd7ed558ccdull;
        digest ^= digest >> 32;
    }
    void
    see(std::string const& s)
    {
        for (char c : s)
            see(static_cast<std::uint64_t>(static_cast<unsigned char>(c)));
        see(s.size());
    }
    void
    mark()    // once per step, so that a difference can be told by step
    {
        if (log)
            log->push_back(digest);
    }
    void
    inside()
    {
        if (nest)
            nest();
    }
};

template <std::size_t N>
struct HeapActor : Actor {
    using heap = al::static_heap<N>;
    struct alignas(64) Room {
        heap h;
    };
    std::unique_ptr<Room>                        h{new Room};
    std::vector<std::pair<unsigned char*, std::size_t>> live;
    using Actor::Actor;
    void
    step() override
    {
        auto& hp = h->h;
        switch (r.below(5)) {
        case 0:
        case 1: {
            std::size_t n = 1 + r.below(N / 5);
            auto*       p = static_cast<unsigned char*>(hp.allocate(n));
            see(p ? static_cast<std::uint64_t>(p - reinterpret_cast<unsigned char*>(h.get())) : ~0ull);
            if (p) {
                std::memset(p, static_cast<int>(n & 0xff), n);
                live.push_back({p, n});
            }
            break;
        }
        case 2: {
            std::size_t n = 1 + r.below(30);
            auto*       p = static_cast<unsigned char*>(hp.callocate(n, 3));
            see(p ? static_cast<std::uint64_t>(p - reinterpret_cast<unsigned char*>(h.get())) : ~0ull);
            if (p) {
                for (std::size_t i = 0; i < 3 * n; i++)
                    see(p[i]);
                live.push_back({p, 0});
            }
            break;
        }
        default:
            if (!live.empty()) {
                std::size_t i = r.below(live.size());
                for (std::size_t k = 0; k < live[i].second; k++)
                    if (live[i].first[k] != (live[i].second & 0xff))
                        see(k);
                hp.deallocate(live[i].first);
                live.erase(live.begin() + static_cast<long>(i));
            }
        }
        see(hp.free_heap_size());
        see(hp.minimum_ever_free_heap_size());
        typename heap::heap_stats_t st{};
        hp.v_port_get_heap_stats(&st);
        see(st.x_number_of_free_blocks);
        see(st.x_size_of_largest_free_block_in_bytes);
        see(st.x_number_of_successful_allocations);
        if (r.chance(1, 8))
            hp.on_fail([this] { see(77); });
    }
    void
    finish() override
    {
        for (auto& b : live)
            h->h.deallocate(b.first);
        see(h->h.free_heap_size());
        h.reset();
    }
};
struct ContActor : Actor {
    static constexpr std::size_t N = 2048;
    using A = al::static_heap_allocator<std::pair<int const, int>, N>;
    std::unique_ptr<al::static_heap<N>>                    h{new al::static_heap<N>};
    std::optional<std::map<int, int, std::less<int>, A>>   m;
    std::optional<std::vector<int, al::static_heap_allocator<int, N>>> v;
    ContActor(std::uint64_t s, int n) : Actor(s, n)
    {
        m.emplace(std::less<int>{}, A{*h});
        v.emplace(al::static_heap_allocator<int, N>{*h});
    }
    void
    step() override
    {
        try {
            switch (r.below(4)) {
            case 0:
                (*m)[static_cast<int>(r.below(12))] = static_cast<int>(r.below(1000));
                break;
            case 1:
                m->erase(static_cast<int>(r.below(12)));
                break;
            case 2:
                v->push_back(static_cast<int>(r.below(1000)));
                break;
            default:
                v->resize(r.below(40));
            }
        } catch (std::bad_alloc const&) {
            see(99);
        }
        for (auto& [a, b] : *m)
            see(static_cast<std::uint64_t>(a * 1000 + b));
        for (int x : *v)
            see(static_cast<std::uint64_t>(x));
    }
    void
    finish() override
    {
        m.reset();
        v.reset();
        see(h->free_heap_size());
        h.reset();
    }
};

template <std::size_t N, bool E>
struct LruActor : Actor {
    std::optional<xitren::cache::lru<int, std::string, N, E>> c;
    LruActor(std::uint64_t s, int n) : Actor(s, n) { c.emplace(std::chrono::hours(24)); }
    void
    step() override
    {
        int k = static_cast<int>(r.below(N * 2));
        if (r.chance(1, 2))
            c->put(k, "a value of some length " + std::to_string(r.below(10000)));
        else {
            auto g = c->get(k);
            see(g.has_value());
            if (g) {
                see(static_cast<std::uint64_t>(std::get<0>(*g)));
                see(std::get<1>(*g));
            }
        }
    }
    void
    finish() override { c.reset(); }
};

template <bool Static, std::size_t Max>
struct ObsActor : Actor {
    struct O : cm::observer<int> {
        ObsActor* a{};
        int       id{};
        void
        disconnect(void const* src) override
        {
            a->see(static_cast<std::uint64_t>(500 + id));
            a->see(src == a->s.get());
        }

    protected:
        void
        data(void const* src, int const& v) override
        {
            a->see(static_cast<std::uint64_t>(id * 100000 + v));
            a->see(src == a->s.get());
            a->inside();
        }
    };
    O                                                o[5];
    std::unique_ptr<cm::observable<int, Static, Max>> s{new cm::observable<int, Static, Max>};
    ObsActor(std::uint64_t sd, int n) : Actor(sd, n)
    {
        for (int i = 0; i < 5; i++) {
            o[i].a  = this;
            o[i].id = i;
        }
    }
    template <class F>
    void
    code(F f)
    {
        if constexpr (Static)
            see(static_cast<std::uint64_t>(f()));
        else
            try {
                f();
            } catch (std::exception const& e) {
                see(std::string(e.what()));
            }
    }
    void
    step() override
    {
        auto& x = o[r.below(5)];
        switch (r.below(6)) {
        case 0:
        case 1:
            code([&] { return s->add_observer(x); });
            break;
        case 2:
            code([&] { return s->remove_observer(x); });
            break;
        case 3:
            if (r.chance(1, 4))
                s->clear_observers();
            break;
        default: {
            int v = static_cast<int>(r.below(1000));
            code([&] { return s->notify_observers(v); });
        }
        }
    }
    void
    finish() override
    {
        s->clear_observers();
        s.reset();
    }
};

template <class T, std::size_t Max>
struct ValActor : Actor {
    std::unique_ptr<val::observable<T, Max>>       s{new val::observable<T, Max>};
    std::vector<std::unique_ptr<val::observed<T>>> o;
    ValActor(std::uint64_t sd, int n) : Actor(sd, n)
    {
        for (int i = 0; i < 4; i++) {
            o.push_back(std::make_unique<val::observed<T>>());
            o.back()->on_update([this, i](T const v) {
                see(static_cast<std::uint64_t>(i) * 7919 + static_cast<std::uint64_t>(static_cast<std::int64_t>(v)));
                inside();
            });
        }
    }
    void
    step() override
    {
        auto&   x = *o[r.below(4)];
        T const d = static_cast<T>(r.below(9));
        switch (r.below(10)) {
        case 0:
        case 1:
            see(static_cast<std::uint64_t>(s->add_observer(x)));
            break;
        case 2:
            see(static_cast<std::uint64_t>(s->remove_observer(x)));
            break;
        case 3:
            if (r.chance(1, 4))
                s->clear_observers();
            break;
        case 4:
            see(static_cast<std::uint64_t>(static_cast<std::int64_t>((*s)++)));
            break;
        case 5:
            see(static_cast<std::uint64_t>(static_cast<std::int64_t>(--(*s))));
            break;
        case 6:
            see(static_cast<std::uint64_t>(static_cast<std::int64_t>(*s += d)));
            break;
        case 7:
            see(static_cast<std::uint64_t>(static_cast<std::int64_t>(*s -= d)));
            break;
        default:
            *s = d;
        }
        see(static_cast<std::uint64_t>(static_cast<std::int64_t>(s->value())));
        for (auto& p : o)
            see(static_cast<std::uint64_t>(static_cast<std::int64_t>(p->value())));
    }
    void
    finish() override
    {
        s->clear_observers();
        s.reset();
        o.clear();
    }
};

struct ChainActor : Actor {
    struct O : cst::observer<int, O> {
        ChainActor* a{};
        int         id{};
        void
        notification_impl(cst::observable_impl<int> const& src, int const& v) noexcept
        {
            a->see(static_cast<std::uint64_t>(id * 100000 + v));
            a->see(&src == &a->s->root);
            a->inside();
        }
    };
    O                                                o[3];
    std::unique_ptr<cst::observable<int, O, O, O>>   s;
    ChainActor(std::uint64_t sd, int n) : Actor(sd, n)
    {
        for (int i = 0; i < 3; i++) {
            o[i].a  = this;
            o[i].id = i;
        }
        s.reset(new cst::observable<int, O, O, O>(o[0], o[1], o[2]));
    }
    void
    step() override
    {
        int v = static_cast<int>(r.below(1000));
        s->notify(v);
    }
    void
    finish() override { s.reset(); }
};

struct MedActor : Actor {
    struct A {
        int x, y;
    };
    struct B {
        char c[24];
        long n;
    };
    struct Man : cm::manager<4> {
        MedActor* a{};
        void
        data(std::size_t, std::uint8_t* p, std::size_t sz) override
        {
            a->see(sz);
            if (sz == sizeof(A)) {
                auto m = convert_field<A>(p, sz);
                a->see(static_cast<std::uint64_t>(m.x * 1000 + m.y));
            }
        }
    };
    template <class S, class R>
    struct Mod : cm::module<S, R> {
        MedActor* a;
        int       id;
        Mod(cm::base::manager& m, MedActor* o, int i) : cm::module<S, R>(m), a{o}, id{i} {}
        void
        data(R const& v) override
        {
            a->see(static_cast<std::uint64_t>(id));
            if constexpr (std::is_same_v<R, A>)
                a->see(static_cast<std::uint64_t>(v.x * 1000 + v.y));
            else {
                a->see(std::string(v.c));
                a->see(static_cast<std::uint64_t>(v.n));
            }
            a->inside();
        }
        using cm::module<S, R>::send;
    };
    std::unique_ptr<Man>            m{new Man};
    std::unique_ptr<Mod<A, B>>      ab[3];
    std::unique_ptr<Mod<B, A>>      ba[3];
    MedActor(std::uint64_t sd, int n) : Actor(sd, n) { m->a = this; }
    void
    step() override
    {
        A a{static_cast<int>(r.below(500)), static_cast<int>(r.below(500))};
        B b{};
        std::snprintf(b.c, sizeof b.c, "message %d", static_cast<int>(r.below(1000)));
        b.n    = static_cast<long>(r.below(100000));
        auto i = r.below(3);
        switch (r.below(8)) {
        case 0:
        case 1:
            try {
                if (!ab[i])
                    ab[i] = std::make_unique<Mod<A, B>>(*m, this, static_cast<int>(i));
            } catch (std::exception const&) {
                see(404);
            }
            break;
        case 2:
        case 3:
            try {
                if (!ba[i])
                    ba[i] = std::make_unique<Mod<B, A>>(*m, this, static_cast<int>(10 + i));
            } catch (std::exception const&) {
                see(405);
            }
            break;
        case 4:
            if (r.chance(1, 2))
                ab[i].reset();
            else
                ba[i].reset();
            break;
        case 5:
            if (ab[i])
                ab[i]->send(a);
            break;
        case 6:
            if (ba[i])
                ba[i]->send(b);
            break;
        default:
            if (r.chance(1, 2))
                m->send(a);
            else
                m->send(b);
        }
    }
    void
    finish() override
    {
        for (auto& x : ab)
            x.reset();
        for (auto& x : ba)
            x.reset();
        m.reset();
    }
};

struct StageActor : Actor {
    std::vector<int> got;
    std::optional<cm::pipeline_stage<std::string, int, 4, Log>> s;
    StageActor(std::uint64_t sd, int n) : Actor(sd, n)
    {
        s.emplace([this](auto, std::string const v, std::pair<int, int> const) {
            got.push_back(std::atoi(v.c_str() + 20));
            return 0;
        });
    }
    void
    step() override
    {
        std::string v = "an item of the stage" + std::to_string(r.below(100000));
        if (r.chance(1, 2))
            s->push(v);
        else
            s->push(std::move(v));
    }
    void
    finish() override
    {
        s.reset();
        for (int x : got)
            see(static_cast<std::uint64_t>(x));
        see(got.size());
    }
};
struct PoolActor : Actor {
    std::atomic<std::uint64_t> sum{}, n{}, bad{};
    std::optional<cm::pipeline_stage_pool<int, int, 8, 2, Log>> s;
    PoolActor(std::uint64_t sd, int k) : Actor(sd, k)
    {
        s.emplace([this](auto, int const v, cm::measure_data const d) {
            std::uint64_t x = static_cast<std::uint64_t>(v) + 1;
            sum += vf::splitmix(x);
            n++;
            if (auto& [w, t, u] = d; w < 0 || w > 1)
                bad++;
            return 0;
        });
    }
    void
    step() override
    {
        int const v = static_cast<int>(r.below(100000));
        s->push(v);
    }
    void
    finish() override
    {
        s.reset();
        see(sum);
        see(n);
        see(bad);
    }
};

struct Opts {
    std::string name{"none"};
    int         number{-1};
    double      real{0.5};
    bool        flag{};
    bool        other{};
};
struct ArgvActor : Actor {
    std::unique_ptr<fn::argv_parser<Opts>> p;
    ArgvActor(std::uint64_t sd, int n) : Actor(sd, n)
    {
        p = fn::argv_parser<Opts>::instance({{"--name", &Opts::name}, {"--number", &Opts::number}, {"--real", &Opts::real}, {"--flag", &Opts::flag}});
        if (r.chance(1, 2))
            p = fn::argv_parser<Opts>::instance({{"--name", &Opts::name}, {"-n", &Opts::number}, {"--flag", &Opts::other}});
    }
    void
    step() override
    {
        static char const* const words[] = {"--name", "--number", "--real", "--flag", "-n", "x", "12", "-7", "2.5", "3e2", "--nam", "value"};
        std::vector<char const*> v;
        for (auto k = r.below(9); k; k--)
            v.push_back(words[r.below(std::size(words))]);
        char const* none = "";
        auto        o    = p->parse(static_cast<int>(v.size()), v.empty() ? &none : v.data());
        // what follows an option may not be a number: only the text and the flags are seen then
        see(o.name);
        see(o.flag);
        see(o.other);
        see(static_cast<std::uint64_t>(o.number));
        see(static_cast<std::uint64_t>(o.real * 1000));
    }
    void
    finish() override { p.reset(); }
};

struct Crc16 {
    using value_type = fn::msb_t<std::uint16_t>;
    template <class It>
    static constexpr value_type
    calculate(It b, It e)
    {
        std::uint16_t c = 0x1d0f;
        for (; b != e; ++b)
            c = static_cast<std::uint16_t>((c << 1) ^ (c >> 11) ^ *b);
        return value_type(c);
    }
};
struct DataActor : Actor {
    struct __attribute__((packed)) Hd {
        fn::lsb_t<std::uint16_t> kind;
        std::uint8_t             pad[3];
    };
    struct __attribute__((packed)) Fl {
        fn::msb_t<std::uint32_t> a;
        fn::lsb_t<std::uint64_t> b;
    };
    using packet = fn::packet<Hd, Fl, Crc16>;
    using acc    = fn::packet_accessor<64>;
    std::unique_ptr<acc>    s{new acc};
    std::unique_ptr<packet> last;
    using Actor::Actor;
    void
    step() override
    {
        Hd h{fn::lsb_t<std::uint16_t>(static_cast<std::uint16_t>(r.u64())), {1, 2, static_cast<std::uint8_t>(r.u64())}};
        Fl f{fn::msb_t<std::uint32_t>(static_cast<std::uint32_t>(r.u64())), fn::lsb_t<std::uint64_t>(r.u64())};
        switch (r.below(4)) {
        case 0: {
            last = std::make_unique<packet>(h, f);
            for (auto b : last->to_array())
                see(b);
            break;
        }
        case 1: {
            auto arr = packet::serialize(h, f);
            if (r.chance(1, 3))
                arr[r.below(arr.size())] ^= 0x40;
            auto [ok, h2, f2] = packet::deserialize(arr);
            see(ok);
            see(h2.kind.get());
            see(f2.b.get());
            if (last)
                see(last->fields().a.get());
            break;
        }
        case 2: {
            std::uint16_t el[24];
            for (auto& e : el)
                e = static_cast<std::uint16_t>(r.u64());
            acc::fields_in<Hd, Fl, std::uint16_t> in{h, f, r.below(24), el};
            see(s->serialize<Hd, Fl, std::uint16_t, Crc16>(in));
            break;
        }
        default: {
            auto out = s->deserialize<Hd, Fl, std::uint16_t, Crc16>();
            see(out.valid);
            see(out.size);
            if (out.valid)
                for (std::size_t i = 0; i < out.size; i++) {
                    std::uint16_t e;
                    std::memcpy(&e, reinterpret_cast<char const*>(out.data) + 2 * i, 2);
                    see(e);
                }
            auto a = fn::data<Fl>::serialize(f);
            for (auto b : a)
                see(b);
            see(fn::data<Fl>::deserialize(a.begin()).b.get());
        }
        }
        see(s->size());
    }
    void
    finish() override
    {
        s.reset();
        last.reset();
    }
};

struct PimplActor : Actor {
    using P = fn::fast_pimpl<std::string, sizeof(std::string), alignof(std::string)>;
    std::optional<P> p[3];
    using Actor::Actor;
    void
    step() override
    {
        auto i = r.below(3), j = r.below(3);
        switch (r.below(4)) {
        case 0:
            p[i].emplace("a text longer than any small buffer " + std::to_string(r.below(1000)));
            break;
        case 1:
            if (p[j])
                p[i] = p[j];
            break;
        case 2:
            if (p[i])
                (*p[i])->append("+");
            break;
        default:
            p[i].reset();
        }
        for (auto& x : p)
            if (x)
                see(**x);
    }
    void
    finish() override
    {
        for (auto& x : p)
            x.reset();
    }
};
struct IntervalActor : Actor {
    std::optional<fn::interval_event> e;
    IntervalActor(std::uint64_t sd, int n) : Actor(sd, n)
    {
        e.emplace([] {}, std::chrono::milliseconds(3600000), std::chrono::milliseconds(1));
    }
    void
    step() override
    {
        auto v = static_cast<long>(3600000 + r.below(1000));
        if (r.chance(1, 2))
            e->period(std::chrono::milliseconds(v));
        see(static_cast<std::uint64_t>(e->period().count()));
        see(static_cast<std::uint64_t>(e->period_between_checks().count()));
    }
    void
    finish() override { e.reset(); }
};

static int constexpr kinds = 18;
static char const* const kind_names[kinds] = {"heap 1024",     "heap 4096",      "containers",     "cache",        "throwing cache",   "fixed observable",
                                              "growing observable", "int value", "int value, growing", "long value", "observer chain", "mediator",
                                              "pipeline stage", "pipeline pool", "options",        "packets",      "pimpl",            "interval event"};
static std::unique_ptr<Actor>
make(int kind, std::uint64_t seed, int n)
{
    switch (kind) {
    case 0: return std::make_unique<HeapActor<1024>>(seed, n);
    case 1: return std::make_unique<HeapActor<4096>>(seed, n);
    case 2: return std::make_unique<ContActor>(seed, n);
    case 3: return std::make_unique<LruActor<4, false>>(seed, n);
    case 4: return std::make_unique<LruActor<8, true>>(seed, n);
    case 5: return std::make_unique<ObsActor<true, 3>>(seed, n);
    case 6: return std::make_unique<ObsActor<false, 8>>(seed, n);
    case 7: return std::make_unique<ValActor<int, 3>>(seed, n);
    case 8: return std::make_unique<ValActor<int, 0>>(seed, n);
    case 9: return std::make_unique<ValActor<long, 3>>(seed, n);
    case 10: return std::make_unique<ChainActor>(seed, n);
    case 11: return std::make_unique<MedActor>(seed, n);
    case 12: return std::make_unique<StageActor>(seed, n);
    case 13: return std::make_unique<PoolActor>(seed, n);
    case 14: return std::make_unique<ArgvActor>(seed, n);
    case 15: return std::make_unique<DataActor>(seed, n);
    case 16: return std::make_unique<PimplActor>(seed, n);
    default: return std::make_unique<IntervalActor>(seed, n);
    }
}

struct Plan {
    int           kind;
    std::uint64_t seed;
    int           steps;
};
struct Run {
    std::uint64_t              digest{};
    std::vector<std::uint64_t> log;
};
static Run
alone(Plan const& p)
{
    Run  out;
    auto a = make(p.kind, p.seed, p.steps);
    a->log = &out.log;
    for (int i = 0; i < p.steps; i++) {
        a->step();
        a->mark();
    }
    a->finish();
    out.digest = a->digest;
    return out;
}

// Interleaves the actors it owns, from inside one another's callbacks too.  The actors are made and finished at varying times.
struct Group {
    std::vector<Plan>                   plans;
    std::vector<std::unique_ptr<Actor>> a;
    std::vector<Run>                    out;
    Src                                 r;
    int                                 depth{0};
    bool                                nested;
    std::uint64_t                       nests{};
    Group(std::vector<Plan> p, std::uint64_t seed, bool nest) : plans{std::move(p)}, a(plans.size()), out(plans.size()), r{seed}, nested{nest} {}

    bool
    one()    // a step of a random actor that is not in the middle of one; false: all are done (or busy)
    {
        std::vector<std::size_t> can;
        for (std::size_t i = 0; i < plans.size(); i++)
            if (!(a[i] && a[i]->busy) && !out[i].digest)
                can.push_back(i);
        if (can.empty())
            return false;
        auto const i = r.pick(can);
        if (!a[i]) {
            a[i]      = make(plans[i].kind, plans[i].seed, plans[i].steps);
            a[i]->log = &out[i].log;
            if (nested)
                a[i]->nest = [this] {
                    if (depth < 4 && r.chance(1, 2)) {
                        nests++;
                        one();
                    }
                };
            return true;
        }
        a[i]->busy = true;
        depth++;
        if (a[i]->left-- > 0) {
            a[i]->step();
            a[i]->mark();
        } else {
            a[i]->finish();
            out[i].digest = a[i]->digest | 1;
            a[i].reset();
            depth--;
            return true;
        }
        depth--;
        a[i]->busy = false;
        return true;
    }
};

static void
compare(char const* how, std::vector<Plan> const& p, std::vector<Run> const& want, std::vector<Run> const& got)
{
    for (std::size_t i = 0; i < p.size(); i++) {
        if ((want[i].digest | 1) == got[i].digest)
            continue;
        std::size_t k = 0;
        while (k < want[i].log.size() && k < got[i].log.size() && want[i].log[k] == got[i].log[k])
            k++;
        vf::reportf("C32", "affected", "%s: instance %zu (%s) behaved otherwise than alone, from step %zu of %d on", how, i, kind_names[p[i].kind], k,
                    p[i].steps);
    }
}

static bool g_warm[kinds];

void
vf_case(Src& s)
{
    std::vector<Plan> p;
    auto              one_kind = [&] {
        int k = static_cast<int>(s.below(kinds));
        if (k == 17 && !s.chance(1, 6))
            k = static_cast<int>(s.below(12));
        return k;
    };
    int const n = 2 + static_cast<int>(s.below(5)), same = s.chance(1, 2) ? one_kind() : -1;
    for (int i = 0; i < n; i++)
        p.push_back({same >= 0 && s.chance(3, 4) ? same : one_kind(), s.u64(), 3 + static_cast<int>(s.below(60))});
    for (auto& x : p) {
        tr("instance of %s, %d steps, seed %llx", kind_names[x.kind], x.steps, (unsigned long long)x.seed);
        vf::mix(static_cast<std::uint64_t>(x.kind));
    }
    // alone
    std::vector<Run> want;
    for (auto& x : p) {
        if (!g_warm[x.kind]) {    // whatever is set up once per program
            g_warm[x.kind] = true;
            (void)alone(x);
        }
        Run r1;
        r1.log.reserve(128);
        long const before = g_blocks.load();
        {
            auto a = make(x.kind, x.seed, x.steps);
            a->log = &r1.log;
            for (int i = 0; i < x.steps; i++) {
                a->step();
                a->mark();
            }
            a->finish();
            r1.digest = a->digest;
        }
#ifdef COUNTS_MEMORY
        if (x.kind == 17)    // the event's thread gives its block back when it gets to it
            for (auto const until = std::chrono::steady_clock::now() + std::chrono::seconds(20);
                 g_blocks.load() > before && std::chrono::steady_clock::now() < until;)
                std::this_thread::sleep_for(std::chrono::microseconds(200));
        VF_EXPECT("C33", g_blocks.load() <= before, "kept-memory", "an instance of %s kept %ld blocks of memory after it was destroyed", kind_names[x.kind],
                  g_blocks.load() - before);
        vf::count("inst.memory_balanced");
#else
        (void)before;
#endif
        vf::mix(r1.digest);
        want.push_back(std::move(r1));
    }
    // interleaved, partly from inside callbacks
    {
        Group g{p, s.u64(), s.chance(3, 4)};
        while (g.one()) {}
        compare("interleaved on one thread", p, want, g.out);
        vf::count("inst.interleaved", p.size());
        vf::count("inst.nested_steps", g.nests);
    }
    // on several threads at once
    {
        std::vector<std::unique_ptr<Group>> gs;
        std::size_t const                   nt = 2 + s.below(2);
        std::vector<std::vector<Plan>>      parts(nt);
        std::vector<std::pair<std::size_t, std::size_t>> where;
        for (std::size_t i = 0; i < p.size(); i++) {
            where.push_back({i % nt, parts[i % nt].size()});
            parts[i % nt].push_back(p[i]);
        }
        for (auto& q : parts)
            gs.push_back(std::make_unique<Group>(q, s.u64(), s.chance(1, 2)));
        std::atomic<std::size_t> ready{0};
        std::vector<std::thread> t;
        for (auto& g : gs)
            t.emplace_back([&, gp = g.get()] {
                ready++;
                while (ready < nt) {}
                while (gp->one()) {}
            });
        for (auto& x : t)
            x.join();
        std::vector<Run> got;
        for (auto& w : where)
            got.push_back(gs[w.first]->out[w.second]);
        compare("on several threads at once", p, want, got);
        vf::count("inst.parallel", p.size());
    }
    // taking turns on several threads: every step of an instance may be on another thread
    if (s.chance(1, 2)) {
        Group                    g{p, s.u64(), s.chance(1, 2)};
        std::mutex               m;
        std::atomic<bool>        more{true};
        std::vector<std::thread> t;
        for (int k = 0; k < 3; k++)
            t.emplace_back([&] {
                while (more) {
                    {
                        std::lock_guard l{m};
                        if (!g.one())
                            more = false;
                    }
                    std::this_thread::yield();
                }
            });
        for (auto& x : t)
            x.join();
        compare("handed from thread to thread", p, want, g.out);
        vf::count("inst.handed_over", p.size());
    }
    vf::nontrivial();
}

void
vf_directed()
{
    // two interval events, one stopped: the other goes on
    using namespace std::chrono_literals;
    std::atomic<int>  a{0}, b{0};
    fn::interval_event ea{[&] { a++; }, 1ms, 1ms}, eb{[&] { b++; }, 1ms, 1ms};
    auto               more = [](std::atomic<int>& x, int n) {
        int const from = x;
        for (int i = 0; i < 60000 && x < from + n; i++)
            std::this_thread::sleep_for(1ms);
        return x >= from + n;
    };
    VF_EXPECT("C32", more(a, 3) && more(b, 3), "events-idle", "of two interval events one is never called");
    ea.stop();
    int const at = a;
    VF_EXPECT("C32", more(b, 5), "event-stopped-by-another", "stopping one interval event stopped another");
    VF_EXPECT("C32", a == at, "event-not-stopped", "a stopped interval event was called while another ran");
    eb.stop();
    vf::count("inst.events");
}
