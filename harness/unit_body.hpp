// C35: the operations of one translation unit.  Included by unit_1/2/3.cpp after the library's headers, which each unit
// includes in an order of its own; UNIT names the unit's Unit object.
#include "units.hpp"

#include <atomic>
#include <cstring>
#include <memory>
#include <optional>
#include <stdexcept>
#include <thread>

struct USilent {
    template <class T>
    USilent const& operator<<(T const&) const { return *this; }
};
struct ULog {
    static USilent trace() { return {}; }
    static USilent debug() { return {}; }
    static USilent warning() { return {}; }
    static USilent error() { return {}; }
};
struct UCrc {
    using value_type = xitren::func::msb_t<std::uint16_t>;
    template <class It>
    static constexpr value_type
    calculate(It b, It e)
    {
        std::uint16_t c = 0x1d0f;
        for (; b != e; ++b)
            c = static_cast<std::uint16_t>((c << 1) ^ (c >> 11) ^ *b);
        return value_type(c);
    }
};
struct __attribute__((packed)) UHead {
    xitren::func::lsb_t<std::uint16_t> kind;
    std::uint8_t                       pad[3];
};
struct __attribute__((packed)) UFields {
    xitren::func::msb_t<std::uint32_t> a;
    xitren::func::lsb_t<std::uint64_t> b;
};
struct UMsgA {
    int x, y;
};
struct UMsgB {
    char c[16];
    long n;
};
struct UOpts {
    std::string name{"none"};
    int         number{-1};
    bool        flag{};
};
struct UObs : xitren::comm::observer<int> {
    Trace* t{};
    int    id{};
    void   data(void const*, int const& v) override { t->push_back(static_cast<std::uint64_t>(id * 100000 + v)); }
    void   disconnect(void const*) override { t->push_back(static_cast<std::uint64_t>(77000 + id)); }
};
struct UChain : xitren::comm_static::observer<int, UChain> {
    Trace* t{};
    int    id{};
    void
    notification_impl(xitren::comm_static::observable_impl<int> const&, int const& v) noexcept
    {
        t->push_back(static_cast<std::uint64_t>(id * 100000 + v));
    }
};
using UPacket = xitren::func::packet<UHead, UFields, UCrc>;
using UAcc    = xitren::func::packet_accessor<64>;
using UHeap   = xitren::allocators::static_heap<2048>;

struct UModule {
    virtual ~UModule()            = default;
    virtual void send(int x)      = 0;
};
struct World {
    Trace* t{};
    // the heap, and the blocks taken from it
    alignas(64) UHeap heap;
    struct Block {
        void*       p;
        std::size_t n;
        int         fill;
    };
    std::vector<Block>                                                                  blocks;
    std::optional<std::vector<int, xitren::allocators::static_heap_allocator<int, 2048>>> vec;
    std::unique_ptr<xitren::cache::lru<int, std::string, 4>>                            cache;
    std::unique_ptr<xitren::cache::lru<int, std::string, 4>>                            stale;
    UObs                                                                                obs[5];
    std::unique_ptr<xitren::comm::observable_static<int, 3>>                            fixed;
    std::unique_ptr<xitren::comm::observable_dynamic<int>>                              grows;
    xitren::comm::values::observed<int>                                                 seen[3];
    std::unique_ptr<xitren::comm::values::observable<int, 2>>                           value;
    UChain                                                                              links[2];
    std::unique_ptr<xitren::comm_static::observable<int, UChain, UChain>>               chain;
    std::unique_ptr<xitren::comm::manager<4>>                                           man;
    std::unique_ptr<UModule>                                                            mods[5];
    std::vector<int>                                                                    handled;
    std::unique_ptr<xitren::comm::pipeline_stage<std::string, int, 4, ULog>>            stage;
    std::atomic<std::uint64_t>                                                          sum{};
    std::unique_ptr<xitren::comm::pipeline_stage_pool<int, int, 4, 2, ULog>>            pool;
    std::unique_ptr<xitren::func::argv_parser<UOpts>>                                   args;
    std::optional<UPacket>                                                              packet;
    UAcc                                                                                acc;
    std::optional<xitren::func::fast_pimpl<std::string, sizeof(std::string), alignof(std::string)>> pimpl;
    std::unique_ptr<xitren::func::interval_event>                                       event;
};

namespace {

template <class S, class R>
struct Mod final : xitren::comm::module<S, R>, UModule {
    Trace* t;
    int    id;
    Mod(xitren::comm::base::manager& m, Trace* tt, int i) : xitren::comm::module<S, R>(m), t{tt}, id{i} {}
    void
    data(R const& v) override
    {
        t->push_back(static_cast<std::uint64_t>(id));
        if constexpr (std::is_same_v<R, UMsgA>)
            t->push_back(static_cast<std::uint64_t>(v.x * 1000 + v.y));
        else
            t->push_back(static_cast<std::uint64_t>(v.n + v.c[0]));
    }
    void
    send(int x) override
    {
        S s{};
        if constexpr (std::is_same_v<S, UMsgA>)
            s = {x, x % 7};
        else {
            s.c[0] = static_cast<char>(x % 100);
            s.n    = x;
        }
        xitren::comm::module<S, R>::send(s);
    }
};

void
text(Trace& t, std::string const& s)
{
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    t.push_back(h);
}

World*
make()
{
    return new World;
}
void
unmake(World* w)
{
    if (w->value)
        w->value->clear_observers();
    delete w;
}
void
raise(World*, unsigned k)
{
    switch (k % 3) {
    case 0:
        throw xitren::cache::cache_missed();
    case 1:
        throw xitren::cache::cache_timeout();
    default:
        throw std::bad_alloc();
    }
}
// what this unit makes of what another one throws
template <class F>
void
judged(Trace& t, F f)
{
    try {
        f();
        t.push_back(1);
    } catch (xitren::cache::cache_missed const& e) {
        t.push_back(2);
        text(t, e.what());
    } catch (xitren::cache::cache_timeout const& e) {
        t.push_back(3);
        text(t, e.what());
    } catch (std::bad_alloc const&) {
        t.push_back(4);
    } catch (std::exception const& e) {
        t.push_back(5);
        text(t, e.what());
    }
}

void
op(World* w, unsigned k, std::uint64_t a, Trace& t, Unit const* helper)
{
    namespace cm = xitren::comm;
    w->t         = &t;
    for (int i = 0; i < 5; i++) {
        w->obs[i].t  = &t;
        w->obs[i].id = i;
    }
    for (int i = 0; i < 2; i++) {
        w->links[i].t  = &t;
        w->links[i].id = i + 8;
    }
    int const  v = static_cast<int>(a >> 16) & 0xfff;
    auto const i = a % 5;
    switch (k) {
    case 0:
    case 1: {
        std::size_t n = a % 400;
        void*       p = k ? w->heap.allocate(n) : w->heap.callocate(1, n);
        t.push_back(p ? static_cast<std::uint64_t>(static_cast<char*>(p) - reinterpret_cast<char*>(&w->heap)) : 0);
        if (p) {
            std::memset(p, v & 255, n);
            w->blocks.push_back({p, n, v & 255});
        }
        break;
    }
    case 2:
        if (!w->blocks.empty()) {
            auto   at  = a % w->blocks.size();
            auto   b   = w->blocks[at];
            bool   ok  = true;
            for (std::size_t x = 0; x < b.n; x++)
                ok = ok && static_cast<unsigned char*>(b.p)[x] == b.fill;
            t.push_back(ok);
            w->heap.deallocate(b.p);
            w->blocks.erase(w->blocks.begin() + static_cast<std::ptrdiff_t>(at));
        }
        break;
    case 3: {
        UHeap::heap_stats_t st{};
        w->heap.v_port_get_heap_stats(&st);
        t.push_back(st.x_available_heap_space_in_bytes);
        t.push_back(st.x_number_of_free_blocks);
        t.push_back(st.x_number_of_successful_allocations);
        t.push_back(st.x_number_of_successful_frees);
        t.push_back(st.x_minimum_ever_free_bytes_remaining);
        t.push_back(w->heap.free_heap_size());
        break;
    }
    case 4: {
        xitren::allocators::static_heap_allocator<int, 2048> al{w->heap};
        if (!w->vec)
            w->vec.emplace(al);
        judged(t, [&] {
            for (int x = 0; x < v % 9; x++)
                w->vec->push_back(x + v);
        });
        for (int x : *w->vec)
            t.push_back(static_cast<std::uint64_t>(x));
        if (w->vec->size() > 60)
            w->vec.reset();
        break;
    }
    case 5:
        w->vec.reset();
        break;
    case 6:
    case 7:
        if (!w->cache)
            w->cache.reset(new xitren::cache::lru<int, std::string, 4>(std::chrono::hours(9)));
        w->cache->put(v % 7, "the value number " + std::to_string(v));
        break;
    case 8:
    case 9:
        if (w->cache) {
            auto r = w->cache->get(v % 7);
            t.push_back(r.has_value());
            if (r)
                text(t, std::get<1>(*r));
        }
        break;
    case 10:
        if (!w->stale)
            w->stale.reset(new xitren::cache::lru<int, std::string, 4>(std::chrono::hours(0)));
        w->stale->put(1, "gone");
        judged(t, [&] { (void)w->stale->get(1); });
        break;
    case 11:
        judged(t, [&] { helper->raise(w, static_cast<unsigned>(v)); });
        break;
    case 12:
    case 13:
        if (!w->fixed)
            w->fixed.reset(new cm::observable_static<int, 3>);
        t.push_back(static_cast<std::uint64_t>(w->fixed->add_observer(w->obs[i])));
        break;
    case 14:
        if (w->fixed)
            t.push_back(static_cast<std::uint64_t>(w->fixed->remove_observer(w->obs[i])));
        break;
    case 15:
        if (w->fixed)
            t.push_back(static_cast<std::uint64_t>(w->fixed->notify_observers(v)));
        break;
    case 16:
        w->fixed.reset();
        break;
    case 17:
    case 18:
        if (!w->grows)
            w->grows.reset(new cm::observable_dynamic<int>);
        judged(t, [&] { w->grows->add_observer(w->obs[i]); });
        break;
    case 19:
        if (w->grows)
            judged(t, [&] { w->grows->remove_observer(w->obs[i]); });
        break;
    case 20:
        if (w->grows)
            judged(t, [&] { w->grows->notify_observers(v); });
        break;
    case 21:
        w->grows.reset();
        break;
    case 22:
        if (!w->value)
            w->value.reset(new cm::values::observable<int, 2>);
        w->seen[i % 3].on_update([p = &t](int const x) { p->push_back(static_cast<std::uint64_t>(900000 + x)); });
        t.push_back(static_cast<std::uint64_t>(w->value->add_observer(w->seen[i % 3])));
        break;
    case 23:
        if (w->value)
            t.push_back(static_cast<std::uint64_t>(w->value->remove_observer(w->seen[i % 3])));
        break;
    case 24:
        if (w->value) {
            t.push_back(static_cast<std::uint64_t>((*w->value)++));
            t.push_back(static_cast<std::uint64_t>(*w->value += v));
            *w->value = v / 2;
        }
        for (auto& x : w->seen)
            t.push_back(static_cast<std::uint64_t>(x.value()));
        break;
    case 25:
        if (!w->chain)
            w->chain.reset(new xitren::comm_static::observable<int, UChain, UChain>(w->links[0], w->links[1]));
        w->chain->notify(v);
        break;
    case 26:
    case 27:
        if (!w->man)
            w->man.reset(new cm::manager<4>);
        judged(t, [&] {
            if (w->mods[i])
                return;
            if (k == 26)
                w->mods[i] = std::make_unique<Mod<UMsgA, UMsgB>>(*w->man, &t, static_cast<int>(i));
            else
                w->mods[i] = std::make_unique<Mod<UMsgB, UMsgA>>(*w->man, &t, static_cast<int>(i + 10));
        });
        break;
    case 28:
        w->mods[i].reset();
        break;
    case 29:
    case 30:
        if (w->mods[i])
            w->mods[i]->send(v);
        else if (w->man)
            w->man->send(UMsgA{v, v % 5});
        break;
    case 31:
        if (!w->stage) {
            w->handled.clear();
            w->stage.reset(new cm::pipeline_stage<std::string, int, 4, ULog>([w](auto, std::string const s, std::pair<int, int> const) {
                w->handled.push_back(std::atoi(s.c_str() + 20));
                return 0;
            }));
        }
        w->stage->push("an item of the stage" + std::to_string(v));
        break;
    case 32:
        w->stage.reset();
        for (int x : w->handled)
            t.push_back(static_cast<std::uint64_t>(x));
        w->handled.clear();
        break;
    case 33:
        if (!w->pool)
            w->pool.reset(new cm::pipeline_stage_pool<int, int, 4, 2, ULog>([w](auto, int const x, cm::measure_data const) {
                w->sum += static_cast<std::uint64_t>(x) * 31 + 7;
                return 0;
            }));
        {
            int const item = v;
            w->pool->push(item);
        }
        break;
    case 34:
        w->pool.reset();
        t.push_back(w->sum.exchange(0));
        break;
    case 35: {
        if (!w->args || v % 5 == 0)
            w->args = xitren::func::argv_parser<UOpts>::instance({{"--name", &UOpts::name}, {"--number", &UOpts::number}, {"--flag", &UOpts::flag}});
        static char const* const words[] = {"--name", "a", "--number", "12", "--flag", "b"};
        char const*              av[4];
        for (int x = 0; x < 4; x++)
            av[x] = words[(static_cast<std::size_t>(v) + static_cast<std::size_t>(x) * (1 + a % 2)) % 6];
        auto o = w->args->parse(4, av);
        text(t, o.name);
        t.push_back(o.flag);
        break;
    }
    case 36: {
        UHead   h{xitren::func::lsb_t<std::uint16_t>(static_cast<std::uint16_t>(v)), {1, 2, 3}};
        UFields f{xitren::func::msb_t<std::uint32_t>(static_cast<std::uint32_t>(a)), xitren::func::lsb_t<std::uint64_t>(a * 7)};
        w->packet.emplace(h, f);
        std::uint16_t                                el[5] = {1, 2, 3, 4, static_cast<std::uint16_t>(v)};
        UAcc::fields_in<UHead, UFields, std::uint16_t> in{h, f, a % 6, el};
        t.push_back(w->acc.serialize<UHead, UFields, std::uint16_t, UCrc>(in));
        break;
    }
    case 37: {
        if (w->packet) {
            t.push_back(w->packet->valid());
            for (auto b : w->packet->to_array())
                t.push_back(b);
            auto [ok, h, f] = UPacket::deserialize(w->packet->to_array());
            t.push_back(ok);
            t.push_back(h.kind.get());
            t.push_back(f.a.get());
        }
        auto out = w->acc.deserialize<UHead, UFields, std::uint16_t, UCrc>();
        t.push_back(out.valid);
        t.push_back(out.size);
        break;
    }
    case 38:
        if (!w->pimpl)
            w->pimpl.emplace("a text longer than any small buffer");
        (*w->pimpl)->append(std::to_string(v));
        text(t, **w->pimpl);
        if ((*w->pimpl)->size() > 300)
            w->pimpl.reset();
        break;
    default:
        if (!w->event)
            w->event.reset(new xitren::func::interval_event([] {}, std::chrono::hours(9), std::chrono::milliseconds(1)));
        w->event->period(std::chrono::milliseconds(36000000 + v));
        t.push_back(static_cast<std::uint64_t>(w->event->period().count()));
        if (v % 8 == 0)
            w->event->stop();
        if (v % 16 == 3)
            w->event.reset();
    }
}

// the same names as in every other unit, and other meanings
struct Same {
    int a[UNIT_NO];
};
struct Local : xitren::comm::observer<Same> {
    Trace* t{};
    void   data(void const*, Same const& s) override { t->push_back(UNIT_NO * 1000u + static_cast<unsigned>(s.a[UNIT_NO - 1])); }
};
struct Other {
    int b[UNIT_NO + 4];
};
struct Speaks : xitren::comm::module<Same, Other> {
    Trace* t{};
    using xitren::comm::module<Same, Other>::module;
    using xitren::comm::module<Same, Other>::send;
    void data(Other const& o) override { t->push_back(UNIT_NO * 3000u + static_cast<unsigned>(o.b[UNIT_NO + 3])); }
};
struct Hears : xitren::comm::module<Other, Same> {
    Trace* t{};
    using xitren::comm::module<Other, Same>::module;
    using xitren::comm::module<Other, Same>::send;
    void data(Same const& s) override { t->push_back(UNIT_NO * 2000u + static_cast<unsigned>(s.a[UNIT_NO - 1])); }
};
struct Wanted {
    std::string name{"none"};
    int         number[UNIT_NO]{};
    int         last{UNIT_NO};
};
void
local(Trace& t)
{
    Same s{};
    s.a[UNIT_NO - 1] = UNIT_NO * 11;
    {
        Local                                    o;
        xitren::comm::observable_static<Same, 3> f;
        xitren::comm::observable_dynamic<Same>   d;
        o.t = &t;
        f.add_observer(o);
        d.add_observer(o);
        f.notify_observers(s);
        d.notify_observers(s);
    }
    {
        xitren::comm::manager<3> m;
        Speaks                   a(m);
        Hears                    b(m);
        a.t = b.t = &t;
        a.send(s);
        b.send(Other{});
        m.send(s);
    }
    {
        xitren::cache::lru<int, Same, 2, false> c(std::chrono::hours(1));
        c.put(1, s);
        auto r = c.get(1);
        t.push_back(r ? static_cast<std::uint64_t>(std::get<1>(*r).a[UNIT_NO - 1]) : 0);
    }
    {
        std::atomic<int> n{};
        {
            xitren::comm::pipeline_stage<Same, int, 2, ULog> p([&](auto, Same const x, std::pair<int, int> const) {
                n += x.a[UNIT_NO - 1];
                return 0;
            });
            p.push(s);
            p.push(s);
        }
        t.push_back(static_cast<std::uint64_t>(n.load()));
    }
    {
        auto        p   = xitren::func::argv_parser<Wanted>::instance({{"--name", &Wanted::name}, {"--last", &Wanted::last}});
        char const* v[] = {"--last", "7", "--name", "x"};
        auto        o   = p->parse(4, v);
        t.push_back(static_cast<std::uint64_t>(o.last));
        text(t, o.name);
    }
    {
        auto b = xitren::func::data<Same>::serialize(s);
        t.push_back(b.size());
        t.push_back(static_cast<std::uint64_t>(xitren::func::data<Same>::deserialize(b.begin()).a[UNIT_NO - 1]));
    }
}

void
sizes(Trace& t)
{
    t.insert(t.end(), {sizeof(UHeap), sizeof(World), sizeof(xitren::cache::lru<int, std::string, 4>), sizeof(xitren::comm::observable_static<int, 3>),
                       sizeof(xitren::comm::observable_dynamic<int>), sizeof(xitren::comm::values::observable<int, 2>),
                       sizeof(xitren::comm::values::observed<int>), sizeof(xitren::comm::manager<4>), sizeof(Mod<UMsgA, UMsgB>),
                       sizeof(xitren::comm::pipeline_stage<std::string, int, 4, ULog>), sizeof(xitren::comm::pipeline_stage_pool<int, int, 4, 2, ULog>),
                       sizeof(xitren::func::argv_parser<UOpts>), sizeof(UPacket), sizeof(UAcc), sizeof(xitren::func::interval_event),
                       sizeof(xitren::func::lsb_t<std::uint32_t>), sizeof(xitren::func::msb_t<std::uint64_t>), alignof(UHeap), alignof(World)});
}

// a type of the same name and size in every unit, and a different one in each
struct Twin {
    int v;
};
struct Echo {
    long v;
};
struct Teller : xitren::comm::module<Twin, Echo> {
    using xitren::comm::module<Twin, Echo>::module;
    using xitren::comm::module<Twin, Echo>::send;
    void data(Echo const&) override {}
};
struct Listener : xitren::comm::module<Echo, Twin> {
    int* heard{};
    using xitren::comm::module<Echo, Twin>::module;
    void data(Twin const&) override { ++*heard; }
};
void*
twin(void* m, int* heard)
{
    auto* l  = new Listener(*static_cast<xitren::comm::manager<3>*>(m));
    l->heard = heard;
    return l;
}
void
untwin(void* l)
{
    delete static_cast<Listener*>(l);
}
int
twin_heard(Unit const& other)
{
    int                      heard = 0;
    xitren::comm::manager<3> m;
    Teller                   t(m);
    void*                    l = other.twin(&m, &heard);
    t.send(Twin{5});
    other.untwin(l);
    return heard;
}

// a user of the components that lives from before main to after it
struct Global {
    Unit const*   u;
    std::uint64_t early;
    World*        kept;
    Trace         t;
    explicit Global(Unit& x) : u{&x}
    {
        x.before_main = early = whole_run(x);
        kept                  = make();
        for (unsigned k = 0; k < unit_ops; k++)
            op(kept, k, k * 2654435761u, t, u);
    }
    ~Global()
    {
        for (unsigned k = 0; k < unit_ops; k++)
            op(kept, k, k * 40503u + 5, t, u);
        unmake(kept);
        if (whole_run(*u) != early) {
            std::fprintf(stderr, "Assertion 'components behave after main as before it' failed\n");
            std::fflush(stderr);
            std::abort();
        }
    }
};
// a user that does nothing before main, and outlives whatever the calls made meanwhile leave behind
struct Last {
    Unit const* u;
    explicit Last(Unit& x) : u{&x} { asm volatile("" : : "r"(this) : "memory"); }
    ~Last()
    {
        if (whole_run(*u) != u->before_main) {
            std::fprintf(stderr, "Assertion 'components behave at the end of the program as before main' failed\n");
            std::fflush(stderr);
            std::abort();
        }
    }
};
}    // namespace

Unit UNIT{make, unmake, op, raise, local, 0, sizes, twin, untwin, twin_heard};
static Last   g_last{UNIT};
static Global g_user{UNIT};
