// C34: a call that fails leaves every component working.
//
// Faults are injected inside the library's calls on the calling thread: a copy of an element throws, a memory request fails,
// a thread cannot be started, a receiver or hook throws.  The k-th chance of a kind fails, k drawn at random (or swept by the
// directed part), so a call fails at each of its places in turn.  A model says what may have become of the component; what it
// does afterwards must agree with the model.
#include "vf.hpp"
#include "vthreads.hpp"

#include <dirent.h>
#include <dlfcn.h>
#include <pthread.h>

#include <deque>
#include <functional>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <system_error>
#include <xitren/allocators/static_heap.hpp>
#include <xitren/allocators/static_heap_allocator.hpp>
#include <xitren/cache/lru.hpp>
#include <xitren/comm/mediator.hpp>
#include <xitren/comm/observer.hpp>
#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/comm/pipeline_stage_pool.hpp>
#include <xitren/comm/values/observable.hpp>
#include <xitren/func/argv_parser.hpp>
#include <xitren/func/interval_event.hpp>

namespace cm  = xitren::comm;
namespace val = xitren::comm::values;
namespace fn  = xitren::func;
namespace al  = xitren::allocators;
using vf::Src;
using vf::tr;

struct Nul {
    template <class T>
    Nul const& operator<<(T const&) const { return *this; }
};
struct Log {
    static Nul trace() { return {}; }
    static Nul debug() { return {}; }
    static Nul warning() { return {}; }
    static Nul error() { return {}; }
};

// ---------------------------------------------------------------- faults
enum Kind : unsigned { no_fault = 0, copies = 1, memory = 2, threads = 4 };
static thread_local unsigned t_kinds = 0;
static thread_local int      t_at    = 0;
static thread_local bool     t_hit   = false;

struct Boom {
    int id{0};
};
static bool
fault(unsigned kind)
{
    if ((t_kinds & kind) && t_at > 0 && --t_at == 0) {
        t_kinds = 0;
        t_hit   = true;
        return true;
    }
    return false;
}
struct Armed {
    Armed(unsigned kinds, int at)
    {
        t_hit   = false;
        t_at    = at;
        t_kinds = kinds;
    }
    ~Armed() { t_kinds = 0; }
};

static std::atomic<long> g_blocks{};
#if !defined(VF_VG)
#    define COUNTS_MEMORY 1
// every block carries, right before it, whether it counts (what the harness's runtime requests does not)
static void*
get_mem(std::size_t n, std::size_t a)
{
    if (!vf::t_internal && fault(memory))
        throw std::bad_alloc();
    std::size_t const room = std::max<std::size_t>(a, 16);
    auto* p = static_cast<unsigned char*>(room > 16 ? std::aligned_alloc(room, (n + 2 * room - 1) / room * room) : std::malloc(n + room));
    if (!p)
        throw std::bad_alloc();
    long const counts = vf::t_internal ? 0 : 1;
    std::memcpy(p + room - sizeof counts, &counts, sizeof counts);
    g_blocks.fetch_add(counts, std::memory_order_relaxed);
    return p + room;
}
static void
put_mem(void* v, std::size_t a = 0)
{
    if (!v)
        return;
    auto* p = static_cast<unsigned char*>(v);
    long  counts{};
    std::memcpy(&counts, p - sizeof counts, sizeof counts);
    g_blocks.fetch_sub(counts, std::memory_order_relaxed);
    std::free(p - std::max<std::size_t>(a, 16));
}
void* operator new(std::size_t n) { return get_mem(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return get_mem(n, static_cast<std::size_t>(a)); }
void  operator delete(void* p) noexcept { put_mem(p); }
void  operator delete(void* p, std::size_t) noexcept { put_mem(p); }
void  operator delete(void* p, std::align_val_t a) noexcept { put_mem(p, static_cast<std::size_t>(a)); }
void  operator delete(void* p, std::size_t, std::align_val_t a) noexcept { put_mem(p, static_cast<std::size_t>(a)); }
#endif

using create_fn = int (*)(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*);
extern "C" __attribute__((noinline, used)) int
pthread_create(pthread_t* t, pthread_attr_t const* a, void* (*f)(void*), void* x)
{
    static create_fn const real = reinterpret_cast<create_fn>(::dlsym(RTLD_NEXT, "pthread_create"));
    if (fault(threads))
        return EAGAIN;
    auto const k = t_kinds;    // what the sanitizers request is not the code's
    t_kinds      = 0;
    int const r  = real(t, a, f, x);
    t_kinds      = k;
    return r;
}

static int
thread_count()
{
    auto const k = t_kinds;
    t_kinds      = 0;
    int  n       = 0;
    DIR* d       = ::opendir("/proc/self/task");
    if (!d)
        return 0;
    while (dirent* e = ::readdir(d))
        n += e->d_name[0] != '.';
    ::closedir(d);
    t_kinds = k;
    return n;
}
/// Have all threads but `n` ended (within some seconds)?
static bool
threads_back_to(int n)
{
    for (int i = 0; i < 4000; i++) {
        if (thread_count() <= n)
            return true;
        timespec ts{0, 1000000};
        ::nanosleep(&ts, nullptr);
    }
    return false;
}

// ---------------------------------------------------------------- elements whose copies may throw, whose moves do not
static std::atomic<long> g_live{};
struct Elem {
    std::uint64_t v{}, check{};
    static std::uint64_t
    sum(std::uint64_t x)
    {
        return (x + 0x1234567) * 0xff51afd7ed558ccdull;
    }
    Elem() : check{sum(0)} { g_live.fetch_add(1, std::memory_order_relaxed); }
    explicit Elem(std::uint64_t x) : v{x}, check{sum(x)} { g_live.fetch_add(1, std::memory_order_relaxed); }
    Elem(Elem const& o) : v{o.v}
    {
        if (fault(copies))
            throw Boom{};
        check = o.check;
        g_live.fetch_add(1, std::memory_order_relaxed);
        vt::jitter();
    }
    Elem(Elem&& o) noexcept : v{o.v}, check{o.check}
    {
        o.v = o.check = 0xdead;
        g_live.fetch_add(1, std::memory_order_relaxed);
    }
    Elem&
    operator=(Elem const& o)
    {
        if (fault(copies))
            throw Boom{};
        v     = o.v;
        check = o.check;
        return *this;
    }
    Elem&
    operator=(Elem&& o) noexcept
    {
        if (this != &o) {
            v     = o.v;
            check = o.check;
            o.v = o.check = 0xdead;
        }
        return *this;
    }
    ~Elem()
    {
        check = v = 0xdeadbeef;
        g_live.fetch_sub(1, std::memory_order_relaxed);
    }
    bool whole() const { return check == sum(v); }
    friend bool operator==(Elem const& a, Elem const& b) { return a.v == b.v; }
};
template <>
struct std::hash<Elem> {
    std::size_t operator()(Elem const& e) const { return e.v * 7; }
};

/// Live objects and blocks must be what they were before the component was made.
struct Balance {
    long        live, blocks;
    char const* what;
    explicit Balance(char const* w) : live{g_live.load()}, blocks{g_blocks.load()}, what{w} {}
    void
    check() const
    {
        auto const l = g_live.load();
        auto const b = g_blocks.load();
        VF_EXPECT("C34", l == live, "objects-left", "%s: %ld objects more are alive than before the component was made", what, l - live);
#if defined(COUNTS_MEMORY)
        VF_EXPECT("C34", b == blocks, "memory-left", "%s: %ld blocks of memory more are held than before the component was made", what, b - blocks);
#else
        (void)b;
#endif
    }
};

// ================================================================ the cache
template <std::size_t Cap, bool Ex>
struct CacheCase {
    using item  = std::pair<int, int>;
    using model = std::deque<item>;    // the most recently used first
    using cache = xitren::cache::lru<Elem, Elem, Cap, Ex>;

    static int
    value_of(model const& m, int k)
    {
        for (auto& i : m)
            if (i.first == k)
                return i.second;
        return -1;
    }
    static model
    without(model m, int k)
    {
        for (auto i = m.begin(); i != m.end(); ++i)
            if (i->first == k) {
                m.erase(i);
                break;
            }
        return m;
    }
    static model
    touched(model const& m, int k)
    {
        int const v = value_of(m, k);
        auto      n = without(m, k);
        if (v >= 0)
            n.push_front({k, v});
        return n;
    }
    static model
    with(model const& m, int k, int v)
    {
        auto n = without(m, k);
        if (n.size() >= Cap)
            n.pop_back();
        n.push_front({k, v});
        return n;
    }
    static void
    add(std::vector<model>& s, model m)
    {
        if (std::find(s.begin(), s.end(), m) == s.end())
            s.push_back(std::move(m));
    }

    void
    run(Src& r, int steps, int sweep_at, unsigned sweep_kind)
    {
        Balance bal{"cache"};
        {
            auto               c = std::make_unique<cache>(std::chrono::hours(10000));
            std::vector<model> may{model{}};
            int                serial = 1;
            for (int i = 0; i < steps; i++) {
                int const      k    = static_cast<int>(r.below(Cap * 2 + 1));
                unsigned const kind = sweep_at ? (i == steps - 1 ? sweep_kind : 0u)
                                               : (r.chance(1, 4) ? (r.chance(2, 3) ? copies : memory) : 0u);
                int const      at   = sweep_at ? sweep_at : static_cast<int>(1 + r.below(8));
                if (r.chance(1, 2) || (sweep_at && i == steps - 1)) {
                    int const v  = serial++;
                    bool      ok = true;
                    {
                        Elem  ke{static_cast<std::uint64_t>(k)}, ve{static_cast<std::uint64_t>(v)};
                        Armed a{kind, at};
                        try {
                            c->put(std::move(ke), std::move(ve));
                        } catch (Boom const&) {
                            ok = false;
                        } catch (std::bad_alloc const&) {
                            ok = false;
                        } catch (std::exception const& e) {
                            t_kinds = 0;
                            VF_REQUIRE("C34", false, "cache-put-refused", "put of key %d, after an earlier call failed, threw: %s", k, e.what());
                        }
                    }
                    tr("put(%d,%d)%s%s", k, v, kind ? (kind == copies ? " copy fails" : " memory fails") : "", ok ? "" : " -> failed");
                    VF_REQUIRE("C34", ok || t_hit, "failed-without-fault", "put failed though nothing it uses did");
                    std::vector<model> n;
                    for (auto& m : may) {
                        add(n, with(m, k, v));
                        if (!ok) {
                            add(n, m);
                            add(n, without(m, k));
                            add(n, touched(m, k));
                            if (m.size() >= Cap && value_of(m, k) < 0) {
                                auto e = m;
                                e.pop_back();
                                add(n, e);
                            }
                        }
                    }
                    if (!ok) {
                        vf::count("fault.cache_put_failed");
                        vf::nontrivial();
                    }
                    may.swap(n);
                } else {
                    bool        ok = true, found = false;
                    std::uint64_t got{}, key{};
                    bool        whole = true;
                    {
                        Elem  ke{static_cast<std::uint64_t>(k)};
                        Armed a{kind, at};
                        try {
                            auto g  = c->get(std::move(ke));
                            t_kinds = 0;
                            found   = g.has_value();
                            if (g) {
                                key   = std::get<0>(*g).v;
                                got   = std::get<1>(*g).v;
                                whole = std::get<1>(*g).whole() && std::get<0>(*g).whole();
                            }
                        } catch (Boom const&) {
                            ok = false;
                        } catch (std::bad_alloc const&) {
                            ok = false;
                        } catch (std::exception const& e) {
                            t_kinds = 0;
                            VF_REQUIRE("C34", false, "cache-get-refused", "get of key %d threw: %s", k, e.what());
                        }
                    }
                    tr("get(%d)%s -> %s", k, kind ? " with a fault" : "", !ok ? "failed" : found ? vf::fmt("%llu", static_cast<unsigned long long>(got)).c_str() : "none");
                    VF_REQUIRE("C34", ok || t_hit, "failed-without-fault", "get failed though nothing it uses did");
                    std::vector<model> n;
                    if (!ok) {
                        for (auto& m : may) {
                            add(n, m);
                            add(n, touched(m, k));
                        }
                        vf::count("fault.cache_get_failed");
                        vf::nontrivial();
                    } else {
                        VF_REQUIRE("C34", !found || (whole && key == static_cast<std::uint64_t>(k)), "cache-broken-value", "get(%d) gave a broken entry", k);
                        for (auto& m : may) {
                            int const v = value_of(m, k);
                            if (found ? v == static_cast<int>(got) : v < 0)
                                add(n, touched(m, k));
                        }
                        VF_REQUIRE("C34", !n.empty(), "cache-wrong-after-fault",
                                   "get(%d) gave %s, which no cache that failed as it may would give", k,
                                   found ? vf::fmt("%llu", static_cast<unsigned long long>(got)).c_str() : "nothing");
                        vf::count("fault.cache_gets");
                    }
                    may.swap(n);
                }
                if (may.size() > 400) {    // too many to follow: look at a few keys to narrow them
                    vf::count("fault.cache_narrowed");
                    break;
                }
            }
            // the whole of the cache must still be usable: fill it, find everything
            model fresh;
            for (std::size_t i = 0; i < Cap; i++) {
                auto const k = 1000 + i;
                try {
                    c->put(Elem{k}, Elem{k + 5});
                } catch (std::exception const& e) {
                    VF_REQUIRE("C34", false, "cache-put-refused", "after failed calls a put of a new key threw: %s", e.what());
                }
            }
            for (std::size_t i = 0; i < Cap; i++) {
                auto g = c->get(Elem{1000 + i});
                VF_EXPECT("C34", g.has_value() && std::get<1>(*g).v == 1005 + i, "cache-capacity-lost",
                          "after failed calls, of as many new keys as the capacity (%zu) the one put at place %zu is not found", Cap, i);
            }
            for (std::size_t k = 0; k <= Cap * 2; k++) {
                auto g = c->get(Elem{k});
                VF_EXPECT("C34", !g.has_value(), "cache-over-capacity", "after failed calls, an old key is still found though the cache was filled with others");
            }
        }
        bal.check();
    }
};

// ================================================================ observers
struct Obs : cm::observer<int> {
    int  got{}, off{};
    int  boom{};
    void data(void const*, int const&) override { got++; }
    void
    disconnect(void const*) override
    {
        off++;
        if (boom)
            throw Boom{boom};
    }
};
static void
observers_case(Src& r, int sweep_at)
{
    Balance bal{"observable"};
    {
        constexpr int N = 24;
        Obs           w[N];
        auto          o = std::make_unique<cm::observable_dynamic<int>>();
        std::vector<int> in;
        auto          has = [&](int k) { return std::find(in.begin(), in.end(), k) != in.end(); };
        auto          told = [&](char const* when) {
            for (auto& x : w)
                x.got = 0;
            o->notify_observers(5);
            for (int i = 0; i < N; i++)
                VF_EXPECT("C34", w[i].got == (has(i) ? 1 : 0), "observers-after-fault", "%s: observer %d was called %d times, is registered: %d", when,
                          i, w[i].got, has(i));
        };
        for (int i = 0; i < 40; i++) {
            int const k = static_cast<int>(r.below(N));
            switch (r.below(8)) {
            default: {
                bool const arm = r.chance(1, 2);
                bool       ok  = true, refused = false;
                {
                    Armed a{arm ? memory : no_fault, sweep_at ? sweep_at : 1 + static_cast<int>(r.below(2))};
                    try {
                        o->add_observer(w[k]);
                    } catch (std::bad_alloc const&) {
                        ok = false;
                    } catch (cm::observable_dynamic<int>::exception const&) {
                        refused = true;
                    }
                }
                tr("add %d%s -> %s", k, arm ? " memory fails" : "", !ok ? "failed" : refused ? "refused" : "ok");
                VF_REQUIRE("C34", ok || t_hit, "failed-without-fault", "add failed though its memory request did not");
                VF_EXPECT("C34", refused == (has(k) && ok), "observers-after-fault", "add of observer %d: refused %d, registered %d", k, refused, has(k));
                if (ok && !has(k))
                    in.push_back(k);
                if (!ok) {
                    vf::count("fault.add_failed");
                    vf::nontrivial();
                    told("after a failed add");
                }
                break;
            }
            case 0:
                try {
                    o->remove_observer(w[k]);
                    VF_EXPECT("C34", has(k), "observers-after-fault", "observer %d was removed, but is not registered", k);
                    std::erase(in, k);
                } catch (cm::observable_dynamic<int>::exception const&) {
                    VF_EXPECT("C34", !has(k), "observers-after-fault", "observer %d is registered, but was not removed", k);
                }
                tr("remove %d", k);
                break;
            case 1:
                told("notify");
                break;
            case 2:
                if (r.chance(1, 3) && !in.empty()) {
                    // a hook throws: the exception reaches the caller, nobody is told twice, and the observable goes on working
                    int const b = in[r.below(in.size())];
                    w[b].boom   = b + 1;
                    for (auto& x : w)
                        x.off = 0;
                    int got = 0;
                    try {
                        o->clear_observers();
                    } catch (Boom const& e) {
                        got = e.id;
                    }
                    tr("clear, the hook of %d throws", b);
                    w[b].boom = 0;
                    VF_EXPECT("C34", got == b + 1, "exception-lost", "the exception of a disconnect hook did not reach the caller of clear");
                    for (int j = 0; j < N; j++)
                        VF_EXPECT("C34", w[j].off <= (has(j) ? 1 : 0), "disconnected-wrongly", "a clear that failed told observer %d %d times", j, w[j].off);
                    o->clear_observers();
                    in.clear();
                    told("after a clear that failed and one that did not");
                    vf::count("fault.clear_failed");
                    vf::nontrivial();
                }
                break;
            }
            vf::mix(in.size() * 64 + static_cast<unsigned>(k));
        }
        told("at the end");
    }
    bal.check();
}

struct Fun {    // an update function whose copy may throw
    Elem  e;
    int*  calls;
    void operator()(int) const { calls[0]++; }
};
static void
update_case(Src& r)
{
    Balance bal{"observer of a value"};
    {
        val::observed<int> a;
        auto               v = std::make_unique<val::observable<int, 3>>();
        v->add_observer(a);
        std::vector<std::unique_ptr<int>> calls;
        int                               now = -1;
        for (int i = 0; i < 12; i++) {
            calls.push_back(std::make_unique<int>(0));
            std::function<void(int const)> f;
            bool                           ok = true;
            f = Fun{Elem{1}, calls.back().get()};
            {
                Armed arm{r.chance(1, 2) ? copies : memory, static_cast<int>(1 + r.below(3))};
                try {
                    a.on_update(std::move(f));
                } catch (Boom const&) {
                    ok = false;
                } catch (std::bad_alloc const&) {
                    ok = false;
                }
            }
            VF_REQUIRE("C34", ok || t_hit, "failed-without-fault", "on_update failed though nothing it uses did");
            if (ok)
                now = i;
            else {
                vf::count("fault.on_update_failed");
                vf::nontrivial();
            }
            tr("on_update %d -> %s", i, ok ? "ok" : "failed");
            for (auto& c : calls)
                *c = 0;
            (*v)++;
            for (int j = 0; j <= i; j++)
                VF_EXPECT("C34", *calls[static_cast<std::size_t>(j)] == (j == now ? 1 : 0), "update-function-after-fault",
                          "after an on_update that %s, function %d was called %d times (the one in force is %d)", ok ? "succeeded" : "failed", j,
                          *calls[static_cast<std::size_t>(j)], now);
            VF_EXPECT("C34", a.value() == v->value(), "update-function-after-fault", "the observer does not hold the value");
        }
    }
    bal.check();
}

// ================================================================ the mediator
struct message_of_two_numbers {
    int x, y;
};
struct message_of_a_text_and_a_number {
    char c[24];
    long n;
};
struct another_message_of_two_numbers {
    int x, y;
};
static std::vector<int> g_called;    // members called, in order (-1: the hook)
static int              g_thrower = -2;
static bool             g_bad_bytes;
static int              g_xval;
static void
called(int id)
{
    auto const k = t_kinds;
    t_kinds      = 0;
    g_called.push_back(id);
    t_kinds = k;
    if (id == g_thrower) {
        t_hit = true;
        throw Boom{id};
    }
}
struct Man : cm::manager<5> {
    void data(std::size_t, std::uint8_t*, std::size_t) override { called(-1); }
};
struct Base {
    virtual ~Base() = default;
    int          id{};
    virtual int  sends() const                 = 0;
    virtual bool wants(int kind) const         = 0;
    virtual void do_send(int kind, int x)      = 0;
};
template <class T>
constexpr int kind_of = std::is_same_v<T, message_of_two_numbers> ? 0 : std::is_same_v<T, message_of_a_text_and_a_number> ? 1 : 2;
template <class T>
static T
make(int x)
{
    T t{};
    if constexpr (std::is_same_v<T, message_of_a_text_and_a_number>) {
        t.n = x;
        std::snprintf(t.c, sizeof t.c, "m%d", x);
    } else {
        t.x = x;
        t.y = -x;
    }
    return t;
}
template <class T>
static bool
right(T const& t)
{
    if constexpr (std::is_same_v<T, message_of_a_text_and_a_number>)
        return t.n == g_xval && std::string(t.c) == "m" + std::to_string(g_xval);
    else
        return t.x == g_xval && t.y == -g_xval;
}
template <class S, class... R>
struct Mod;
template <class S, class R1, class R2>
struct Mod<S, R1, R2> : cm::module<S, R1, R2>, Base {
    Mod(cm::base::manager& m, int i) : cm::module<S, R1, R2>(m) { id = i; }
    template <class T>
    void
    on(T const& t)
    {
        auto const k = t_kinds;
        t_kinds      = 0;
        g_bad_bytes |= !right(t);
        t_kinds = k;
        called(id);
    }
    void data(R1 const& t) override { on(t); }
    void data(R2 const& t) override { on(t); }
    int  sends() const override { return kind_of<S>; }
    bool wants(int k) const override { return k != kind_of<S> && (k == kind_of<R1> || k == kind_of<R2>); }
    void
    do_send(int, int x) override
    {
        cm::module<S, R1, R2>::send(make<S>(x));
    }
};

static void
mediator_case(Src& r)
{
    Balance bal{"mediator"};
    {
        std::unique_ptr<Man>               man{new Man};
        std::vector<std::unique_ptr<Base>> in;
        int                                serial = 0;
        g_called.clear();
        g_called.reserve(256);
        in.reserve(16);
        for (int i = 0; i < 40; i++) {
            switch (r.below(6)) {
            case 0:
            case 1: {
                bool const            arm = r.chance(1, 3);
                int const             id  = serial++;
                std::unique_ptr<Base> b;
                bool                  ok = true, full = false;
                auto const            which = r.below(3);
                {
                    Armed a{arm ? memory : no_fault, static_cast<int>(1 + r.below(3))};
                    try {
                        switch (which) {
                        case 0: b = std::make_unique<Mod<message_of_two_numbers, message_of_a_text_and_a_number, another_message_of_two_numbers>>(*man, id); break;
                        case 1: b = std::make_unique<Mod<message_of_a_text_and_a_number, message_of_two_numbers, another_message_of_two_numbers>>(*man, id); break;
                        default: b = std::make_unique<Mod<another_message_of_two_numbers, another_message_of_two_numbers, message_of_two_numbers>>(*man, id); break;
                        }
                    } catch (std::bad_alloc const&) {
                        ok = false;
                    } catch (std::exception const&) {
                        full = true;
                    }
                }
                VF_REQUIRE("C34", ok || t_hit, "failed-without-fault", "attaching failed though no memory request did");
                tr("attach %d (kind %d) -> %s", id, static_cast<int>(which), !ok ? "failed" : full ? "full" : "ok");
                VF_REQUIRE("C34", full == (ok && in.size() >= 5), "members-after-fault", "attaching module %d with %zu attached of 5: %s", id,
                           in.size(), full ? "refused" : "accepted");
                if (b)
                    in.push_back(std::move(b));
                if (!ok) {
                    vf::count("fault.attach_failed");
                    vf::nontrivial();
                }
                break;
            }
            case 2:
                if (!in.empty() && r.chance(1, 2)) {
                    auto const j = r.below(in.size());
                    tr("destroy %d", in[j]->id);
                    in.erase(in.begin() + static_cast<long>(j));
                }
                break;
            default: {
                // a message: sent by a module or the manager, failing somewhere or not
                auto const  how = r.below(4);    // 0 nothing fails, 1 a receiver or the hook throws, 2 memory fails, 3 as 1
                bool const  by_man = in.empty() || r.chance(1, 3);
                auto const  j    = by_man ? 0 : r.below(in.size());
                int const   kind = by_man ? static_cast<int>(r.below(3)) : in[j]->sends();
                std::vector<int> expect;    // in the order of attachment
                if (!by_man)
                    expect.push_back(-1);
                for (auto& m : in)
                    if (m->wants(kind))
                        expect.push_back(m->id);
                g_thrower = -2;
                if ((how & 1) && !expect.empty())
                    g_thrower = expect[r.below(expect.size())];
                g_called.clear();
                g_bad_bytes = false;
                g_xval      = static_cast<int>(r.below(100000));
                int boom = -3;
                bool oom = false;
                {
                    Armed a{how == 2 ? memory : no_fault, static_cast<int>(1 + r.below(10))};
                    try {
                        if (by_man) {
                            switch (kind) {
                            case 0: man->send(make<message_of_two_numbers>(g_xval)); break;
                            case 1: man->send(make<message_of_a_text_and_a_number>(g_xval)); break;
                            default: man->send(make<another_message_of_two_numbers>(g_xval)); break;
                            }
                        } else
                            in[j]->do_send(kind, g_xval);
                    } catch (Boom const& e) {
                        boom = e.id;
                    } catch (std::bad_alloc const&) {
                        oom = true;
                    }
                }
                auto const thrower = g_thrower;
                g_thrower          = -2;
                tr("%s sends kind %d, %s %d: %zu of %zu called%s", by_man ? "the manager" : vf::fmt("module %d", in[j]->id).c_str(), kind,
                   how == 2 ? "memory fails" : thrower > -2 ? "a receiver throws" : "nothing fails", thrower, g_called.size(), expect.size(),
                   boom > -3 || oom ? ", failed" : "");
                VF_EXPECT("C34", !g_bad_bytes, "message-after-fault", "a message was not received as it was sent");
                auto sorted = g_called;
                std::sort(sorted.begin(), sorted.end());
                VF_EXPECT("C34", std::adjacent_find(sorted.begin(), sorted.end()) == sorted.end(), "delivered-twice", "a message was delivered twice");
                for (int c : g_called)
                    VF_EXPECT("C34", std::find(expect.begin(), expect.end(), c) != expect.end(), "delivered-wrongly",
                              "module %d received a message that is not for it", c);
                if (thrower > -2) {
                    VF_EXPECT("C34", boom == thrower, "exception-lost", "what receiver %d threw did not reach the sender", thrower);
                    vf::count("fault.receiver_threw");
                    vf::nontrivial();
                } else if (oom) {
                    VF_EXPECT("C34", t_hit, "failed-without-fault", "sending failed though no memory request did");
                    vf::count("fault.send_failed");
                    vf::nontrivial();
                } else {
                    VF_EXPECT("C34", g_called == expect, "members-after-fault", "a message reached %zu of the %zu it is for (in order)", g_called.size(),
                              expect.size());
                    vf::count("fault.messages_after");
                }
                vf::mix(static_cast<unsigned>(kind) * 100 + g_called.size() * 10 + how);
            }
            }
        }
        in.clear();
        in.shrink_to_fit();
        man.reset();
        std::vector<int>{}.swap(g_called);
    }
    bal.check();
}

// ================================================================ pipelines
struct Handled {
    std::mutex                              m;
    std::vector<std::pair<int, std::uint64_t>> got;
    std::atomic<int>                        bad{};
    void
    on(int worker, Elem const& e)
    {
        if (!e.whole())
            bad++;
        std::lock_guard l(m);
        got.push_back({worker, e.v});
    }
};

/// Pushes numbered items from several threads, some pushes failing; every push that returned is handled once, no other is.
template <class P>
static void
push_case(Src& r, P& p, Handled& h, std::function<void()> destroy, char const* what, std::vector<std::vector<std::uint64_t>>& sent)
{
    int const  n     = static_cast<int>(1 + r.below(3));
    int const  items = static_cast<int>(3 + r.below(40));
    auto const seed  = r.u64();
    sent.assign(static_cast<std::size_t>(n), {});
    std::atomic<int> failed{};
    std::atomic<int> odd{};
    vt::run(n, seed, static_cast<unsigned>(r.below(4)), [&](int t) {
        Src q{seed + static_cast<std::uint64_t>(t) * 977};
        for (int i = 0; i < items; i++) {
            std::uint64_t const id = static_cast<std::uint64_t>(t) * 100000 + static_cast<std::uint64_t>(i);
            Elem                e{id};
            bool                ok = true;
            {
                Armed a{q.chance(1, 3) ? (q.chance(3, 4) ? copies : memory) : no_fault, static_cast<int>(1 + q.below(2))};
                try {
                    if (q.chance(1, 2))
                        p.push(e);
                    else
                        p.push(std::move(e));
                } catch (Boom const&) {
                    ok = false;
                } catch (std::bad_alloc const&) {
                    ok = false;
                }
            }
            if (ok)
                sent[static_cast<std::size_t>(t)].push_back(id);
            else {
                failed++;
                if (!t_hit)
                    odd++;
            }
        }
    });
    VF_EXPECT("C34", !odd.load(), "failed-without-fault", "%s: a push failed though no copy did", what);
    if (r.chance(1, 2)) {    // everything that was pushed comes through without any further push
        std::size_t all{};
        for (auto& s : sent)
            all += s.size();
        for (int w = 0; w < 20000; w++) {
            {
                std::lock_guard l(h.m);
                if (h.got.size() >= all)
                    break;
            }
            timespec ts{0, 500000};
            ::nanosleep(&ts, nullptr);
        }
        std::lock_guard l(h.m);
        VF_EXPECT("C34", h.got.size() >= all, "items-stuck", "%s: after a push failed only %zu of %zu items pushed were handled within ten seconds", what,
                  h.got.size(), all);
    }
    destroy();
    std::vector<std::uint64_t> want, got;
    for (auto& s : sent)
        want.insert(want.end(), s.begin(), s.end());
    for (auto& g : h.got)
        got.push_back(g.second);
    auto const order = got;
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    VF_EXPECT("C34", want == got, "items-after-fault", "%s: %zu pushes succeeded, %d failed, %zu items were handled%s", what, want.size(), failed.load(),
              got.size(), want.size() == got.size() ? " (others than those)" : "");
    VF_EXPECT("C34", !h.bad.load(), "item-broken", "%s: an item was not handled with the content it was pushed with", what);
    // one producer's items keep their order (per worker)
    for (std::size_t w = 0; w < 16; w++)
        for (int t = 0; t < n; t++) {
            std::uint64_t last = 0;
            bool          any  = false;
            for (auto& g : h.got)
                if (g.first == static_cast<int>(w) && g.second / 100000 == static_cast<std::uint64_t>(t)) {
                    VF_EXPECT("C34", !any || g.second > last, "order-after-fault", "%s: items of one producer were handled out of order", what);
                    any  = true;
                    last = g.second;
                }
        }
    vf::count("fault.items", got.size());
    vf::count("fault.push_failed", static_cast<std::uint64_t>(failed.load()));
    if (failed.load())
        vf::nontrivial();
    for (auto x : order)
        vf::mix(x);
    tr("%s: %d threads, %zu items handled, %d pushes failed", what, n, got.size(), failed.load());
}

template <std::size_t Buf>
static void
stage_case(Src& r)
{
    Balance bal{"stage"};
    {
        Handled                                 h;
        std::vector<std::vector<std::uint64_t>> sent;
        using stage = cm::pipeline_stage<Elem, int, Buf, Log>;
        auto s      = std::make_unique<stage>([&h](auto, Elem const e, std::pair<int, int> const) {
            h.on(0, e);
            return 0;
        });
        push_case(r, *s, h, [&] { s.reset(); }, "stage", sent);
    }
    bal.check();
}
template <std::size_t Buf, std::size_t Workers>
static void
pool_case(Src& r)
{
    Balance bal{"pool"};
    {
        Handled                                 h;
        std::vector<std::vector<std::uint64_t>> sent;
        using pool = cm::pipeline_stage_pool<Elem, int, Buf, Workers, Log>;
        auto p     = std::make_unique<pool>([&h](auto, Elem const e, cm::measure_data const d) {
            h.on(d.id, e);
            return 0;
        });
        push_case(r, *p, h, [&] { p.reset(); }, "pool", sent);
    }
    bal.check();
}

// ================================================================ constructors that cannot start their thread, get memory or copy
struct Handler {    // a copyable function object whose copies may throw
    Elem              e{7};
    std::atomic<int>* calls{};
    template <class... A>
    int
    operator()(A const&...) const
    {
        calls->fetch_add(1);
        return 0;
    }
};
template <class Make>
static void
ctor_case(char const* what, unsigned kinds, int at, Make make_it)
{
    Balance          bal{what};
    std::atomic<int> calls{};
    {
        int const  before = thread_count();
        int        failed = 0;
        {
            Handler h;
            h.calls = &calls;
            failed  = make_it(h, kinds, at);
        }
        if (failed) {
            VF_EXPECT("C34", t_hit, "failed-without-fault", "%s: the constructor failed though nothing it uses did", what);
            VF_EXPECT("C34", threads_back_to(before), "thread-left", "%s: a thread is left of a component whose constructor failed", what);
            VF_EXPECT("C34", !calls.load(), "called-without-component", "%s: the function was called, though the component was never there", what);
            vf::count(failed == 2 ? "fault.thread_not_started" : "fault.constructor_failed");
            vf::nontrivial();
            vf::mix(static_cast<unsigned>(at) * 16 + kinds);
        }
        threads_back_to(before);    // an ending thread may still give back what it held
        tr("%s: %s fails at %d -> %s", what, kinds == threads ? "thread" : kinds == memory ? "memory" : "copy", at, failed ? "failed" : "made");
    }
    bal.check();
}
template <class T>
static int
construct(Handler& h, unsigned kinds, int at)
{
    std::unique_ptr<std::byte[]> room{new std::byte[sizeof(T) + alignof(T)]};
    void*                        p  = room.get();
    std::size_t                  sz = sizeof(T) + alignof(T);
    std::align(alignof(T), sizeof(T), p, sz);
    T* obj{};
    try {
        Armed a{kinds, at};
        obj = new (p) T(h);
    } catch (Boom const&) {
        return 1;
    } catch (std::bad_alloc const&) {
        return 1;
    } catch (std::system_error const&) {
        return 2;
    }
    obj->~T();
    return 0;
}

struct Opts {
    std::string name{"the default name, a long one"};
    std::string text{};
    int         number{};
    bool        flag{};
};
static void
argv_case(Src& r)
{
    Balance bal{"argument parser"};
    {
        static char const* const words[] = {"--name", "--number", "--text", "--flag", "a value too long to be kept inside", "12", "-7", "x"};
        for (int round = 0; round < 4; round++) {
            std::unique_ptr<fn::argv_parser<Opts>> p;
            {
                Armed a{r.chance(1, 2) ? memory : no_fault, static_cast<int>(1 + r.below(20))};
                try {
                    p = fn::argv_parser<Opts>::instance({{"--name", &Opts::name}, {"--number", &Opts::number}, {"--text", &Opts::text}, {"--flag", &Opts::flag}});
                } catch (std::bad_alloc const&) {
                    vf::count("fault.parser_not_made");
                    vf::nontrivial();
                }
            }
            if (!p)
                continue;
            // a parse that may fail, then others on the same parser: what they name is theirs, the rest is left as it was, by
            // any part of the parses before, or back at its default
            std::vector<std::string> names{Opts{}.name}, texts{Opts{}.text};
            std::vector<int>         numbers{Opts{}.number};
            bool                     flag_before = false;
            for (int t = 0; t < 3; t++) {
                std::vector<char const*> v;
                for (auto k = 1 + r.below(9); k; k--) {
                    auto const w = r.below(std::size(words));
                    v.push_back(words[w]);
                    if (w < 3) {
                        v.push_back(w == 1 ? words[5 + r.below(2)] : words[4 + r.below(4)]);
                        vf::mix(w);
                    }
                }
                if (r.chance(1, 4))
                    v.push_back(words[r.below(3)]);
                Opts o;
                bool ok = false;
                {
                    Armed a{t == 2 || r.chance(1, 4) ? no_fault : memory, static_cast<int>(1 + r.below(12))};
                    try {
                        o  = p->parse(static_cast<int>(v.size()), v.data());
                        ok = true;
                    } catch (std::bad_alloc const&) {
                        vf::count("fault.parse_failed");
                        vf::nontrivial();
                    }
                }
                tr("parse of %zu -> %s", v.size(), ok ? "done" : "failed");
                char const *name{}, *text{}, *number{};
                bool        flag{};
                for (std::size_t i = 0; i < v.size(); i++) {
                    std::string const w = v[i];
                    if (w == "--flag")
                        flag = true;
                    if (i + 1 == v.size())
                        continue;
                    if (w == "--name")
                        names.push_back(name = v[i + 1]);
                    else if (w == "--text")
                        texts.push_back(text = v[i + 1]);
                    else if (w == "--number" && (v[i + 1][0] == '1' || v[i + 1][1] == '7'))
                        numbers.push_back(std::atoi(number = v[i + 1]));
                }
                if (ok) {
                    if (t)
                        vf::count("fault.parsed_again");
                    auto among = [](auto const& l, auto const& x) { return std::find(l.begin(), l.end(), x) != l.end(); };
                    VF_EXPECT("C34",
                              (name ? o.name == name : among(names, o.name)) && (text ? o.text == text : among(texts, o.text))
                                  && (number ? o.number == std::atoi(number) : among(numbers, o.number))
                                  && (flag ? o.flag : !o.flag || flag_before),
                              "options-after-fault", "parse %d gave name '%s' text '%s' number %d flag %d", t, o.name.c_str(),
                              o.text.c_str(), o.number, o.flag);
                }
                flag_before = flag_before || flag;
            }
        }
    }
    bal.check();
}

static void
heap_case(Src& r)
{
    auto  hp = std::make_unique<al::static_heap<2048>>();
    auto& h  = *hp;
    std::vector<std::pair<unsigned char*, std::size_t>> live;
    static int                                          calls;
    bool const                                          throws = r.chance(3, 4);
    calls                                                      = 0;
    int asked                                                  = 0;
    h.on_fail([throws] {
        calls++;
        if (throws)
            throw Boom{9};
    });
    al::static_heap_allocator<std::uint64_t, 2048> a{h};
    for (int i = 0; i < 40; i++) {
        auto const n = 1 + r.below(r.chance(1, 3) ? 3000 : 400);
        if (r.chance(1, 3) && !live.empty()) {
            auto const j = r.below(live.size());
            h.deallocate(live[j].first);
            live.erase(live.begin() + static_cast<long>(j));
            continue;
        }
        auto const free_before = h.free_heap_size();
        auto const min_before  = h.minimum_ever_free_heap_size();
        void*      p{};
        bool       boom = false, bad = false;
        bool const std_alloc = r.chance(1, 3);
        try {
            p = std_alloc ? static_cast<void*>(a.allocate((n + 7) / 8)) : h.allocate(n);
        } catch (Boom const&) {
            boom = true;
        } catch (std::bad_alloc const&) {
            bad = true;
        }
        if (!p) {
            asked++;
            VF_EXPECT("C34", calls == asked, "callback-count", "the failure callback was called %d times for %d refused requests", calls, asked);
            VF_EXPECT("C34", boom == throws && bad == (std_alloc && !throws), "exception-lost", "what the failure callback threw did not reach the caller");
            VF_EXPECT("C34", h.free_heap_size() == free_before && h.minimum_ever_free_heap_size() == min_before, "heap-after-fault",
                      "a refused request whose callback threw changed the reported sizes");
            vf::count("fault.heap_refused");
            vf::nontrivial();
        } else {
            std::memset(p, static_cast<int>(i + 1), n);
            live.push_back({static_cast<unsigned char*>(p), n});
        }
        vf::mix(n * 2 + (p != nullptr));
        tr("allocate %d -> %s", static_cast<int>(n), p ? "ok" : boom ? "callback threw" : "refused");
    }
    for (auto& b : live)
        h.deallocate(b.first);
    auto const all = h.free_heap_size();
    h.on_fail([] {});
    void* p = h.allocate(all - 64);
    VF_EXPECT("C34", p != nullptr, "heap-after-fault", "after everything was released one request cannot take the heap (%zu bytes free)", all);
}

template <class T>
static void
ctor_all(char const* what, int most)
{
    for (unsigned k : {1u, 2u, 4u}) {
#if !defined(COUNTS_MEMORY)
        if (k == memory)
            continue;
#endif
        for (int at = 1; at <= most; at++)
            ctor_case(what, k, at, construct<T>);
    }
}

template <std::size_t Workers>
using pool_of = cm::pipeline_stage_pool<int, int, 4, Workers, Log>;
using stage_of = cm::pipeline_stage<int, int, 4, Log>;
struct interval_of : fn::interval_event {
    explicit interval_of(Handler& h) : fn::interval_event([h] { h(); }, 1h, 1ms) {}
};

#ifdef FAULTS_THREADS
void
vf_case(vf::Src& r)
{
    switch (r.below(8)) {
    case 0: stage_case<1>(r); break;
    case 1: stage_case<3>(r); break;
    case 2: stage_case<8>(r); break;
    case 3: pool_case<1, 1>(r); break;
    case 4: pool_case<2, 3>(r); break;
    case 5: pool_case<5, 2>(r); break;
    case 6: {
        unsigned const k  = 1u << r.below(3);
        int const      at = static_cast<int>(1 + r.below(14));
        switch (r.below(4)) {
        case 0: ctor_case("stage", k, at, construct<stage_of>); break;
        case 1: ctor_case("pool of 1", k, at, construct<pool_of<1>>); break;
        case 2: ctor_case("pool of 4", k, at, construct<pool_of<4>>); break;
        default: ctor_case("pool of 9", k, at, construct<pool_of<9>>); break;
        }
        break;
    }
    default:
        ctor_case("interval event", 1u << r.below(3), static_cast<int>(1 + r.below(4)), construct<interval_of>);
    }
}
void
vf_directed()
{
    ctor_all<stage_of>("stage", 8);
    ctor_all<pool_of<1>>("pool of 1", 8);
    ctor_all<pool_of<4>>("pool of 4", 20);
    ctor_all<pool_of<9>>("pool of 9", 32);
    ctor_all<interval_of>("interval event", 5);
}
#else
void
vf_case(vf::Src& r)
{
    int const steps = static_cast<int>(10 + r.below(50));
    switch (r.below(10)) {
    case 0: CacheCase<1, true>{}.run(r, steps, 0, 0); break;
    case 1: CacheCase<2, false>{}.run(r, steps, 0, 0); break;
    case 2: CacheCase<3, true>{}.run(r, steps, 0, 0); break;
    case 3: CacheCase<6, true>{}.run(r, steps, 0, 0); break;
    case 4: observers_case(r, 0); break;
    case 5: update_case(r); break;
    case 6:
    case 7: mediator_case(r); break;
    case 8: argv_case(r); break;
    default: heap_case(r);
    }
}
void
vf_directed()
{
    for (unsigned k : {1u, 2u})
        for (int at = 1; at <= 16; at++)
            for (int s = 0; s < 12; s++) {
                Src r{static_cast<std::uint64_t>(s * 100 + at)};
                CacheCase<2, true>{}.run(r, 3 + s, at, k);
            }
    for (int s = 0; s < 20; s++) {
        Src r{static_cast<std::uint64_t>(s)};
        observers_case(r, 1);
    }
}
#endif
