// C37: the components of fixed storage request no dynamic memory in any call.
// The global operator new and (without sanitizers) malloc and its kin are replaced, or (with AddressSanitizer) every
// allocation of the process is observed: none may happen on this thread within a call of such a component.
#include "vf.hpp"

#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <vector>
#include <xitren/allocators/static_heap.hpp>
#include <xitren/allocators/static_heap_allocator.hpp>
#include <xitren/comm/observer.hpp>
#include <xitren/comm/values/observable.hpp>
#include <xitren/func/data.hpp>
#include <xitren/func/fast_pimpl.hpp>
#include <xitren/func/packet.hpp>
// the compile-time observers use the names of the run-time ones: give them a namespace of their own
#define comm comm_static
#include <xitren/comm/observer_static.hpp>
#undef comm

namespace cm  = xitren::comm;
namespace cst = xitren::comm_static;
namespace val = xitren::comm::values;
namespace fn  = xitren::func;
namespace al  = xitren::allocators;
using vf::Src;
using vf::tr;

static thread_local int           t_in{};       // within a call that must not request memory
static thread_local std::uint64_t t_requests{};
static thread_local std::size_t   t_bytes{};
static inline void
requested(std::size_t n)
{
    if (t_in && !vf::t_internal) {
        t_requests++;
        t_bytes = n;
    }
}
#if defined(VF_ASAN)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(void const volatile*, std::size_t), void (*)(void const volatile*));
static void
on_malloc(void const volatile*, std::size_t n)
{
    requested(n);
}
static void
on_free(void const volatile*)
{}
static int const g_hooks = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#else
extern "C" {
void* __libc_malloc(std::size_t);
void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t);
void* __libc_memalign(std::size_t, std::size_t);
void*
malloc(std::size_t n)
{
    requested(n);
    return __libc_malloc(n);
}
void*
calloc(std::size_t k, std::size_t n)
{
    requested(k * n);
    return __libc_calloc(k, n);
}
void*
realloc(void* p, std::size_t n)
{
    requested(n);
    return __libc_realloc(p, n);
}
void*
aligned_alloc(std::size_t a, std::size_t n)
{
    requested(n);
    return __libc_memalign(a, n);
}
int
posix_memalign(void** p, std::size_t a, std::size_t n)
{
    requested(n);
    *p = __libc_memalign(a, n);
    return *p ? 0 : 12;
}
}
#endif

// Runs f as a call of the component `what`.
template <class F>
static decltype(auto)
within(char const* what, F f)
{
    struct In {
        char const*   what;
        std::uint64_t before = t_requests;
        int           thrown = std::uncaught_exceptions();
        explicit In(char const* w) : what{w} { t_in++; }
        ~In()
        {
            t_in--;
            vf::count("nodyn.calls");
            bool const failed = std::uncaught_exceptions() > thrown;    // an exception object is not the component's storage
            VF_EXPECT("C37", failed || t_requests == before, (std::string("dynamic-memory ") + what).c_str(), "%s: %lu requests for dynamic memory, the last of %zu bytes",
                      what, static_cast<unsigned long>(t_requests - before), t_bytes);
            t_requests = before;
        }
    };
    tr("%s", what);
    In in{what};
    return f();
}
// what a user's callback does is not the component's
struct Outside {
    int saved = t_in;
    Outside() { t_in = 0; }
    ~Outside() { t_in = saved; }
};

// ================================================================ static heaps
template <std::size_t N>
static void
heap(Src& s)
{
    using H = al::static_heap<N>;
    alignas(64) static unsigned char room[sizeof(H)];
    H*                               h = within("heap construction", [&] { return new (room) H; });
    if (s.chance(1, 2))
        h->on_fail([] {
            Outside o;
            vf::count("nodyn.heap_refused");
        });
    std::vector<void*> live;
    bool const small = N > 10000 && s.chance(1, 2);    // many blocks
    for (auto k = 10 + s.below(small ? 900 : 40); k; k--) {
        std::size_t const n = s.chance(1, 10) && !small ? static_cast<std::size_t>(s.u64()) : s.below(small ? 60 : N / 3);
        switch (s.below(6)) {
        case 0:
        case 1:
            if (void* p = within("allocate", [&] { return h->allocate(n); }))
                live.push_back(p);
            break;
        case 2:
            if (void* p = within("callocate", [&] { return h->callocate(1 + n % 7, n); }))
                live.push_back(p);
            break;
        case 3: {
            typename H::heap_stats_t st{};
            within("statistics", [&] { h->v_port_get_heap_stats(&st); });
            vf::mix(st.x_number_of_free_blocks);
            vf::mix(within("free size", [&] { return h->free_heap_size() + h->minimum_ever_free_heap_size(); }));
            break;
        }
        default:
            if (!live.empty()) {
                auto const i = s.below(live.size());
                within("deallocate", [&] { h->deallocate(live[i]); });
                live.erase(live.begin() + static_cast<long>(i));
            }
        }
    }
    for (void* p : live)
        within("deallocate", [&] { h->deallocate(p); });
    within("heap destruction", [&] { h->~H(); });
    vf::count("nodyn.heap");
}
static void
containers(Src& s)
{
    using H = al::static_heap<4096>;
    alignas(64) static unsigned char room[sizeof(H)];
    H*                               h = new (room) H;
    {
        al::static_heap_allocator<int, 4096>                      ai{*h};
        al::static_heap_allocator<std::pair<int const, long>, 4096> ap{*h};
        auto grow = [&](auto&& c, char const* what, auto put, auto drop) {
            for (auto k = s.below(60); k; k--) {
                int const v = static_cast<int>(s.below(1000));
                try {
                    if (s.chance(2, 3))
                        within(what, [&] { put(c, v); });
                    else if (!c.empty())
                        within(what, [&] { drop(c); });
                } catch (std::bad_alloc const&) {
                    vf::count("nodyn.heap_refused");
                }
                vf::count("nodyn.container_calls");
            }
            vf::mix(c.size());
        };
        auto vec = within("vector", [&] { return std::vector<int, al::static_heap_allocator<int, 4096>>(ai); });
        grow(vec, "vector", [](auto& c, int v) { c.push_back(v); }, [](auto& c) { c.pop_back(); });
        auto lst = within("list", [&] { return std::list<int, al::static_heap_allocator<int, 4096>>(ai); });
        grow(lst, "list", [](auto& c, int v) { c.push_front(v); }, [](auto& c) { c.pop_back(); });
        std::map<int, long, std::less<int>, al::static_heap_allocator<std::pair<int const, long>, 4096>> mp(std::less<int>{}, ap);
        grow(mp, "map", [](auto& c, int v) { c[v] = v; }, [](auto& c) { c.erase(c.begin()); });
        within("containers' destruction", [&] {
            vec.clear();
            lst.clear();
            mp.clear();
            vec.shrink_to_fit();
        });
    }
    h->~H();
}

// ================================================================ observers
struct O : cm::observer<int> {
    std::function<void()>* nest{};
    void
    data(void const*, int const& v) override
    {
        vf::mix(static_cast<std::uint64_t>(v));
        if (nest && *nest)
            (*nest)();
    }
};
template <std::size_t Max>
static void
observers(Src& s)
{
    using S = cm::observable_static<int, Max>;
    alignas(S) static unsigned char room[sizeof(S)];
    static std::size_t constexpr many = Max + 5;
    O                               o[many];
    std::function<void()>           nest;
    S*                              x = within("observable's construction", [&] { return new (room) S; });
    if (s.chance(1, 2)) {
        nest = [&] { vf::mix(static_cast<std::uint64_t>(x->notify_observers(3))); };
        for (auto& y : o)
            y.nest = &nest;
    }
    for (auto k = 8 + s.below(Max > 30 ? 200 : 50); k; k--) {
        auto&     y = o[s.below(many)];
        int const v = static_cast<int>(s.below(1000));
        switch (s.below(7)) {
        case 0:
        case 1:
        case 2:
            vf::mix(static_cast<std::uint64_t>(within("add_observer", [&] { return x->add_observer(y); })));
            break;
        case 3:
            vf::mix(static_cast<std::uint64_t>(within("remove_observer", [&] { return x->remove_observer(y); })));
            break;
        case 4:
            if (s.chance(1, 3))
                within("clear_observers", [&] { x->clear_observers(); });
            break;
        default:
            vf::mix(static_cast<std::uint64_t>(within("notify_observers", [&] { return x->notify_observers(v); })));
        }
    }
    within("observable's destruction", [&] { x->~S(); });
    vf::count("nodyn.observers");
}
template <class T, std::size_t Max>
static void
values(Src& s)
{
    using S = val::observable<T, Max>;
    alignas(S) static unsigned char room[sizeof(S)];
    static std::size_t constexpr many = Max + 3;
    val::observed<T>                o[many];
    for (auto& y : o)
        if (s.chance(1, 2))
            y.on_update([](T const) {});
    S* x = within("value's construction", [&] { return new (room) S; });
    for (auto k = 8 + s.below(Max > 30 ? 200 : 50); k; k--) {
        auto&   y = o[s.below(many)];
        T const v = static_cast<T>(s.below(100));
        switch (s.below(12)) {
        case 0:
        case 1:
        case 2:
            vf::mix(static_cast<std::uint64_t>(within("value's add_observer", [&] { return x->add_observer(y); })));
            break;
        case 3:
            vf::mix(static_cast<std::uint64_t>(within("value's remove_observer", [&] { return x->remove_observer(y); })));
            break;
        case 4:
            if (s.chance(1, 3))
                within("value's clear_observers", [&] { x->clear_observers(); });
            break;
        case 5:
            within("value++", [&] { return (*x)++; });
            break;
        case 6:
            within("++value", [&] { return ++(*x); });
            break;
        case 7:
            within("value--", [&] { return (*x)--; });
            break;
        case 8:
            within("--value", [&] { return --(*x); });
            break;
        case 9:
            within("value +=", [&] { return *x += v; });
            break;
        case 10:
            within("value -=", [&] { return *x -= v; });
            break;
        default:
            within("value =", [&] { *x = v; });
        }
        vf::mix(static_cast<std::uint64_t>(within("value()", [&] { return x->value(); })));
        vf::mix(static_cast<std::uint64_t>(within("observed value()", [&] { return y.value(); })));
    }
    within("value's destruction", [&] { x->~S(); });
    vf::count("nodyn.values");
}
struct L : cst::observer<int, L> {
    void notification_impl(cst::observable_impl<int> const&, int const& v) noexcept { vf::mix(static_cast<std::uint64_t>(v)); }
};
static void
chain(Src& s)
{
    L a, b, c;
    using S = cst::observable<int, L, L, L>;
    alignas(S) static unsigned char room[sizeof(S)];
    S*                              x = within("chain's construction", [&] { return new (room) S(a, b, c); });
    for (auto k = s.below(8); k; k--) {
        int const v = static_cast<int>(s.below(1000));
        within("chain's notify", [&] { x->notify(v); });
    }
    within("chain's destruction", [&] { x->~S(); });
    vf::count("nodyn.chains");
}

// ================================================================ bytes
struct Crc16 {
    using value_type = fn::msb_t<std::uint16_t>;
    template <class It>
    static constexpr value_type
    calculate(It b, It e)
    {
        std::uint16_t c = 0x1d0f;
        for (; b != e; ++b)
            c = static_cast<std::uint16_t>((c << 1) ^ (c >> 11) ^ *b);
        return value_type(c);
    }
};
struct __attribute__((packed)) Hd {
    fn::lsb_t<std::uint16_t> kind;
    std::uint8_t             pad[3];
};
template <std::size_t N>
struct __attribute__((packed)) Fl {
    fn::msb_t<std::uint32_t> a;
    std::uint8_t             room[N];
};
template <std::size_t N>
static void
packets(Src& s)
{
    using P = fn::packet<Hd, Fl<N>, Crc16>;
    using A = fn::packet_accessor<N + 400>;
    static A acc;
    Hd       h{fn::lsb_t<std::uint16_t>(static_cast<std::uint16_t>(s.u64())), {1, 2, 3}};
    Fl<N>    f{fn::msb_t<std::uint32_t>(static_cast<std::uint32_t>(s.u64())), {9}};
    within("packet's construction", [&] {
        P    p(h, f);
        auto arr = p.to_array();
        P    q(arr.begin());
        vf::mix(q.valid());
        auto ser           = P::serialize(h, f);
        auto [ok, h2, f2]  = P::deserialize(ser);
        vf::mix(ok + h2.kind.get() + f2.a.get());
        P r = P::deserialize(ser.begin());
        P::serialize(r, ser.begin());
        vf::mix(r.fields().a.get() + r.crc().get());
    });
    within("serialisation", [&] {
        auto b = fn::data<Fl<N>>::serialize(f);
        fn::data<Fl<N>>::serialize(f, b.begin());
        vf::mix(fn::data<Fl<N>>::deserialize(b.begin()).a.get());
    });
    std::uint16_t el[300];
    for (auto& e : el)
        e = static_cast<std::uint16_t>(s.u64());
    typename A::template fields_in<Hd, Fl<N>, std::uint16_t> in{h, f, s.below(300), el};
    within("accessor's serialise", [&] { vf::mix(acc.template serialize<Hd, Fl<N>, std::uint16_t, Crc16>(in)); });
    if (s.chance(1, 3))
        acc.size(s.below(700));
    within("accessor's deserialise", [&] {
        auto out = acc.template deserialize<Hd, Fl<N>, std::uint16_t, Crc16>();
        vf::mix(out.valid);
        vf::mix(out.size);
    });
    vf::count("nodyn.packets");
}
struct Impl {
    std::uint64_t v[8];
    explicit Impl(std::uint64_t x) : v{x, x + 1} {}
    std::uint64_t sum() const { return v[0] + v[1]; }
};
static void
pimpls(Src& s)
{
    using P = fn::fast_pimpl<Impl, sizeof(Impl), alignof(Impl)>;
    auto x  = s.u64();
    within("pimpl", [&] {
        P a(x), b(a);
        P c(std::move(a));
        b = c;
        c = std::move(b);
        vf::mix(c->sum() + (*b).sum());
    });
    vf::count("nodyn.pimpls");
}

void
vf_case(Src& s)
{
    switch (s.below(9)) {
    case 0:
        s.chance(1, 3) ? heap<512>(s) : s.chance(1, 2) ? heap<4096>(s) : heap<70000>(s);
        break;
    case 1:
        containers(s);
        break;
    case 2:
    case 3:
        s.chance(1, 3) ? observers<1>(s) : s.chance(1, 2) ? observers<3>(s) : s.chance(2, 3) ? observers<10>(s) : observers<70>(s);
        break;
    case 4:
    case 5:
        s.chance(1, 3) ? values<int, 1>(s) : s.chance(1, 2) ? values<unsigned char, 3>(s) : s.chance(2, 3) ? values<double, 6>(s) : values<long, 40>(s);
        break;
    case 6:
        chain(s);
        break;
    case 7:
        s.chance(1, 2) ? packets<4>(s) : s.chance(1, 2) ? packets<1500>(s) : packets<30000>(s);
        break;
    default:
        pimpls(s);
    }
    vf::nontrivial();
}
void
vf_directed()
{
    // the counting itself
    t_in++;
    auto const before = t_requests;
    auto*      p      = new std::vector<int>(100);
    asm volatile("" : : "r"(p) : "memory");
    delete p;
    VF_REQUIRE("C37", t_requests > before, "harness", "the harness does not see requests for memory");
    t_in--;
    vf::count("nodyn.counting");
}
