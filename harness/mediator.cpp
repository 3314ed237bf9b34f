// C18, C19: managers and modules of many message types, nested sends, filling, overflow, removal.
#include "vf.hpp"

#include <xitren/comm/mediator.hpp>

#include <functional>
#include <memory>
#include <optional>
#include <typeinfo>

namespace comm = xitren::comm;
using vf::Src;
using vf::tr;

// ---- message types; several share a size
struct A4 {
    std::uint32_t x;
};
struct B4 {
    std::uint32_t x;
};
struct A8 {
    std::uint64_t x;
};
struct B8 {
    std::uint16_t a, b;
    std::uint32_t c;
};
struct P16 {    // padded
    std::uint8_t  a;
    std::uint64_t x;
};
struct Q16 {
    std::uint64_t x;
    std::uint8_t  a;
};
struct L300 {
    std::uint64_t                 x;
    std::array<std::uint8_t, 292> d;
};
struct S1 {
    std::uint8_t x;
};
struct E0 {};    // no fields
struct __attribute__((packed)) K7 {
    std::uint32_t a;
    std::uint16_t b;
    std::uint8_t  c;
};
struct F24 {
    double       d[2];
    std::int64_t i;
};
using I4 = int;
enum class N1 : std::uint8_t {};

static std::uint64_t
h2(std::uint64_t a, std::uint64_t b)
{
    std::uint64_t s = a * 0x9E3779B97F4A7C15ull + b;
    return vf::splitmix(s);
}
// gen: a value from a number; dig: a digest of every field
#define GEN(T, ...)                             \
    static T gen(std::uint64_t x, T*)           \
    {                                           \
        T v;                                    \
        __VA_ARGS__;                            \
        return v;                               \
    }
#define DIG(T, ...) \
    static std::uint64_t dig(T const& v) { return __VA_ARGS__; }
GEN(A4, v.x = static_cast<std::uint32_t>(x))
DIG(A4, v.x)
GEN(B4, v.x = static_cast<std::uint32_t>(x))
DIG(B4, v.x)
GEN(A8, v.x = x)
DIG(A8, v.x)
GEN(B8, v.a = static_cast<std::uint16_t>(x); v.b = static_cast<std::uint16_t>(x >> 16); v.c = static_cast<std::uint32_t>(x >> 32))
DIG(B8, v.a | std::uint64_t{v.b} << 16 | std::uint64_t{v.c} << 32)
GEN(P16, v.a = static_cast<std::uint8_t>(x >> 7); v.x = x)
DIG(P16, h2(v.a, v.x))
GEN(Q16, v.a = static_cast<std::uint8_t>(x >> 9); v.x = x)
DIG(Q16, h2(v.x, v.a))
static L300
gen(std::uint64_t x, L300*)
{
    L300 v;
    v.x = x;
    for (auto& b : v.d)
        b = static_cast<std::uint8_t>(vf::splitmix(x));
    return v;
}
static std::uint64_t
dig(L300 const& v)
{
    std::uint64_t h = v.x;
    for (auto b : v.d)
        h = h2(h, b);
    return h;
}
GEN(S1, v.x = static_cast<std::uint8_t>(x))
DIG(S1, v.x)
GEN(E0, (void)x)
DIG(E0, ((void)v, 7))
GEN(K7, v.a = static_cast<std::uint32_t>(x); v.b = static_cast<std::uint16_t>(x >> 32); v.c = static_cast<std::uint8_t>(x >> 48))
DIG(K7, std::uint64_t{v.a} | std::uint64_t{v.b} << 32 | std::uint64_t{v.c} << 48)
GEN(F24, v.d[0] = static_cast<double>(x >> 11); v.d[1] = -static_cast<double>(x & 0xffff); v.i = static_cast<std::int64_t>(x))
DIG(F24, h2(h2(static_cast<std::uint64_t>(v.d[0]), static_cast<std::uint64_t>(-v.d[1])), static_cast<std::uint64_t>(v.i)))
GEN(I4, v = static_cast<int>(x))
DIG(I4, static_cast<std::uint32_t>(v))
GEN(N1, v = static_cast<N1>(x))
DIG(N1, static_cast<std::uint64_t>(v))

template <class... T>
struct List {
    static constexpr std::size_t size = sizeof...(T);
};
using Types = List<A4, B4, A8, B8, P16, Q16, L300, S1, E0, K7, F24, I4, N1>;
static char const* const names[] = {"A4", "B4", "A8", "B8", "P16", "Q16", "L300", "S1", "E0", "K7", "F24", "I4", "N1"};
template <class X, class... T>
static constexpr int
index_of(List<T...>)
{
    int i = 0, r = -1;
    ((std::is_same_v<X, T> ? (void)(r = i++) : (void)i++), ...);
    return r;
}
template <class X>
static constexpr int ix = index_of<X>(Types{});

// ---- what happened
struct World;
struct AnyMod {
    int              id{}, mgr{}, sends{};
    std::vector<int> recvs;
    bool             attached{true};
    virtual ~AnyMod() = default;
    virtual void
    emit(std::uint64_t x)
        = 0;
    virtual comm::base::module&
    base()
        = 0;
    bool
    wants(int type) const
    {
        return type != sends && std::find(recvs.begin(), recvs.end(), type) != recvs.end();
    }
};
static World* g_w;
static void
delivered(AnyMod* m, int type, std::uint64_t digest);

template <class Base, class... R>
struct Impl;
template <class Base>
struct Impl<Base> : Base, AnyMod {
    explicit Impl(comm::base::manager& m) : Base(m) {}
};
template <class Base, class R, class... Rest>
struct Impl<Base, R, Rest...> : Impl<Base, Rest...> {
    using Impl<Base, Rest...>::Impl;
    void
    data(R const& v) override
    {
        // read through a copy of the argument: its bytes must be there
        R c = v;
        delivered(this, ix<R>, dig(c));
    }
};
template <class S, class... R>
struct Mod final : Impl<comm::module<S, R...>, R...> {
    explicit Mod(comm::base::manager& m) : Impl<comm::module<S, R...>, R...>(m)
    {
        this->sends = ix<S>;
        this->recvs = {ix<R>...};
    }
    void
    emit(std::uint64_t x) override
    {
        comm::module<S, R...>::send(gen(x, static_cast<S*>(nullptr)));
    }
    comm::base::module&
    base() override
    {
        return *this;
    }
};
using maker = std::unique_ptr<AnyMod> (*)(comm::base::manager&);
template <class S, class... R>
static std::unique_ptr<AnyMod>
mk(comm::base::manager& m)
{
    return std::make_unique<Mod<S, R...>>(m);
}
static maker const makers[] = {
    mk<A4, B4>,
    mk<B4, A4>,
    mk<A4, A4, B4, I4>,    // receives the type it sends: from nobody
    mk<I4, A4, B4>,
    mk<I4, A4, B4, I4>,
    mk<A8, B8, A4>,
    mk<B8, A8, S1, E0>,
    mk<P16, Q16, A4, A8>,
    mk<Q16, P16, Q16>,
    mk<L300, S1, N1, K7>,
    mk<S1, L300, N1>,
    mk<N1, S1, E0, F24>,
    mk<E0, S1, N1, A4>,
    mk<K7, F24, E0, P16, Q16>,
    mk<F24, A4, B4, A8, B8, P16, Q16, L300, S1, E0, K7, F24, I4, N1>,
    mk<S1, A4, B4, A8, B8, P16, Q16, L300, E0, K7, F24, I4, N1>,
    mk<K7, N1, I4, F24, K7, E0, S1, L300, Q16, P16, B8, A8, B4, A4>,
    mk<A4>,    // receives nothing
    mk<B8, B8>,
    mk<E0, E0, A8>,
};

// ---- managers
struct AnyMgr {
    std::size_t          cap{};
    int                  id{};
    std::vector<AnyMod*> in;    // model: attached modules, in order
    virtual ~AnyMgr() = default;
    virtual comm::base::manager&
    base()
        = 0;
    virtual void
    emit(int type, std::uint64_t x)
        = 0;
};
static void
shown(int mgr, std::size_t id, std::function<std::optional<std::uint64_t>(int)> const& conv);

template <std::size_t N>
struct Mgr final : AnyMgr, comm::manager<N> {
    Mgr() { cap = N; }
    comm::base::manager&
    base() override
    {
        return *this;
    }
    template <class T>
    std::optional<std::uint64_t>
    conv(std::uint8_t* p, std::size_t n)
    {
        try {
            T v = this->template convert_field<T>(p, n);
            return dig(v);
        } catch (std::exception const&) {
            return {};
        }
    }
    void
    data(std::size_t id, std::uint8_t* p, std::size_t n) override
    {
        shown(this->AnyMgr::id, id, [&](int t) { return with_conv(t, p, n, Types{}); });
    }
    template <class... T>
    std::optional<std::uint64_t>
    with_conv(int t, std::uint8_t* p, std::size_t n, List<T...>)
    {
        std::optional<std::uint64_t> r;
        int                          i = 0;
        ((i++ == t ? (void)(r = conv<T>(p, n)) : (void)0), ...);
        return r;
    }
    void
    emit(int type, std::uint64_t x) override
    {
        emit_(type, x, Types{});
    }
    template <class... T>
    void
    emit_(int type, std::uint64_t x, List<T...>)
    {
        int i = 0;
        ((i++ == type ? this->template send<T>(gen(x, static_cast<T*>(nullptr))) : (void)0), ...);
    }
};
template <class... T>
static std::uint64_t
digest_of(int type, std::uint64_t x, List<T...>)
{
    std::uint64_t r{};
    int           i = 0;
    ((i++ == type ? (void)(r = dig(gen(x, static_cast<T*>(nullptr)))) : (void)0), ...);
    return r;
}
template <class... T>
static constexpr std::array<std::size_t, sizeof...(T)>
sizes_of(List<T...>)
{
    return {sizeof(T)...};
}
static constexpr auto sizes = sizes_of(Types{});

struct World {
    Src&                                 s;
    std::vector<std::unique_ptr<AnyMgr>> mgrs;
    std::vector<std::unique_ptr<AnyMod>> mods;
    int                                  next_id = 1, depth = 0;
    int                                  nest = 0;    // chance (of 16) that a delivery sends again
    long                                 sent = 0, got_n = 0;
    // of the outermost send under way: (module,type,digest) -> times; hook: (manager, type, digest) -> times
    std::map<std::array<std::uint64_t, 3>, int> want, got, hwant, hgot;
    std::map<std::array<std::uint64_t, 2>, int> pos_hook, pos_first;    // (type, digest) -> first event number
    int                                         event = 0;

    explicit World(Src& src) : s{src} {}
    ~World() { g_w = nullptr; }

    AnyMgr&
    mgr(int i)
    {
        return *mgrs[i];
    }
    void
    expect(AnyMgr& g, int type, std::uint64_t x, bool hook)
    {
        auto d = digest_of(type, x, Types{});
        for (auto* m : g.in)
            if (m->wants(type))
                want[{static_cast<std::uint64_t>(m->id), static_cast<std::uint64_t>(type), d}]++;
        if (hook)
            hwant[{static_cast<std::uint64_t>(g.id), static_cast<std::uint64_t>(type), d}]++;
    }
    std::vector<std::pair<int, std::size_t>> senders;    // (type, id) of the sends under way
    void
    send_module(AnyMod& m)
    {
        auto x = s.u64();
        tr("%*s#%d sends %s %llx (manager %d)", depth * 2, "", m.id, names[m.sends], (unsigned long long)digest_of(m.sends, x, Types{}), m.mgr);
        expect(mgr(m.mgr), m.sends, x, true);
        sent++;
        depth++;
        senders.push_back({m.sends, m.base().id_});
        m.emit(x);
        senders.pop_back();
        depth--;
        vf::mix(static_cast<std::uint64_t>(m.sends));
        if (depth == 0)
            settle();
    }
    void
    send_manager(AnyMgr& g)
    {
        int  t = static_cast<int>(s.below(Types::size));
        auto x = s.u64();
        tr("%*smanager %d sends %s %llx", depth * 2, "", g.id, names[t], (unsigned long long)digest_of(t, x, Types{}));
        expect(g, t, x, false);
        sent++;
        depth++;
        g.emit(t, x);
        depth--;
        vf::mix(static_cast<std::uint64_t>(t) + 100);
        if (depth == 0)
            settle();
    }
    void
    settle()
    {
        for (auto& [k, n] : want)
            VF_EXPECT("C18 C19", got.count(k) && got[k] == n, "not-delivered", "module #%llu got message %s %llx %d times, not %d",
                      (unsigned long long)k[0], names[k[1]], (unsigned long long)k[2], got.count(k) ? got[k] : 0, n);
        for (auto& [k, n] : got)
            VF_EXPECT("C18 C19", want.count(k), "delivered-wrongly", "module #%llu got message %s %llx (%d times) that was not for it",
                      (unsigned long long)k[0], names[k[1]], (unsigned long long)k[2], n);
        for (auto& [k, n] : hwant)
            VF_EXPECT("C18", hgot.count(k) && hgot[k] == n, "hook", "the hook of manager %llu was shown %s %llx %d times, not %d", (unsigned long long)k[0],
                      names[k[1]], (unsigned long long)k[2], hgot.count(k) ? hgot[k] : 0, n);
        for (auto& [k, n] : hgot)
            VF_EXPECT("C18", hwant.count(k), "hook-extra", "the hook of manager %llu was shown %s %llx (%d times) that no module of it sent",
                      (unsigned long long)k[0], names[k[1]], (unsigned long long)k[2], n);
        for (auto& [k, p] : pos_hook)
            if (sizes[k[0]] >= 8 && want.size() && pos_first.count(k))
                VF_EXPECT("C18", p < pos_first[k], "hook-late", "%s %llx reached a module before the manager's hook", names[k[0]], (unsigned long long)k[1]);
        if (got.size() > 1)
            vf::nontrivial();
        vf::count("med.deliveries", got.size());
        want.clear();
        got.clear();
        hwant.clear();
        hgot.clear();
        pos_hook.clear();
        pos_first.clear();
        event = 0;
    }
    void
    attach(AnyMgr& g)
    {
        auto       k    = s.below(std::size(makers));
        bool const full = g.in.size() == g.cap;
        std::unique_ptr<AnyMod> m;
        bool                    threw = false;
        try {
            m = makers[k](g.base());
        } catch (vf::Abort const&) {
            throw;
        } catch (std::exception const&) {
            threw = true;
        }
        tr("attach kind %d to manager %d (%zu of %zu)%s", (int)k, g.id, g.in.size(), g.cap, threw ? ": threw" : "");
        vf::mix(k + 1000);
        if (full) {
            vf::count("med.overflows");
            VF_EXPECT("C19", threw, "overflow-accepted", "a module beyond the capacity %zu was accepted", g.cap);
            if (threw)
                return;
            vf::leave();
        }
        vf::count("med.attached");
        VF_REQUIRE("C19", !threw, "attach-refused", "a module was refused with %zu of %zu attached", g.in.size(), g.cap);
        m->id  = next_id++;
        m->mgr = g.id;
        g.in.push_back(m.get());
        mods.push_back(std::move(m));
    }
    void
    destroy(std::size_t i)
    {
        auto& m = *mods[i];
        auto& g = mgr(m.mgr);
        if (g.in.size() == g.cap && m.attached)
            vf::count("med.destroyed_while_full");
        tr("destroy #%d (manager %d, %zu of %zu)", m.id, g.id, g.in.size(), g.cap);
        vf::mix(2000 + i);
        std::erase(g.in, &m);
        mods.erase(mods.begin() + static_cast<long>(i));
        vf::count("med.destroyed");
    }
    void
    run()
    {
        g_w          = this;
        nest         = static_cast<int>(s.below(5));
        int const nm = s.chance(1, 3) ? 2 : 1;
        for (int i = 0; i < nm; i++) {
            switch (s.below(6)) {
            case 0:
                mgrs.push_back(std::make_unique<Mgr<1>>());
                break;
            case 1:
                mgrs.push_back(std::make_unique<Mgr<2>>());
                break;
            case 2:
                mgrs.push_back(std::make_unique<Mgr<3>>());
                break;
            case 3:
                mgrs.push_back(std::make_unique<Mgr<5>>());
                break;
            case 4:
                mgrs.push_back(std::make_unique<Mgr<8>>());
                break;
            default:
                mgrs.push_back(std::make_unique<Mgr<20>>());
            }
            mgrs.back()->id = i;
        }
        for (int ops = static_cast<int>(5 + s.below(60)); ops && !s.dry(); ops--) {
            auto& g = mgr(static_cast<int>(s.below(mgrs.size())));
            switch (s.below(12)) {
            case 0:
            case 1:
            case 2:
                attach(g);
                break;
            case 3: {    // fill up
                while (g.in.size() < g.cap)
                    attach(g);
                attach(g);
                break;
            }
            case 4:
                if (!mods.empty())
                    destroy(s.below(mods.size()));
                break;
            case 5:
                if (!g.in.empty()) {    // destroy the last, the first or a middle one of this manager
                    auto* m = g.in[s.chance(1, 3) ? g.in.size() - 1 : s.chance(1, 2) ? 0 : s.below(g.in.size())];
                    for (std::size_t i = 0; i < mods.size(); i++)
                        if (mods[i].get() == m) {
                            destroy(i);
                            break;
                        }
                }
                break;
            case 6:    // detach without destroying, or attach a detached one again
                if (!mods.empty()) {
                    auto& m = *s.pick(mods);
                    auto& h = mgr(m.mgr);
                    if (m.attached) {
                        tr("remove #%d", m.id);
                        h.base().remove_module(m.base());
                        m.attached = false;
                        std::erase(h.in, &m);
                    } else if (h.in.size() < h.cap) {
                        tr("add #%d again", m.id);
                        try {
                            h.base().add_module(m.base());
                        } catch (std::exception const&) {
                            VF_REQUIRE("C19", false, "attach-refused", "a module was refused with %zu of %zu attached", h.in.size(), h.cap);
                        }
                        m.attached = true;
                        h.in.push_back(&m);
                    }
                    vf::count("med.detached_or_again");
                }
                break;
            case 7:
            case 8:
                send_manager(g);
                break;
            default:
                if (!mods.empty())
                    send_module(*s.pick(mods));
            }
            vf::seen(g.in.size() * 131 + g.cap);
        }
        while (!mods.empty()) {
            destroy(s.below(mods.size()));
            if (s.chance(1, 4))
                send_manager(mgr(static_cast<int>(s.below(mgrs.size()))));
        }
        for (auto& g : mgrs)
            while (g->in.size() < g->cap)
                attach(*g);
        for (auto& g : mgrs)
            send_manager(*g);
        while (!mods.empty())
            destroy(mods.size() - 1);
    }
};

static void
delivered(AnyMod* m, int type, std::uint64_t digest)
{
    auto& w = *g_w;
    w.event++;
    w.got[{static_cast<std::uint64_t>(m->id), static_cast<std::uint64_t>(type), digest}]++;
    w.pos_first.try_emplace({static_cast<std::uint64_t>(type), digest}, w.event);
    tr("%*s#%d got %s %llx", w.depth * 2, "", m->id, names[type], (unsigned long long)digest);
    if (++w.got_n > 1200)
        return;
    if (w.nest && w.depth < 4 && w.s.chance(static_cast<unsigned>(w.nest), 16)) {
        vf::count("med.nested_sends");
        if (w.s.chance(1, 4))
            w.send_manager(w.mgr(static_cast<int>(w.s.below(w.mgrs.size()))));
        else if (w.s.chance(1, 2))
            w.send_module(*m);
        else
            w.send_module(*w.s.pick(w.mods));
    }
}
static void
shown(int mgr, std::size_t id, std::function<std::optional<std::uint64_t>(int)> const& conv)
{
    auto& w = *g_w;
    w.event++;
    if (w.senders.empty()) {
        vf::reportf("C18", "hook-extra", "the hook of manager %d was called though no module sent", mgr);
        return;
    }
    // the type is known by the sender's id
    auto [type, sid] = w.senders.back();
    VF_EXPECT("C18", sid == id, "hook-id", "the hook was given the id of another sender");
    auto d = conv(type);
    if (!d) {
        vf::reportf("C18", "hook-convert", "a shown message of type %s could not be converted back", names[type]);
        return;
    }
    w.hgot[{static_cast<std::uint64_t>(mgr), static_cast<std::uint64_t>(type), *d}]++;
    w.pos_hook.try_emplace({static_cast<std::uint64_t>(type), *d}, w.event);
    vf::count("med.shown");
    for (std::size_t t = 0; t < Types::size; t++)
        if (sizes[t] != sizes[static_cast<std::size_t>(type)]) {
            auto o = conv(static_cast<int>(t));
            VF_EXPECT("C18", !o, "convert-other-size", "a %zu-byte message of type %s was converted to %s of %zu bytes", sizes[static_cast<std::size_t>(type)],
                      names[type], names[t], sizes[t]);
        }
    vf::count("med.wrong_size_conversions", Types::size);
}

void
vf_case(Src& s)
{
    World w(s);
    w.run();
}

// ---- sizes beyond narrow counts: large messages, many modules
template <std::size_t N>
struct Huge {
    std::array<std::uint32_t, N> d;
    std::uint8_t                 last;
};
struct Ping {
    std::uint32_t x;
};
template <std::size_t N>
static Huge<N>
huge(std::uint32_t x)
{
    Huge<N> h{};
    for (auto& v : h.d)
        v = x = x * 1664525u + 1013904223u;
    h.last = static_cast<std::uint8_t>(x >> 9);
    return h;
}
template <std::size_t N>
struct HugeMod final : comm::module<Ping, Huge<N>> {
    using comm::module<Ping, Huge<N>>::module;
    int           good{}, bad{};
    std::uint32_t x{};
    void
    data(Huge<N> const& v) override
    {
        auto want = huge<N>(x);
        (v.d == want.d && v.last == want.last ? good : bad)++;
    }
};
template <std::size_t N>
struct HugeSender final : comm::module<Huge<N>> {
    using comm::module<Huge<N>>::module;
};
template <std::size_t N>
static void
large_message()
{
    struct M : comm::manager<4> {
        int           shown{}, good{};
        std::uint32_t x{};
        void
        data(std::size_t, std::uint8_t* p, std::size_t n) override
        {
            shown++;
            try {
                auto v = this->template convert_field<Huge<N>>(p, n);
                auto w = huge<N>(x);
                good += v.d == w.d && v.last == w.last;
            } catch (std::exception const&) {
            }
        }
    };
    auto m = std::make_unique<M>();
    HugeMod<N>    a(*m), b(*m);
    HugeSender<N> s(*m);
    for (std::uint32_t i = 1; i <= 4; i++) {
        m->x = a.x = b.x = i * 77;
        if (i % 2)
            s.send(huge<N>(i * 77));
        else
            m->send(huge<N>(i * 77));
        VF_EXPECT("C18", a.good == static_cast<int>(i) && b.good == a.good && !a.bad && !b.bad, "large-message",
                  "of %u messages of %zu bytes, modules got %d and %d whole ones and %d damaged ones", i, sizeof(Huge<N>), a.good, b.good, a.bad + b.bad);
        VF_EXPECT("C18", m->shown == static_cast<int>((i + 1) / 2) && m->good == m->shown, "large-hook", "a message of %zu bytes was shown %d times, whole %d times",
                  sizeof(Huge<N>), m->shown, m->good);
        vf::count("med.large_messages");
    }
}
struct Pong {
    std::uint64_t x;
};
struct Small final : comm::module<Pong, Ping> {
    using comm::module<Pong, Ping>::module;
    std::uint64_t got{};
    void
    data(Ping const& p) override
    {
        got += p.x;
    }
};
template <std::size_t N>
static void
many_modules()
{
    vf::alive(N);
    auto                                m = std::make_unique<comm::manager<N>>();
    std::vector<std::unique_ptr<Small>> v;
    std::size_t                         bad = 0, threw = 0;
    auto                                fill = [&] {
        while (v.size() < N) {
            try {
                v.push_back(std::make_unique<Small>(*m));
            } catch (std::exception const&) {
                threw++;
                return;
            }
        }
    };
    auto ping = [&](char const* when) {
        for (auto& x : v)
            x->got = 0;
        m->send(Ping{9});
        bad = 0;
        for (auto& x : v)
            bad += x->got != 9;
        VF_EXPECT("C19 C18", !bad, "many-modules", "%s, %zu of %zu modules did not get a message once", when, bad, v.size());
        vf::count("med.deliveries", v.size());
    };
    fill();
    VF_EXPECT("C19", !threw, "many-refused", "a manager of %zu refused module %zu", N, v.size());
    ping("when full");
    bool over = false;
    try {
        Small s(*m);
    } catch (std::exception const&) {
        over = true;
    }
    VF_EXPECT("C19", over, "many-overflow", "a manager of %zu took another module", N);
    for (std::size_t i = N; i-- > 0;)
        if (i % (N / 9 + 1) == 0)
            v.erase(v.begin() + static_cast<long>(i));
    ping("after some were destroyed");
    fill();
    VF_EXPECT("C19", !threw, "many-refused", "a manager of %zu refused module %zu again", N, v.size());
    ping("when full again");
}

void
vf_directed()
{
    large_message<70>();
    large_message<17000>();
    many_modules<300>();
#if !defined(VF_ASAN) && !defined(VF_TSAN)
    many_modules<66000>();
#endif
}
