// C31: a fast pimpl beside plain objects, with a registry of live objects and a count of heap requests.
#include "vf.hpp"

#include <cstddef>
#include <new>
#include <optional>
#include <xitren/func/fast_pimpl.hpp>

#include <memory>

namespace fn = xitren::func;
using vf::Src;
using vf::tr;

// ---- heap requests made while armed (by the objects' holders only: the objects here do not allocate)
static bool g_armed;
static long g_heap;
#ifndef VF_VG    // memcheck watches the real ones
void*
operator new(std::size_t n)
{
    if (g_armed)
        g_heap++;
    void* p = std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void*
operator new(std::size_t n, std::align_val_t a)
{
    if (g_armed)
        g_heap++;
    void* p = std::aligned_alloc(static_cast<std::size_t>(a), (n + static_cast<std::size_t>(a) - 1) / static_cast<std::size_t>(a) * static_cast<std::size_t>(a));
    if (!p)
        throw std::bad_alloc();
    return p;
}
void
operator delete(void* p) noexcept
{
    std::free(p);
}
void
operator delete(void* p, std::size_t) noexcept
{
    std::free(p);
}
void
operator delete(void* p, std::align_val_t) noexcept
{
    std::free(p);
}
void
operator delete(void* p, std::size_t, std::align_val_t) noexcept
{
    std::free(p);
}
#endif

// ---- what happened to objects
enum Op { ctor_v, ctor_2, ctor_def, ctor_copy, ctor_move, as_copy, as_move, dtor, thrown };
struct Event {
    Op            op;
    std::int64_t  v, src;    // value afterwards, value of the source
    bool
    operator==(Event const& o) const
    {
        return op == o.op && v == o.v && src == o.src;
    }
};
static std::vector<Event>*  g_ev;
static std::set<void const*> g_live;
static int                   g_bomb;    // counts down to a throw; 0: none
struct Boom {};
// the heap is watched during exactly this (reset in both(), exceptions included)
#define ARMED(...)                                                                                                     \
    do {                                                                                                               \
        struct Arm {                                                                                                   \
            Arm()                                                                                                      \
            {                                                                                                          \
                g_armed = true;                                                                                        \
            }                                                                                                          \
            ~Arm()                                                                                                     \
            {                                                                                                          \
                g_armed = false;                                                                                       \
            }                                                                                                          \
        } arm_;                                                                                                        \
        __VA_ARGS__;                                                                                                   \
    } while (0)

static void
ev(Op o, std::int64_t v, std::int64_t s)
{
    bool a  = g_armed;
    g_armed = false;
    if (g_ev)
        g_ev->push_back({o, v, s});
    g_armed = a;
}
static void
born(void const* p)
{
    bool a  = g_armed;
    g_armed = false;
    if (!g_live.insert(p).second)
        vf::reportf("C31", "constructed-twice", "an object was constructed where one lives");
    g_armed = a;
}
static void
died(void const* p)
{
    bool a  = g_armed;
    g_armed = false;
    if (!g_live.erase(p))
        vf::reportf("C31", "destroyed-twice", "an object that does not live was destroyed");
    g_armed = a;
}
static void
maybe_throw()
{
    if (g_bomb && --g_bomb == 0) {
        ev(thrown, 0, 0);
        throw Boom{};
    }
}
static void
must_live(void const* p, char const* what)
{
    bool a  = g_armed;
    g_armed = false;
    if (!g_live.count(p))
        vf::reportf("C31", "not-alive", "%s of an object that does not live", what);
    g_armed = a;
}

template <std::size_t Align, std::size_t Pad, bool Copyable>
struct alignas(Align) Obj {
    std::int64_t  v;
    std::uint64_t pad[Pad];

    Obj() : v{-7}
    {
        maybe_throw();
        fill();
        born(this);
        ev(ctor_def, v, 0);
    }
    explicit Obj(std::int64_t x) : v{x}
    {
        maybe_throw();
        fill();
        born(this);
        ev(ctor_v, v, 0);
    }
    Obj(std::int64_t x, std::unique_ptr<int>&& y) : v{x + *y}    // takes a move-only argument
    {
        maybe_throw();
        y.reset();
        fill();
        born(this);
        ev(ctor_2, v, 0);
    }
    Obj(std::int64_t& out, int) : v{out}    // an argument by reference
    {
        maybe_throw();
        out += 1000;
        fill();
        born(this);
        ev(ctor_2, v, 0);
    }
    Obj(Obj const& o)
        requires Copyable
        : v{o.v}
    {
        must_live(&o, "copy");
        maybe_throw();
        copy(o);
        born(this);
        ev(ctor_copy, v, o.v);
    }
    Obj(Obj&& o) : v{o.v}
    {
        must_live(&o, "move");
        maybe_throw();
        copy(o);
        born(this);
        o.v = o.v >= 0 ? -1000000 - o.v : o.v - 1;    // what is moved from says so
        ev(ctor_move, v, o.v);
    }
    Obj&
    operator=(Obj const& o)
        requires Copyable
    {
        must_live(&o, "copy assignment");
        must_live(this, "copy assignment");
        maybe_throw();
        v = o.v;
        copy(o);
        ev(as_copy, v, o.v);
        return *this;
    }
    Obj&
    operator=(Obj&& o)
    {
        must_live(&o, "move assignment");
        must_live(this, "move assignment");
        maybe_throw();
        if (&o != this) {
            v = o.v;
            copy(o);
            o.v = o.v >= 0 ? -1000000 - o.v : o.v - 1;
        }
        ev(as_move, v, o.v);
        return *this;
    }
    ~Obj()
    {
        died(this);
        ev(dtor, v, 0);
        v = 0x5555;
    }
    std::int64_t
    get()
    {
        return v * 2;
    }
    std::int64_t
    get() const
    {
        return v * 2 + 1;    // tells const from non-const access
    }
    bool
    intact() const
    {
        for (std::size_t i = 0; i < Pad; i++)
            if (pad[i] != 0x1111111111111111ull * (i + 1))
                return false;
        return true;
    }

private:
    void
    fill()
    {
        for (std::size_t i = 0; i < Pad; i++)
            pad[i] = 0x1111111111111111ull * (i + 1);
    }
    void
    copy(Obj const& o)
    {
        for (std::size_t i = 0; i < Pad; i++)
            pad[i] = o.pad[i];
    }
};

/// The same operations on plain objects and on pimpls must cause the same events.
template <class T, class P>
struct World {
    Src&                                 s;
    std::vector<T*>                      a;    // plain
    std::vector<P*>                      b;    // held
    std::vector<Event>                   ea, eb;
    long                                 ops = 0;
    explicit World(Src& src) : s{src} {}

    template <class FA, class FB>
    void
    both(char const* what, FA fa, FB fb, bool may_throw = true)
    {
        int const bomb = may_throw && s.chance(1, 6) ? static_cast<int>(1 + s.below(2)) : 0;
        bool      ta = false, tb = false;
        ea.clear();
        eb.clear();
        g_bomb = bomb;
        g_ev   = &ea;
        try {
            fa();
        } catch (Boom const&) {
            ta = true;
        }
        g_bomb  = bomb;
        g_ev    = &eb;
        g_heap  = 0;
        try {
            fb();
        } catch (Boom const&) {
            tb = true;
        }
        g_armed = false;
        g_ev    = nullptr;
        g_bomb  = 0;
        tr("%s%s", what, ta ? ": threw" : "");
        vf::mix(static_cast<std::uint64_t>(what[0]) * 31 + static_cast<std::uint64_t>(what[1]) + ta);
        VF_EXPECT("C31", ta == tb, "throws", "%s: %s on a plain object, %s on a held one", what, ta ? "threw" : "returned", tb ? "threw" : "returned");
        VF_EXPECT("C31", ea == eb, "events", "%s: %zu operations on a plain object, %zu on a held one (or others)", what, ea.size(), eb.size());
        VF_EXPECT("C31", g_heap == 0, "heap", "%s: the holder asked for heap memory %ld times", what, g_heap);
        if (ta)
            vf::count("pimpl.thrown");
        compare(what);
        ops++;
    }
    void
    compare(char const* what)
    {
        for (std::size_t i = 0; i < b.size(); i++) {
            P&       p = *b[i];
            P const& c = p;
            T&       x = *p;
            T const& y = *c;
            VF_REQUIRE("C31", &x == &y && p.operator->() == &x && c.operator->() == &x, "dereference", "%s: dereferencing gives different objects", what);
            VF_EXPECT("C31", reinterpret_cast<char*>(&x) >= reinterpret_cast<char*>(&p) && reinterpret_cast<char*>(&x + 1) <= reinterpret_cast<char*>(&p + 1), "outside",
                      "%s: the object is not inside its holder", what);
            VF_EXPECT("C31", reinterpret_cast<std::uintptr_t>(&x) % alignof(T) == 0, "alignment", "%s: the object is not aligned to %zu", what, alignof(T));
            VF_EXPECT("C31", x.v == a[i]->v && x.intact(), "value", "%s: the held object is %lld, a plain one %lld", what, (long long)x.v, (long long)a[i]->v);
            VF_EXPECT("C31", p->get() == x.v * 2 && (*p).get() == x.v * 2 && c->get() == x.v * 2 + 1 && (*c).get() == x.v * 2 + 1, "constness",
                      "%s: access is not const or non-const as the holder is", what);
            if (!g_live.count(&x))
                vf::reportf("C31", "not-alive", "%s: a held object does not live", what);
        }
        VF_EXPECT("C31", g_live.size() == a.size() + b.size(), "live-count", "%s: %zu objects live, not %zu", what, g_live.size(), a.size() + b.size());
        if (g_live.size() != a.size() + b.size())
            vf::leave();
    }
    // placement keeps the plain twin's and the holder's own storage out of the heap count
    template <class FA, class FB>
    void
    make(char const* what, FA fa, FB fb)
    {
        void* ra = ::operator new(sizeof(T), std::align_val_t{alignof(T)});
        void* rb = ::operator new(sizeof(P), std::align_val_t{alignof(P)});
        vf::garbage(rb, 0xa5, sizeof(P));
        a.reserve(a.size() + 1);
        b.reserve(b.size() + 1);
        both(
            what,
            [&] {
                try {
                    a.push_back(fa(ra));
                } catch (...) {
                    ::operator delete(ra, std::align_val_t{alignof(T)});
                    throw;
                }
            },
            [&] {
                try {
                    b.push_back(fb(rb));
                } catch (...) {
                    ::operator delete(rb, std::align_val_t{alignof(P)});
                    throw;
                }
            });
    }
    void
    drop(std::size_t i)
    {
        T* x = a[i];
        P* y = b[i];
        a.erase(a.begin() + static_cast<long>(i));
        b.erase(b.begin() + static_cast<long>(i));
        both(
            "destroy", [&] { x->~T(); }, [&] { ARMED(y->~P()); }, false);
        ::operator delete(x, std::align_val_t{alignof(T)});
        ::operator delete(y, std::align_val_t{alignof(P)});
    }
    void
    step()
    {
        std::size_t const n = a.size();
        std::int64_t      v = s.range(0, 999), w = s.range(0, 99);
        if (n == 0 || (n < 6 && s.chance(2, 5))) {
            unsigned k = static_cast<unsigned>(s.below(8));
            std::size_t j = n ? s.below(n) : 0;
            switch (k) {
            case 0:
                make(
                    "construct()", [&](void* r) { return new (r) T(); }, [&](void* r) { ARMED(return new (r) P()); });
                return;
            case 1: {
                make(
                    "construct(value, move-only)",
                    [&](void* r) {
                        auto u = std::make_unique<int>(static_cast<int>(w));
                        T* t = new (r) T(v, std::move(u));
                        ev(ctor_2, u ? 1 : 0, 0);
                        return t;
                    },
                    [&](void* r) {
                        auto u = std::make_unique<int>(static_cast<int>(w));
                        P*   t;
                        ARMED(t = new (r) P(v, std::move(u)));
                        ev(ctor_2, u ? 1 : 0, 0);
                        return t;
                    });
                return;
            }
            case 2: {
                std::int64_t va = v, vb = v;
                make(
                    "construct(reference)", [&](void* r) { return new (r) T(va, 1); },
                    [&](void* r) { ARMED(return new (r) P(vb, 1)); });
                VF_EXPECT("C31", va == vb, "reference-argument", "an argument by reference became %lld, not %lld", (long long)vb, (long long)va);
                return;
            }
            case 3:
                if constexpr (std::is_copy_constructible_v<T>) {
                    if (n) {
                        bool c = s.chance(1, 2);
                        make(
                            c ? "copy-construct(const)" : "copy-construct",
                            [&](void* r) { return c ? new (r) T(std::as_const(*a[j])) : new (r) T(*a[j]); },
                            [&](void* r) { ARMED(return c ? new (r) P(std::as_const(*b[j])) : new (r) P(*b[j])); });
                        vf::count("pimpl.copied");
                        return;
                    }
                }
                [[fallthrough]];
            case 4:
                if (n) {
                    make(
                        "move-construct", [&](void* r) { return new (r) T(std::move(*a[j])); },
                        [&](void* r) { ARMED(return new (r) P(std::move(*b[j]))); });
                    vf::count("pimpl.moved");
                    return;
                }
                [[fallthrough]];
            case 5:
                make(
                    "construct(object moved in)",
                    [&](void* r) {
                        T t(v);
                        return new (r) T(std::move(t));
                    },
                    [&](void* r) {
                        T t(v);
                        ARMED(return new (r) P(std::move(t)));
                    });
                return;
            default:
                make(
                    "construct(value)", [&](void* r) { return new (r) T(v); }, [&](void* r) { ARMED(return new (r) P(v)); });
                return;
            }
        }
        std::size_t const i = s.below(n), j = s.below(n);
        switch (s.below(6)) {
        case 0:
        case 1:
            if constexpr (std::is_copy_assignable_v<T>) {
                bool c = s.chance(1, 2);
                both(
                    i == j ? "self-assign" : "copy-assign", [&] { T& r = c ? (*a[i] = std::as_const(*a[j])) : (*a[i] = *a[j]); (void)r; },
                    [&] {
                        P* r = nullptr;
                        ARMED(r = c ? &(*b[i] = std::as_const(*b[j])) : &(*b[i] = *b[j]));
                        VF_EXPECT("C31", r == b[i], "assignment-result", "assignment returns another holder");
                    });
                vf::count(i == j ? "pimpl.self_assigned" : "pimpl.assigned");
                return;
            }
            [[fallthrough]];
        case 2:
            both(
                i == j ? "self-move" : "move-assign", [&] { *a[i] = std::move(*a[j]); },
                [&] {
                    P* r = nullptr;
                    ARMED(r = &(*b[i] = std::move(*b[j])));
                    VF_EXPECT("C31", r == b[i], "assignment-result", "assignment returns another holder");
                });
            vf::count(i == j ? "pimpl.self_moved" : "pimpl.move_assigned");
            return;
        case 3:
            both(
                "write", [&] { a[i]->v = v; },
                [&] {
                    if (w & 1)
                        (*b[i])->v = v;
                    else
                        (**b[i]).v = v;
                },
                false);
            return;
        case 4:
            if (s.chance(1, 4)) {
                both(
                    "swap", [&] { std::swap(*a[i], *a[j]); }, [&] { ARMED(std::swap(*b[i], *b[j])); }, true);
                return;
            }
            [[fallthrough]];
        default:
            drop(i);
            return;
        }
    }
    void
    run()
    {
        static_assert(std::is_nothrow_destructible_v<P>);
        std::size_t n = 4 + s.below(28);
        for (std::size_t k = 0; k < n && !s.dry(); k++)
            step();
        while (!a.empty())
            drop(s.below(a.size()));
        VF_EXPECT("C31", g_live.empty(), "left-alive", "%zu objects outlive all their holders", g_live.size());
        g_live.clear();
        if (ops > 6)
            vf::nontrivial();
    }
};

template <std::size_t Align, std::size_t Pad, bool Copyable, std::size_t Extra, std::size_t MoreAlign, bool Strict>
static void
world(Src& s)
{
    using T = Obj<Align, Pad, Copyable>;
    using P = fn::fast_pimpl<T, sizeof(T) + Extra, Align * MoreAlign, Strict>;
    static_assert(std::is_same_v<typename P::type, T>);
    tr("object of %zu bytes, alignment %zu, in %zu bytes aligned %zu%s", sizeof(T), alignof(T), sizeof(P), alignof(P), Copyable ? "" : ", move-only");
    vf::mix(sizeof(T) * 1000 + alignof(T) * 7 + sizeof(P) + alignof(P) * 13 + Copyable);
    World<T, P> w{s};
    w.run();
}

// ---- objects of the standard library and of fundamental types
template <class T>
struct Init {
    static T
    make(Src& s)
    {
        return static_cast<T>(s.range(-100, 100));
    }
};
template <>
struct Init<std::string> {
    static std::string
    make(Src& s)
    {
        return std::string(s.below(60), static_cast<char>('a' + s.below(26)));
    }
};
template <>
struct Init<std::vector<int>> {
    static std::vector<int>
    make(Src& s)
    {
        return std::vector<int>(s.below(9), static_cast<int>(s.below(100)));
    }
};
struct Trivial {
    char     c[3];
    unsigned u : 5;
    bool
    operator==(Trivial const& o) const
    {
        return std::memcmp(c, o.c, 3) == 0 && u == o.u;
    }
};
template <>
struct Init<Trivial> {
    static Trivial
    make(Src& s)
    {
        Trivial t{};
        t.c[0] = static_cast<char>(s.byte());
        t.c[2] = static_cast<char>(s.byte());
        t.u    = s.byte() & 31;
        return t;
    }
};
template <>
struct Init<std::unique_ptr<int>> {
    static std::unique_ptr<int>
    make(Src& s)
    {
        return std::make_unique<int>(static_cast<int>(s.below(1000)));
    }
};
template <class T>
static bool
same(T const& x, T const& y)
{
    if constexpr (std::is_same_v<T, std::unique_ptr<int>>)
        return (!x && !y) || (x && y && *x == *y);
    else
        return x == y;
}
template <class T, std::size_t Extra>
static void
plain_world(Src& s, char const* name)
{
    using P = fn::fast_pimpl<T, sizeof(T) + Extra, alignof(T)>;
    tr("holders of %s", name);
    vf::mix((name[0] * 31u + name[1]));
    std::vector<std::unique_ptr<T>> a;
    std::vector<std::unique_ptr<P>> b;
    std::size_t                     n = 2 + s.below(20);
    for (std::size_t k = 0; k < n && !s.dry(); k++) {
        unsigned   op   = static_cast<unsigned>(s.below(8));
        vf::mix(op);
        if (a.empty() || (op < 2 && a.size() < 5)) {
            T v = Init<T>::make(s);
            if constexpr (std::is_copy_constructible_v<T>) {
                a.push_back(std::make_unique<T>(v));
                if (op & 1)
                    b.push_back(std::make_unique<P>(v));
                else
                    b.push_back(std::make_unique<P>(std::move(v)));
            } else {
                a.push_back(std::make_unique<T>(v ? std::make_unique<int>(*v) : nullptr));
                b.push_back(std::make_unique<P>(std::move(v)));
            }
        } else {
            std::size_t i = s.below(a.size()), j = s.below(a.size());
            if (op == 2 || op == 3) {
                if constexpr (std::is_copy_constructible_v<T>) {
                    if (op == 2) {
                        a.push_back(std::make_unique<T>(*a[j]));
                        b.push_back(std::make_unique<P>(*b[j]));
                    } else {
                        *a[i] = *a[j];
                        *b[i] = *b[j];
                    }
                }
            } else if (op == 4) {
                a.push_back(std::make_unique<T>(std::move(*a[j])));
                b.push_back(std::make_unique<P>(std::move(*b[j])));
            } else if (op == 5) {
                *a[i] = std::move(*a[j]);
                *b[i] = std::move(*b[j]);
            } else if (op == 6) {
                T v  = Init<T>::make(s);
                if constexpr (std::is_copy_constructible_v<T>)
                    *a[i] = v;
                else
                    *a[i] = v ? std::make_unique<int>(*v) : nullptr;
                **b[i] = std::move(v);
            } else {
                a.erase(a.begin() + static_cast<long>(i));
                b.erase(b.begin() + static_cast<long>(i));
            }
        }
        for (std::size_t i = 0; i < a.size(); i++) {
            P const& c = *b[i];
            VF_EXPECT("C31", same(*a[i], **b[i]) && same(*a[i], *c) && same(*a[i], *c.operator->()), "value", "a held %s is not what a plain one is", name);
        }
        vf::count("pimpl.standard_types");
    }
}

// more than one argument to constructors that braces would choose differently
static void
vf_args(Src& s)
{
    std::size_t n = s.below(50);
    char        c = static_cast<char>('a' + s.below(26));
    {
        fn::fast_pimpl<std::string, sizeof(std::string), alignof(std::string)> p(n, c);
        VF_EXPECT("C31", *p == std::string(n, c) && p->size() == n, "arguments", "string(%zu, '%c') holds \"%s\"", n, c, p->c_str());
    }
    {
        int                                                                                         v = static_cast<int>(s.below(100));
        fn::fast_pimpl<std::vector<int>, sizeof(std::vector<int>) + 8, alignof(std::vector<int>)> p(n, v);
        VF_EXPECT("C31", *p == std::vector<int>(n, v), "arguments", "vector(%zu, %d) holds %zu elements", n, v, p->size());
    }
    {
        std::vector<int>                                                                       v(n, 3);
        fn::fast_pimpl<std::vector<int>, sizeof(std::vector<int>), alignof(std::vector<int>)> p(v.begin(), v.end());
        VF_EXPECT("C31", *p == v, "arguments", "vector(first, last) holds %zu elements, not %zu", p->size(), n);
    }
    {
        fn::fast_pimpl<std::string, 64, 8> p("text");
        VF_EXPECT("C31", *p == "text", "arguments", "string(\"text\") holds \"%s\"", p->c_str());
    }
    {    // no arguments, in used memory
        struct Plain {
            int   a;
            char  b[5];
            void* c;
            Trivial t;
        };
        using P = fn::fast_pimpl<Plain, sizeof(Plain) + 8, alignof(Plain)>;
        using Q = fn::fast_pimpl<long, sizeof(long), alignof(long)>;
        alignas(P) unsigned char room[sizeof(P)];
        alignas(Q) unsigned char room2[sizeof(Q)];
        vf::garbage(room, 1 + static_cast<int>(s.below(255)), sizeof room);
        vf::garbage(room2, 1 + static_cast<int>(s.below(255)), sizeof room2);
        P*         p = new (room) P();
        Q*         q = new (room2) Q;
        bool const z = (*p)->a == 0 && (*p)->b[0] == 0 && (*p)->b[4] == 0 && (*p)->c == nullptr && (*p)->t.c[1] == 0 && (*p)->t.u == 0 && **q == 0;
        VF_EXPECT("C31", z, "no-arguments", "an object made without arguments is not what an empty argument list gives: it kept what the memory held");
        p->~P();
        q->~Q();
    }
    vf::count("pimpl.argument_lists");
}

void
vf_directed()
{
}

void
vf_case(Src& s)
{
    g_live.clear();
    g_bomb  = 0;
    g_armed = false;
    switch (s.below(12)) {
    case 0:
        world<8, 1, true, 0, 1, true>(s);
        break;
    case 1:
        world<8, 1, true, 24, 1, false>(s);
        break;
    case 2:
        world<16, 3, true, 0, 1, false>(s);
        break;
    case 3:
        world<64, 5, true, 64, 1, false>(s);
        break;
    case 4:
        world<8, 30, true, 16, 4, false>(s);
        break;
    case 5:
        world<8, 2, false, 0, 1, true>(s);
        break;
    case 6:
        world<32, 2, false, 32, 2, false>(s);
        break;
    case 7:
        plain_world<std::string, 0>(s, "string");
        vf::nontrivial();
        break;
    case 8:
        plain_world<std::vector<int>, 8>(s, "vector");
        vf::nontrivial();
        break;
    case 9:
        plain_world<Trivial, 1>(s, "trivial struct");
        plain_world<double, 8>(s, "double");
        plain_world<char, 0>(s, "char");
        vf::nontrivial();
        break;
    case 10:
        plain_world<std::unique_ptr<int>, 0>(s, "unique_ptr");
        vf::nontrivial();
        break;
    default:
        vf_args(s);
        break;
    }
}
