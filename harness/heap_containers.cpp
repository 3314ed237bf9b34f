// C04: standard containers on a static heap against the same containers on the default allocator.
#include "vf.hpp"

#include <xitren/allocators/static_heap.hpp>
#include <xitren/allocators/static_heap_allocator.hpp>

#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace xitren::allocators;
using vf::Src;
using vf::tr;

static constexpr std::size_t HS = 4000;
using heap_t                    = static_heap<HS>;
template <class T>
using A = static_heap_allocator<T, HS>;

#ifndef VAL_ALIGN
#    define VAL_ALIGN
#endif
static long g_live = 0;
/// Element that knows where it lives: a bitwise move or a clobber shows.
struct VAL_ALIGN Val {
    int        v;
    Val const* self;
    long       pad;
    Val(int x = 0) : v{x}, self{this}, pad{~long(x)} { g_live++; }
    Val(Val const& o) noexcept : v{o.get()}, self{this}, pad{~long(v)} { g_live++; }
    Val(Val&& o) noexcept : v{o.get()}, self{this}, pad{~long(v)} { g_live++; }
    Val&
    operator=(Val const& o) noexcept
    {
        check();
        v   = o.get();
        pad = ~long(v);
        return *this;
    }
    ~Val()
    {
        check();
        self = nullptr;
        g_live--;
    }
    void
    check() const
    {
        VF_EXPECT("C04", self == this && reinterpret_cast<std::size_t>(this) % alignof(Val) == 0 && pad == ~long(v), "element-corrupt",
                  "an element on the heap was overwritten, moved bitwise, or used outside its lifetime");
    }
    int
    get() const
    {
        check();
        return v;
    }
    bool
    operator<(Val const& o) const
    {
        return get() < o.get();
    }
    bool
    operator==(Val const& o) const
    {
        return get() == o.get();
    }
};

struct P {    // parameters of one operation, the same for both containers
    int         op, v;
    std::size_t a, b, n;
};

template <class C>
auto
at(C& c, std::size_t k)
{
    auto it = c.begin();
    std::advance(it, c.size() ? k % (c.size() + 1) : 0);
    return it;
}

// Each family: number of operations, whether an operation has the strong guarantee, its effect, a snapshot.
template <class C>
struct VecF {
    static constexpr int         ops = 17;
    static constexpr char const* name = "vector";
    static bool
    strong(int op)
    {
        return op == 0 || op == 1 || op == 2 || op == 3 || op == 4 || op == 5;    // single element at the end, reserve, resize...
    }
    static void
    apply(C& c, C& o, P const& p)
    {
        switch (p.op) {
        case 0:
        case 1:
            c.push_back(Val{p.v});
            break;
        case 2:
            c.emplace_back(p.v);
            break;
        case 3:
            c.reserve(c.size() + p.n % 24);
            break;
        case 4:
            c.resize(p.n % 24);
            break;
        case 5:
            c.shrink_to_fit();
            break;
        case 6:
            c.insert(at(c, p.a), Val{p.v});
            break;
        case 7:
            c.insert(at(c, p.a), p.n % 7, Val{p.v});
            break;
        case 8:
            if (!c.empty())
                c.erase(c.begin() + p.a % c.size());
            break;
        case 9: {
            auto x = c.size() ? p.a % c.size() : 0, y = c.size() ? x + p.b % (c.size() - x + 1) : 0;
            c.erase(c.begin() + x, c.begin() + y);
            break;
        }
        case 10:
            if (!c.empty())
                c.pop_back();
            break;
        case 11:
            c.assign(p.n % 20, Val{p.v});
            break;
        case 12:
            c.insert(at(c, p.a), o.begin(), o.end());
            break;
        case 13:
            c = o;
            break;
        case 14:
            c = std::move(o);
            o.clear();
            break;
        case 15:
            c.swap(o);
            break;
        case 16: {
            C tmp(c, c.get_allocator());
            C tmp2(std::move(tmp));
            tmp2.push_back(Val{p.v});
            o = std::move(tmp2);
            break;
        }
        }
    }
    static std::vector<int>
    snap(C const& c)
    {
        std::vector<int> r;
        for (auto& x : c)
            r.push_back(x.get());
        return r;
    }
    static void
    load(C& c, std::vector<int> const& s)
    {
        c.clear();
        for (int x : s)
            c.push_back(Val{x});
    }
};
template <class C>
struct DequeF {
    static constexpr int         ops = 12;
    static constexpr char const* name = "deque";
    static bool
    strong(int op)
    {
        return op <= 3;
    }
    static void
    apply(C& c, C& o, P const& p)
    {
        switch (p.op) {
        case 0:
        case 1:
            c.push_back(Val{p.v});
            break;
        case 2:
        case 3:
            c.push_front(Val{p.v});
            break;
        case 4:
            if (!c.empty())
                c.pop_back();
            break;
        case 5:
            if (!c.empty())
                c.pop_front();
            break;
        case 6:
            c.insert(at(c, p.a), Val{p.v});
            break;
        case 7:
            if (!c.empty())
                c.erase(c.begin() + p.a % c.size());
            break;
        case 8:
            c.resize(p.n % 40);
            break;
        case 9:
            c = o;
            break;
        case 10:
            c = std::move(o);
            o.clear();
            break;
        case 11:
            c.swap(o);
            break;
        }
    }
    static auto
    snap(C const& c)
    {
        return VecF<C>::snap(c);
    }
    static void
    load(C& c, std::vector<int> const& s)
    {
        VecF<C>::load(c, s);
    }
};
template <class C>
struct ListF {
    static constexpr int         ops = 19;
    static constexpr char const* name = "list";
    static bool
    strong(int op)
    {
        return op <= 5;
    }
    static void
    apply(C& c, C& o, P const& p)
    {
        switch (p.op) {
        case 0:
            c.push_back(Val{p.v});
            break;
        case 1:
            c.push_front(Val{p.v});
            break;
        case 2:
            c.emplace_back(p.v);
            break;
        case 3:
            c.insert(at(c, p.a), Val{p.v});
            break;
        case 4:
            c.insert(at(c, p.a), p.n % 6, Val{p.v});
            break;
        case 5:
            c.insert(at(c, p.a), o.begin(), o.end());
            break;
        case 6:
            if (!c.empty())
                c.erase(std::next(c.begin(), p.a % c.size()));
            break;
        case 7:
            c.splice(at(c, p.a), o);
            break;
        case 8:
            if (!o.empty())
                c.splice(at(c, p.a), o, std::next(o.begin(), p.b % o.size()));
            break;
        case 9: {
            auto x = o.empty() ? 0 : p.b % o.size();
            c.splice(at(c, p.a), o, std::next(o.begin(), x), o.end());
            break;
        }
        case 10:
            c.sort();
            o.sort();
            c.merge(o);
            break;
        case 11:
            c.sort();
            break;
        case 12:
            c.reverse();
            break;
        case 13:
            c.unique();
            break;
        case 14:
            c.remove_if([&](Val const& x) { return x.get() % 3 == int(p.n % 3); });
            break;
        case 15:
            c = o;
            break;
        case 16:
            c = std::move(o);
            o.clear();
            break;
        case 17:
            c.swap(o);
            break;
        case 18:
            c.resize(p.n % 16);
            break;
        }
    }
    static auto
    snap(C const& c)
    {
        return VecF<C>::snap(c);
    }
    static void
    load(C& c, std::vector<int> const& s)
    {
        VecF<C>::load(c, s);
    }
};
template <class C>
struct MapF {
    static constexpr int         ops = 14;
    static constexpr char const* name = "map";
    static bool
    strong(int op)
    {
        return op <= 4;
    }
    static void
    apply(C& c, C& o, P const& p)
    {
        int const k = static_cast<int>(p.a % 24);
        switch (p.op) {
        case 0:
            c.insert_or_assign(k, Val{p.v});
            break;
        case 1:
            c.emplace(k, p.v);
            break;
        case 2:
            c.try_emplace(k, p.v);
            break;
        case 3:
            c[k] = Val{p.v};
            break;
        case 4:
            c.insert({k, Val{p.v}});
            break;
        case 5:
            c.erase(k);
            break;
        case 6:
            if (auto n = o.extract(k))
                c.insert(std::move(n));
            break;
        case 7:
            c.merge(o);
            break;
        case 8:
            c = o;
            break;
        case 9:
            c = std::move(o);
            o.clear();
            break;
        case 10:
            c.swap(o);
            break;
        case 11:
            if (p.n % 4 == 0)
                c.clear();
            break;
        case 12: {
            auto n = c.extract(k);
            if (n) {
                n.key() = static_cast<int>(p.b % 24);
                auto r  = c.insert(std::move(n));
                (void)r;
            }
            break;
        }
        case 13:
            c.insert(o.begin(), o.end());
            break;
        }
    }
    static std::vector<int>
    snap(C const& c)
    {
        std::vector<std::pair<int, int>> t;
        for (auto& [k, v] : c)
            t.push_back({k, v.get()});
        std::sort(t.begin(), t.end());
        std::vector<int> r;
        for (auto& [k, v] : t) {
            r.push_back(k);
            r.push_back(v);
        }
        return r;
    }
    static void
    load(C& c, std::vector<int> const& s)
    {
        c.clear();
        for (std::size_t i = 0; i + 1 < s.size(); i += 2)
            c.insert_or_assign(s[i], Val{s[i + 1]});
    }
};
template <class C>
struct UMapF : MapF<C> {
    static constexpr char const* name = "unordered_map";
    static bool
    strong(int op)
    {
        // a refused rehash leaves the element out; insert_or_assign/emplace/[] of one element are strong
        return op <= 4;
    }
};
template <class C>
struct StrF {
    static constexpr int         ops = 10;
    static constexpr char const* name = "string";
    static bool
    strong(int op)
    {
        return op <= 6;
    }
    static void
    apply(C& c, C& o, P const& p)
    {
        auto ch = static_cast<char>('a' + p.v % 26);
        switch (p.op) {
        case 0:
            c.push_back(ch);
            break;
        case 1:
            c.append(p.n % 40, ch);
            break;
        case 2:
            c += o;
            break;
        case 3:
            c.insert(c.empty() ? 0 : p.a % (c.size() + 1), p.n % 9, ch);
            break;
        case 4:
            c.reserve(p.n * 3 % 200);
            break;
        case 5:
            c.assign(p.n % 100, ch);
            break;
        case 6:
            if (!c.empty())
                c.erase(p.a % c.size(), p.b % 20);
            break;
        case 7:
            c = o;
            break;
        case 8:
            c = std::move(o);
            o.clear();
            break;
        case 9:
            c.swap(o);
            break;
        }
    }
    static std::vector<int>
    snap(C const& c)
    {
        return {c.begin(), c.end()};
    }
    static void
    load(C& c, std::vector<int> const& s)
    {
        c.clear();
        for (int x : s)
            c.push_back(static_cast<char>(x));
    }
};

static std::string
show(std::vector<int> const& v)
{
    std::string s;
    for (std::size_t i = 0; i < v.size() && i < 24; i++)
        s += std::to_string(v[i]) + " ";
    return s + vf::fmt("(%zu)", v.size());
}

/// Three containers of one family (two on heap 0, one on heap 1), each beside its twin on the default allocator.
template <template <class> class F, class H, class S>
struct Trio {
    std::vector<std::unique_ptr<H>> h;
    std::vector<std::unique_ptr<S>> s;
    heap_t*                         heap[2];
    Trio(heap_t& a, heap_t& b) : heap{&a, &b}
    {
        using al = typename H::allocator_type;
        h.push_back(std::make_unique<H>(al(a)));
        h.push_back(std::make_unique<H>(al(a)));
        h.push_back(std::make_unique<H>(al(b)));
        for (int i = 0; i < 3; i++)
            s.push_back(std::make_unique<S>());
    }
    void
    compare(int i, char const* when)
    {
        auto x = F<H>::snap(*h[i]);
        auto y = F<S>::snap(*s[i]);
        VF_REQUIRE("C04", x == y, "contents-differ", "%s %d %s: on the static heap: %s; on the default allocator: %s", F<H>::name,
                   i, when, show(x).c_str(), show(y).c_str());
        VF_EXPECT("C04", h[i]->size() == s[i]->size(), "size-differs", "%s %d: size %zu / %zu", F<H>::name, i, h[i]->size(),
                  s[i]->size());
    }
    static bool
    needs_same_heap(int op)
    {
        if constexpr (std::is_same_v<F<H>, VecF<H>>)
            return op == 15;
        if constexpr (std::is_same_v<F<H>, DequeF<H>>)
            return op == 11;
        if constexpr (std::is_same_v<F<H>, ListF<H>>)
            return op == 7 || op == 8 || op == 9 || op == 10 || op == 17;
        if constexpr (std::is_same_v<F<H>, StrF<H>>)
            return op == 9;
        return op == 6 || op == 7 || op == 10;
    }
    void
    step(Src& r)
    {
        int i = static_cast<int>(r.below(3)), j = static_cast<int>(r.below(2));
        j     = i == 0 ? 1 + j : i == 1 ? (j ? 2 : 0) : j;
        P p{static_cast<int>(r.below(F<H>::ops)), static_cast<int>(r.below(50)), r.below(1000), r.below(1000), r.below(1000)};
        if (needs_same_heap(p.op) && (i == 2 || j == 2)) {
            i = 0;
            j = 1;
        }
        std::size_t f0 = heap[i == 2]->free_heap_size();
        auto        bi = F<H>::snap(*h[i]), bj = F<H>::snap(*h[j]);
        tr("%s[%d] op %d with [%d] v=%d a=%zu b=%zu n=%zu (heap free %zu)", F<H>::name, i, p.op, j, p.v, p.a, p.b, p.n, f0);
        vf::mix(p.op * 64 + i * 8 + j);
        bool oom = false;
        try {
            F<H>::apply(*h[i], *h[j], p);
        } catch (std::bad_alloc&) {
            oom = true;
        }
        vf::count("containers.ops");
        if (!oom) {
            F<S>::apply(*s[i], *s[j], p);
            compare(i, "after an operation");
            compare(j, "after an operation (other)");
            return;
        }
        vf::count("containers.out_of_heap");
        vf::nontrivial();
        tr("   -> bad_alloc");
        auto ai = F<H>::snap(*h[i]), aj = F<H>::snap(*h[j]);
        if (F<H>::strong(p.op)) {
            vf::count("containers.strong_checked");
            VF_REQUIRE("C04", ai == bi && aj == bj, "strong-guarantee",
                       "%s op %d ran out of heap and changed the container: before %s after %s", F<H>::name, p.op,
                       show(bi).c_str(), show(ai).c_str());
        }
        F<S>::load(*s[i], ai);
        F<S>::load(*s[j], aj);
        compare(i, "after bad_alloc");
    }
    void
    equality()
    {
        auto a0 = h[0]->get_allocator(), a1 = h[1]->get_allocator(), b0 = h[2]->get_allocator();
        VF_EXPECT("C04", a0 == a1 && !(a0 != a1), "equal-heap-unequal", "%s: allocators of one heap compare unequal", F<H>::name);
        VF_EXPECT("C04", !(a0 == b0) && a0 != b0, "other-heap-equal", "%s: allocators of different heaps compare equal", F<H>::name);
        A<long long> const x(a0), y(b0);
        A<char> const      z(a1);
        VF_EXPECT("C04", x == z && !(x == y) && !(x != z) && x != y, "rebound-equality",
                  "%s: rebound allocators do not compare by heap", F<H>::name);
        typename A<int>::template rebind<short>::other w(x);
        VF_EXPECT("C04", w == a0 && w != b0, "rebound-equality", "%s: rebound allocator lost its heap", F<H>::name);
        vf::count("containers.equality");
    }
};

template <class T>
static bool
aligned_ok(heap_t& h)
{
    A<T>             a(h);
    bool             ok = true;
    std::vector<T*>  ps;
    for (int i = 0; i < 4; i++) {
        T* p = nullptr;
        try {
            p = a.allocate(1);
        } catch (std::bad_alloc&) {
            break;
        }
        if (reinterpret_cast<std::size_t>(p) % alignof(T))
            ok = false;
        ps.push_back(p);
    }
    for (T* p : ps)
        a.deallocate(p, 1);
    return ok;
}

struct alignas(4) A4 {
    char x[4];
};
struct alignas(32) A32 {
    char x[32];
};
struct alignas(64) A64 {
    char x[128];
};
struct A8 {
    double x;
    char   y;
};

void
vf_case(Src& r)
{
    auto        ha = std::make_unique<heap_t>(), hb = std::make_unique<heap_t>();
    std::size_t ia = ha->free_heap_size(), ib = hb->free_heap_size();
    long        live0 = g_live;
    // ballast: how much room the containers have varies
    std::vector<void*> ballast;
    std::size_t const  spare = r.chance(1, 3) ? 4000 : 300 + r.below(3000);
    while (ha->free_heap_size() > spare) {
        void* p = ha->allocate(16 + r.below(200));
        if (!p)
            break;
        ballast.push_back(p);
    }
    for (std::size_t i = 0; i < ballast.size(); i += 2 + r.below(3)) {    // and how fragmented it is
        if (r.chance(1, 2)) {
            ha->deallocate(ballast[i]);
            ballast[i] = nullptr;
        }
    }
    try {
        auto body = [&](auto& x) {
            int n = static_cast<int>(10 + r.below(70));
            x.equality();
            for (int i = 0; i < n && !r.dry(); i++)
                x.step(r);
            return 0;
        };
        using VH = std::vector<Val, A<Val>>;
        using DH = std::deque<Val, A<Val>>;
        using LH = std::list<Val, A<Val>>;
        using MH = std::map<int, Val, std::less<int>, A<std::pair<int const, Val>>>;
        using UH = std::unordered_map<int, Val, std::hash<int>, std::equal_to<int>, A<std::pair<int const, Val>>>;
        using SH = std::basic_string<char, std::char_traits<char>, A<char>>;
        // a second, always present user of the heap: its contents must survive everything
        std::optional<LH> by(std::in_place, A<Val>(*ha));
        int               bystander = 0;
        try {
            for (; bystander < 3; bystander++)
                by->push_back(Val{bystander});
        } catch (std::bad_alloc&) {
        }
        try {
            switch (r.below(7)) {
            case 0: {
                Trio<VecF, VH, std::vector<Val>> t(*ha, *hb);
                body(t);
                break;
            }
            case 1: {
                Trio<DequeF, DH, std::deque<Val>> t(*ha, *hb);
                body(t);
                break;
            }
            case 2:
            case 3: {
                Trio<ListF, LH, std::list<Val>> t(*ha, *hb);
                body(t);
                break;
            }
            case 4: {
                Trio<MapF, MH, std::map<int, Val>> t(*ha, *hb);
                body(t);
                break;
            }
            case 5: {
                Trio<UMapF, UH, std::unordered_map<int, Val>> t(*ha, *hb);
                body(t);
                break;
            }
            default: {
                Trio<StrF, SH, std::string> t(*ha, *hb);
                body(t);
                break;
            }
            }
        } catch (std::bad_alloc&) {
            tr("heap too small for the empty containers");
        }
        // allocate_shared, and alignment for ordinary types
        try {
            auto sp = std::allocate_shared<Val>(A<Val>(*ha), 7);
            auto q  = sp;
            VF_EXPECT("C04", q->get() == 7, "allocate-shared", "allocate_shared object changed");
        } catch (std::bad_alloc&) {
        }
        VF_EXPECT("C04", aligned_ok<char>(*ha) && aligned_ok<A4>(*ha) && aligned_ok<double>(*ha) && aligned_ok<A8>(*ha)
                             && aligned_ok<void*>(*ha),
                  "alignment", "storage not aligned for a type of ordinary alignment");
        VF_EXPECT("C04", aligned_ok<long double>(*ha) && aligned_ok<A32>(*ha) && aligned_ok<A64>(*ha), "overaligned",
                  "storage not aligned for an over-aligned type");
        int k = 0;
        for (auto& x : *by)
            VF_EXPECT("C04", x.get() == k++, "bystander", "another container of the heap changed");
        VF_EXPECT("C04", k == bystander, "bystander", "another container of the heap lost elements");
        by.reset();
    } catch (vf::Abort&) {
        throw;
    }
    for (void* p : ballast)
        ha->deallocate(p);
    VF_EXPECT("C04", ha->free_heap_size() == ia && hb->free_heap_size() == ib, "storage-kept",
              "destroying all containers left %zu/%zu and %zu/%zu bytes free", ha->free_heap_size(), ia, hb->free_heap_size(), ib);
    VF_EXPECT("C04", g_live == live0, "elements-leaked", "%ld elements were not destroyed", g_live - live0);
    void* whole = ha->allocate(ia - 64);
    VF_EXPECT("C04", whole != nullptr, "storage-fragmented", "after destroying all containers %zu of %zu bytes cannot be had", ia - 64, ia);
    ha->deallocate(whole);
    vf::count("containers.cases");
    if (!vf::g_nontrivial)
        vf::nontrivial();
}

void
vf_directed()
{
    // over-aligned element types at every position relative to their alignment
    alignas(64) static unsigned char room[sizeof(heap_t) + 64];
    for (std::size_t first = 0; first < 80; first += 8) {
        heap_t* h = new (room) heap_t{};
        void*   p = first ? h->allocate(first) : nullptr;
        VF_EXPECT("C04", aligned_ok<long double>(*h) && aligned_ok<A32>(*h) && aligned_ok<A64>(*h), "overaligned",
                  "storage not aligned for an over-aligned type");
        h->deallocate(p);
        h->~heap_t();
    }
    vf::count("containers.overaligned_probe");
}
