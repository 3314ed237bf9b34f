// C27: little/big-endian integers.  C28: serialising values.
#include "vf.hpp"

#include <algorithm>
#include <deque>
#include <xitren/func/data.hpp>

#include <memory>
#if defined(VF_ASAN)
#    include <sanitizer/asan_interface.h>
#endif

namespace fn = xitren::func;
using vf::Src;
using vf::tr;

// ================================================================ C27
template <class T>
static T
ref_swap(T v)
{
    T r = 0;
    for (std::size_t i = 0; i < sizeof(T); i++)
        r = static_cast<T>(r << 8 | ((v >> (8 * i)) & 0xff));
    return r;
}
template <class E, class T, bool Big>
static void
check_value(T v, unsigned char* at)    // at: any address, room for the integer and a guard byte before and after
{
    auto bytes_ok = [&](unsigned char const* p) {
        for (std::size_t i = 0; i < sizeof(T); i++) {
            auto want = static_cast<unsigned char>(v >> (8 * (Big ? sizeof(T) - 1 - i : i)));
            if (p[i] != want)
                return false;
        }
        return true;
    };
    char const* nm = Big ? "msb_t" : "lsb_t";
    at[-1]         = 0xA5;
    at[sizeof(T)]  = 0x5A;
    E* e           = new (at) E(v);    // from an lvalue
    VF_EXPECT("C27", bytes_ok(at), "bytes", "%s of %zu bytes: %llx is not stored in order", nm, sizeof(T), (unsigned long long)v);
    E const& c = *e;
    VF_EXPECT("C27", c.get() == v, "value", "%s of %zu bytes: %llx is read back as %llx", nm, sizeof(T), (unsigned long long)v, (unsigned long long)c.get());
    E* e2 = new (at) E(T(v));    // from an rvalue
    VF_EXPECT("C27", bytes_ok(at) && e2->get() == v, "bytes-rvalue", "%s of %zu bytes built from an rvalue: %llx is not stored in order", nm, sizeof(T), (unsigned long long)v);
    E* e3 = new (at) E();
    VF_EXPECT("C27", e3->get() == 0, "default", "a new %s is %llx", nm, (unsigned long long)e3->get());
    for (std::size_t i = 0; i < sizeof(T); i++)
        at[i] = static_cast<unsigned char>(0x77 + i);
    E& r = (*e3 = v);
    VF_EXPECT("C27", bytes_ok(at) && &r == e3 && e3->get() == v, "assign", "%s of %zu bytes assigned %llx does not hold it in order", nm, sizeof(T), (unsigned long long)v);
    E copy(*e3);
    VF_EXPECT("C27", bytes_ok(reinterpret_cast<unsigned char const*>(&copy)) && copy == *e3, "copy", "a copied %s differs", nm);
    E other;
    other = copy;
    VF_EXPECT("C27", other.get() == v, "copy", "an assigned %s differs", nm);
    VF_EXPECT("C27", at[-1] == 0xA5 && at[sizeof(T)] == 0x5A, "neighbours", "writing a %s of %zu bytes changed the bytes beside it", nm, sizeof(T));
}
template <class E, class T>
static void
check_pair(T a, T b, char const* nm)
{
    struct __attribute__((packed)) Two {
        char pad;
        E    x;
        E    y;
    };
    Two const        t{0, E(a), E(b)};
    auto const&      x = t.x;
    auto const&      y = t.y;
    E                mx(a), my(b);
    bool const       ok = (x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b)
                    && (mx == my) == (a == b) && (mx != my) == (a != b) && (mx < my) == (a < b) && (mx > my) == (a > b) && (mx <= my) == (a <= b) && (mx >= my) == (a >= b);
    VF_EXPECT("C27", ok, "compare", "%s of %zu bytes: %llx and %llx do not compare as the values do", nm, sizeof(T), (unsigned long long)a, (unsigned long long)b);
}
template <class T>
static T
some(Src& s)
{
    switch (s.below(6)) {
    case 0:
        return static_cast<T>(T{1} << s.below(8 * sizeof(T)));
    case 1:
        return static_cast<T>((T{1} << s.below(8 * sizeof(T))) - 1);
    case 2:
        return static_cast<T>(~(T{0xff} << (8 * s.below(sizeof(T)))));
    case 3: {
        T v = 0;
        for (std::size_t i = 0; i < sizeof(T); i++)
            v = static_cast<T>(v << 8 | (s.chance(1, 2) ? s.below(3) : 0xfd + s.below(3)));
        return v;
    }
    default:
        return static_cast<T>(s.u64());
    }
}
template <class T>
static void
endian(Src& s)
{
    static_assert(sizeof(fn::lsb_t<T>) > 0);
    VF_EXPECT("C27", sizeof(fn::lsb_t<T>) == sizeof(T) && sizeof(fn::msb_t<T>) == sizeof(T), "size", "an integer of %zu bytes takes %zu/%zu", sizeof(T), sizeof(fn::lsb_t<T>),
              sizeof(fn::msb_t<T>));
    VF_EXPECT("C27", alignof(fn::lsb_t<T>) == 1 && alignof(fn::msb_t<T>) == 1, "alignment", "alignment %zu/%zu", alignof(fn::lsb_t<T>), alignof(fn::msb_t<T>));
    unsigned char room[32];
    for (int i = 0; i < 60; i++) {
        T v = some<T>(s);
        unsigned char* at = room + 1 + s.below(9);
        check_value<fn::lsb_t<T>, T, false>(v, at);
        check_value<fn::msb_t<T>, T, true>(v, at);
        VF_EXPECT("C27", fn::swap(v) == ref_swap(v) && fn::swap(fn::swap(v)) == v, "swap", "swap(%llx) is %llx", (unsigned long long)v, (unsigned long long)fn::swap(v));
        T w = s.chance(1, 4) ? v : s.chance(1, 3) ? ref_swap(v) : s.chance(1, 2) ? static_cast<T>(v + s.range(-1, 1)) : some<T>(s);
        check_pair<fn::lsb_t<T>>(v, w, "lsb_t");
        check_pair<fn::msb_t<T>>(v, w, "msb_t");
        vf::seen(v * 3 + sizeof(T));
    }
    vf::count("endian.values", 60);
}

// ================================================================ C28
/// A random access iterator over bytes that notes where it is read and written.
struct Log28 {
    long lo = 0, hi = -1;    // touched range
    long n  = 0;
    void
    touch(long i)
    {
        n++;
        if (hi < lo) {
            lo = hi = i;
        } else {
            lo = std::min(lo, i);
            hi = std::max(hi, i);
        }
    }
};
template <bool Const>
struct LogIt {
    using iterator_category = std::random_access_iterator_tag;
    using value_type        = std::uint8_t;
    using difference_type   = std::ptrdiff_t;
    using byte              = std::conditional_t<Const, std::uint8_t const, std::uint8_t>;
    using pointer           = byte*;
    using reference         = byte&;
    byte*  base{};
    long   i{};
    Log28* log{};
    reference
    operator*() const
    {
        log->touch(i);
        return base[i];
    }
    reference
    operator[](difference_type k) const
    {
        log->touch(i + k);
        return base[i + k];
    }
    LogIt&
    operator++()
    {
        ++i;
        return *this;
    }
    LogIt
    operator++(int)
    {
        auto t = *this;
        ++i;
        return t;
    }
    LogIt&
    operator--()
    {
        --i;
        return *this;
    }
    LogIt
    operator--(int)
    {
        auto t = *this;
        --i;
        return t;
    }
    LogIt&
    operator+=(difference_type k)
    {
        i += k;
        return *this;
    }
    LogIt&
    operator-=(difference_type k)
    {
        i -= k;
        return *this;
    }
    friend LogIt
    operator+(LogIt a, difference_type k)
    {
        a.i += k;
        return a;
    }
    friend LogIt
    operator+(difference_type k, LogIt a)
    {
        a.i += k;
        return a;
    }
    friend LogIt
    operator-(LogIt a, difference_type k)
    {
        a.i -= k;
        return a;
    }
    friend difference_type
    operator-(LogIt a, LogIt b)
    {
        return a.i - b.i;
    }
    friend bool
    operator==(LogIt a, LogIt b)
    {
        return a.i == b.i;
    }
    friend auto
    operator<=>(LogIt a, LogIt b)
    {
        return a.i <=> b.i;
    }
};
static_assert(std::random_access_iterator<LogIt<false>> && std::random_access_iterator<LogIt<true>>);

struct __attribute__((packed)) Pk {
    std::uint8_t  a;
    std::uint32_t b;
    std::uint16_t c;
};
struct Pad {    // has padding
    std::uint8_t  a;
    std::uint32_t b;
    std::uint8_t  c;
    double        d;
};
enum class En : std::uint16_t {};
struct Big {
    std::array<std::uint8_t, 700> x;
    std::uint64_t                 y[4];
};
struct Nest {
    fn::lsb_t<std::uint16_t> l;
    fn::msb_t<std::uint32_t> m;
    Pk                       p[3];
    char                     t[5];
};
using Arr = std::array<std::uint32_t, 9>;
struct Bits {
    unsigned a : 3, b : 13, c : 16;
};

// mask of the bytes that hold values (padding is anyone's)
template <class T>
static std::vector<bool>
mask()
{
    std::vector<bool> m(sizeof(T), true);
    if constexpr (std::is_same_v<T, Pad>) {
        std::fill(m.begin(), m.end(), false);
        auto on = [&](std::size_t off, std::size_t n) { std::fill(m.begin() + static_cast<long>(off), m.begin() + static_cast<long>(off + n), true); };
        on(offsetof(Pad, a), 1);
        on(offsetof(Pad, b), 4);
        on(offsetof(Pad, c), 1);
        on(offsetof(Pad, d), 8);
    }
    return m;
}
template <class T>
static T
random_value(Src& s)
{
    T v;
    if constexpr (std::is_same_v<T, bool>)
        v = s.chance(1, 2);
    else {
        unsigned char b[sizeof(T)];
        int const     how = static_cast<int>(s.below(4));
        for (std::size_t i = 0; i < sizeof(T); i++)
            b[i] = how == 0 ? 0xff : how == 1 ? static_cast<unsigned char>(i + 1) : static_cast<unsigned char>(s.byte());
        std::memcpy(&v, b, sizeof v);
    }
    return v;
}
template <class T>
static void
bytes(Src& s, char const* name)
{
    static std::vector<bool> const m = mask<T>();
    constexpr std::size_t          N = sizeof(T);
    auto                           same = [&](void const* a, void const* b) {
        auto* x = static_cast<unsigned char const*>(a);
        auto* y = static_cast<unsigned char const*>(b);
        for (std::size_t i = 0; i < N; i++)
            if (m[i] && x[i] != y[i])
                return false;
        return true;
    };
    using D = fn::data<T>;
    for (int k = 0; k < 6; k++) {
        auto   box = std::make_unique<T>(random_value<T>(s));    // read past it: an error
        T const& v = *box;
        std::array<std::uint8_t, N> const a = D::serialize(v);
        VF_EXPECT("C28", same(a.data(), &v), "array", "serialising a %s gives other bytes than the object's", name);
        T back = D::deserialize(a.begin());
        VF_EXPECT("C28", same(&back, &v), "roundtrip", "a %s does not come back from its bytes", name);
        // through pointers to exactly the bytes, at odd addresses
        {
            std::unique_ptr<std::uint8_t[]> q(new std::uint8_t[N]);
            D::serialize(v, q.get());
            VF_EXPECT("C28", same(q.get(), &v), "pointer", "serialising a %s to a pointer gives other bytes", name);
            std::uint8_t const* cq = q.get();
            T                   b1 = D::deserialize(cq);
            T                   b2 = D::deserialize(q.get());
            VF_EXPECT("C28", same(&b1, &v) && same(&b2, &v), "roundtrip-pointer", "a %s does not come back from a pointer", name);
            std::unique_ptr<std::uint8_t[]> o(new std::uint8_t[N + 3]);
            std::memset(o.get(), 0xC3, N + 3);
            D::serialize(v, o.get() + 1);
            VF_EXPECT("C28", same(o.get() + 1, &v) && o[0] == 0xC3 && o[N + 1] == 0xC3 && o[N + 2] == 0xC3, "neighbours", "serialising a %s wrote beside its %zu bytes", name, N);
        }
        // containers
        {
            std::vector<std::uint8_t> w(N + 4, 0x3C);
            auto                      off = static_cast<long>(s.below(5));
            D::serialize(v, w.begin() + off);
            bool ok = same(w.data() + off, &v);
            for (long i = 0; i < static_cast<long>(w.size()); i++)
                ok = ok && ((i >= off && i < off + static_cast<long>(N)) || w[static_cast<std::size_t>(i)] == 0x3C);
            VF_EXPECT("C28", ok, "vector", "serialising a %s into a vector gives other bytes or writes beside them", name);
            T b = D::deserialize(w.cbegin() + off);
            VF_EXPECT("C28", same(&b, &v), "roundtrip-vector", "a %s does not come back from a vector", name);
            if (off == 4) {
                T e = D::deserialize(w.begin() + 4);    // ends with the vector
                VF_EXPECT("C28", same(&e, &v), "roundtrip-vector", "a %s does not come back from a vector", name);
            }
            std::deque<std::uint8_t> d(s.below(600) + N, 0x11);
            auto                     doff = static_cast<long>(s.below(d.size() - N + 1));
            D::serialize(v, d.begin() + doff);
            std::vector<std::uint8_t> dc(d.begin() + doff, d.begin() + doff + static_cast<long>(N));
            T                         db = D::deserialize(d.cbegin() + doff);
            VF_EXPECT("C28", same(dc.data(), &v) && same(&db, &v), "deque", "a %s does not come back from a deque", name);
            for (long i = 0; i < static_cast<long>(d.size()); i++)
                if ((i < doff || i >= doff + static_cast<long>(N)) && d[static_cast<std::size_t>(i)] != 0x11)
                    VF_EXPECT("C28", false, "deque-neighbours", "serialising a %s into a deque wrote beside its bytes", name);
            std::reverse_iterator rb(w.begin() + off + static_cast<long>(N));
            T                     rv = D::deserialize(rb);
            std::uint8_t          rr[N];
            for (std::size_t i = 0; i < N; i++)
                rr[i] = w[static_cast<std::size_t>(off) + N - 1 - i];
            if constexpr (!std::is_same_v<T, Pad>)
                VF_EXPECT("C28", std::memcmp(&rv, rr, N) == 0, "reverse", "a %s read backwards differs", name);
        }
        // an iterator that knows what was touched
        {
            std::vector<std::uint8_t> w(N + 8, 0x99);
            Log28                     lw, lr;
            D::serialize(v, LogIt<false>{w.data(), 4, &lw});
            VF_EXPECT("C28", lw.lo == 4 && lw.hi == 3 + static_cast<long>(N), "write-range", "serialising a %s touched bytes %ld..%ld of %zu", name, lw.lo - 4, lw.hi - 4, N);
            T b = D::deserialize(LogIt<true>{w.data(), 4, &lr});
            VF_EXPECT("C28", lr.lo == 4 && lr.hi == 3 + static_cast<long>(N), "read-range", "deserialising a %s read bytes %ld..%ld of %zu", name, lr.lo - 4, lr.hi - 4, N);
            VF_EXPECT("C28", same(w.data() + 4, &v) && same(&b, &v), "roundtrip-iterator", "a %s does not come back through an iterator", name);
        }
        std::uint64_t h = N;
        for (std::size_t i = 0; i < N; i++)
            if (m[i])
                h = h * 1099511628211ull + a[i];
        vf::seen(h);
    }
    vf::count("data.values", 6);
}

void
vf_case(Src& s)
{
#ifdef ENDIAN
    switch (s.below(3)) {
    case 0:
        return endian<std::uint16_t>(s);
    case 1:
        return endian<std::uint32_t>(s);
    default:
        return endian<std::uint64_t>(s);
    }
#else
    switch (s.below(14)) {
    case 0:
        return bytes<std::uint8_t>(s, "uint8_t");
    case 1:
        return bytes<std::uint16_t>(s, "uint16_t");
    case 2:
        return bytes<std::int32_t>(s, "int32_t");
    case 3:
        return bytes<std::uint64_t>(s, "uint64_t");
    case 4:
        return bytes<float>(s, "float");
    case 5:
        return bytes<double>(s, "double");
    case 6:
        return bytes<bool>(s, "bool");
    case 7:
        return bytes<En>(s, "enumeration");
    case 8:
        return bytes<Pk>(s, "packed structure");
    case 9:
        return bytes<Pad>(s, "padded structure");
    case 10:
        return bytes<Big>(s, "large structure");
    case 11:
        return bytes<Nest>(s, "nested structure");
    case 12:
        return bytes<Bits>(s, "bit-field structure");
    default:
        return bytes<Arr>(s, "array");
    }
#endif
}
void
vf_directed()
{
#ifdef ENDIAN
    // every 16-bit value, and every pair of neighbours and of 16-bit values with structured bytes
    unsigned char room[8];
    for (unsigned v = 0; v < 65536; v++) {
        auto t = static_cast<std::uint16_t>(v);
        check_value<fn::lsb_t<std::uint16_t>, std::uint16_t, false>(t, room + 1 + (v & 1));
        check_value<fn::msb_t<std::uint16_t>, std::uint16_t, true>(t, room + 1 + (v & 1));
        VF_EXPECT("C27", fn::swap(t) == ref_swap(t), "swap", "swap(%x) is %x", t, fn::swap(t));
        for (std::uint16_t w : {t, static_cast<std::uint16_t>(t + 1), static_cast<std::uint16_t>(t - 1), ref_swap(t), static_cast<std::uint16_t>(~t)}) {
            check_pair<fn::lsb_t<std::uint16_t>>(t, w, "lsb_t");
            check_pair<fn::msb_t<std::uint16_t>>(t, w, "msb_t");
        }
    }
    unsigned const bs[] = {0, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff};
    for (unsigned a : bs)
        for (unsigned b : bs)
            for (unsigned c : bs)
                for (unsigned d : bs) {
                    check_pair<fn::lsb_t<std::uint16_t>>(static_cast<std::uint16_t>(a << 8 | b), static_cast<std::uint16_t>(c << 8 | d), "lsb_t");
                    check_pair<fn::msb_t<std::uint16_t>>(static_cast<std::uint16_t>(a << 8 | b), static_cast<std::uint16_t>(c << 8 | d), "msb_t");
                    std::uint32_t x = a << 24 | b << 16 | c << 8 | d;
                    std::uint64_t y = std::uint64_t{a} << 56 | std::uint64_t{b} << 40 | std::uint64_t{c} << 24 | std::uint64_t{d} << 8 | 0x0011002200330044ull;
                    for (unsigned sh = 0; sh < 32; sh += 8) {
                        check_pair<fn::lsb_t<std::uint32_t>>(x, x + (1u << sh), "lsb_t");
                        check_pair<fn::msb_t<std::uint32_t>>(x, x + (1u << sh), "msb_t");
                        check_pair<fn::lsb_t<std::uint64_t>>(y, y + (std::uint64_t{1} << (2 * sh)), "lsb_t");
                        check_pair<fn::msb_t<std::uint64_t>>(y, y + (std::uint64_t{1} << (2 * sh)), "msb_t");
                    }
                }
    vf::count("endian.all_16_bit_values", 65536);
#endif
}
