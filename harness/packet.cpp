// C29: packets.  C30: packet accessors.  (ACCESSOR selects the second)
#include "vf.hpp"

#include <algorithm>
#include <deque>
#include <iterator>
#include <tuple>
#include <xitren/func/packet.hpp>

#include <memory>
#if defined(VF_ASAN)
#    include <sanitizer/asan_interface.h>
#endif

namespace fn = xitren::func;
using vf::Src;
using vf::tr;

// ---- where the code under test let the checksum look
static std::uint8_t const* g_lo;    // allowed range, or null
static std::uint8_t const* g_hi;
static long                g_crc_calls, g_outside;

template <class It>
static std::vector<std::uint8_t>
taken(It b, It e)
{
    g_crc_calls++;
    if (g_lo) {
        auto const n = e - b;
        std::uint8_t const* p = n > 0 ? &*b : nullptr;
        if (n < 0 || (n > 0 && (p < g_lo || p + n > g_hi))) {
            g_outside++;
            return {};
        }
    }
    return std::vector<std::uint8_t>(b, e);
}
static std::uint64_t
crc_bits(std::vector<std::uint8_t> const& v, unsigned bits, std::uint64_t poly, std::uint64_t init)
{
    std::uint64_t const top = 1ull << (bits - 1), mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
    std::uint64_t       c = init & mask;
    for (auto b : v) {
        c ^= static_cast<std::uint64_t>(b) << (bits - 8);
        for (int i = 0; i < 8; i++)
            c = (c & top) ? ((c << 1) ^ poly) & mask : (c << 1) & mask;
    }
    return c;
}
struct Byte {    // a one-byte checksum value
    std::uint8_t v{};
    constexpr std::uint8_t
    get() const
    {
        return v;
    }
    constexpr bool operator==(Byte const&) const = default;
};
struct C8 {
    using value_type = Byte;
    template <class It>
    static value_type
    calculate(It b, It e)
    {
        return Byte{static_cast<std::uint8_t>(ref(taken(b, e)))};
    }
    static std::uint64_t
    ref(std::vector<std::uint8_t> const& v)
    {
        return crc_bits(v, 8, 0x07, 0x55);
    }
    static constexpr bool big = false;
};
struct C16 {
    using value_type = fn::lsb_t<std::uint16_t>;
    template <class It>
    static value_type
    calculate(It b, It e)
    {
        return value_type(static_cast<std::uint16_t>(ref(taken(b, e))));
    }
    static std::uint64_t
    ref(std::vector<std::uint8_t> const& v)
    {
        return crc_bits(v, 16, 0x1021, 0xffff);
    }
    static constexpr bool big = false;
};
struct C32 {
    using value_type = fn::msb_t<std::uint32_t>;
    template <class It>
    static value_type
    calculate(It b, It e)
    {
        return value_type(static_cast<std::uint32_t>(ref(taken(b, e))));
    }
    static std::uint64_t
    ref(std::vector<std::uint8_t> const& v)
    {
        return crc_bits(v, 32, 0x04C11DB7, 0xffffffff);
    }
    static constexpr bool big = true;
};
struct C64 {
    using value_type = fn::lsb_t<std::uint64_t>;
    template <class It>
    static value_type
    calculate(It b, It e)
    {
        return value_type(ref(taken(b, e)));
    }
    static std::uint64_t
    ref(std::vector<std::uint8_t> const& v)
    {
        return crc_bits(v, 64, 0x42F0E1EBA9EA3693ull, ~0ull);
    }
    static constexpr bool big = false;
};
template <class C>
static std::vector<std::uint8_t>
crc_bytes(std::vector<std::uint8_t> const& v)
{
    constexpr std::size_t     n = sizeof(typename C::value_type);
    std::uint64_t const       c = C::ref(v);
    std::vector<std::uint8_t> r(n);
    for (std::size_t i = 0; i < n; i++)
        r[i] = static_cast<std::uint8_t>(c >> (8 * (C::big ? n - 1 - i : i)));
    return r;
}

// ---- headers, fields, elements
struct H2 {
    std::uint8_t magic[2];
};
struct __attribute__((packed)) H5 {
    std::uint8_t  a;
    std::uint32_t b;
};
struct H6 {
    fn::lsb_t<std::uint16_t> l;
    fn::msb_t<std::uint32_t> m;
};
struct H8 {    // aligned
    std::uint32_t a;
    std::uint16_t b[2];
};
struct F1 {
    std::uint8_t x;
};
struct __attribute__((packed)) F11 {
    std::uint16_t a;
    std::uint64_t b;
    std::uint8_t  c;
};
struct F37 {
    std::array<std::uint8_t, 37> x;
};
struct F22 {    // aligned
    std::uint16_t data[11];
};
struct __attribute__((packed)) T3 {
    std::uint8_t  a;
    std::uint16_t b;
};
struct T5 {
    std::uint8_t x[5];
};

template <class T>
static T
rnd(Src& s)
{
    unsigned char b[sizeof(T)];
    int const     how = static_cast<int>(s.below(5));
    for (auto& x : b)
        x = how == 0 ? 0 : how == 1 ? 0xff : s.byte();
    T v;
    std::memcpy(&v, b, sizeof v);
    return v;
}
template <class T>
static void
append(std::vector<std::uint8_t>& v, T const& x)
{
    auto* p = reinterpret_cast<std::uint8_t const*>(&x);
    v.insert(v.end(), p, p + sizeof x);
}
template <class T>
static bool
same(T const& a, T const& b)
{
    return std::memcmp(&a, &b, sizeof a) == 0;
}
template <class T>
static bool
at(T const& a, std::vector<std::uint8_t> const& v, std::size_t off)
{
    return std::memcmp(&a, v.data() + off, sizeof a) == 0;
}
/// A vector whose storage ends where its bytes end.
static std::unique_ptr<std::uint8_t[]>
exact(std::vector<std::uint8_t> const& v)
{
    std::unique_ptr<std::uint8_t[]> p(new std::uint8_t[v.size()]);
    std::memcpy(p.get(), v.data(), v.size());
    return p;
}

// ================================================================ C29
template <class H, class F, class C>
static void
packets(Src& s, char const* name)
{
    using P                 = fn::packet<H, F, C>;
    constexpr std::size_t N = sizeof(H) + sizeof(F) + sizeof(typename C::value_type), NC = sizeof(H) + sizeof(F);
    static constexpr bool refs = alignof(H) == 1 && alignof(F) == 1;    // a reference to a packed member needs this
    using A                 = std::array<std::uint8_t, N>;
    VF_REQUIRE("C29", P::length == N && sizeof(typename P::array_type) == N, "length", "%s: length %zu, not %zu", name, P::length, N);
    // what every way of reading must say about these bytes
    auto read_all = [&](std::vector<std::uint8_t> const& v, char const* what) {
        std::vector<std::uint8_t> body(v.begin(), v.begin() + static_cast<long>(NC));
        auto                      c  = crc_bytes<C>(body);
        bool const                ok = std::equal(c.begin(), c.end(), v.begin() + static_cast<long>(NC));
        auto                      judge = [&](P p, char const* how) {
            bool const said = p.valid();
            VF_EXPECT("C29", said == ok, ok ? "valid-refused" : "invalid-accepted", "%s, %s read by %s: reported %s", name, what, how, said ? "valid" : "invalid");
            P const& cp = p;
            H const  h  = cp.header();
            F const  f  = cp.fields();
            VF_EXPECT("C29", at(h, v, 0) && at(f, v, sizeof(H)), "content", "%s, %s read by %s: header or fields differ from the bytes", name, what, how);
            auto const k = cp.crc();
            VF_EXPECT("C29", at(k, v, NC), "crc-content", "%s, %s read by %s: the checksum differs from the bytes", name, what, how);
            auto arr = p.to_array();
            VF_EXPECT("C29", std::equal(v.begin(), v.end(), arr.begin()), "to_array", "%s, %s read by %s: to_array gives other bytes", name, what, how);
            P copy(p);
            VF_EXPECT("C29", copy.to_array() == arr && copy.valid() == ok, "copy", "%s: a copied packet differs", name);
        };
        auto e = exact(v);
        A    a;
        std::copy(v.begin(), v.end(), a.begin());
        {
            A t = a;
            judge(P(std::move(t)), "array constructor");
        }
        judge(P(e.get()), "pointer constructor");
        judge(P(static_cast<std::uint8_t const*>(e.get())), "const pointer constructor");
        judge(P(v.begin()), "vector constructor");
        judge(P::deserialize(static_cast<std::uint8_t const*>(e.get())), "deserialize from a pointer");
        judge(P::deserialize(v.cbegin()), "deserialize from a vector");
        std::deque<std::uint8_t> d(s.below(520), 0);
        auto                     off = static_cast<long>(d.size());
        d.insert(d.end(), v.begin(), v.end());
        judge(P(d.cbegin() + off), "deque constructor");
        judge(P::deserialize(d.begin() + off), "deserialize from a deque");
        auto box        = std::make_unique<A>(a);
        auto [tv, h, f] = P::deserialize(*box);
        VF_EXPECT("C29", tv == ok, ok ? "valid-refused" : "invalid-accepted", "%s, %s read from an array: reported %s", name, what, tv ? "valid" : "invalid");
        VF_EXPECT("C29", at(h, v, 0) && at(f, v, sizeof(H)), "content", "%s, %s read from an array: header or fields differ from the bytes", name, what);
        vf::count(ok ? "packet.valid_read" : "packet.invalid_read");
        tr("%s, %s, %zu bytes: %s", name, what, v.size(), ok ? "valid" : "invalid");
        std::uint64_t x = N;
        for (auto b : v)
            x = x * 1099511628211ull + b;
        vf::seen(x);
        return ok;
    };
    auto write_all = [&](H const& h, F const& f) {
        std::vector<std::uint8_t> v;
        append(v, h);
        append(v, f);
        auto c = crc_bytes<C>(v);
        v.insert(v.end(), c.begin(), c.end());
        P p(h, f);
        VF_EXPECT("C29", p.valid(), "built-invalid", "%s: a packet built from header and fields is invalid", name);
        auto a = p.to_array();
        VF_EXPECT("C29", std::equal(v.begin(), v.end(), a.begin()), "bytes", "%s: a built packet's bytes are not header, fields, checksum", name);
        auto a2 = P::serialize(h, f);
        VF_EXPECT("C29", a2.size() == N && std::equal(v.begin(), v.end(), a2.begin()), "bytes-serialize", "%s: serialize(header, fields) gives other bytes", name);
        std::vector<std::uint8_t> o(N + 4, 0x2D);
        P::serialize(p, o.begin() + 2);
        VF_EXPECT("C29", std::equal(v.begin(), v.end(), o.begin() + 2) && o[1] == 0x2D && o[N + 2] == 0x2D, "bytes-iterator", "%s: serialize(packet, iterator) gives other bytes", name);
        std::unique_ptr<std::uint8_t[]> e(new std::uint8_t[N]);
        P::serialize(p, e.get());
        VF_EXPECT("C29", std::equal(v.begin(), v.end(), e.get()), "bytes-pointer", "%s: serialize(packet, pointer) gives other bytes", name);
        std::vector<std::uint8_t> bi;
        P::serialize(p, std::back_inserter(bi));
        VF_EXPECT("C29", bi == v, "bytes-inserter", "%s: serialize(packet, back_inserter) gives other bytes", name);
        return v;
    };
    H const h = rnd<H>(s);
    F const f = rnd<F>(s);
    auto    v = write_all(h, f);
    VF_EXPECT("C29", read_all(v, "a built packet"), "oracle", "the reference disagrees with itself");
    // corruption: one bit, several, bytes exchanged, everything random, checksum alone
    for (int k = static_cast<int>(1 + s.below(6)); k; k--) {
        auto w = v;
        switch (s.below(7)) {
        case 0:
        case 1:
            w[s.below(N)] ^= static_cast<std::uint8_t>(1u << s.below(8));
            break;
        case 2:
            for (auto n = 1 + s.below(4); n; n--)
                w[s.below(N)] ^= static_cast<std::uint8_t>(s.byte());
            break;
        case 3:
            std::swap(w[s.below(N)], w[s.below(N)]);
            break;
        case 4:
            for (auto& b : w)
                b = s.byte();
            break;
        case 5:
            w[NC + s.below(N - NC)] ^= static_cast<std::uint8_t>(1 + s.below(255));
            break;
        default:    // the last byte before the checksum, the first byte
            w[s.chance(1, 2) ? NC - 1 : 0] ^= static_cast<std::uint8_t>(1 + s.below(255));
        }
        read_all(w, "corrupted bytes");
    }
    // changed in place
    if constexpr (refs) {
        P p(h, f);
        H h2       = rnd<H>(s);
        p.header() = h2;
        auto a     = p.to_array();
        read_all({a.begin(), a.end()}, "a packet with another header");
        F f2       = rnd<F>(s);
        p.fields() = f2;
        a          = p.to_array();
        std::vector<std::uint8_t> w(a.begin(), a.end());
        VF_EXPECT("C29", at(h2, w, 0) && at(f2, w, sizeof(H)), "in-place", "%s: a header or fields set in place are not in the bytes", name);
        read_all(w, "a packet with another header and fields");
        std::vector<std::uint8_t> body(w.begin(), w.begin() + static_cast<long>(NC));
        auto                      c = crc_bytes<C>(body);
        std::memcpy(&p.crc(), c.data(), c.size());
        VF_EXPECT("C29", p.valid(), "in-place-valid", "%s: a packet with its checksum set in place is invalid", name);
        vf::count("packet.in_place");
    }
    alignas(P) unsigned char room[sizeof(P)];
    vf::garbage(room, static_cast<int>(s.byte()), sizeof room);
    P& empty = *new (room) P;
    auto ea  = empty.to_array();
    VF_EXPECT("C29", std::all_of(ea.begin(), ea.end(), [](auto b) { return b == 0; }), "default", "%s: an empty packet is not all zero", name);
    vf::count("packet.built");
    vf::nontrivial();
}

// ================================================================ C30
template <std::size_t Max, class H, class F, class T, class C>
static void
accessor(Src& s, char const* name)
{
    using A                      = fn::packet_accessor<Max>;
    constexpr std::size_t CN     = sizeof(typename C::value_type), length = sizeof(H) + sizeof(F) + CN, room = (Max - length) / sizeof(T);
    // made the plain way (nothing zeroed for it) in used memory
    struct Drop {
        void operator()(A* a) const
        {
            a->~A();
            ::operator delete(a, std::align_val_t{64});
        }
    };
    void* const used = ::operator new(sizeof(A), std::align_val_t{64});
    vf::garbage(used, static_cast<int>(s.byte()), sizeof(A));
    std::unique_ptr<A, Drop> acc{new (used) A};
    bool const            poison = Max % 8 == 0;
    auto                  guard  = [&](std::size_t size) {    // only the stored bytes may be looked at
        g_lo = acc->storage().data();
        g_hi = g_lo + std::min(size, Max);
#if defined(VF_ASAN)
        if (poison && size < Max)
            __asan_poison_memory_region(acc->storage().data() + size, Max - size);
#endif
    };
    auto unguard = [&] {
#if defined(VF_ASAN)
        if (poison)
            __asan_unpoison_memory_region(acc->storage().data(), Max);
#endif
        g_lo = nullptr;
    };
    auto read = [&](std::size_t size, char const* what) {
        auto const                st = acc->storage();
        std::vector<std::uint8_t> v(st.begin(), st.end());
        bool                      well = size >= length && size <= Max && (size - length) % sizeof(T) == 0, ok = false;
        std::size_t const         n = well ? (size - length) / sizeof(T) : 0;
        if (well) {
            std::vector<std::uint8_t> body(v.begin(), v.begin() + static_cast<long>(size - CN));
            auto                      c = crc_bytes<C>(body);
            ok                          = std::equal(c.begin(), c.end(), v.begin() + static_cast<long>(size - CN));
        }
        A const& ca = *acc;
        guard(size);
        auto r = ca.template deserialize<H, F, T, C>();
        unguard();
        VF_EXPECT("C30", g_outside == 0, "read-outside", "%s, %s: with size %zu the checksum was taken over bytes outside the stored ones", name, what, size);
        g_outside = 0;
        bool const said = r.valid;
        VF_EXPECT("C30", said == ok, ok ? "valid-refused" : "invalid-accepted", "%s (capacity %zu), %s: size %zu reported %s", name, Max, what, size, said ? "valid" : "invalid");
        if (ok && said) {
            H const  h   = r.header;
            F const  f   = r.fields;
            auto     cnt = r.size;
            T const* d   = r.data;
            VF_EXPECT("C30", at(h, v, 0) && at(f, v, sizeof(H)), "content", "%s, %s: header or fields differ from the stored bytes", name, what);
            VF_EXPECT("C30", cnt == n, "count", "%s, %s: size %zu gives %zu elements, not %zu", name, what, size, cnt, n);
            if (cnt == n && n)
                VF_EXPECT("C30", std::memcmp(reinterpret_cast<char const*>(d), v.data() + sizeof(H) + sizeof(F), n * sizeof(T)) == 0, "elements", "%s, %s: the elements differ from the stored bytes", name, what);
            auto nc = ca.template deserialize_no_check<H, F, T, C>();
            auto ncn = nc.size;
            VF_EXPECT("C30", ncn == n && std::memcmp(reinterpret_cast<char const*>(nc.header), v.data(), sizeof(H)) == 0
                                 && std::memcmp(reinterpret_cast<char const*>(nc.fields), v.data() + sizeof(H), sizeof(F)) == 0
                                 && (n == 0 || std::memcmp(reinterpret_cast<char const*>(nc.data), v.data() + sizeof(H) + sizeof(F), n * sizeof(T)) == 0),
                      "no-check", "%s, %s: reading without a check gives something else", name, what);
            vf::count("accessor.valid_read");
        } else
            vf::count(well ? "accessor.invalid_crc" : "accessor.bad_size");
        VF_EXPECT("C30", acc->storage() == st && acc->size() == size, "read-changes", "%s: deserialising changed the accessor", name);
        vf::seen(size * 31 + Max + (ok ? 7 : 0));
    };
    auto sizes = [&]() -> std::size_t {
        switch (s.below(9)) {
        case 0:
            return s.below(length + 1);
        case 1:
            return Max + s.below(20);
        case 2:
            return SIZE_MAX - s.below(40);
        case 3:
            return length + sizeof(T) * (s.below(room + 3));
        case 4:
            return (std::size_t{1} << 63) + s.below(100);
        case 5:
            return length - 1;
        case 6:    // would be right modulo 2^64
            return length - sizeof(T) * (1 + s.below(4));
        default:
            return s.below(Max + 3);
        }
    };
    for (int op = static_cast<int>(3 + s.below(8)); op && !s.dry(); op--) {
        switch (s.below(6)) {
        case 0:
        case 1:
        case 2: {    // serialise, then read; sometimes one more than fits, or absurdly many
            std::size_t n;
            switch (s.below(6)) {
            case 0:
                n = room;
                break;
            case 1:
                n = room + 1 + s.below(4);
                break;
            case 2:
                n = SIZE_MAX / sizeof(T) - s.below(3);
                break;
            case 3:
                n = s.chance(1, 2) ? SIZE_MAX - s.below(50) : (SIZE_MAX / sizeof(T)) + 1 + s.below(room + 2);
                break;
            default:
                n = s.below(room + 1);
            }
            bool const           fits = n <= room;
            std::size_t const    have = fits ? n : std::min<std::size_t>(room + 1, 8);
            std::unique_ptr<T[]> el(new T[have ? have : 1]);
            for (std::size_t i = 0; i < have; i++)
                el[i] = rnd<T>(s);
            fn::packet_accessor<Max> before = *acc;
            using in                        = typename A::template fields_in<H, F, T>;
            H const h = rnd<H>(s);
            F const f = rnd<F>(s);
            in      input{h, f, n, n == 0 && s.chance(1, 2) ? nullptr : el.get()};
            bool const said = acc->template serialize<H, F, T, C>(input);
            tr("serialise %zu elements of %zu (room %zu): %d", n, sizeof(T), room, said);
            VF_EXPECT("C30", said == fits, fits ? "fitting-refused" : "overflow-accepted", "%s (capacity %zu): serialising %zu elements of %zu bytes, room for %zu: %s", name,
                      Max, n, sizeof(T), room, said ? "accepted" : "refused");
            if (!fits) {
                VF_EXPECT("C30", acc->storage() == before.storage() && acc->size() == before.size(), "refused-changes", "%s: a refused serialisation changed the accessor", name);
                vf::count("accessor.refused");
                break;
            }
            std::vector<std::uint8_t> v;
            append(v, h);
            append(v, f);
            for (std::size_t i = 0; i < n; i++)
                append(v, el[i]);
            auto c = crc_bytes<C>(v);
            v.insert(v.end(), c.begin(), c.end());
            VF_EXPECT("C30", acc->size() == v.size(), "size", "%s: after serialising %zu elements the size is %zu, not %zu", name, n, acc->size(), v.size());
            VF_EXPECT("C30", std::equal(v.begin(), v.end(), acc->storage().begin()), "bytes", "%s: the stored bytes are not header, fields, elements, checksum", name);
            vf::count("accessor.serialised");
            read(acc->size(), "serialised");
            break;
        }
        case 3: {    // a wrong size for what is stored
            auto z = sizes();
            acc->size(z);
            VF_EXPECT("C30", acc->size() == z, "set-size", "size() reads %zu after %zu was set", acc->size(), z);
            tr("size %zu", z);
            read(z, "another size");
            break;
        }
        case 4: {    // corrupt
            auto& st = acc->storage();
            auto  z  = acc->size();
            auto  lim = z && z <= Max ? z : Max;
            st[s.below(lim)] ^= static_cast<std::uint8_t>(1 + s.below(255));
            tr("corrupted");
            read(z, "corrupted bytes");
            break;
        }
        default: {    // received: random bytes with a right or wrong checksum
            std::vector<std::uint8_t> v(Max);
            for (auto& b : v)
                b = s.byte();
            auto z = sizes();
            if (z > CN && z <= Max && s.chance(2, 3)) {
                std::vector<std::uint8_t> body(v.begin(), v.begin() + static_cast<long>(z - CN));
                auto                      c = crc_bytes<C>(body);
                std::copy(c.begin(), c.end(), v.begin() + static_cast<long>(z - CN));
            }
            std::copy(v.begin(), v.end(), acc->storage().begin());
            acc->size(z);
            tr("received size %zu", z);
            read(z, "received bytes");
        }
        }
        vf::mix(acc->size() * 1315423911u);
    }
    vf::nontrivial();
}

void
vf_case(Src& s)
{
#ifndef ACCESSOR
    switch (s.below(12)) {
    case 0:
        return packets<H2, F1, C16>(s, "H2/F1/crc16");
    case 1:
        return packets<H2, F22, C16>(s, "H2/F22/crc16");
    case 2:
        return packets<H5, F11, C16>(s, "H5/F11/crc16");
    case 3:
        return packets<H5, F11, C32>(s, "H5/F11/crc32");
    case 4:
        return packets<H6, F37, C32>(s, "H6/F37/crc32");
    case 5:
        return packets<H8, F22, C32>(s, "H8/F22/crc32");
    case 6:
        return packets<H8, F1, C8>(s, "H8/F1/crc8");
    case 7:
        return packets<F1, F1, C8>(s, "F1/F1/crc8");
    case 8:
        return packets<H2, F37, C64>(s, "H2/F37/crc64");
    case 9:
        return packets<H6, F11, C64>(s, "H6/F11/crc64");
    case 10:
        return packets<F37, H2, C16>(s, "F37/H2/crc16");
    default:
        return packets<F22, H8, C8>(s, "F22/H8/crc8");
    }
#else
    switch (s.below(13)) {
    case 0:
        return accessor<64, H2, F1, std::uint8_t, C16>(s, "H2/F1/u8/crc16");
    case 1:
        return accessor<256, H2, F1, std::uint16_t, C16>(s, "H2/F1/u16/crc16");
    case 2:
        return accessor<5, H2, F1, std::uint8_t, C16>(s, "H2/F1/u8/crc16");    // no room for elements
    case 3:
        return accessor<8, H2, F1, T3, C16>(s, "H2/F1/T3/crc16");
    case 4:
        return accessor<128, H5, F11, std::uint32_t, C32>(s, "H5/F11/u32/crc32");
    case 5:
        return accessor<300, H6, F37, std::uint64_t, C32>(s, "H6/F37/u64/crc32");
    case 6:
        return accessor<255, H5, F11, T3, C8>(s, "H5/F11/T3/crc8");
    case 7:
        return accessor<200, H2, F37, T5, C64>(s, "H2/F37/T5/crc64");
    case 8:
        return accessor<512, F1, F1, F37, C16>(s, "F1/F1/F37/crc16");
    case 9:
        return accessor<64, H2, F1, std::uint64_t, C8>(s, "H2/F1/u64/crc8");
    case 10:
        return accessor<33, F1, F1, T5, C16>(s, "F1/F1/T5/crc16");
    case 11:
        return accessor<40, H5, F11, T3, C64>(s, "H5/F11/T3/crc64");
    default:
        return accessor<1024, H6, F1, std::uint16_t, C32>(s, "H6/F1/u16/crc32");
    }
#endif
}
// sizes beyond narrow counts
template <std::size_t N>
struct FN {
    std::array<std::uint8_t, N> x;
};
void
vf_directed()
{
    Src s{4711};
#ifndef ACCESSOR
    for (int i = 0; i < 3; i++) {
        packets<H2, FN<300>, C16>(s, "H2/F300/crc16");
        packets<FN<400>, F11, C32>(s, "F400/F11/crc32");
        vf::alive(static_cast<std::uint64_t>(i) + 1);
        packets<H5, FN<70000>, C16>(s, "H5/F70000/crc16");
    }
#else
    for (int i = 0; i < 4; i++) {
        vf::alive(static_cast<std::uint64_t>(i) + 1);
        accessor<70000, H2, F1, std::uint8_t, C16>(s, "H2/F1/u8/crc16");
        accessor<140000, H2, F1, std::uint16_t, C32>(s, "H2/F1/u16/crc32");
        accessor<70000, H5, FN<66000>, std::uint64_t, C16>(s, "H5/F66000/u64/crc16");
    }
#endif
}
