// C36: calls on constant objects change nothing and may be made by any number of threads at once.
//
// Objects are made in pages of memory which are then made read-only: a write by any call on them ends the run.  What every
// call returns is taken down first, by one thread; then several threads make the same calls at once, in random order, and
// must be given the same.  ThreadSanitizer watches for writes anywhere else.
#include "vf.hpp"
#include "vthreads.hpp"

#include <chrono>
#include <cstring>
#include <functional>
#include <memory>
#include <new>
#include <string>
#include <sys/mman.h>
#include <thread>
#include <vector>
#include <xitren/allocators/static_heap.hpp>
#include <xitren/allocators/static_heap_allocator.hpp>
#include <xitren/cache/lru.hpp>
#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/func/data.hpp>
#include <xitren/func/fast_pimpl.hpp>
#include <xitren/func/interval_event.hpp>
#include <xitren/func/packet.hpp>

namespace cm = xitren::comm;
namespace fn = xitren::func;
namespace al = xitren::allocators;
using vf::Src;
using vf::tr;

struct Nul {
    template <class T>
    Nul const& operator<<(T const&) const { return *this; }
};
struct Log {
    static Nul trace() { return {}; }
    static Nul debug() { return {}; }
    static Nul warning() { return {}; }
    static Nul error() { return {}; }
};
struct Crc16 {
    using value_type = fn::msb_t<std::uint16_t>;
    template <class It>
    static constexpr value_type
    calculate(It b, It e)
    {
        std::uint16_t c = 0x1d0f;
        for (; b != e; ++b)
            c = static_cast<std::uint16_t>((c << 1) ^ (c >> 11) ^ *b);
        return value_type(c);
    }
};
struct Crc32 {
    using value_type = fn::lsb_t<std::uint32_t>;
    template <class It>
    static constexpr value_type
    calculate(It b, It e)
    {
        std::uint32_t c = 7;
        for (; b != e; ++b)
            c = c * 16777619u ^ *b;
        return value_type(c);
    }
};
struct __attribute__((packed)) Hd {
    fn::lsb_t<std::uint16_t> kind;
    std::uint8_t             pad[3];
};
struct __attribute__((packed)) Fl {
    fn::msb_t<std::uint32_t> a;
    fn::lsb_t<std::uint64_t> b;
};
struct Impl {
    std::uint64_t v[6];
    explicit Impl(std::uint64_t x) : v{x, x + 1, x * 3} {}
    std::uint64_t sum() const { return v[0] ^ v[1] ^ v[2]; }
};
static std::uint64_t
hash(void const* p, std::size_t n)
{
    std::uint64_t h = 1469598103934665603ull;
    for (std::size_t i = 0; i < n; i++)
        h = (h ^ static_cast<unsigned char const*>(p)[i]) * 1099511628211ull;
    return h;
}
template <class A>
static std::uint64_t
hash(A const& a)
{
    return hash(a.data(), a.size());
}

using PA   = fn::packet<Hd, Fl, Crc16>;
using PB   = fn::packet<Fl, Hd, Crc32>;
using Acc  = fn::packet_accessor<128>;
using Heap = al::static_heap<1024>;
using Pim  = fn::fast_pimpl<Impl, sizeof(Impl), alignof(Impl)>;
using Lru  = xitren::cache::lru<int, std::string, 3>;

struct Room {    // everything here becomes read-only
    alignas(64) Heap heap;
    PA                       pa;
    PB                       pb;
    Acc                      acc, bad;
    Pim                      pim;
    fn::lsb_t<std::uint16_t> l16[2];
    fn::lsb_t<std::uint64_t> l64[2];
    fn::msb_t<std::uint32_t> m32[2];
    fn::msb_t<std::uint64_t> m64[2];
    Fl                       fl;
    Hd                       hd;
    decltype(PA::serialize(Hd{}, Fl{})) wire;
    xitren::cache::cache_missed  e1;
    xitren::cache::cache_timeout e2;
    explicit Room(Src& s)
        : pa{Hd{fn::lsb_t<std::uint16_t>(static_cast<std::uint16_t>(s.u64())), {1, 2, 3}},
             Fl{fn::msb_t<std::uint32_t>(static_cast<std::uint32_t>(s.u64())), fn::lsb_t<std::uint64_t>(s.u64())}},
          pb{Fl{fn::msb_t<std::uint32_t>(static_cast<std::uint32_t>(s.u64())), fn::lsb_t<std::uint64_t>(s.u64())},
             Hd{fn::lsb_t<std::uint16_t>(static_cast<std::uint16_t>(s.u64())), {4, 5, 6}}},
          pim{s.u64()}, l16{fn::lsb_t<std::uint16_t>(static_cast<std::uint16_t>(s.u64())), fn::lsb_t<std::uint16_t>(7)},
          l64{fn::lsb_t<std::uint64_t>(s.u64()), fn::lsb_t<std::uint64_t>(s.u64())},
          m32{fn::msb_t<std::uint32_t>(static_cast<std::uint32_t>(s.u64())), fn::msb_t<std::uint32_t>(static_cast<std::uint32_t>(s.u64()))},
          m64{fn::msb_t<std::uint64_t>(s.u64()), fn::msb_t<std::uint64_t>(s.u64())}
    {
        if (s.chance(1, 4))
            l64[1] = l64[0];
        std::uint16_t el[60];
        for (auto& e : el)
            e = static_cast<std::uint16_t>(s.u64());
        hd = pa.header();
        fl = pa.fields();
        Acc::fields_in<Hd, Fl, std::uint16_t> in{hd, fl, s.below(50), el};
        acc.serialize<Hd, Fl, std::uint16_t, Crc16>(in);
        in.size = s.below(50);
        bad.serialize<Hd, Fl, std::uint16_t, Crc16>(in);
        if (s.chance(1, 2))
            bad.storage()[s.below(40)] ^= 1;
        else
            bad.size(s.below(200));
        wire = PA::serialize(hd, fl);
        if (s.chance(1, 2))
            wire[s.below(wire.size())] ^= 0x10;
        for (auto k = s.below(9); k; k--)
            if (auto* p = heap.allocate(1 + s.below(300)); p && s.chance(1, 2))
                heap.deallocate(p);
    }
};

using Read = std::function<std::uint64_t()>;
static std::vector<std::pair<char const*, Read>>
reads(Room const& r, Lru const& lru)
{
    std::vector<std::pair<char const*, Read>> v;
    auto add = [&](char const* n, Read f) { v.emplace_back(n, std::move(f)); };
    add("free_heap_size", [&] { return r.heap.free_heap_size(); });
    add("minimum_ever_free_heap_size", [&] { return r.heap.minimum_ever_free_heap_size(); });
    add("packet header", [&] { return hash(&static_cast<Hd const&>(r.pa.header()), sizeof(Hd)) + r.pb.header().a.get(); });
    add("packet fields", [&] { return r.pa.fields().b.get() + r.pb.fields().kind.get(); });
    add("packet crc", [&] { return std::uint64_t{r.pa.crc().get()} + r.pb.crc().get(); });
    add("packet to_array", [&] { return hash(r.pa.to_array()) + hash(r.pb.to_array()); });
    add("packet copy", [&] {
        PA a{r.pa};
        return hash(a.to_array()) + a.valid();
    });
    add("packet serialize to an iterator", [&] {
        std::array<std::uint8_t, sizeof(PA)> o{};
        PA::serialize(r.pa, o.begin());
        return hash(o);
    });
    add("packet serialize", [&] { return hash(PA::serialize(r.hd, r.fl)); });
    add("packet deserialize", [&] {
        auto [ok, h, f] = PA::deserialize(r.wire);
        return ok + h.kind.get() * 2 + f.b.get() * 3;
    });
    add("packet from an iterator", [&] { return hash(PA::deserialize(r.wire.begin()).to_array()) + hash(PA(r.wire.begin()).to_array()); });
    for (auto* a : {&r.acc, &r.bad}) {
        add("accessor deserialize", [a] {
            auto          o = a->deserialize<Hd, Fl, std::uint16_t, Crc16>();
            std::uint64_t h = o.valid + 2 * o.size;
            if (o.valid)
                h += hash(o.data, 2 * o.size) + o.header.kind.get() + o.fields.a.get();
            return h;
        });
        add("accessor size", [a] { return std::uint64_t{a->size()}; });
        add("accessor storage", [a] { return hash(a->storage()); });
    }
    add("accessor deserialize_no_check", [&] {
        auto o = r.acc.deserialize_no_check<Hd, Fl, std::uint16_t, Crc16>();
        return o.size + o.header->kind.get() + o.fields->b.get() + hash(o.data, 2 * o.size);
    });
    add("pimpl", [&] { return r.pim->sum() + (*r.pim).sum(); });
    add("pimpl copy", [&] {
        Pim p(r.pim), q(Impl{3});
        q = r.pim;
        return p->sum() * 3 + q->sum();
    });
    add("expired_after", [&] { return static_cast<std::uint64_t>(lru.expired_after().count()); });
    add("what", [&] { return hash(r.e1.what(), std::strlen(r.e1.what())) + hash(r.e2.what(), std::strlen(r.e2.what())); });
    add("little-endian", [&] { return r.l16[0].get() + r.l64[0].get() * 3 + r.l64[1].get(); });
    add("big-endian", [&] { return r.m32[0].get() + r.m64[0].get() * 3 + r.m64[1].get(); });
    add("little-endian comparisons", [&] {
        auto const &a = r.l64[0], &b = r.l64[1];
        return std::uint64_t{(a == b) * 1u + (a < b) * 2u + (a > b) * 4u + (a <= b) * 8u + (a >= b) * 16u + (r.l16[0] < r.l16[1]) * 32u};
    });
    add("big-endian comparisons", [&] {
        auto const &a = r.m64[0], &b = r.m64[1];
        return std::uint64_t{(a == b) * 1u + (a < b) * 2u + (a > b) * 4u + (a <= b) * 8u + (a >= b) * 16u + (r.m32[0] < r.m32[1]) * 32u};
    });
    add("endian copies", [&] {
        auto a = r.l64[0];
        auto b = r.m32[1];
        return a.get() + b.get();
    });
    add("data serialize", [&] { return hash(fn::data<Fl>::serialize(r.fl)); });
    add("data deserialize", [&] { return hash(r.wire) + fn::data<Fl>::deserialize(r.wire.begin()).b.get(); });
    return v;
}

void
vf_case(Src& s)
{
    static std::size_t const page = 4096, size = (sizeof(Room) + page - 1) / page * page;
    void* const              at = ::mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (at == MAP_FAILED)
        throw std::bad_alloc();
    std::memset(at, static_cast<int>(s.below(256)), size);
    Room*       r = new (at) Room(s);
    Lru         lru(std::chrono::milliseconds(s.below(100000)));    // it has a lock: it stays writable
    auto        v = reads(*r, lru);
    // constant, but with a thread of its own
    using Stage = cm::pipeline_stage<int, int, 4, Log>;
    std::unique_ptr<Stage>              stage;
    std::unique_ptr<fn::interval_event> event;
    if (s.chance(1, 12)) {
        stage.reset(new Stage([](auto, int const, std::pair<int, int> const) { return 0; }));
        Stage const& c = *stage;
        v.emplace_back("stage time_for_unit", [&c] { return static_cast<std::uint64_t>(c.time_for_unit()); });
        v.emplace_back("stage buffer_utilization", [&c] { return static_cast<std::uint64_t>(c.buffer_utilization()); });
    }
    if (s.chance(1, 40)) {
        event.reset(new fn::interval_event([] {}, std::chrono::hours(5), std::chrono::milliseconds(1)));
        fn::interval_event const& c = *event;
        v.emplace_back("event period", [&c] { return static_cast<std::uint64_t>(c.period().count()); });
        v.emplace_back("event period_between_checks", [&c] { return static_cast<std::uint64_t>(c.period_between_checks().count()); });
        v.emplace_back("event thread", [&c] { return std::uint64_t{c.thread().joinable()}; });
    }
    std::vector<unsigned char> bytes(size);
    std::memcpy(bytes.data(), at, size);
    if (::mprotect(at, size, PROT_READ) != 0)
        throw std::bad_alloc();
    std::vector<std::uint64_t> first;
    for (auto& x : v) {
        tr("%s", x.first);
        first.push_back(x.second());
        vf::mix(first.back());
        vf::count("readers.calls");
    }
    int const                threads = 2 + static_cast<int>(s.below(3));
    std::atomic<int>         ready{0};
    std::atomic<int>         wrong{-1};
    std::vector<std::thread> ts;
    std::size_t const        focus = s.below(v.size());
    bool const               narrow = s.chance(1, 2);
    for (int t = 0; t < threads; t++)
        ts.emplace_back([&, seed = s.u64()] {
            Src l{seed};
            ready++;
            while (ready < threads)
                std::this_thread::yield();
            for (int k = 0; k < 60; k++) {
                auto const i = narrow ? (focus + l.below(3)) % v.size() : l.below(v.size());
                if (v[i].second() != first[i])
                    wrong = static_cast<int>(i);
            }
        });
    for (auto& t : ts)
        t.join();
    vf::count("readers.concurrent_calls", static_cast<std::uint64_t>(threads) * 60);
    VF_EXPECT("C36", wrong < 0, (std::string("result-changed ") + (wrong < 0 ? "" : v[static_cast<std::size_t>(wrong.load())].first)).c_str(),
              "%s on a constant object gave different results", wrong < 0 ? "" : v[static_cast<std::size_t>(wrong.load())].first);
    VF_EXPECT("C36", std::memcmp(bytes.data(), at, size) == 0, "bytes-changed", "calls on constant objects changed their bytes");
    ::mprotect(at, size, PROT_READ | PROT_WRITE);
    stage.reset();
    event.reset();
    r->~Room();
    ::munmap(at, size);
    vf::nontrivial();
}
void
vf_directed()
{}
