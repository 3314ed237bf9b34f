// C01, C02, C03, C05: a static_heap driven by generated histories, observed against a shadow of its live blocks.
#include "vf.hpp"

#include <xitren/allocators/static_heap.hpp>
#include <xitren/allocators/static_heap_allocator.hpp>

#include <memory>
#include <new>

using namespace xitren::allocators;
using vf::Src;
using vf::tr;
typedef unsigned char u8;

// Bytes a block needs beyond what was asked for (its header), as observed on a fresh heap.
static std::size_t g_hdr = 0;

static void
measure_header()
{
    if (g_hdr)
        return;
    auto        h = std::make_unique<static_heap<4096>>();
    std::size_t f = h->free_heap_size();
    void*       p = h->allocate(8);
    if (!p || h->free_heap_size() >= f) {
        vf::report("C01 C02 C03 C05", "fresh-heap-refuses", "a fresh heap of 4096 bytes refuses 8 bytes or reports no change of the free size");
        g_hdr = 16;
        return;
    }
    g_hdr = f - h->free_heap_size() - 8;
    if (g_hdr > 64) {
        vf::report("C02", "header-too-big", "a block of 8 bytes occupies more than 72");
        g_hdr = 16;
    }
}

struct Block {
    u8*         p;
    std::size_t n;        // requested
    std::size_t ext;      // bytes it takes from the heap
    std::uint64_t tag;
};

struct Boom {};

template <std::size_t Size>
struct Rig {
    using heap_t = static_heap<Size>;
    Src&               s;
    std::size_t        slack;
    u8*                raw{};
    heap_t*            h{};
    std::size_t        initial{}, low{}, allocs{}, frees{};
    std::size_t        free_model{};
    std::size_t        base{};    // address of the lowest possible extent (known after the first allocation from empty)
    std::vector<Block> live;
    std::uint64_t      next_tag{1};
    int                cb_mode{0};    // 0 none, 1 counts, 2 counts+queries, 3 throws, 4 releases a block, 5 replaced twice
    unsigned           cb_calls{0};
    unsigned           cb_stale{0};
    char               nm;

    Rig(Src& src, char name) : s{src}, nm{name}
    {
        // the heap in an exact allocation of its own, so that a byte outside the object is outside the allocation
        raw = static_cast<u8*>(::operator new(sizeof(heap_t), std::align_val_t{16}));
        vf::garbage(raw, 0xA5, sizeof(heap_t));
        h       = new (raw) heap_t{};
        initial = low = free_model = h->free_heap_size();
        VF_EXPECT("C02 C05", h->minimum_ever_free_heap_size() == initial, "fresh-minimum",
                  "fresh heap: minimum %zu, free %zu", h->minimum_ever_free_heap_size(), initial);
        VF_EXPECT("C02", initial <= Size && initial + 64 >= Size, "fresh-size", "heap of %zu bytes offers %zu", Size,
                  initial);
        tr("%c: static_heap<%zu> initial free %zu", nm, Size, initial);
        // where its storage begins
        void* p = h->allocate(1);
        if (p) {
            base = reinterpret_cast<std::size_t>(p) - g_hdr;
            low  = std::min(low, h->free_heap_size());
            h->deallocate(p);
            allocs++;
            frees++;
        } else {
            vf::report("C02 C03", "fresh-refuses-1", vf::fmt("a fresh heap of %zu bytes refuses 1 byte", Size));
            throw vf::Abort{};
        }
        check("first block released");
    }
    Rig(Rig const&) = delete;
    ~Rig()
    {
        h->~heap_t();
        ::operator delete(raw, std::align_val_t{16});
    }

    static u8
    pat(std::uint64_t tag, std::size_t i)
    {
        return static_cast<u8>((tag * 0x9E3779B97F4A7C15ull + i * 0x1003F) >> 13);
    }
    void
    fill(Block const& b)
    {
        for (std::size_t i = 0; i < b.n; i++)
            b.p[i] = pat(b.tag, i);
    }
    bool
    intact(Block const& b)
    {
        for (std::size_t i = 0; i < b.n; i++)
            if (b.p[i] != pat(b.tag, i)) {
                vf::report("C01", "content-changed",
                           vf::fmt("%c: byte %zu of the %zu-byte block at +%zu changed from %02x to %02x", nm, i, b.n,
                                   std::size_t(b.p - raw), pat(b.tag, i), b.p[i]));
                return false;
            }
        return true;
    }

    struct Gap {
        std::size_t at, len;
    };
    std::vector<Gap>
    gaps()
    {
        std::vector<std::pair<std::size_t, std::size_t>> e;
        for (auto& b : live)
            e.push_back({reinterpret_cast<std::size_t>(b.p) - g_hdr, b.ext});
        std::sort(e.begin(), e.end());
        std::vector<Gap> g;
        std::size_t      at = base;
        for (auto& [a, l] : e) {
            if (a > at)
                g.push_back({at, a - at});
            at = std::max(at, a + l);
        }
        if (base + initial > at)
            g.push_back({at, base + initial - at});
        return g;
    }
    std::size_t
    max_gap()
    {
        std::size_t m = 0;
        for (auto& g : gaps())
            m = std::max(m, g.len);
        return m;
    }
    static std::size_t
    need(std::size_t n)    // contiguous bytes a request of n needs; SIZE_MAX if not representable
    {
        if (n > SIZE_MAX / 4)
            return SIZE_MAX;
        return (n + g_hdr + 7) & ~std::size_t(7);
    }

    void
    check(char const* when, bool stats = true)
    {
        std::size_t f = h->free_heap_size(), m = h->minimum_ever_free_heap_size();
        VF_EXPECT("C02 C05", f == free_model, "free-size", "%c %s: free size %zu, live blocks leave %zu of %zu", nm, when, f,
                  free_model, initial);
        VF_EXPECT("C02 C05", m == low, "minimum", "%c %s: minimum %zu, lowest ever since reset %zu", nm, when, m, low);
        if (f != free_model || m != low)
            throw vf::Abort{};
        if (stats)
            check_stats(when);
    }
    void
    check_stats(char const* when)
    {
        typename heap_t::heap_stats_t st;
        vf::garbage(&st, 0xEE, sizeof st);
        h->v_port_get_heap_stats(&st);
        vf::count("heap.stats");
        VF_EXPECT("C05", st.x_available_heap_space_in_bytes == free_model, "stats-available", "%c %s: %zu, expected %zu", nm,
                  when, st.x_available_heap_space_in_bytes, free_model);
        VF_EXPECT("C05", st.x_minimum_ever_free_bytes_remaining == low, "stats-minimum", "%c %s: %zu, expected %zu", nm, when,
                  st.x_minimum_ever_free_bytes_remaining, low);
        VF_EXPECT("C05", st.x_number_of_successful_allocations == allocs, "stats-allocations", "%c %s: %zu, expected %zu",
                  nm, when, st.x_number_of_successful_allocations, allocs);
        VF_EXPECT("C05", st.x_number_of_successful_frees == frees, "stats-frees", "%c %s: %zu, expected %zu", nm, when,
                  st.x_number_of_successful_frees, frees);
        auto        g = gaps();
        std::size_t mx = 0, mn = SIZE_MAX;
        for (auto& x : g) {
            mx = std::max(mx, x.len);
            mn = std::min(mn, x.len);
        }
        VF_EXPECT("C05", st.x_number_of_free_blocks == g.size(), "stats-regions", "%c %s: %zu free regions reported, %zu exist",
                  nm, when, st.x_number_of_free_blocks, g.size());
        if (!g.empty()) {
            VF_EXPECT("C05", st.x_size_of_largest_free_block_in_bytes == mx, "stats-largest", "%c %s: %zu, expected %zu", nm,
                      when, st.x_size_of_largest_free_block_in_bytes, mx);
            VF_EXPECT("C05", st.x_size_of_smallest_free_block_in_bytes == mn, "stats-smallest", "%c %s: %zu, expected %zu",
                      nm, when, st.x_size_of_smallest_free_block_in_bytes, mn);
        }
        vf::seen(g.size() * 1000003 + mx * 131 + free_model * 7919 + Size * 104729);
    }

    void
    set_callback(int mode)
    {
        cb_mode = mode;
        tr("%c: on_fail mode %d", nm, mode);
        switch (mode) {
        case 0:
            h->on_fail(nullptr);
            break;
        case 5:
            h->on_fail([this] { cb_stale++; });
            h->on_fail([this] { cb_calls++; });
            break;
        case 3:
            h->on_fail([this] {
                cb_calls++;
                throw Boom{};
            });
            break;
        case 2:
            h->on_fail([this] {
                cb_calls++;
                check("inside the failure callback", true);
            });
            break;
        default:
            h->on_fail([this] { cb_calls++; });
        }
    }

    // One request, by plain allocate, callocate or the standard allocator interface.
    void
    request(std::size_t n, int how)
    {
        std::size_t const before = h->free_heap_size();
        std::size_t const mg     = max_gap();
        unsigned const    cb0    = cb_calls;
        void*             p      = nullptr;
        bool              boom = false, bad = false;
        std::size_t       total = n;
        bool              overflow = false;
        if (how == 0) {
            try {
                p = h->allocate(n);
            } catch (Boom&) {
                boom = true;
            }
        } else if (how == 1) {
            // zero-allocate: split n into num*size in a varying way, or overflow the product
            std::size_t num = n, size = 1;
            if (n > 0 && n <= Size * 2) {
                std::size_t d[] = {1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 32, 100};
                std::size_t k   = d[s.below(12)];
                if (n % k == 0) {
                    num  = n / k;
                    size = k;
                }
                if (s.chance(1, 2))
                    std::swap(num, size);
            } else if (n > SIZE_MAX / 2) {
                // product overflows to something small
                std::size_t k = std::size_t(1) << (1 + s.below(62));
                num           = k;
                size          = (SIZE_MAX / k) + 1 + s.below(3);
                overflow      = true;
            }
            total = num * size;
            tr("%c: callocate(%zu,%zu)", nm, num, size);
            try {
                p = h->callocate(num, size);
            } catch (Boom&) {
                boom = true;
            }
            if (overflow) {
                VF_EXPECT("C01 C03", p == nullptr, "calloc-overflow-served", "%c: callocate(%zu,%zu) overflows but returned memory", nm,
                          num, size);
                VF_EXPECT("C03", h->free_heap_size() == before, "overflow-changes", "%c: a refused callocate changed the free size", nm);
                if (p)
                    throw vf::Abort{};
                vf::count("heap.refused.overflow");
                check("after an overflowing callocate");
                return;
            }
        } else {
            static_heap_allocator<u8, Size>                    a1{*h};
            static_heap_allocator<std::array<char, 12>, Size>  a12{*h};
            static_heap_allocator<std::array<long, 3>, Size>   a24{*h};
            try {
                if (how == 2) {
                    p = a1.allocate(n);
                } else if (how == 3) {
                    std::size_t c = n > SIZE_MAX / 4 ? n / 1 : (n + 11) / 12;
                    overflow      = c > SIZE_MAX / 12;
                    total         = c * 12;
                    tr("%c: allocator<12 bytes>::allocate(%zu)", nm, c);
                    p = a12.allocate(c);
                } else {
                    std::size_t c = n > SIZE_MAX / 4 ? n / 1 : (n + 23) / 24;
                    overflow      = c > SIZE_MAX / 24;
                    total         = c * 24;
                    tr("%c: allocator<24 bytes>::allocate(%zu)", nm, c);
                    p = a24.allocate(c);
                }
            } catch (std::bad_alloc&) {
                bad = true;
            } catch (Boom&) {
                boom = true;
            }
            if (p == nullptr && !boom)
                VF_EXPECT("C03", bad, "allocator-null", "%c: the standard allocator returned null instead of throwing bad_alloc", nm);
            if (overflow) {
                VF_EXPECT("C01 C03", bad && !p, "allocator-overflow", "%c: an element count whose bytes overflow was served", nm);
                if (p)
                    throw vf::Abort{};
                VF_EXPECT("C03", h->free_heap_size() == before, "overflow-changes", "%c: a refused request changed the free size", nm);
                vf::count("heap.refused.overflow");
                check("after an overflowing allocator request");
                return;
            }
        }
        n = total;
        static char const* const names[] = {"allocate", "callocate", "allocator<1>", "allocator<12>", "allocator<24>"};
        if (!p) {
            tr("%c: %s(%zu) refused (largest gap %zu, needs %zu)", nm, names[how], n, mg, need(n));
            vf::mix(n * 8 + how);
            vf::count("heap.refused");
            VF_REQUIRE("C02", n == 0 || need(n) > mg, "refused-though-fits",
                       "%c: %s(%zu) refused although a contiguous free region of %zu bytes exists (needs %zu with its header)", nm,
                       names[how], n, mg, need(n));
            unsigned calls = cb_calls - cb0;
            if (how == 0)
                VF_EXPECT("C03", calls == (cb_mode ? 1u : 0u), "callback-count",
                          "%c: a refused allocate(%zu) called the failure callback %u times", nm, n, calls);
            else
                VF_EXPECT("C03", calls <= 1, "callback-count", "%c: a refused request called the failure callback %u times", nm,
                          calls);
            VF_EXPECT("C03", cb_stale == 0, "stale-callback", "%c: a replaced failure callback was called", nm);
            VF_EXPECT("C03", !boom || cb_mode == 3, "foreign-throw", "unexpected exception");
            VF_EXPECT("C03", h->free_heap_size() == before && before == free_model, "refused-changes-free",
                      "%c: a refused request changed the free size from %zu to %zu", nm, before, h->free_heap_size());
            VF_EXPECT("C03", h->minimum_ever_free_heap_size() == low, "refused-changes-minimum",
                      "%c: a refused request changed the minimum from %zu to %zu", nm, low, h->minimum_ever_free_heap_size());
            refused_stats();
            check("after a refused request");
            return;
        }
        tr("%c: %s(%zu) -> +%zd", nm, names[how], n, static_cast<u8*>(p) - raw);
        vf::mix(n * 8 + how);
        vf::count("heap.served");
        VF_EXPECT("C03", cb_calls == cb0, "callback-on-success", "%c: a served request called the failure callback", nm);
        VF_REQUIRE("C03 C02 C01", n != 0, "zero-served", "%c: a request of zero bytes returned memory", nm);
        std::size_t a = reinterpret_cast<std::size_t>(p);
        VF_REQUIRE("C01", a >= reinterpret_cast<std::size_t>(raw) && n <= sizeof(heap_t)
                              && a + n <= reinterpret_cast<std::size_t>(raw) + sizeof(heap_t),
                   "outside", "%c: block of %zu at +%zd lies outside the heap object of %zu bytes", nm, n,
                   static_cast<u8*>(p) - raw, sizeof(heap_t));
        VF_EXPECT("C01", a % 8 == 0, "misaligned", "%c: block at address %zx is not a multiple of 8", nm, a);
        for (auto& b : live) {
            std::size_t o = reinterpret_cast<std::size_t>(b.p);
            VF_REQUIRE("C01", a + n <= o || o + b.n <= a, "overlap", "%c: new block [+%zd,%zu) overlaps live block [+%zd,%zu)", nm,
                       static_cast<u8*>(p) - raw, n, b.p - raw, b.n);
        }
        std::size_t after = h->free_heap_size();
        std::size_t ext   = before - after;
        VF_REQUIRE("C02", after < before && ext >= n && ext <= n + 64, "block-cost",
                   "%c: a block of %zu bytes took %zd bytes of free size", nm, n, static_cast<std::ptrdiff_t>(before - after));
        VF_EXPECT("C02 C03", need(n) <= mg, "served-though-full", "%c: %zu bytes served although the largest gap was %zu", nm, n, mg);
        if (how == 1) {
            u8* z = static_cast<u8*>(p);
            for (std::size_t i = 0; i < n; i++)
                VF_REQUIRE("C01", z[i] == 0, "not-zero", "%c: byte %zu of a zero-allocated block of %zu is %02x", nm, i, n, z[i]);
            vf::count("heap.zeroed");
        }
        Block b{static_cast<u8*>(p), n, ext, next_tag++};
        fill(b);
        live.push_back(b);
        free_model -= ext;
        low = std::min(low, free_model);
        allocs++;
        // the extents must tile: no two may overlap and none may leave the storage
        std::size_t e0 = a - g_hdr;
        VF_EXPECT("C01 C02", e0 >= base && e0 + ext <= base + initial, "extent-outside",
                  "%c: a block with its header takes [%zu,%zu) of storage [0,%zu)", nm, e0 - base, e0 - base + ext, initial);
        check("after a served request", s.chance(1, 2));
    }
    void
    refused_stats()
    {
        typename heap_t::heap_stats_t st;
        h->v_port_get_heap_stats(&st);
        VF_EXPECT("C03", st.x_number_of_successful_allocations == allocs && st.x_number_of_successful_frees == frees
                             && st.x_available_heap_space_in_bytes == free_model && st.x_minimum_ever_free_bytes_remaining == low,
                  "refused-changes-stats", "%c: a refused request changed the statistics (allocs %zu/%zu frees %zu/%zu free %zu/%zu)",
                  nm, st.x_number_of_successful_allocations, allocs, st.x_number_of_successful_frees, frees,
                  st.x_available_heap_space_in_bytes, free_model);
        auto        g  = gaps();
        std::size_t mx = 0;
        for (auto& x : g)
            mx = std::max(mx, x.len);
        VF_EXPECT("C03", st.x_number_of_free_blocks == g.size()
                             && (g.empty() || st.x_size_of_largest_free_block_in_bytes == mx),
                  "refused-changes-regions", "%c: a refused request changed the free regions", nm);
        for (auto& b : live) {
            for (std::size_t i = 0; i < b.n; i++)
                if (b.p[i] != pat(b.tag, i)) {
                    vf::report("C03", "refused-changes-content", "a refused request changed a live block");
                    return;
                }
        }
    }
    void
    release(std::size_t i, int how)
    {
        Block b = live[i];
        if (!intact(b))
            throw vf::Abort{};
        unsigned cb0 = cb_calls;
        live[i]      = live.back();
        live.pop_back();
        tr("%c: release +%zd (%zu)", nm, b.p - raw, b.n);
        vf::mix(i * 4 + 1);
        if (how == 0) {
            h->deallocate(b.p);
        } else {
            static_heap_allocator<u8, Size> a{*h};
            a.deallocate(b.p, b.n);
        }
        vf::count("heap.released");
        free_model += b.ext;
        frees++;
        VF_EXPECT("C03", cb_calls == cb0, "callback-on-release", "%c: releasing called the failure callback", nm);
        check("after a release", s.chance(1, 2));
    }
    void
    release_null()
    {
        unsigned cb0 = cb_calls;
        h->deallocate(nullptr);
        tr("%c: release null", nm);
        VF_EXPECT("C03", cb_calls == cb0 && h->free_heap_size() == free_model && h->minimum_ever_free_heap_size() == low,
                  "null-release", "%c: releasing null changed something", nm);
        refused_stats();
        vf::count("heap.null_released");
        check("after releasing null");
    }
    void
    verify_all()
    {
        for (auto& b : live)
            if (!intact(b))
                throw vf::Abort{};
        vf::count("heap.blocks_verified", live.size());
    }
    std::size_t
    size_for()
    {
        std::size_t mg = max_gap();
        switch (s.below(12)) {
        case 0:
        case 1:
        case 2:
            return 1 + s.below(std::min<std::size_t>(64, Size));
        case 3:
            return 1 + s.below(Size / 4 + 1);
        case 4: {    // around the exact fit of the largest region
            std::size_t m = mg > g_hdr ? mg - g_hdr : 0;
            return m + s.below(20) - std::min<std::size_t>(m, 10);
        }
        case 5: {    // around the exact fit, and around the split threshold, of a random region
            auto g = gaps();
            if (g.empty())
                return 8;
            std::size_t l = g[s.below(g.size())].len;
            std::size_t m = l > g_hdr ? l - g_hdr : 0;
            std::size_t d = s.below(3) == 0 ? s.below(80) : 8 * s.below(10);
            return m > d ? m - d : m + s.below(4);
        }
        case 6:
            return 8 * (1 + s.below(8));
        case 7:
            return free_model + s.below(40) - std::min<std::size_t>(free_model, 20);    // about all that is left
        case 8:
            return s.below(30) == 0 ? 0 : 24;
        case 9: {
            std::size_t v[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 7, SIZE_MAX - 15, SIZE_MAX - 16, SIZE_MAX - 17, SIZE_MAX - 23,
                               SIZE_MAX - 24, SIZE_MAX / 2 + 1, SIZE_MAX / 2, SIZE_MAX / 2 - 15, SIZE_MAX / 2 - 16,
                               SIZE_MAX / 2 - 23, SIZE_MAX / 12 + 1, SIZE_MAX / 24 + 1, SIZE_MAX / 12, SIZE_MAX / 24,
                               (SIZE_MAX / 24) * 2 + 3, Size, Size + 1, Size * 2, 0, 0};
            return s.chance(1, 3) ? v[s.below(std::size(v))] : 1 + s.below(32);
        }
        default:
            return 1 + s.below(std::max<std::size_t>(Size / 16, 16));
        }
    }
    void
    take_all_back()
    {
        int order = static_cast<int>(s.below(4));
        tr("%c: release all, order %d", nm, order);
        if (order == 1)
            std::sort(live.begin(), live.end(), [](auto& a, auto& b) { return a.p < b.p; });
        while (!live.empty()) {
            std::size_t i = order == 0 ? live.size() - 1 : order == 1 ? 0 : s.below(live.size());
            if (order == 3) {    // every other one first
                std::sort(live.begin(), live.end(), [](auto& a, auto& b) { return a.p < b.p; });
                i = live.size() > 1 ? (live.size() / 2) : 0;
            }
            release(i, static_cast<int>(s.below(2)));
        }
        VF_EXPECT("C02", h->free_heap_size() == initial, "not-all-returned", "%c: all released but %zu of %zu free", nm,
                  h->free_heap_size(), initial);
        request(initial - g_hdr, static_cast<int>(s.below(2)));
        VF_REQUIRE("C02", live.size() == 1 && free_model == 0, "cannot-take-all", "%c: after everything was released one request could not take all of it",
                   nm);
        vf::count("heap.took_all");
        vf::nontrivial();
        release(0, 0);
    }
    void
    step()
    {
        switch (s.below(16)) {
        case 0:
        case 1:
        case 2:
        case 3:
        case 4:
        case 5:
            request(size_for(), s.chance(2, 3) ? 0 : s.below(3) == 0 ? 1 : 2 + static_cast<int>(s.below(3)));
            break;
        case 6:
            request(size_for(), 1);
            break;
        case 7:
        case 8:
        case 9:
        case 10:
        case 11:
            if (!live.empty())
                release(s.below(live.size()), static_cast<int>(s.below(2)));
            break;
        case 12:
            if (s.chance(1, 3)) {
                h->reset_minimum_ever_free_heap_size();
                low = free_model;
                tr("%c: reset minimum", nm);
                vf::count("heap.minimum_reset");
                check("after a reset of the minimum");
            } else {
                release_null();
            }
            break;
        case 13:
            if (s.chance(1, 3))
                set_callback(static_cast<int>(s.below(6)));
            else
                request(0, s.chance(1, 2) ? 0 : 2);
            break;
        case 14:
            if (s.chance(1, 6))
                take_all_back();
            else
                for (int i = 0; i < 6 && free_model > g_hdr + 8; i++)    // drive it towards full
                    request(1 + s.below(Size / 6 + 1), 0);
            break;
        default:
            verify_all();
            // an aged block is rewritten: the whole of it must be usable
            if (!live.empty()) {
                Block& b = live[s.below(live.size())];
                b.tag    = next_tag++;
                fill(b);
            }
        }
    }
};

template <std::size_t A, std::size_t B>
static void
two(Src& s)
{
    Rig<A> a{s, 'a'};
    Rig<B> b{s, 'b'};
    int    n = static_cast<int>(20 + s.below(A < 200 ? 40 : 120));
    for (int i = 0; i < n && !s.dry(); i++) {
        if (s.chance(3, 4))
            a.step();
        else
            b.step();
    }
    a.verify_all();
    b.verify_all();
    a.take_all_back();
    b.take_all_back();
    b.verify_all();
}

void
vf_case(Src& s)
{
    measure_header();
    switch (s.below(6)) {
    case 0:
        return two<64, 4096>(s);
    case 1:
        return two<100, 512>(s);
    case 2:
        return two<257, 64>(s);
    case 3:
        return two<512, 257>(s);
    case 4:
        return two<4096, 100>(s);
    default:
        return two<30000, 512>(s);
    }
}

// A heap of more than 64 KiB holding many and big blocks.
static void
large_heap()
{
    Src s{std::uint64_t(4242)};
    {
        Rig<(1u << 20) + 24> r{s, 'L'};
        r.request(70000, 0);
        r.request(300, 1);
        r.request(131072, 1);
        r.request(65536, 2);
        for (int i = 0; i < 620; i++)
            r.request(24 + 8 * static_cast<std::size_t>(i % 9), i % 7 == 0 ? 1 : 0);
        r.verify_all();
        // every other small one back: more than 256 separate regions
        std::sort(r.live.begin(), r.live.end(), [](auto& a, auto& b) { return a.p < b.p; });
        std::vector<u8*> out;
        for (std::size_t i = 5; i < r.live.size(); i += 2)
            out.push_back(r.live[i].p);
        for (std::size_t k = 0; k < out.size(); k++) {
            u8* p = out[(k * 7) % out.size()];
            for (std::size_t i = 0; i < r.live.size(); i++)
                if (r.live[i].p == p) {
                    r.release(i, 0);
                    break;
                }
        }
        r.check("with many regions");
        r.verify_all();
        r.request(r.max_gap() - g_hdr + 1, 0);
        r.request(r.max_gap() - g_hdr, 0);
        r.request(r.max_gap() - g_hdr, 1);
        r.verify_all();
        r.take_all_back();
        vf::count("heap.large");
    }
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    {
        Rig<512> r{s, 'M'};    // many calls
        for (int i = 0; i < 70000; i++) {
            void* p = r.h->allocate(8 + static_cast<std::size_t>(i % 40));
            VF_REQUIRE("C02", p != nullptr, "refused-though-fits", "an empty heap refused a small block after %d calls", i);
            r.h->deallocate(p);
            r.allocs++;
            r.frees++;
        }
        r.low = r.h->minimum_ever_free_heap_size();
        r.check("after 70000 calls");
        r.take_all_back();
    }
    {
        auto big = std::make_unique<Rig<(1u << 22)>>(s, 'N');    // more than 65536 regions
        auto& r  = *big;
        std::vector<void*> p;
        while (void* q = r.h->allocate(8))
            p.push_back(q);
        std::size_t const each = (r.initial - r.h->free_heap_size()) / p.size();
        for (std::size_t i = 0; i < p.size(); i++)
            std::memset(p[i], static_cast<int>(i * 31 % 251), 8);
        for (std::size_t i = p.size() - (p.size() & 1); i >= 2; i -= 2) {    // from high to low: short walks
            r.h->deallocate(p[i - 2]);
            p[i - 2] = nullptr;
        }
        typename static_heap<(1u << 22)>::heap_stats_t st{};
        r.h->v_port_get_heap_stats(&st);
        std::size_t const freed = p.size() / 2;
        VF_EXPECT("C05", st.x_number_of_free_blocks >= freed && st.x_number_of_free_blocks <= freed + 1, "stats-regions", "%zu of %zu blocks released apart: %zu regions reported", freed, p.size(),
                  st.x_number_of_free_blocks);
        VF_EXPECT("C05", st.x_number_of_successful_allocations == p.size() + 1 && st.x_number_of_successful_frees == freed + 1, "stats-allocations", "%zu and %zu, expected %zu and %zu",
                  st.x_number_of_successful_allocations, st.x_number_of_successful_frees, p.size() + 1, freed + 1);
        VF_EXPECT("C02 C05", r.h->free_heap_size() >= freed * each && r.h->free_heap_size() < (freed + 4) * each, "free-size", "%zu blocks of %zu released: %zu free", freed, each,
                  r.h->free_heap_size());
        for (std::size_t i = 0; i < p.size(); i++)    // from low to high: the walks stay short
            if (p[i]) {
                bool ok = true;
                for (int k = 0; k < 8; k++)
                    ok = ok && static_cast<u8*>(p[i])[k] == static_cast<u8>(i * 31 % 251);
                VF_REQUIRE("C01", ok, "content-changed", "a block among %zu changed", p.size());
                r.h->deallocate(p[i]);
            }
        void* all = r.h->allocate(r.initial - g_hdr);
        VF_EXPECT("C02", all != nullptr && r.h->free_heap_size() == 0, "cannot-take-all", "after %zu blocks were released one request could not take all", p.size());
        vf::count("heap.many_regions");
    }
#endif
}

void
vf_directed()
{
    measure_header();
    // many equal blocks, every release order of a triple (the coalescing cases), on a heap full of them
    for (int perm = 0; perm < 6; perm++)
        for (int off = 0; off < 3; off++) {
            std::uint64_t seed = 77;
            Src           s{seed};
            Rig<512>     r{s, 'd'};
            while (r.max_gap() >= Rig<512>::need(40))
                r.request(40, 0);
            static int const P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
            std::vector<u8*> addr;
            for (auto& b : r.live)
                addr.push_back(b.p);
            std::sort(addr.begin(), addr.end());
            std::size_t start = off == 0 ? 0 : off == 1 ? addr.size() / 2 : addr.size() - 3;
            for (int k = 0; k < 3; k++)
                for (std::size_t i = 0; i < r.live.size(); i++)
                    if (r.live[i].p == addr[start + P[perm][k]]) {
                        r.release(i, 0);
                        break;
                    }
            r.request(r.max_gap() - g_hdr, 0);
            r.verify_all();
            r.take_all_back();
            vf::count("heap.triples");
        }
    large_heap();
}
