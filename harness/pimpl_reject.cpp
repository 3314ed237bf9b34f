// C31: a holder declared with too little storage (or, if strict, with any other size), or with too weak an alignment,
// must be refused by the compiler.  Built once per wrong declaration; a build that succeeds is run, and the object held
// is located: outside the holder or off its alignment is a violation.  REJ_FITS builds the same source with storage that fits.
#include "vf.hpp"

#include <cstddef>
#include <cstdint>
#include <xitren/func/fast_pimpl.hpp>

struct alignas(16) Held {
    unsigned char bytes[48];
    Held() { std::memset(bytes, 0x5a, sizeof bytes); }
};

#ifdef REJ_FITS
using Holder = xitren::func::fast_pimpl<Held, sizeof(Held), alignof(Held), true>;
using Wider = xitren::func::fast_pimpl<Held, 2 * sizeof(Held), 4 * alignof(Held), false>;

// the idiom itself: the held type is incomplete where the holder is declared, and completed later
struct Front {
    Front();
    Front(Front const&);
    Front(Front&&) noexcept;
    Front& operator=(Front const&);
    Front& operator=(Front&&) noexcept;
    ~Front();
    int get() const;
    void set(int);

private:
    struct Impl;
    xitren::func::fast_pimpl<Impl, 64, 16> impl_;
};
static int g_live = 0;
static int
use_front()
{
    Front a;
    a.set(5);
    Front b{a};
    b.set(7);
    Front c{std::move(b)};
    a = c;
    c.set(11);
    b = std::move(c);
    return a.get() * 100 + b.get();
}
struct Front::Impl {
    Impl() { g_live++; }
    Impl(Impl const& o) : v{o.v} { g_live++; }
    Impl& operator=(Impl const&) = default;
    ~Impl() { g_live--; }
    int           v{3};
    unsigned char fill[40]{};
};
Front::Front() = default;
Front::Front(Front const&) = default;
Front::Front(Front&&) noexcept = default;
Front& Front::operator=(Front const&) = default;
Front& Front::operator=(Front&&) noexcept = default;
Front::~Front() = default;
int
Front::get() const
{
    return impl_->v;
}
void
Front::set(int v)
{
    impl_->v = v;
}
#elif REJ_KIND == 1    // a unit short
using Holder = xitren::func::fast_pimpl<Held, sizeof(Held) - 16, alignof(Held), false>;
#elif REJ_KIND == 2    // half the alignment
using Holder = xitren::func::fast_pimpl<Held, sizeof(Held), 8, false>;
#elif REJ_KIND == 3    // strict, a unit too large
using Holder = xitren::func::fast_pimpl<Held, sizeof(Held) + 16, alignof(Held), true>;
#elif REJ_KIND == 4    // strict, a unit short
using Holder = xitren::func::fast_pimpl<Held, sizeof(Held) - 16, alignof(Held), true>;
#elif REJ_KIND == 5    // strict, half the alignment
using Holder = xitren::func::fast_pimpl<Held, sizeof(Held), 8, true>;
#endif

template <class H>
static void
look()
{
    struct alignas(64) Room {
        unsigned char lead[24];    // puts a weakly aligned holder off 16
        H h;
    };
    Room r;
    auto hb = reinterpret_cast<std::uintptr_t>(&r.h), ob = reinterpret_cast<std::uintptr_t>(&*r.h);
    vf::tr("holder of %zu bytes aligned to %zu accepted for an object of %zu bytes aligned to %zu", sizeof(H), alignof(H), sizeof(Held),
           alignof(Held));
#ifndef REJ_FITS
    vf::reportf("C31", "wrong-declaration-accepted", "a holder with wrong storage was accepted: object at holder %+ld, holder of %zu bytes, object of %zu, off its alignment by %zu",
             static_cast<long>(ob - hb), sizeof(H), sizeof(Held), static_cast<std::size_t>(ob % alignof(Held)));
#else
    if (ob < hb || ob + sizeof(Held) > hb + sizeof(H) || ob % alignof(Held))
        vf::reportf("C31", "object-outside-holder", "the object is not inside its holder, or off its alignment");
    vf::count("pimpl.fitting_declarations");
#endif
}

void
vf_case(vf::Src&)
{
    look<Holder>();
#ifdef REJ_FITS
    look<Wider>();
    if (int got = use_front(); got != 711 || g_live != 0)
        vf::reportf("C31", "incomplete-type", "a class holding an incomplete implementation gave %d (711 expected) and left %d objects", got, g_live);
#endif
    vf::nontrivial();
}
void
vf_directed()
{
}
