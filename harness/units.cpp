// C35: the library is header-only: any headers, alone or together, in any order, in any number of translation units of one
// program.  unit_1/2/3.cpp each compile the same operations on the same objects for themselves.  A script is run within one
// unit, then again with every call made by a unit chosen at random (objects made in one, used in another, destroyed in a
// third; exceptions of one caught in another): what is seen must be the same.  Also before main begins and after it ends.
#define VF_RETURNS 1
#include "vf.hpp"

#include "units.hpp"

std::vector<int> compile_time_chain(int n);    // unit_4.cpp
static Unit const* const all[3] = {&unit_1, &unit_2, &unit_3};

std::uint64_t
whole_run(Unit const& u, Trace* out)
{
    Trace         t;
    World*        w = u.make();
    std::uint64_t x = 0x51ed270b9f3cull;
    for (unsigned i = 0; i < 160; i++) {
        auto const a = vf::splitmix(x);
        auto       k = static_cast<unsigned>(a >> 40) % unit_ops;
        if (k != 39)    // an event's thread takes its time to begin
            u.op(w, k, a & 0xffffffff, t, &u);
    }
    u.unmake(w);
    std::uint64_t h = 0x9E3779B97F4A7C15ull;
    for (auto v : t) {
        h = (h ^ v) * 0xff51afd7ed558ccdull;
        h ^= h >> 32;
    }
    if (out)
        *out = t;
    return h;
}

struct Call {
    unsigned      op;
    std::uint64_t arg;
};

static void
play(std::vector<Call> const& script, vf::Src* pick, std::vector<std::size_t>& ends, Trace& t)
{
    auto    choose = [&] { return pick ? all[pick->below(3)] : &unit_1; };
    World*  w      = choose()->make();
    std::set<unsigned> used;
    unsigned           last = 9;
    for (auto const& c : script) {
        auto const* u = choose();
        auto const* h = choose();
        unsigned    n = u == all[0] ? 0 : u == all[1] ? 1 : 2;
        if (pick) {
            vf::tr("op %u arg %lu in unit %u", c.op, static_cast<unsigned long>(c.arg), n + 1);
            if (n != last)
                vf::count("units.crossings");
            if (h != u && c.op == 11)
                vf::count("units.thrown_across");
            last = n;
            vf::mix(c.op * 3 + n);
        }
        u->op(w, c.op, c.arg, t, h);
        ends.push_back(t.size());
    }
    choose()->unmake(w);
    ends.push_back(t.size());
}

void
vf_case(vf::Src& s)
{
    std::vector<Call> script;
    auto const        n     = 20 + s.below(150);
    unsigned          focus = static_cast<unsigned>(s.below(unit_ops));
    bool const        event = s.chance(1, 6);
    for (std::size_t i = 0; i < n; i++) {
        auto k = s.chance(1, 3) ? (focus + static_cast<unsigned>(s.below(5))) % unit_ops : static_cast<unsigned>(s.below(unit_ops));
        if (k == 39 && !event)
            k = static_cast<unsigned>(s.below(39));
        script.push_back({k, s.u64() & 0xffffffff});
    }
    Trace                    one, many;
    std::vector<std::size_t> e1, e2;
    play(script, nullptr, e1, one);
    play(script, &s, e2, many);
    vf::count("units.values_seen", one.size());
    for (std::size_t i = 0; i < e1.size(); i++) {
        std::size_t const b1 = i ? e1[i - 1] : 0, b2 = i ? e2[i - 1] : 0;
        bool const        same = e1[i] == e2[i] && b1 == b2 && std::equal(one.begin() + static_cast<long>(b1), one.begin() + static_cast<long>(e1[i]),
                                                                   many.begin() + static_cast<long>(b2));
        VF_REQUIRE("C35", same, "differs-across-units", "call %zu (op %d) shows something else when units share the objects than within one unit", i,
                   i < script.size() ? static_cast<int>(script[i].op) : -1);
    }
    vf::nontrivial();
}

static void
expect_local(unsigned k, Trace const& t)
{
    Trace const want{k * 1011, k * 1011, k * 2011, k * 3000, k * 2011, k * 11, k * 22, 7};
    VF_EXPECT("C35", t.size() >= 11, "local-types", "unit %u: types of its own gave %zu results", k, t.size());
    for (std::size_t i = 0; i < want.size() && i < t.size(); i++)
        VF_EXPECT("C35", t[i] == want[i], "local-types", "unit %u: types of its own (named as in other units): result %zu is %lu, not %lu", k, i,
                  static_cast<unsigned long>(t[i]), static_cast<unsigned long>(want[i]));
    if (t.size() >= 11) {
        VF_EXPECT("C35", t[9] == 4 * k && t[10] == 11 * k, "local-types", "unit %u: serialised size %lu value %lu", k, static_cast<unsigned long>(t[9]),
                  static_cast<unsigned long>(t[10]));
    }
    vf::count("units.local_types");
}

void
vf_directed()
{
    Trace s1, s;
    unit_1.sizes(s1);
    std::uint64_t const now = whole_run(unit_1);
    for (unsigned k = 1; k <= 3; k++) {
        Unit const& u = *all[k - 1];
        s.clear();
        u.sizes(s);
        VF_EXPECT("C35", s == s1, "layout", "unit %u has other sizes of the components than unit 1", k);
        VF_EXPECT("C35", u.before_main == now, "before-main", "a run of unit %u before main saw something else than one within main", k);
        VF_EXPECT("C35", whole_run(u) == now, "unit-differs", "a run within unit %u saw something else than one within unit 1", k);
        vf::count("units.before_main");
        Trace t;
        u.local(t);
        expect_local(k, t);
    }
    VF_EXPECT("C35", (compile_time_chain(2) == std::vector<int>{1, -1, 2, -2}), "compile-time-unit",
              "a unit with compile-time observers, in a program that uses run-time ones elsewhere, notified otherwise than bound");
    // messages of types that have the same name in two units and nothing else in common
    for (unsigned k = 1; k <= 3; k++) {
        int const heard = unit_1.twin_heard(*all[k - 1]);
        vf::count("units.twin_types");
        if (k == 1)
            VF_EXPECT("C18", heard == 1, "twin-own", "a message was heard %d times, not once, in its own unit", heard);
        else
            VF_EXPECT("C18", heard == 0, "twin-types", "unit 1 sent a message of a type of its own (in an unnamed namespace): a module of unit %u, whose type "
                      "of the same name is a different one, received it", k);
    }
}
