// C13: a growing observable shared between threads.
#include "vf.hpp"
#include "vthreads.hpp"

#include <xitren/comm/observer.hpp>

#include <memory>

using namespace xitren::comm;
using vf::Src;
using vf::tr;

struct Note {
    std::uint64_t id;
    std::uint64_t twice;
};
static vt::Ticks g_tick;

struct Delivery {
    std::uint64_t id, at;
};
struct Obs : observer<Note> {
    // deliberately unsynchronised: the observable's own exclusion is what protects it
    std::vector<Delivery> got;
    std::vector<std::uint64_t> gone;
    int                   busy{0};
    std::unique_ptr<int>  alive{new int(7)};
    void const*           want_src{};
    void
    disconnect(void const* src) override
    {
        gone.push_back(g_tick());
        if (src != want_src)
            vf::report("C13", "disconnect-source", "disconnect hook got another source");
    }

protected:
    void
    data(void const* src, Note const& n) override
    {
        if (busy++ != 0)
            vf::report("C13", "overlapping-delivery", "an observer was called by two notifications at once");
        if (n.twice != 2 * n.id || src != want_src)
            vf::report("C13", "wrong-data", "an observer got torn data or a wrong source");
        got.push_back({n.id, g_tick()});
        vt::jitter();
        *alive += 1;
        busy--;
    }
};
struct Reg {    // one registration period of an observer, as its owner saw it
    std::uint64_t add_call{}, add_ret{}, rem_call{~0ull}, rem_ret{~0ull};
};
struct Span {
    std::uint64_t call, ret, id;
};

void
vf_case(Src& s)
{
    auto      o         = std::make_unique<observable_dynamic<Note>>();
    int const notifiers = 1 + static_cast<int>(s.below(3)), owners = 1 + static_cast<int>(s.below(3)), clearers = static_cast<int>(s.below(3)) == 0;
    int const notes = 6 + static_cast<int>(s.below(20)), rounds = 3 + static_cast<int>(s.below(10)), clears = clearers ? 1 + static_cast<int>(s.below(3)) : 0;
    int const fixed = static_cast<int>(s.below(3));    // observers registered throughout (unless cleared)
    std::uint64_t const js = s.u64(), rs = s.u64();
    unsigned const      level = static_cast<unsigned>(s.below(4));
    struct Life {    // an observer with its registration periods
        std::unique_ptr<Obs> o;
        std::vector<Reg>     regs;
        std::vector<Delivery> got;
        std::vector<std::uint64_t> gone;
        bool                 again{};    // added again by its owner after a clear, inside one period
    };
    std::vector<std::vector<Life>> life(owners + 1);
    std::vector<std::vector<Span>> note(notifiers);
    std::vector<Span>              clr;
    for (int i = 0; i < fixed; i++) {
        Life l;
        l.o           = std::make_unique<Obs>();
        l.o->want_src = o.get();
        Reg r;
        r.add_call = g_tick();
        o->add_observer(*l.o);
        r.add_ret = g_tick();
        l.regs.push_back(r);
        life[owners].push_back(std::move(l));
    }
    tr("%d notifiers x %d, %d owners x %d rounds, %d clears, %d fixed observers, jitter %u", notifiers, notes, owners, rounds, clears, fixed, level);
    vt::run(notifiers + owners + clearers, js, level, [&](int t) {
        Src r{rs + t};
        if (t < notifiers) {
            for (int i = 0; i < notes; i++) {
                Span sp{};
                sp.id   = static_cast<std::uint64_t>(t + 1) * 100000 + i;
                sp.call = g_tick();
                o->notify_observers(Note{sp.id, 2 * sp.id});
                sp.ret = g_tick();
                note[t].push_back(sp);
                if (r.chance(1, 4))
                    vt::jitter();
            }
        } else if (t < notifiers + owners) {
            auto& mine = life[t - notifiers];
            for (int i = 0; i < rounds; i++) {
                Life l;
                l.o           = std::make_unique<Obs>();
                l.o->want_src = o.get();
                int reps      = 1 + static_cast<int>(r.below(3));
                for (int k = 0; k < reps; k++) {
                    Reg g;
                    g.add_call = g_tick();
                    try {
                        o->add_observer(*l.o);
                    } catch (observable_dynamic<Note>::exception&) {
                        vf::report("C13", "add-refused", "adding an unregistered observer was refused in a concurrent run");
                    }
                    g.add_ret = g_tick();
                    for (unsigned q = static_cast<unsigned>(r.below(6)); q; q--)
                        ::sched_yield();
                    if (r.chance(1, 5)) {
                        try {
                            o->add_observer(*l.o);
                            // accepted: only possible if a clear removed it meanwhile
                            l.again = true;
                            if (!clearers)
                                vf::report("C13", "added-twice", "an observer could be added twice");
                        } catch (observable_dynamic<Note>::exception& e) {
                            if (e.error != observer_errors::already_contains)
                                vf::report("C13", "wrong-error", "wrong error");
                        }
                    }
                    g.rem_call = g_tick();
                    bool ok    = true;
                    try {
                        o->remove_observer(*l.o);
                    } catch (observable_dynamic<Note>::exception& e) {
                        ok = false;
                        if (e.error != observer_errors::not_found)
                            vf::report("C13", "wrong-error", "wrong error");
                    }
                    g.rem_ret = g_tick();
                    if (!ok && !clearers)
                        vf::report("C13", "remove-refused", "removing a registered observer was refused in a concurrent run");
                    l.regs.push_back(g);
                }
                // from here on nobody may call it: take its log and free it
                l.got  = l.o->got;
                l.gone = l.o->gone;
                *l.o->alive = -1;
                l.o.reset();
                mine.push_back(std::move(l));
            }
        } else {
            for (int i = 0; i < clears; i++) {
                for (unsigned q = static_cast<unsigned>(r.below(30)); q; q--)
                    ::sched_yield();
                Span sp{};
                sp.call = g_tick();
                o->clear_observers();
                sp.ret = g_tick();
                clr.push_back(sp);
            }
        }
    });
    for (auto& l : life[owners]) {
        l.got  = l.o->got;
        l.gone = l.o->gone;
    }
    // ---- offline check of the recorded history
    std::vector<Span> notes_all;
    for (auto& v : note)
        notes_all.insert(notes_all.end(), v.begin(), v.end());
    std::map<std::uint64_t, Span const*> by_id;
    for (auto& n : notes_all)
        by_id[n.id] = &n;
    std::uint64_t deliveries = 0, musts = 0, overl = 0;
    std::map<std::uint64_t, std::set<std::uint64_t>> succ;
    for (auto& group : life)
        for (auto& l : group) {
            std::map<std::uint64_t, int> cnt;
            for (std::size_t i = 0; i < l.got.size(); i++) {
                auto& d = l.got[i];
                cnt[d.id]++;
                deliveries++;
                if (i)
                    succ[l.got[i - 1].id].insert(d.id);
                auto it = by_id.find(d.id);
                VF_REQUIRE("C13", it != by_id.end(), "unknown-note", "an observer got a notification nobody sent");
                VF_REQUIRE("C13", d.at > it->second->call && d.at < it->second->ret, "late-delivery",
                           "a delivery happened outside the notify call that made it");
                bool may = false;
                for (auto& g : l.regs)
                    if (d.at > g.add_call && d.at < g.rem_ret) {
                        may = true;
                        for (auto& c : clr)    // a clear wholly inside the period, before the delivery, ended it (unless added again)
                            if (c.call > g.add_ret && c.ret < d.at && g.rem_call > d.at && l.regs.size() == 1 && !l.again)
                                may = false;
                    }
                VF_REQUIRE("C13", may, "delivered-unregistered", "an observer was called at %llu when it was not registered (before its addition or after its removal or a clear returned)",
                           (unsigned long long)d.at);
            }
            for (auto& [id, c] : cnt)
                VF_REQUIRE("C13", c == 1, "delivered-twice", "an observer got notification %llu %d times", (unsigned long long)id, c);
            for (auto& n : notes_all)
                for (auto& g : l.regs) {
                    if (g.add_ret < n.call && n.ret < g.rem_call) {
                        bool cleared = false;
                        for (auto& c : clr)
                            if (c.ret > g.add_call && c.call < n.ret)
                                cleared = true;
                        if (!cleared) {
                            musts++;
                            VF_REQUIRE("C13", cnt.count(n.id) == 1, "not-delivered",
                                       "notification %llu [%llu,%llu] missed an observer registered [%llu,%llu]", (unsigned long long)n.id,
                                       (unsigned long long)n.call, (unsigned long long)n.ret, (unsigned long long)g.add_ret,
                                       (unsigned long long)g.rem_call);
                        }
                    } else if (n.call < g.rem_ret && g.add_call < n.ret) {
                        overl++;
                    }
                }
            for (auto at : l.gone) {
                bool in = false;
                for (auto& c : clr)
                    if (at > c.call && at < c.ret)
                        in = true;
                VF_EXPECT("C13", in, "disconnect-outside-clear", "a disconnect hook ran outside any clear");
            }
            VF_EXPECT("C13", l.gone.size() <= clr.size() && (clr.empty() ? l.gone.empty() : true), "disconnect-count", "too many disconnects");
        }
    // one order of notifications for all observers
    {
        std::map<std::uint64_t, int> col;
        bool                         cyc = false;
        struct Fr {
            std::uint64_t id;
            std::set<std::uint64_t>::iterator it;
        };
        for (auto& [root, x] : succ) {
            if (col[root])
                continue;
            std::vector<Fr> st{{root, succ[root].begin()}};
            col[root] = 1;
            while (!st.empty() && !cyc) {
                auto& f = st.back();
                if (f.it == succ[f.id].end()) {
                    col[f.id] = 2;
                    st.pop_back();
                    continue;
                }
                auto nx = *f.it++;
                if (col[nx] == 1)
                    cyc = true;
                else if (!col[nx]) {
                    col[nx] = 1;
                    st.push_back({nx, succ[nx].begin()});
                }
            }
        }
        VF_EXPECT("C13", !cyc, "order-differs", "two observers saw notifications in different orders");
    }
    // afterwards it still works, and destruction disconnects those left
    for (auto& l : life[owners])
        l.o->gone.clear();
    o.reset();
    for (auto& l : life[owners])
        VF_EXPECT("C13", l.o->gone.size() == (clr.empty() ? 1u : 0u), "final-disconnect", "destroying the observable disconnected an observer %zu times",
                  l.o->gone.size());
    vf::count("obs_mt.deliveries", deliveries);
    vf::count("obs_mt.required_deliveries", musts);
    vf::count("obs_mt.overlapping_registrations", overl);
    vf::count("obs_mt.clears", clr.size());
    vf::mix(deliveries * 31 + musts * 1009 + overl * 77003);
    for (auto& g : life)
        for (auto& l : g)
            for (auto& d : l.got)
                vf::mix(d.id);
    if (overl && deliveries)
        vf::nontrivial();
}
void
vf_directed()
{}
