// C22: load figures of stages and pools, on a virtual clock, with the handlers held at a gate.
#include "vclock.hpp"
#include "vf.hpp"
#include "vthreads.hpp"

#include <condition_variable>
#include <cstddef>
#include <deque>
#include <limits>
#include <sstream>
#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/comm/pipeline_stage_pool.hpp>

#include <memory>

namespace comm = xitren::comm;
using vf::Src;
using vf::tr;

struct Log {
    static std::ostringstream&
    trace()
    {
        thread_local std::ostringstream o;
        o.str("");
        return o;
    }
    static auto&
    debug()
    {
        return trace();
    }
    static auto&
    warning()
    {
        return trace();
    }
    static auto&
    error()
    {
        return trace();
    }
};

static void
nap(long us)
{
    timespec ts{us / 1000000, us % 1000000 * 1000};
    ::nanosleep(&ts, nullptr);
}

// ---- gate: each handler enters, waits until released
struct Entry {
    int           item, worker;
    int           time, load;    // what the handler was given
    std::uint64_t enter_ev{}, exit_ev{};
    std::int64_t  enter_v{}, exit_v{};
};
struct Gate {
    std::mutex              mx;
    std::condition_variable cv;
    std::vector<Entry>      log;    // in order of entering
    std::uint64_t           ev{};
    std::map<int, bool>     inside, go;    // by worker
    bool                    open{};    // everybody passes
    struct PushRec {
        std::uint64_t b{}, e{};
        std::int64_t  v{};
    };
    std::vector<PushRec> pushes;

    void
    handler(int item, int worker, int time, int load)
    {
        std::unique_lock l(mx);
        std::size_t const me = log.size();
        log.push_back({item, worker, time, load, ev++, 0, vclock::now_ns.load(), 0});
        inside[worker] = true;
        go[worker]     = false;
        cv.notify_all();
        cv.wait(l, [&] { return open || go[worker]; });
        inside[worker]  = false;
        log[me].exit_ev = ev++;
        log[me].exit_v  = vclock::now_ns.load();
        cv.notify_all();
    }
    // wait until worker w is inside a handler; false when that does not happen for `us`
    bool
    entered(int w, long us)
    {
        std::unique_lock l(mx);
        for (long t = 0; t < us; t += 50) {
            if (inside[w])
                return true;
            l.unlock();
            nap(50);
            l.lock();
        }
        return inside[w];
    }
    void
    release(int w)
    {
        std::unique_lock l(mx);
        go[w] = true;
        cv.notify_all();
        cv.wait(l, [&] { return !inside[w] || !go[w]; });
    }
};

/// Everything recorded, judged: what each handler was given must follow from the worker's previous ten handlings.
static void
judge(Gate& g, int workers, bool ended)
{
    struct Bound {
        std::int64_t tlo, thi;
        long         llo, lhi;
    };
    std::map<int, int> owner;
    for (auto& e : g.log)
        owner[e.item] = e.worker;
    std::size_t exact = 0, checked = 0;
    for (int w = 0; w < workers; w++) {
        std::vector<Entry const*> mine;
        for (auto& e : g.log)
            if (e.worker == w)
                mine.push_back(&e);
        std::deque<Bound> win;
        for (std::size_t i = 0; i < std::min<std::size_t>(mine.size(), 300); i++) {
            auto& e = *mine[i];
            std::int64_t tlo = 0, thi = 0;
            long         llo = 0, lhi = 0;
            for (auto& b : win) {
                tlo += b.tlo;
                thi += b.thi;
                llo += b.llo;
                lhi += b.lhi;
            }
            tlo /= 10;
            thi /= 10;
            llo /= 10;
            lhi /= 10;
            checked++;
            if (tlo == thi && llo == lhi)
                exact++;
            VF_EXPECT("C22", e.time >= tlo && e.time <= thi, "time", "handler call %zu of worker %d was given time %d; the last ten handlings make it %lld%s", i, w, e.time,
                      (long long)tlo, tlo == thi ? "" : vf::fmt("..%lld", (long long)thi).c_str());
            VF_EXPECT("C22", e.load >= llo && e.load <= lhi, "load", "handler call %zu of worker %d was given load %d; the last ten backlogs make it %ld%s", i, w, e.load, llo,
                      llo == lhi ? "" : vf::fmt("..%ld", lhi).c_str());
            vf::seen(static_cast<std::uint64_t>(e.time) * 100003 + static_cast<std::uint64_t>(e.load) * 7 + win.size());
            if (i + 1 == mine.size())
                break;
            auto& nx = *mine[i + 1];
            // clock at the start: between the previous exit and this entry; at the end: between this exit and the next entry.
            // Only the main thread moves the clock.
            Bound b{};
            std::int64_t const start_lo = std::max(i ? mine[i - 1]->exit_v : 0, g.pushes[static_cast<std::size_t>(e.item)].v), start_hi = e.enter_v;
            b.tlo = (e.exit_v - start_hi) / 1000000;
            b.thi = (nx.enter_v - std::min(start_lo, start_hi)) / 1000000;
            // backlog right after: items pushed for this worker and not yet taken
            long taken = static_cast<long>(i) + 1, lo = 0, hi = 0;
            for (std::size_t k = 0; k < g.pushes.size(); k++)
                if (auto o = owner.find(static_cast<int>(k)); o != owner.end() && o->second == w) {
                    if (g.pushes[k].e && g.pushes[k].e < e.exit_ev)
                        lo++;
                    if (g.pushes[k].b < nx.enter_ev)
                        hi++;
                }
            b.llo = lo - taken;
            b.lhi = hi - taken;
            win.push_front(b);
            if (win.size() > 10)
                win.pop_back();
        }
        if (mine.size() > 11)
            vf::count("stats.windows_slid");
    }
    vf::count("stats.handler_figures", checked);
    vf::count("stats.exact", exact);
    (void)ended;
}

template <std::size_t Buf, int Pool>
static void
drive(Src& s, int deep = 0)
{
    int const workers = std::max(Pool, 1);
    Gate      g;
    int       pushed = 0;
    std::map<int, long> backlog;    // known lower bound is not needed; only for the stage
    std::unique_ptr<comm::pipeline_stage<int, int, Buf, Log>>                                                   st;
    std::unique_ptr<comm::pipeline_stage_pool<int, int, Buf, static_cast<std::size_t>(Pool ? Pool : 1), Log>> po;
    std::atomic<comm::pipeline_stage<int, int, Buf, Log>*> self{};
    if constexpr (Pool == 0)
        self = (st = std::make_unique<comm::pipeline_stage<int, int, Buf, Log>>(
            [&g, &self](comm::pipeline_stage_exception, int const v, std::pair<int, int> const m) -> int const {
                g.handler(v, 0, m.first, m.second);
                // the handler, too, may ask
                if (auto* own = self.load(); own && v % 3 == 0) {
                    int const t = own->time_for_unit(), l = own->buffer_utilization();
                    VF_EXPECT("C22", t == m.first && l == m.second, "query", "the stage tells its handler %d/%d, which it had given %d/%d", t, l, m.first, m.second);
                    vf::count("stats.handler_queries");
                }
                return 0;
            })).get();
    else
        po = std::make_unique<comm::pipeline_stage_pool<int, int, Buf, static_cast<std::size_t>(Pool ? Pool : 1), Log>>(
            [&g](comm::pipeline_stage_exception, int const v, comm::measure_data const m) -> int const {
                g.handler(v, m.id, m.time, m.load);
                return 0;
            });
    int const  items = deep ? 14 : static_cast<int>(3 + s.below(s.chance(1, 3) ? 60 : 25));
    static constexpr int spreads[] = {3, 30, 500, 100000};
    long const spread = deep ? 10000000 : static_cast<long>(spreads[s.below(4)]);
    std::vector<long> room(static_cast<std::size_t>(workers), 0);    // items pushed to a worker and not taken (single worker only)
    long              waiting = 0;    // single worker: items not yet taken
    auto              push_one = [&] {
        Gate::PushRec r;
        {
            std::lock_guard l(g.mx);
            r.b = g.ev++;
            r.v = vclock::now_ns.load();
            g.pushes.push_back(r);
        }
        int const k = pushed++;
        if constexpr (Pool == 0) {
            if (s.chance(1, 2))
                st->push(k);
            else
                st->push(int{k});
        } else {
            if (s.chance(1, 2))
                po->push(k);
            else
                po->push(int{k});
        }
        std::lock_guard l(g.mx);
        g.pushes[static_cast<std::size_t>(k)].e = g.ev++;
    };
    auto query = [&](int w) {
        // while the worker is held in its handler, what the stage reports is what that handler was given
        if constexpr (Pool == 0) {
            int const t = st->time_for_unit(), l = st->buffer_utilization();
            std::lock_guard k(g.mx);
            auto& e = g.log.back();
            VF_EXPECT("C22", t == e.time && l == e.load, "query", "the stage reports %d/%d where its handler was given %d/%d", t, l, e.time, e.load);
            vf::count("stats.queries");
        }
        (void)w;
    };
    std::uint64_t const msec = 1000000;
    if (workers == 1) {
        push_one();
        waiting = 1;
        int done = 0;
        while (done < items) {
            if (!g.entered(0, 20000000)) {
                vf::inconclusive("the worker did not enter its handler");
                break;
            }
            waiting--;
            for (; deep > 0; deep--, waiting++)
                push_one();
            long more = 0;
            if (waiting == 0)
                more = 1;
            if (s.chance(1, 2))
                more += static_cast<long>(s.below(std::min<std::uint64_t>(Buf, 40) + 1));
            while (more-- > 0 && waiting < static_cast<long>(Buf) && pushed < items + 30) {
                push_one();
                waiting++;
            }
            query(0);
            // how long this handling takes: whole ms plus a part of one
            vclock::advance(static_cast<std::int64_t>(s.below(static_cast<std::uint64_t>(spread)) * msec + s.below(msec)));
            if (s.chance(1, 3))
                query(0);
            bool const none = waiting == 0;
            g.release(0);
            done++;
            if (done == items)
                break;
            if (none) {    // nothing waiting: let the worker note the empty backlog before the next push
                nap(3000);
                push_one();
                waiting++;
            } else if (s.chance(1, 10) && waiting == 1 && pushed < items + 30) {
                // drain now and then, so that empty backlogs occur
            }
        }
        // a stage can also be asked when idle
    } else {
        int busy = 0, rounds = 0;
        while (rounds < items) {
            rounds++;
            // push some: the pool spreads them
            for (int n = static_cast<int>(s.below(4)); n && pushed < items + workers * static_cast<int>(Buf) / 2; n--) {
                long held = 0;
                {
                    std::lock_guard l(g.mx);
                    held = pushed - static_cast<long>(g.log.size());
                }
                if (held >= static_cast<long>(Buf) * workers - workers)    // never block: some worker has room
                    break;
                push_one();
                nap(30);
            }
            vclock::advance(static_cast<std::int64_t>(s.below(static_cast<std::uint64_t>(spread)) * msec + s.below(msec)));
            int const w = static_cast<int>(s.below(static_cast<std::uint64_t>(workers)));
            if (!g.entered(w, 300))
                continue;
            busy++;
            g.release(w);
            g.entered(w, 1500);
        }
        (void)busy;
    }
    {
        std::lock_guard l(g.mx);
        g.open = true;
        g.cv.notify_all();
    }
    self = nullptr;
    st.reset();
    po.reset();
    tr("%s, buffer %zu: %d items pushed, %zu handled, spread %ld ms", Pool ? vf::fmt("pool of %d", Pool).c_str() : "stage", Buf, pushed, g.log.size(), spread);
    judge(g, workers, true);
    vf::mix(g.log.size() * 977 + static_cast<std::uint64_t>(pushed));
    for (auto& e : g.log)
        vf::mix(static_cast<std::uint64_t>(e.time) * 31 + static_cast<std::uint64_t>(e.load) + static_cast<std::uint64_t>(e.worker) * 7777);
    if (g.log.size() > 11)
        vf::nontrivial();
}

// queries from other threads while the stage runs (for the race detectors); figures within what is possible
template <std::size_t Buf>
static void
pollers(Src& s)
{
    std::uint64_t const seed = s.u64();
    int const           n    = static_cast<int>(20 + s.below(150));
    std::atomic<bool>   stop{false};
    std::atomic<long>   polls{0};
    {
        comm::pipeline_stage<int, int, Buf, Log> st([](comm::pipeline_stage_exception, int const v, std::pair<int, int> const) -> int const {
            vclock::advance(std::int64_t{1000000} * (v % 50));
            ::sched_yield();
            return 0;
        });
        std::vector<std::thread> ps;
        for (int i = 0; i < 2; i++)
            ps.emplace_back([&] {
                while (!stop.load(std::memory_order_relaxed)) {
                    int t = st.time_for_unit(), l = st.buffer_utilization();
                    VF_EXPECT("C22", t >= 0 && t < 50, "time-range", "reported time %d for handlings of 0..49 ms", t);
                    VF_EXPECT("C22", l >= 0 && l <= 3 * n + 3, "load-range", "reported load %d", l);
                    polls.fetch_add(1, std::memory_order_relaxed);
                    ::sched_yield();
                }
            });
        vt::run(3, seed, static_cast<unsigned>(s.below(4)), [&](int) {
            for (int i = 0; i < n; i++) {
                st.push(i);
                vt::jitter();
            }
        });
        stop.store(true, std::memory_order_relaxed);
        for (auto& p : ps)
            p.join();
    }
    vf::count("stats.polls", static_cast<std::uint64_t>(polls.load()));
    vf::mix(seed);
}

void
vf_case(Src& s)
{
    switch (s.below(11)) {
    case 0:
        return drive<1, 0>(s);
    case 1:
        return drive<4, 0>(s);
    case 2:
        return drive<64, 0>(s);
    case 3:
        return drive<1024, 0>(s);
    case 4:
        return drive<16, 1>(s);
    case 5:
        return drive<64, 1>(s);
    case 6:
        return drive<16, 2>(s);
    case 7:
        return drive<64, 3>(s);
    case 8:
        return drive<16, 5>(s);
    case 9:
        return pollers<2>(s);
    default:
        return pollers<64>(s);
    }
}
void
vf_directed()
{
    // long backlogs and long handlings
    Src s{31};
    for (int i = 0; i < 3; i++) {
        drive<1024, 0>(s, 900);
        drive<1024, 1>(s, 900);
    }
#if !defined(VF_ASAN) && !defined(VF_TSAN)
    drive<70000, 0>(s, 66000);
    drive<70000, 1>(s, 66000);
#endif
    vf::count("stats.deep");
}
