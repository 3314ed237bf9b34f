// C39: pushing waits only for room, a pool's push goes to a worker with the smallest backlog, and items are handled without
// any further call, whatever the other workers are doing.
#include "vf.hpp"
#include "vthreads.hpp"

#include <condition_variable>
#include <functional>
#include <memory>
#include <sstream>
#include <thread>
#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/comm/pipeline_stage_pool.hpp>

namespace comm = xitren::comm;
using vf::Src;
using vf::tr;

struct Nul {
    template <class T>
    Nul const& operator<<(T const&) const { return *this; }
};
struct Log {
    static Nul trace() { return {}; }
    static Nul debug() { return {}; }
    static Nul warning() { return {}; }
    static Nul error() { return {}; }
};

static double
seconds()
{
    timespec t{};
    ::clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}
static void
nap(long us)
{
    timespec ts{us / 1000000, us % 1000000 * 1000};
    ::nanosleep(&ts, nullptr);
}
static constexpr double patience = 20;    // nothing here takes a millisecond by itself

struct Item {
    std::uint64_t b{}, e{}, in{}, out{};    // ticks: push began and returned, handler entered and left
    int           worker{-1};
};
/// Handlers stay inside until their worker is let go.
struct Gate {
    std::mutex              mx;
    std::condition_variable cv;
    std::uint64_t           tick{1};
    std::vector<Item>       items;
    std::vector<int>        inside, steps;    // by worker: is inside; how many more may leave
    std::vector<bool>       free;             // by worker: all may leave
    std::size_t             entered{}, left{};
    std::function<void(int)> act;    // what handlers that are let go do
    unsigned                dawdle{};    // handlers that are let go take up to so long (microseconds)

    explicit Gate(int workers)
        : inside(static_cast<std::size_t>(workers)), steps(static_cast<std::size_t>(workers)), free(static_cast<std::size_t>(workers))
    {}
    void
    handler(int item, int worker)
    {
        std::unique_lock l(mx);
        VF_EXPECT("C39,C21", worker >= 0 && static_cast<std::size_t>(worker) < inside.size(), "worker-id", "a handler was told it is worker %d of %zu", worker, inside.size());
        auto const w                                = static_cast<std::size_t>(worker);
        items[static_cast<std::size_t>(item)].in     = tick++;
        items[static_cast<std::size_t>(item)].worker = worker;
        entered++;
        inside[w] = 1;
        cv.notify_all();
        cv.wait(l, [&] { return free[w] || steps[w] > 0; });
        if (!free[w])
            steps[w]--;
        if (act) {
            l.unlock();
            act(item);
            l.lock();
        }
        if (dawdle) {
            auto const d = dawdle;
            l.unlock();
            nap(static_cast<long>(static_cast<unsigned>(item) * 7919u % d));
            l.lock();
        }
        inside[w] = 0;
        left++;
        items[static_cast<std::size_t>(item)].out = tick++;
        cv.notify_all();
    }
    template <class F>
    bool
    await(F f, double s = patience)
    {
        std::unique_lock l(mx);
        double const     until = seconds() + s;
        while (!f()) {
            if (seconds() > until)
                return false;
            cv.wait_for(l, std::chrono::milliseconds(1));
        }
        return true;
    }
    void
    open()
    {
        std::lock_guard l(mx);
        free.assign(free.size(), true);
        cv.notify_all();
    }
};

/// Each push must have gone to a worker whose backlog can have been the smallest at that time.
static void
judge(Gate& g)
{
    std::vector<std::vector<int>> mine(g.inside.size());
    std::vector<int>              order;
    for (std::size_t i = 0; i < g.items.size(); i++)
        order.push_back(static_cast<int>(i));
    auto at = [&](int i) -> Item& { return g.items[static_cast<std::size_t>(i)]; };
    std::sort(order.begin(), order.end(), [&](int a, int b) { return at(a).in < at(b).in; });
    for (int i : order)
        if (at(i).worker >= 0)
            mine[static_cast<std::size_t>(at(i).worker)].push_back(i);
    for (int p : order) {
        auto&             P = at(p);
        std::vector<long> lo(mine.size()), hi(mine.size());
        for (std::size_t w = 0; w < mine.size(); w++) {
            std::uint64_t before = 0;    // when the worker's previous handling ended
            for (int i : mine[w]) {
                auto& I = at(i);
                if (i != p) {
                    bool const surely_pushed = I.e && I.e < P.b, maybe_pushed = I.b < P.e;
                    bool const surely_taken = I.in < P.b, maybe_taken = std::max(I.b, before) < P.e;
                    hi[w] += maybe_pushed && !surely_taken;
                    lo[w] += surely_pushed && !maybe_taken;
                }
                before = I.out;
            }
        }
        auto const c = static_cast<std::size_t>(P.worker);
        for (std::size_t w = 0; w < mine.size(); w++) {
            VF_EXPECT("C39", lo[c] <= hi[w], "balance", "item %d went to worker %zu, which had at least %ld waiting, while worker %zu had at most %ld", p, c, lo[c], w,
                      hi[w]);
            if (lo[w] > hi[c])
                vf::count("room.decisive_choices");
        }
    }
}

template <std::size_t Buf, int Pool>
struct Rig {
    static constexpr int workers = Pool ? Pool : 1;
    Gate                 g{workers};
    std::unique_ptr<comm::pipeline_stage<int, int, Buf, Log>>                                       st;
    std::unique_ptr<comm::pipeline_stage_pool<int, int, Buf, static_cast<std::size_t>(workers), Log>> po;

    Rig()
    {
        if constexpr (Pool == 0)
            st = std::make_unique<comm::pipeline_stage<int, int, Buf, Log>>([this](comm::pipeline_stage_exception, int const v, std::pair<int, int> const) -> int const {
                g.handler(v, 0);
                return 0;
            });
        else
            po = std::make_unique<comm::pipeline_stage_pool<int, int, Buf, static_cast<std::size_t>(workers), Log>>(
                [this](comm::pipeline_stage_exception, int const v, comm::measure_data const m) -> int const {
                    g.handler(v, m.id);
                    return 0;
                });
    }
    void
    push(bool moved)
    {
        int k{};
        {
            std::lock_guard l(g.mx);
            k = static_cast<int>(g.items.size());
            g.items.push_back({g.tick++, 0, 0, 0, -1});
        }
        if constexpr (Pool == 0)
            moved ? st->push(int{k}) : st->push(k);
        else
            moved ? po->push(int{k}) : po->push(k);
        std::lock_guard l(g.mx);
        g.items[static_cast<std::size_t>(k)].e = g.tick++;
        g.cv.notify_all();
    }
    std::size_t
    pushed()
    {
        std::lock_guard l(g.mx);
        return g.items.size();
    }
    std::size_t
    taken()
    {
        std::lock_guard l(g.mx);
        return g.entered;
    }
    ~Rig() { g.open(); }
};

// handlers held: the controller knows where everything is
template <std::size_t Buf, int Pool>
static void
held(Src& s)
{
    using R                 = Rig<Buf, Pool>;
    auto               rig  = std::make_unique<R>();
    auto&              g    = rig->g;
    constexpr int      W    = R::workers;
    auto               room = static_cast<std::size_t>(W) * Buf;    // for so many, beside those being handled
    std::atomic<bool>  quit{false};
    std::atomic<int>   asked{0}, done{0};
    // pushes are made by a thread of their own, so that one which does not return is noticed
    std::thread pusher{[&] {
        vt::perturb(77, 0);
        for (;;) {
            if (done < asked) {
                rig->push(done & 1);
                done++;
            } else if (quit)
                return;
            else
                nap(20);
        }
    }};
    struct Join {
        std::thread& t;
        std::atomic<bool>& q;
        Gate& g;
        ~Join()
        {
            g.open();
            q = true;
            t.join();
        }
    } join{pusher, quit, g};
    auto returned = [&](double t) {
        double const until = seconds() + t;
        while (done < asked) {
            if (seconds() > until)
                return false;
            nap(20);
        }
        return true;
    };
    auto push_free = [&](char const* when) {
        asked++;
        VF_EXPECT("C39", returned(patience), "push-waits", "a push into a %s with room (%s, buffer %zu, %zu pushed, %zu taken) did not return while the handlers were busy",
                  Pool ? "pool" : "stage", when, Buf, rig->pushed(), rig->taken());
        vf::count("room.pushes_with_handlers_held");
    };
    // fill: each worker gets one in hand, and `Buf` more
    for (int w = 0; w < W; w++)    // one in hand each: the idle and the busy look alike, so a pool may need several tries
        for (int t = 0; t < 4 * W; t++) {
            std::size_t const before = rig->taken();
            if (static_cast<int>(before) > w)
                break;
            if (rig->pushed() - before >= (room + 1) / 2)
                break;
            push_free("being filled");
            g.await([&] { return g.entered > before; }, 0.002);
        }
    int const rounds = 1 + static_cast<int>(s.below(3));
    for (int round = 0; round < rounds; round++) {
        std::size_t want = s.chance(1, 2) ? room : s.below(room + 1);
        // total waiting is at most room - 1 before each push: some worker has room
        for (std::size_t i = 0; i < 2 * room + 8; i++) {
            std::size_t waiting;
            {
                std::lock_guard l(g.mx);
                waiting = g.items.size() - g.entered;
            }
            if (waiting >= want)
                break;
            push_free("handlers held");
            if (s.chance(1, 4))
                nap(static_cast<long>(s.below(200)));
        }
        bool full;
        {
            std::lock_guard l(g.mx);
            full = g.items.size() - g.entered == room && std::count(g.inside.begin(), g.inside.end(), 1) == W
                   && std::count(g.steps.begin(), g.steps.end(), 0) == W;    // and none is about to leave
        }
        if (full) {
            vf::count("room.filled");
            vf::nontrivial();
            // one more has to wait, and goes on once every worker has taken an item
            if (s.chance(1, 2)) {
                asked++;
                if (!returned(0.001))
                    vf::count("room.waited");
                {
                    std::lock_guard l(g.mx);
                    for (auto& x : g.steps)
                        x++;
                    g.cv.notify_all();
                }
                VF_EXPECT("C39", returned(patience), "push-stuck", "a push that had found no room did not return after every worker had taken an item");
                VF_EXPECT("C39", g.await([&] { return std::count(g.inside.begin(), g.inside.end(), 1) == W && std::count(g.steps.begin(), g.steps.end(), 0) == W; }), "not-handled",
                          "workers with items waiting stopped handling them");
            } else {
                // one worker is let go for good: it handles all it has while the others stay where they are
                auto const  w     = static_cast<std::size_t>(s.below(static_cast<std::uint64_t>(W)));
                std::size_t base;
                {
                    std::lock_guard l(g.mx);
                    base      = g.entered;
                    g.free[w] = true;
                    g.cv.notify_all();
                }
                VF_EXPECT("C39", g.await([&] { return g.entered >= base + Buf && !g.inside[w]; }), "held-up",
                          "worker %zu was free and had %zu items waiting, but handled only %zu while the others were busy", w, Buf, rig->taken() - base);
                vf::count("room.handled_beside_busy");
                // it has nothing to do now: the next items are its
                for (std::size_t k = 1 + s.below(3); k; k--) {
                    auto const n = rig->pushed();
                    push_free("one worker idle");
                    VF_EXPECT("C39", g.await([&] { return g.items[n].out != 0; }), "held-up", "an item pushed while worker %zu was idle and the others full was not handled", w);
                }
                std::lock_guard l(g.mx);
                g.free[w] = false;
            }
        } else if (s.chance(1, 2)) {
            // let some take an item
            std::lock_guard l(g.mx);
            for (auto& x : g.steps)
                x += static_cast<int>(s.below(2));
            g.cv.notify_all();
        }
        vf::mix(want);
    }
    g.open();
    VF_EXPECT("C39,C20,C21", g.await([&] { return g.left == g.items.size(); }), "not-handled", "only %zu of %zu items were handled without any further call", g.left, g.items.size());
    vf::count("room.items", g.items.size());
    tr("%s, buffer %zu: %zu items", Pool ? vf::fmt("pool of %d", Pool).c_str() : "stage", Buf, g.items.size());
    judge(g);
    for (auto& i : g.items)
        vf::mix(static_cast<std::uint64_t>(i.worker));
}

// handlers come and go, several threads push
template <std::size_t Buf, int Pool>
static void
loose(Src& s)
{
    using R       = Rig<Buf, Pool>;
    auto  rig     = std::make_unique<R>();
    auto& g       = rig->g;
    g.dawdle      = static_cast<unsigned>(1 + s.below(400));
    g.free.assign(g.free.size(), true);
    int const                n     = 1 + static_cast<int>(s.below(3));
    int const                each  = 4 + static_cast<int>(s.below(30));
    std::uint64_t const      seed  = s.u64();
    unsigned const           level = static_cast<unsigned>(s.below(4));
    unsigned const           pause = static_cast<unsigned>(s.below(3)) * 100;
    std::vector<std::thread> ts;
    for (int t = 0; t < n; t++)
        ts.emplace_back([&, t] {
            vt::perturb(seed + static_cast<std::uint64_t>(t) * 977, level);
            for (int i = 0; i < each; i++) {
                vt::jitter();
                rig->push(i & 1);
                if (pause)
                    nap(static_cast<long>(vt::trand() % pause));
            }
        });
    for (auto& t : ts)
        t.join();
    VF_EXPECT("C39,C20,C21", g.await([&] { return g.left == g.items.size(); }), "not-handled", "only %zu of %zu items were handled without any further call", g.left, g.items.size());
    vf::count("room.items", g.items.size());
    tr("%s, buffer %zu: %d producers of %d items, handlers of up to %u us", Pool ? vf::fmt("pool of %d", Pool).c_str() : "stage", Buf, n, each, g.dawdle);
    judge(g);
    for (auto& i : g.items)
        vf::mix(static_cast<std::uint64_t>(i.worker));
}

// the handlers push: into their own stage or pool, when it has room, and into a second one
template <std::size_t Buf, int Pool>
static void
inner(Src& s)
{
    using R       = Rig<Buf, Pool>;
    auto       rig = std::make_unique<R>();
    auto       far = std::make_unique<R>();    // what comes after
    auto&      g   = rig->g;
    int const  all = 6 + static_cast<int>(s.below(40));
    std::uint64_t const seed = s.u64();
    unsigned const      level = static_cast<unsigned>(s.below(3));
    std::mutex one;    // one push at a time, so that there is room as counted
    std::atomic<int>  in_push{0}, passed_on{0};
    auto const has_room = [&] {
        std::lock_guard l(g.mx);
        return g.items.size() - g.entered < Buf;
    };
    g.act = [&](int item) {
        vt::perturb(seed + static_cast<std::uint64_t>(item) * 31, level);
        for (int k = static_cast<int>(1 + vt::trand() % 3); k; k--) {
            std::lock_guard l(one);
            if (static_cast<int>(rig->pushed()) < all && has_room()) {
                in_push++;
                rig->push(k & 1);
                in_push--;
                vf::count("room.pushes_by_handlers");
            }
        }
        far->push(item & 1);
        passed_on++;
    };
    g.free.assign(g.free.size(), true);
    far->g.free.assign(far->g.free.size(), true);
    int rounds = 0;
    while (static_cast<int>(rig->pushed()) < all && rounds++ < all) {    // a chain may end early: start another
        {
            std::lock_guard l(one);
            if (has_room())
                rig->push(rounds & 1);
        }
        bool const quiet = g.await([&] { return g.left == g.items.size(); });
        VF_REQUIRE("C39", quiet, "inner", "%s, buffer %zu: %zu of %zu items were handled; %d handlers wait in a push into their own %s, which has room", Pool ? "pool" : "stage", Buf,
                   g.left, g.items.size(), in_push.load(), Pool ? "pool" : "stage");
    }
    auto& f = far->g;
    VF_REQUIRE("C39,C20,C21", f.await([&] { return f.left == static_cast<std::size_t>(passed_on.load()); }), "not-handled", "of %d items that handlers passed on, %zu were handled",
               passed_on.load(), f.left);
    tr("%s, buffer %zu: %zu items, most of them pushed by handlers", Pool ? vf::fmt("pool of %d", Pool).c_str() : "stage", Buf, g.items.size());
    rig.reset();    // before what its handlers push into
    far->g.open();
    judge(far->g);
    vf::mix(static_cast<std::uint64_t>(passed_on.load()));
}

void
vf_case(vf::Src& s)
{
    auto const kind = s.below(12);
    bool const h    = s.chance(2, 3);
    if (s.chance(1, 5)) {
        switch (kind % 6) {
        case 0: return inner<1, 0>(s);
        case 1: return inner<5, 0>(s);
        case 2: return inner<1, 1>(s);
        case 3: return inner<4, 2>(s);
        case 4: return inner<1, 3>(s);
        default: return inner<16, 4>(s);
        }
    }
    switch (kind) {
    case 0: h ? held<1, 0>(s) : loose<1, 0>(s); break;
    case 1: h ? held<4, 0>(s) : loose<4, 0>(s); break;
    case 2: h ? held<40, 0>(s) : loose<40, 0>(s); break;
    case 3: h ? held<1, 1>(s) : loose<1, 1>(s); break;
    case 4: h ? held<8, 1>(s) : loose<8, 1>(s); break;
    case 5: h ? held<1, 2>(s) : loose<1, 2>(s); break;
    case 6: h ? held<3, 2>(s) : loose<3, 2>(s); break;
    case 7: h ? held<1, 4>(s) : loose<1, 4>(s); break;
    case 8: h ? held<5, 3>(s) : loose<5, 3>(s); break;
    case 9: h ? held<2, 5>(s) : loose<2, 5>(s); break;
    case 10: h ? held<16, 2>(s) : loose<16, 2>(s); break;
    default: h ? held<2, 8>(s) : loose<2, 8>(s); break;
    }
}

void
vf_directed()
{
    Src s{4242};
    held<1024, 0>(s);
    held<300, 3>(s);
    inner<1, 0>(s);
    inner<3, 2>(s);
}
