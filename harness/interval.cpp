// C23, C24, C25: interval events on a virtual clock.
// MODE 1: schedules judged exactly (C23, C25).  2: stopping (C24).  3: threads setting and reading the periods (C25).
#include "vclock.hpp"
#include "vf.hpp"
#include "vsleep.hpp"
#include "vthreads.hpp"

#include <xitren/func/interval_event.hpp>

#include <fcntl.h>

#include <memory>
#include <optional>

using vf::Src;
using vf::tr;
using xitren::func::interval_event;
using ms = std::chrono::milliseconds;
static constexpr std::int64_t MS = 1000000;

#ifdef VF_TSAN
static constexpr auto mo = std::memory_order_relaxed;
#else
static constexpr auto mo = std::memory_order_seq_cst;
#endif

// ================================================================ MODE 1: schedules
struct Change {
    std::int64_t v;
    long         pos;    // position in the order of everything that happened
};
struct Sched {
    struct Call {
        std::int64_t t, end;
        long         pos, end_pos;
    };
    struct Sleep {
        std::int64_t begin, end, late;
    };
    Src                 r{1};
    interval_event*     ev{};
    std::int64_t        t0{};
    std::vector<Call>   calls;
    std::vector<Sleep>  sleeps;
    std::vector<Change> periods, checks;    // in ms
    long                pos{};
    std::size_t         want{}, sleep_limit{};
    std::int64_t        late_max{}, dur_max{};
    unsigned            dur_chance{}, late_chance{};
    int                 change_in_call{}, change_in_sleep{};    // chances of 64
    int                 changes_left{};
    std::atomic<bool>   done{};
    std::int64_t        end_v{};
    bool                overlap{}, running{};

    void
    maybe_change(int chance)
    {
        if (!changes_left || !ev || static_cast<int>(r.below(64)) >= chance)
            return;
        changes_left--;
        bool const p = r.chance(2, 3);
        if (p) {
            auto v = static_cast<std::int64_t>(1 + r.below(r.chance(1, 2) ? 20 : 300));
            ev->period(ms{v});
            periods.push_back({v, pos++});
            VF_EXPECT("C25", ev->period().count() == v, "read-back", "period() reads %lld after %lld was set", (long long)ev->period().count(), (long long)v);
        } else {
            auto v = static_cast<std::int64_t>(1 + r.below(60));
            ev->period_between_checks(ms{v});
            checks.push_back({v, pos++});
            VF_EXPECT("C25", ev->period_between_checks().count() == v, "read-back-check", "period_between_checks() reads %lld after %lld was set",
                      (long long)ev->period_between_checks().count(), (long long)v);
        }
        VF_EXPECT("C25", ev->period().count() == periods.back().v && ev->period_between_checks().count() == checks.back().v, "other-changed",
                  "setting one period changed the other");
        vf::count("interval.changes");
    }
};
static std::atomic<Sched*> g_s{};

static void
sched_sleep(std::int64_t ns)
{
    Sched* p = g_s.load();
    if (!p || p->done.load()) {
        vclock::advance(ns);
        vs::real_sleep(20000);
        return;
    }
    Sched&       c = *p;
    std::int64_t b = vclock::now_ns.load(), late = 0;
    if (c.late_max && b + ns >= c.t0 + 50 * MS && c.r.chance(c.late_chance, 16))    // not the start-up
        late = static_cast<std::int64_t>(c.r.below(static_cast<std::uint64_t>(c.late_max)));
    vclock::advance(ns + late);
    c.sleeps.push_back({b, b + ns + late, late});
    c.pos++;
    c.maybe_change(c.change_in_sleep);
    if (c.calls.size() >= c.want || c.sleeps.size() >= c.sleep_limit) {
        c.end_v = vclock::now_ns.load();
        c.done  = true;
    }
}
static void
sched_call()
{
    Sched* p = g_s.load();
    if (!p || p->done.load())
        return;
    Sched& c = *p;
    if (c.running)
        c.overlap = true;
    c.running = true;
    c.calls.push_back({vclock::now_ns.load(), 0, c.pos++, 0});
    std::size_t const k = c.calls.size() - 1;
    c.maybe_change(c.change_in_call);
    if (c.dur_max && c.r.chance(c.dur_chance, 16))
        vclock::advance(static_cast<std::int64_t>(c.r.below(static_cast<std::uint64_t>(c.dur_max))));
    c.calls[k].end     = vclock::now_ns.load();
    c.calls[k].end_pos = c.pos++;
    c.running          = false;
}

static void
judge(Sched& c)
{
    char const* tags   = c.periods.size() > 1 || c.checks.size() > 1 ? "C25" : "C23";
    auto        values = [](std::vector<Change> const& h, long from, long to) {
        // in effect at any time from `from` to `to`
        std::vector<std::int64_t> v;
        for (std::size_t i = 0; i < h.size(); i++)
            if (h[i].pos <= to && (i + 1 == h.size() || h[i + 1].pos > from))
                v.push_back(h[i].v);
        return v;
    };
    auto late_after = [&](std::int64_t from, std::int64_t to) {
        std::int64_t s = 0;
        if (!c.late_max)
            return s;
        for (auto& x : c.sleeps)
            if (x.end > from && x.begin <= to)
                s += x.late;
        return s;
    };
    std::set<std::int64_t> due{0};    // candidates, relative to the start (start: t0 .. t0 + 50 ms)
    for (std::size_t k = 0; k <= c.calls.size(); k++) {
        bool const         last = k == c.calls.size();
        std::int64_t const t    = last ? c.end_v : c.calls[k].t;
        long const         to   = last ? c.pos : c.calls[k].pos;
        std::int64_t const prev = k ? c.calls[k - 1].end : c.t0;
        long const         from = k ? c.calls[k - 1].pos : -1;
        if (k) {
            std::set<std::int64_t> next;
            for (auto p : values(c.periods, from, to))
                for (auto d : due)
                    next.insert(d + p * MS);
            due = std::move(next);
        }
        std::int64_t check = 0;
        for (auto v : values(c.checks, from, to))
            check = std::max(check, v * MS);
        std::set<std::int64_t> ok;
        std::int64_t           earliest = INT64_MAX, latest = 0;
        for (auto d : due) {
            std::int64_t const lo = c.t0 + d, base = std::max(c.t0 + 50 * MS + d, prev);
            std::int64_t const hi = base + check + late_after(base, t) + MS;
            earliest              = std::min(earliest, lo);
            latest                = std::max(latest, hi);
            if ((last || t >= lo) && t <= hi)
                ok.insert(d);
        }
        if (last) {
            VF_EXPECT(tags, !ok.empty(), "missed", "call %zu is overdue: not made by %.3f ms, expected within %.3f ms (previous call returned at %.3f)", k,
                      static_cast<double>(t - c.t0) / MS, static_cast<double>(latest - c.t0) / MS, static_cast<double>(prev - c.t0) / MS);
            break;
        }
        if (ok.empty()) {
            if (t < earliest)
                vf::reportf(tags, "early", "call %zu came at %.3f ms, due at %.3f ms at the earliest", k, static_cast<double>(t - c.t0) / MS, static_cast<double>(earliest - c.t0) / MS);
            else
                vf::reportf(tags, "late", "call %zu came at %.3f ms, expected by %.3f ms (previous call returned at %.3f)", k, static_cast<double>(t - c.t0) / MS,
                            static_cast<double>(latest - c.t0) / MS, static_cast<double>(prev - c.t0) / MS);
            return;
        }
        due = std::move(ok);
        if (k && c.calls[k].t - c.calls[k - 1].end > 0 && c.calls[k - 1].end > c.t0 + *due.begin())
            vf::count("interval.made_up");
    }
    VF_EXPECT("C24", !c.overlap, "overlap", "calls of the callback overlapped");
    vf::count("interval.calls", c.calls.size());
    vf::count("interval.sleeps", c.sleeps.size());
    for (auto& k : c.calls)
        vf::mix(static_cast<std::uint64_t>(k.t - c.t0));
    if (c.calls.size() > 3)
        vf::nontrivial();
}

struct Fixed {    // a directed schedule
    std::int64_t period, check;
    std::size_t  calls;
};
static void
schedule(Src& s, Fixed const* f = nullptr)
{
    static constexpr int ps[] = {1, 2, 3, 5, 10, 16, 20, 50, 100, 100, 250, 1000, 60000, 3600000};
    Sched                c;
    c.r                  = Src{s.u64()};
    std::int64_t  period = ps[s.below(std::size(ps))];
    std::int64_t  check  = s.chance(1, 8) ? 20 : std::max<std::int64_t>(1, period / static_cast<std::int64_t>(1 + s.below(12)));
    if (s.chance(1, 5))
        check = static_cast<std::int64_t>(1 + s.below(static_cast<std::uint64_t>(period * 3)));
    if (s.chance(1, 40))
        period = 0;
    bool const defaults = !f && s.chance(1, 20);
    bool const changes  = s.chance(1, 2);
    if (defaults) {
        period = 100;
        check  = 20;
    }
    c.want        = 2 + s.below(s.chance(1, 3) ? 120 : 25);
    c.sleep_limit = 2500;
    if (s.chance(1, 2)) {
        c.late_max    = (check * static_cast<std::int64_t>(1 + s.below(5))) * MS / 2;
        c.late_chance = static_cast<unsigned>(1 + s.below(8));
    }
    if (s.chance(1, 2)) {
        c.dur_max    = std::max<std::int64_t>(1, period) * static_cast<std::int64_t>(1 + s.below(12)) * MS / 2;
        c.dur_chance = static_cast<unsigned>(1 + s.below(12));
    }
    if (changes && period < 2000) {
        c.changes_left    = static_cast<int>(1 + s.below(6));
        c.change_in_call  = static_cast<int>(s.below(24));
        c.change_in_sleep = static_cast<int>(s.below(16));
    }
    if (f) {
        period = f->period;
        check  = f->check;
        c.want = f->calls;
        c.sleep_limit  = f->calls * static_cast<std::size_t>(f->calls > 1 ? period / check + 2 : 500) + 100;
        c.late_max     = 0;
        c.dur_max      = 0;
        c.changes_left = 0;
    }
    c.periods.push_back({period, -10});
    c.checks.push_back({check, -10});
    g_s = nullptr;
    vclock::step_ns = static_cast<std::int64_t>(20 + s.below(200));
    tr("period %lld ms, checks every %lld ms, %zu calls, callbacks up to %lld ms, lateness up to %lld ms%s", (long long)period, (long long)check, c.want,
       (long long)(c.dur_max / MS), (long long)(c.late_max / MS), c.changes_left ? ", changed while running" : "");
    vs::on_sleep = sched_sleep;
    {
        c.t0 = vclock::now_ns.load();
        g_s  = &c;
        std::optional<interval_event> ev;
        // the event's thread starts before the constructor returns: c.ev is set at the first chance
        struct Hold {
            std::atomic<bool> ready{false};
        };
        auto* hold = new Hold;    // outlives the case: the first call may come before the constructor returned
        auto  fn   = [hold] {
            while (!hold->ready.load())
                ::sched_yield();
            sched_call();
        };
        if (defaults)
            ev.emplace(fn);
        else
            ev.emplace(fn, ms{period}, ms{check});
        c.ev = &*ev;
        hold->ready.store(true);
        for (long i = 0; !c.done.load(); i++)
            vs::real_sleep(i < 100 ? 20000 : 200000);
        g_s = nullptr;
        ev->stop();
        delete hold;
    }
    judge(c);
    for (std::size_t i = 0; i < c.calls.size() && i < 12; i++)
        tr("call %zu at %.3f..%.3f", i, static_cast<double>(c.calls[i].t - c.t0) / MS, static_cast<double>(c.calls[i].end - c.t0) / MS);
}

// ================================================================ MODE 2: stopping
struct Held {
    std::atomic<int>  running{0};
    std::atomic<bool> stopped{false};
    long              n{};    // plain: read by the stopper after stop returned
    std::vector<long> data;
    std::atomic<long> starts{0};
};
struct Stop {    // gated stop
    std::atomic<int>  park_at{-1};    // the n-th sleep or call parks there
    std::atomic<bool> park_in_call{false}, parked{false}, stop_called{false}, timed_out{false};
    std::atomic<int>  sleeps{0}, calls{0};
    std::atomic<long> starts_after{0};
    std::int64_t      rest{};    // how long the parked callback goes on
    std::int64_t      dur{};
    int               main_tid{};
};
static std::atomic<Stop*>         g_stop{};
static std::atomic<std::uint64_t> g_scale{0};

static bool
thread_blocked(int tid)
{
    char p[64], b[512];
    std::snprintf(p, sizeof p, "/proc/self/task/%d/stat", tid);
    int fd = ::open(p, O_RDONLY);
    if (fd < 0)
        return false;
    long n = ::read(fd, b, sizeof b - 1);
    ::close(fd);
    if (n <= 0)
        return false;
    b[n]    = 0;
    char* q = std::strrchr(b, ')');
    return q && q[1] && q[2] == 'S';
}
static void
park(Stop& g)
{
    g.parked = true;
    while (!g.stop_called.load())
        vs::real_sleep(20000);
    int seen = 0;
    for (int i = 0; i < 4000 && seen < 3; i++) {
        seen = thread_blocked(g.main_tid) ? seen + 1 : 0;
        vs::real_sleep(100000);
    }
    if (seen < 3)
        g.timed_out = true;
}
static void
stop_sleep(std::int64_t ns)
{
    if (Stop* g = g_stop.load()) {
        int const n = g->sleeps++;
        if (!g->park_in_call.load() && n == g->park_at.load())
            park(*g);
        vclock::advance(ns);
        vs::real_sleep(5000);
        return;
    }
    vclock::advance(ns);
    auto const sc = g_scale.load(mo);
    if (sc) {
        thread_local std::uint64_t rng = sc ^ reinterpret_cast<std::uintptr_t>(&rng);
        vs::real_sleep(static_cast<std::int64_t>(vf::splitmix(rng) % 60000));
    }
}

static void
gated(Src& s)
{
    Stop g;
    auto h               = std::make_unique<Held>();
    g.main_tid           = static_cast<int>(::syscall(SYS_gettid));
    std::int64_t period  = static_cast<std::int64_t>(1 + s.below(100));
    std::int64_t check   = static_cast<std::int64_t>(1 + s.below(static_cast<std::uint64_t>(period) + 20));
    g.park_in_call       = s.chance(1, 2);
    g.park_at            = static_cast<int>(s.below(5));
    bool const startup   = !g.park_in_call.load() && g.park_at == 0;
    g.dur                = static_cast<std::int64_t>(check * 3 + 5 + static_cast<std::int64_t>(s.below(50))) * MS;
    g.rest               = static_cast<std::int64_t>(s.below(400)) * MS;
    vclock::step_ns      = 100;
    vs::on_sleep         = stop_sleep;
    g_stop               = &g;
    Held*        hp      = h.get();
    std::int64_t v0{}, v1{};
    bool const   by_dtor = s.chance(1, 3);
    int const    again   = static_cast<int>(s.below(3));
    {
        auto ev = std::make_unique<interval_event>(
            [hp, &g] {
                if (hp->running.fetch_add(1, mo))
                    vf::reportf("C24", "overlap", "calls of the callback overlapped");
                if (hp->stopped.load(mo))
                    vf::reportf("C24", "after-stop", "the callback ran after stop had returned");
                if (g.parked.load() && g.stop_called.load())
                    g.starts_after++;
                hp->n++;
                int const k = g.calls++;
                if (g.park_in_call.load() && k == g.park_at.load()) {
                    park(g);
                    vclock::advance(g.rest);
                } else
                    vclock::advance(g.dur);
                hp->running.fetch_sub(1, mo);
            },
            ms{period}, ms{check});
        while (!g.parked.load())
            vs::real_sleep(20000);
        v0 = vclock::now_ns.load();
        g.stop_called = true;
        if (by_dtor)
            ev.reset();
        else
            ev->stop();
        v1 = vclock::now_ns.load();
        h->stopped.store(true, mo);
        VF_EXPECT("C24", h->running.load(mo) == 0, "running-after-stop", "the callback was still running when %s returned", by_dtor ? "the destructor" : "stop");
        long const n = h->n;
        h.reset();    // the callback's state is gone: any later use is an error
        for (int i = 0; ev && i < again; i++)
            ev->stop();
        (void)n;
    }
    vs::real_sleep(100000);
    g_stop = nullptr;
    vf::mix(static_cast<std::uint64_t>(period * 1000 + check) * 8 + static_cast<std::uint64_t>(g.park_at.load()));
    tr("period %lld check %lld: stop called in %s %d, took %.3f ms (callback had %.3f to go)%s", (long long)period, (long long)check,
       g.park_in_call.load() ? "call" : "sleep", g.park_at.load(), static_cast<double>(v1 - v0) / MS, static_cast<double>(g.rest) / MS, by_dtor ? ", by destructor" : "");
    if (g.timed_out.load()) {
        vf::count("interval.stop_not_seen_blocking");
        return;
    }
    std::int64_t const bound = (g.park_in_call.load() ? g.rest : 0) + (startup ? std::max<std::int64_t>(check, 50) : check) * MS + MS;
    VF_EXPECT("C24", v1 - v0 <= bound, "stop-slow", "stop took %.3f ms: more than what the running callback had left (%.3f) and one check interval (%.3f)",
              static_cast<double>(v1 - v0) / MS, g.park_in_call.load() ? static_cast<double>(g.rest) / MS : 0., static_cast<double>(check));
    VF_EXPECT("C24", g.starts_after.load() == 0, "call-started-after-stop-began", "a call began while stop was waiting, after the one it waited for");
    vf::count(g.park_in_call.load() ? "interval.stopped_in_call" : "interval.stopped_in_sleep");
    vf::nontrivial();
}

static void
freely(Src& s)
{
    vs::on_sleep    = stop_sleep;
    g_stop          = nullptr;
    g_scale         = s.u64() | 1;
    vclock::step_ns = 1000;
    int const n     = static_cast<int>(1 + s.below(4));
    struct One {
        std::unique_ptr<Held>           h;
        std::unique_ptr<interval_event> ev;
        long                            got{};
    };
    std::vector<One>    v(static_cast<std::size_t>(n));
    std::uint64_t const seed  = s.u64();
    unsigned const      level = static_cast<unsigned>(s.below(4));
    for (auto& o : v) {
        o.h            = std::make_unique<Held>();
        Held*    hp    = o.h.get();
        unsigned lvl   = static_cast<unsigned>(s.below(4));
        auto     js    = s.u64();
        bool     slow  = s.chance(1, 3);
        hp->data.resize(4);
        o.ev = std::make_unique<interval_event>(
            [hp, lvl, js, slow] {
                if (!vt::t_rng)
                    vt::perturb(js, lvl);
                if (hp->running.fetch_add(1, mo))
                    vf::reportf("C24", "overlap", "calls of the callback overlapped");
                if (hp->stopped.load(mo))
                    vf::reportf("C24", "after-stop", "the callback ran after stop had returned");
                hp->n++;
                hp->data[static_cast<std::size_t>(hp->n % 4)] = hp->n;
                vt::jitter();
                if (slow)
                    vs::real_sleep(static_cast<std::int64_t>(vt::trand() % 150000));
                hp->data.push_back(hp->n);
                hp->data.pop_back();
                hp->running.fetch_sub(1, mo);
                hp->starts.fetch_add(1, mo);
            },
            ms{static_cast<std::int64_t>(1 + s.below(20))}, ms{static_cast<std::int64_t>(s.chance(1, 8) ? 0 : 1 + s.below(10))});
    }
    // each event is stopped by its own thread, one or more times, then destroyed by another
    vt::run(n, seed, level, [&](int t) {
        vs::harness_thread = true;
        Src  r{seed + static_cast<std::uint64_t>(t)};
        auto& o = v[static_cast<std::size_t>(t)];
        vs::real_sleep(static_cast<std::int64_t>(r.below(4) ? r.below(900000) : r.below(40000)));
        int how = static_cast<int>(r.below(4));
        if (how == 0)
            o.ev.reset();
        else
            for (int i = 0; i < how; i++)
                o.ev->stop();
        o.h->stopped.store(true, mo);
        VF_EXPECT("C24", o.h->running.load(mo) == 0, "running-after-stop", "the callback was still running when stop returned");
        o.got      = o.h->n;    // plain read: ordered after the last call by stop itself
        o.h->data.clear();
        if (r.chance(1, 2))
            o.h.reset();
        else {
            vs::real_sleep(static_cast<std::int64_t>(r.below(200000)));
            VF_EXPECT("C24", o.h->n == o.got, "after-stop", "the callback was called after stop had returned");
        }
    });
    for (auto& o : v)
        if (o.h)
            VF_EXPECT("C24", o.h->n == o.got, "after-stop", "the callback was called after stop had returned");
    vt::run(1, seed, level, [&](int) {
        vs::harness_thread = true;
        for (auto& o : v) {
            if (o.ev)
                o.ev->stop();
            o.ev.reset();
        }
    });
    long calls = 0;
    for (auto& o : v) {
        if (o.h)
            VF_EXPECT("C24", o.h->n == o.got, "after-stop", "the callback was called after stop had returned");
        calls += o.got;
        vf::mix(static_cast<std::uint64_t>(o.got));
    }
    vf::count("interval.free_calls", static_cast<std::uint64_t>(calls));
    vf::count("interval.free_stops", static_cast<std::uint64_t>(n));
    tr("%d events stopped freely after %ld calls", n, calls);
    if (calls > 2)
        vf::nontrivial();
}

// ================================================================ MODE 3: periods set and read by threads
static void
threads(Src& s)
{
    vs::on_sleep    = stop_sleep;
    g_stop          = nullptr;
    g_scale         = s.u64() | 1;
    vclock::step_ns = 1000;
    std::atomic<long>   calls{0};
    interval_event*     me{};
    std::atomic<bool>   ready{false};
    std::int64_t const  p0 = static_cast<std::int64_t>(1 + s.below(30)), c0 = static_cast<std::int64_t>(1 + s.below(10));
    std::uint64_t const seed = s.u64();
    bool const          by_call = s.chance(1, 2);
    long                set_by_call = 0;
    auto                ev = std::make_unique<interval_event>(
        [&] {
            while (!ready.load())
                ::sched_yield();
            calls.fetch_add(1, mo);
            auto p = me->period().count();
            VF_EXPECT("C25", p >= 1 && p < 1000, "foreign-value", "period() read %lld in the callback", (long long)p);
            if (by_call) {    // the callback alone sets the period
                long v = 1 + (set_by_call++ % 17);
                me->period(ms{v});
                VF_EXPECT("C25", me->period().count() == v, "read-back", "period() read %lld in the callback that had set %ld", (long long)me->period().count(), v);
            }
        },
        ms{p0}, ms{c0});
    VF_EXPECT("C25", by_call || ev->period().count() == p0, "read-initial", "period() reads %lld, constructed with %lld", (long long)ev->period().count(), (long long)p0);
    VF_EXPECT("C25", ev->period_between_checks().count() == c0, "read-initial", "period_between_checks() reads %lld, constructed with %lld",
              (long long)ev->period_between_checks().count(), (long long)c0);
    me    = ev.get();
    ready = true;
    std::uint64_t sets = 0;
    vt::run(4, seed, static_cast<unsigned>(s.below(4)), [&](int t) {
        vs::harness_thread = true;
        Src r{seed + static_cast<std::uint64_t>(t)};
        long last_p = 0, last_c = 0;
        for (int i = 0; i < 60; i++) {
            if (t == 0 && !by_call) {    // this thread alone sets the period, rising
                long v = 40 + i;
                ev->period(ms{v});
                VF_EXPECT("C25", ev->period().count() == v, "read-back", "period() read %lld after %ld was set", (long long)ev->period().count(), v);
            } else if (t == 1) {
                long v = 1 + i;
                ev->period_between_checks(ms{v});
                VF_EXPECT("C25", ev->period_between_checks().count() == v, "read-back-check", "period_between_checks() read %lld after %ld was set",
                          (long long)ev->period_between_checks().count(), v);
            } else {
                auto p = ev->period().count(), c = ev->period_between_checks().count();
                VF_EXPECT("C25", p >= 1 && p < 1000 && c >= 1 && c < 1000, "foreign-value", "read periods %lld and %lld that nobody set", (long long)p, (long long)c);
                if (!by_call) {
                    VF_EXPECT("C25", p >= last_p || p < 40, "older-value", "period() went back from %ld to %lld", last_p, (long long)p);
                    VF_EXPECT("C25", !(last_p >= 40 && p < 40), "older-value", "period() went back from %ld to %lld", last_p, (long long)p);
                    last_p = p;
                }
                if (last_c && c < last_c)
                    VF_EXPECT("C25", c == c0 || false, "older-value", "period_between_checks() went back from %ld to %lld", last_c, (long long)c);
                last_c = c > 60 ? last_c : (c == c0 && last_c == 0) ? 0 : c;
            }
            vt::jitter();
            if (r.chance(1, 8))
                vs::real_sleep(static_cast<std::int64_t>(r.below(60000)));
        }
    });
    sets += 120;
    vs::real_sleep(200000);
    ev->stop();
    ev.reset();
    vf::count("interval.concurrent_sets", sets);
    vf::count("interval.concurrent_calls", static_cast<std::uint64_t>(calls.load()));
    vf::mix(static_cast<std::uint64_t>(calls.load()) * 1000 + static_cast<std::uint64_t>(p0));
    vf::nontrivial();
    tr("periods set and read by threads during %ld calls", calls.load());
}

void
vf_case(Src& s)
{
    vs::harness_thread = true;
#if MODE == 1
    schedule(s);
#elif MODE == 2
    if (s.chance(1, 3))
        gated(s);
    else
        freely(s);
#else
    threads(s);
#endif
}
void
vf_directed()
{
#if MODE == 1
    Src         s{77};
    Fixed const fs[] = {
        {1, 1, 70000},                              // more calls than a narrow count holds
        {40, 3, 30000},
        {std::int64_t{30} * 86400000, 1000 * 3600, 12},    // a month
        {std::int64_t{60} * 3600000, 100, 2},
        {std::int64_t{30} * 86400000, 20, 1},
        {std::int64_t{60} * 3600000, 20, 1},
        {std::int64_t{3} * 3600000, 1, 3},
    };
    for (auto& f : fs) {
        vf::alive(static_cast<std::uint64_t>(f.period));
        schedule(s, &f);
        vf::count("interval.long_runs");
    }
#endif
}
