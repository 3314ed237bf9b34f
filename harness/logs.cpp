// C40: what pipelines tell their log adapter in a DEBUG build is true, and without DEBUG they tell it nothing.
// Built with and without DEBUG. Each thread keeps its own record, without locks, so that recording orders nothing.
#include "vf.hpp"
#include "vthreads.hpp"

#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/comm/pipeline_stage_pool.hpp>

namespace comm = xitren::comm;
using vf::Src;
using vf::tr;

struct Ev {
    enum Kind { line, enter, leave, push, pushed } kind;
    int         item{-1}, worker{-1};
    std::string text;
};
struct Rec {
    bool            pusher{};
    std::string     rest;    // a line not yet ended
    std::vector<Ev> ev;
};
static std::mutex                        g_mx;
static std::vector<std::unique_ptr<Rec>> g_recs;
static std::uint64_t                     g_seed;
static std::atomic<unsigned>             g_level;
static thread_local Rec*                 t_rec;
static thread_local std::uint64_t        t_case;
static std::atomic<std::uint64_t>        g_case;
static std::atomic<std::uint64_t>        g_calls;

static Rec&
rec()
{
    if (!t_rec || t_case != g_case) {
        std::lock_guard l(g_mx);
        g_recs.push_back(std::make_unique<Rec>());
        t_rec  = g_recs.back().get();
        t_case = g_case;
        vt::perturb(g_seed + g_recs.size() * 7919, g_level);
    }
    return *t_rec;
}
static void
tell(std::string const& s)
{
    auto& r = rec();
    for (char c : s)
        if (c == '\n') {
            r.ev.push_back({Ev::line, -1, -1, r.rest});
            r.rest.clear();
        } else
            r.rest += c;
    vt::jitter();
}
/// What a statement said is told at its end...
struct Collect {
    std::ostringstream o;
    Collect() = default;
    Collect(Collect const&) = delete;
    template <class T>
    Collect&
    operator<<(T const& v)
    {
        o << v;
        return *this;
    }
    ~Collect() { tell(o.str()); }
};
/// ... or as it comes.
struct Direct {
    template <class T>
    Direct const&
    operator<<(T const& v) const
    {
        std::ostringstream o;
        o << v;
        tell(o.str());
        return *this;
    }
};
inline void
called()
{
    g_calls.fetch_add(1, std::memory_order_relaxed);
}
template <class S>
struct Log {
    static S trace() { return called(), S{}; }
    static S debug() { return called(), S{}; }
    static S warning() { return called(), S{}; }
    static S error() { return called(), S{}; }
};

static std::vector<unsigned long>
numbers(std::string const& s)
{
    std::vector<unsigned long> v;
    for (std::size_t i = 0; i < s.size();)
        if (s[i] >= '0' && s[i] <= '9') {
            char* e{};
            v.push_back(std::strtoul(&s[i], &e, 10));
            i = static_cast<std::size_t>(e - s.data());
        } else
            i++;
    return v;
}

template <class Next>
struct Out {
    static Next
    get()
    {
        return Next{};
    }
};
template <>
struct Out<void> {
    static void get() {}
};

template <class Next, std::size_t Buf, int Pool, class S>
static void
run(Src& s)
{
    constexpr int W = Pool ? Pool : 1;
    {
        std::lock_guard l(g_mx);
        g_recs.clear();
        g_seed = s.u64();
    }
    g_level = static_cast<unsigned>(s.below(4));
    g_case++;
    int const producers = 1 + static_cast<int>(s.below(3)), each = static_cast<int>(s.below(30)), total = producers * each;
    bool const early = s.chance(1, 2);    // destroyed with items still to be handled
    std::vector<std::atomic<int>> by(static_cast<std::size_t>(total));
    for (auto& b : by)
        b = -1;
    std::atomic<int> handled{0};
    auto             on = [&](int item, int worker) {
        auto& r = rec();
        r.ev.push_back({Ev::enter, item, worker, {}});
        if (item >= 0 && item < total) {
            int was = by[static_cast<std::size_t>(item)].exchange(worker);
            VF_EXPECT("C40,C20,C21", was == -1, "twice", "item %d was handled twice", item);
        }
        vt::jitter();
        r.ev.push_back({Ev::leave, item, worker, {}});
        handled++;
    };
    {
        auto drive = [&](auto& pipe) {
            std::vector<std::thread> ts;
            for (int p = 0; p < producers; p++)
                ts.emplace_back([&, p] {
                    auto& r  = rec();
                    r.pusher = true;
                    for (int i = 0; i < each; i++) {
                        int const id = p * each + i;
                        r.ev.push_back({Ev::push, id, -1, {}});
                        if (i & 1)
                            pipe.push(static_cast<int const&>(id));
                        else
                            pipe.push(int{id});
                        r.ev.push_back({Ev::pushed, id, -1, {}});
                        vt::jitter();
                    }
                });
            for (auto& t : ts)
                t.join();
            while (!early && handled < total)
                ::sched_yield();
        };
        if constexpr (Pool == 0) {
            comm::pipeline_stage<int, Next, Buf, Log<S>> pipe{[&](comm::pipeline_stage_exception, int const v, std::pair<int, int> const) -> Next const {
                on(v, 0);
                return Out<Next>::get();
            }};
            drive(pipe);
        } else {
            auto pipe = std::make_unique<comm::pipeline_stage_pool<int, Next, Buf, static_cast<std::size_t>(W), Log<S>>>(
                [&](comm::pipeline_stage_exception, int const v, comm::measure_data const m) -> Next const {
                    on(v, m.id);
                    return Out<Next>::get();
                });
            drive(*pipe);
        }
    }
    std::lock_guard l(g_mx);
    VF_EXPECT("C40,C20,C21", handled == total, "handled", "%d of %d items were handled", handled.load(), total);
    vf::count("log.items", static_cast<std::uint64_t>(total));
    std::vector<unsigned long> taken(static_cast<std::size_t>(W)), place(static_cast<std::size_t>(total));
    int                        workers = 0;
    for (auto& rp : g_recs) {
        auto& r = *rp;
        VF_EXPECT("C40", r.rest.empty(), "line-not-ended", "a thread's log ends inside a line: \"%s\"", r.rest.c_str());
        if (r.pusher)
            continue;
        workers++;
#ifdef DEBUG
        VF_EXPECT("C40", r.ev.size() >= 2 && r.ev.front().kind == Ev::line && r.ev.back().kind == Ev::line, "start-end",
                  "a worker's first or last act was not to log that it started or ended");
        vf::count("log.workers");
#endif
        unsigned long k       = 0;
        int           reports = 0, w = -1;
        bool          said_total = false;
        for (std::size_t i = 0; i < r.ev.size(); i++) {
            auto& e = r.ev[i];
            if (e.kind == Ev::enter) {
                w = e.worker;
                VF_REQUIRE("C40,C21", w >= 0 && w < W && e.item >= 0 && e.item < total, "unknown", "item %d was handled by worker %d", e.item, w);
#ifdef DEBUG
                VF_EXPECT("C40", reports == 1, "item-line", "before item %d, number %lu of worker %d, the log has %d lines that announce it", e.item, k, w, reports);
#endif
                place[static_cast<std::size_t>(e.item)] = k++;
                taken[static_cast<std::size_t>(w)]      = k;
            } else if (e.kind == Ev::leave)
                reports = 0, said_total = false;
            else if (e.kind == Ev::line) {
                auto const n = numbers(e.text);
                if (n.size() == (Pool ? 2u : 1u) && n.back() == k && (i + 1 < r.ev.size() || !Pool)) {
                    // the worker's own id comes first: known once it has handled something
                    bool mine = true;
                    if (Pool)
                        for (std::size_t j = i; j < r.ev.size(); j++)
                            if (r.ev[j].kind == Ev::enter) {
                                mine = n.front() == static_cast<unsigned long>(r.ev[j].worker);
                                break;
                            }
                    if (mine)
                        reports++;
                }
                if (!Pool && n.size() == 1 && n.back() == static_cast<unsigned long>(total))
                    said_total = true;
                vf::count("log.worker_lines");
            }
        }
#ifdef DEBUG
        if (!Pool)
            VF_EXPECT("C40", said_total, "total", "the stage's log does not end with the number of items, %d", total);
        if (k)
            vf::nontrivial();
#else
        (void)said_total;
        (void)reports;
#endif
        vf::mix(k);
    }
#ifdef DEBUG
    VF_EXPECT("C40", workers == W, "workers", "%d of %d workers logged something", workers, W);
    for (auto& rp : g_recs)
        if (rp->pusher) {
            int lines = 0;
            for (std::size_t i = 0; i < rp->ev.size(); i++) {
                auto& e = rp->ev[i];
                if (e.kind == Ev::push)
                    lines = 0;
                else if (e.kind == Ev::line) {
                    lines++;
                    auto const n = numbers(e.text);
                    VF_REQUIRE("C40", n.size() == (Pool ? 2u : 1u), "push-line", "a push logged \"%s\"", e.text.c_str());
                    // the push it belongs to is the one begun last
                    std::size_t j = i;
                    while (j && rp->ev[j].kind != Ev::push)
                        j--;
                    int const item = rp->ev[j].item;
                    int const w    = by[static_cast<std::size_t>(item)];
                    VF_EXPECT("C40", !Pool || n.front() == static_cast<unsigned long>(w), "push-worker", "the push of an item for worker %d logged \"%s\"", w,
                              e.text.c_str());
                    VF_EXPECT("C40", n.back() > place[static_cast<std::size_t>(item)] && n.back() <= taken[static_cast<std::size_t>(w)], "push-count",
                              "the push of item number %lu of the %lu of worker %d logged \"%s\"", place[static_cast<std::size_t>(item)], taken[static_cast<std::size_t>(w)],
                              w, e.text.c_str());
                } else if (e.kind == Ev::pushed) {
                    VF_EXPECT("C40", lines == 1, "push-lines", "a push logged %d lines", lines);
                    vf::count("log.pushes");
                }
            }
        }
#else
    (void)workers;
    VF_EXPECT("C40", g_calls == 0, "logged", "the log was used %llu times although DEBUG is not defined", (unsigned long long)g_calls.load());
    vf::count("log.silent");
    if (total)
        vf::nontrivial();
#endif
    tr("%s of %d, buffer %zu, %d producers of %d items", Pool ? "pool" : "stage", Pool, Buf, producers, each);
}

void
vf_case(Src& s)
{
    switch (s.below(9)) {
    case 0: return run<void, 8, 0, Collect>(s);
    case 1: return run<int, 1, 0, Collect>(s);
    case 2: return run<std::string, 3, 0, Direct>(s);
    case 3: return run<int, 16, 0, Direct>(s);
    case 4: return run<void, 2, 1, Collect>(s);
    case 5: return run<int, 4, 3, Collect>(s);
    case 6: return run<std::string, 1, 2, Direct>(s);
    case 7: return run<void, 16, 5, Direct>(s);
    default: return run<int, 2, 4, Collect>(s);
    }
}
void
vf_directed()
{}
