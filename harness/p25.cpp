// P25: concurrent computations do not interfere. Every pair of calls of the alphabet runs in two real threads under a
// controlled scheduler (sched.cpp); the executed memory accesses tell which interleavings can differ: where the two
// threads touch no common memory that one of them writes, all interleavings are equivalent (independence); where they
// do, every interleaving at those accesses is executed up to a preemption bound. Each thread must obtain the result of
// the call made alone.
#include "common.hpp"
#include "ops.hpp"
#include "sched.hpp"
#include "tops.hpp"

#include <new>
#include <sys/mman.h>
#include <sys/wait.h>

using chk::Case;
using ops::Op;
using ops::Sink;
using ops::World;

namespace
{
std::vector<Op> g_ops;
std::vector<std::uint64_t> g_ref;
std::vector<bool> g_world;
// calls that integrate numerically
std::vector<ops::TOp> g_tops;
std::vector<std::uint64_t> g_tref;
std::optional<ops::TWorld> g_tworld; // made before the threads start; they only read it

bool needs_world(const Op &o)
{
    if (o.family == "leg") return true;
    if (o.name.find("kept") != std::string::npos) return true;
    if (o.family == "epoch") return o.name[0] == 'e' && (o.name[1] == '0' || o.name[1] == '1');
    if (o.family == "planet") return o.name.rfind("jpl_lp(", 0) != 0 && o.name.rfind("keplerian from", 0) != 0;
    return o.name == "fb_con(planet)";
}
std::uint64_t digest(const Sink &s)
{
    std::uint64_t h = s.arg_changed ? 7 : 5;
    for (auto x : s.w) h = chk::mix(h, x);
    return h;
}
struct Area {
    sched::Result r;
    std::uint64_t got[sched::MAXT];
    std::uint64_t has[sched::MAXT];
};
template <typename T>
T *shared_area()
{
    void *p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) std::abort();
    return static_cast<T *>(p);
}
enum Exit { OK, CRASH, HANG, DEADLOCK };
template <typename F>
Exit in_child(F &&f, unsigned seconds)
{
    const pid_t p = fork();
    if (p == 0) {
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) std::signal(s, SIG_DFL);
        alarm(seconds);
        f();
        _exit(0);
    }
    if (p < 0) std::abort();
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return OK;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 9) return DEADLOCK;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return HANG;
    return CRASH;
}
std::string plan_text(const sched::Plan &p)
{
    std::string s = "order";
    for (int k : p.order) s += std::to_string(k);
    for (auto &x : p.switches) s += " " + std::to_string(x.at) + ">" + std::to_string(static_cast<int>(x.to));
    return s;
}
struct Explorer {
    Case &c;
    std::vector<std::size_t> ops; // one per thread
    bool world;
    Area *a;
    std::string key;
    int bound;
    std::uint64_t cap, runs = 0;
    bool failed = false;
    bool taylor = false;

    [[nodiscard]] const std::string &name(std::size_t i) const { return taylor ? g_tops[i].name : g_ops[i].name; }

    void one(const sched::Plan &p)
    {
        runs++;
        c.trans();
        c.trace();
        for (auto &x : a->has) x = 0;
        const auto e = in_child(
            [&] {
                std::optional<World> w;
                if (world && !taylor) w.emplace();
                std::vector<Sink> out(ops.size());
                std::vector<std::function<void()>> b;
                for (std::size_t k = 0; k < ops.size(); ++k) b.push_back([&, k] {
                    if (taylor) g_tops[ops[k]].run(*g_tworld, out[k]);
                    else g_ops[ops[k]].run(world ? *w : *static_cast<const World *>(nullptr), out[k]);
                });
                sched::run(b, p, a->r);
                if (a->r.deadlock) _exit(9);
                for (std::size_t k = 0; k < ops.size(); ++k) {
                    a->got[k] = digest(out[k]);
                    a->has[k] = 1;
                }
            },
            taylor ? 5 : 20);
        c.eval();
        if (e == HANG) {
            c.count("schedules_not_completed");
            return;
        }
        if (failed) return;
        if (e == CRASH || e == DEADLOCK) {
            failed = true;
            c.fail((e == CRASH ? "crash|" : "deadlock|") + key, plan_text(p));
            return;
        }
        for (std::size_t k = 0; k < ops.size(); ++k)
            if (a->has[k] && a->got[k] != (taylor ? g_tref : g_ref)[ops[k]]) {
                failed = true;
                c.fail("result-depends-on-schedule|" + name(ops[k]) + "|" + key, "thread " + std::to_string(k) + " " + plan_text(p));
                return;
            }
    }
    void explore(const sched::Plan &p, int left)
    {
        if (failed) return;
        one(p);
        c.state(chk::mix(chk::mix(c.idx, runs), world));
        if (failed || left == 0) return;
        const auto n = std::min<std::uint32_t>(a->r.points, sched::MAXP);
        std::vector<std::uint8_t> who(a->r.who, a->r.who + n), can(a->r.runnable, a->r.runnable + n);
        const std::uint32_t from = p.switches.empty() ? 0 : p.switches.back().at + 1;
        for (std::uint32_t k = from; k < n; ++k)
            for (std::size_t t = 0; t < ops.size(); ++t)
                if (static_cast<int>(t) != who[k] && (can[k] & (1u << t))) {
                    if (runs >= cap) {
                        c.count("pairs_cut_at_schedule_limit");
                        return;
                    }
                    auto q = p;
                    q.switches.push_back({k, static_cast<std::int8_t>(t)});
                    explore(q, left - 1);
                    if (failed) return;
                }
    }
    // all orders without preemption; if common memory is written, all schedules up to the bound, until no new common
    // memory turns up
    void all()
    {
        std::vector<std::uintptr_t> conf;
        auto orders = [&](auto &&f) {
            std::vector<int> o;
            for (std::size_t k = 0; k < ops.size(); ++k) o.push_back(static_cast<int>(k));
            do {
                sched::Plan p;
                for (std::size_t k = 0; k < o.size(); ++k) p.order[k] = o[k];
                p.conflicts = conf;
                f(p);
            } while (!failed && std::next_permutation(o.begin(), o.end()));
        };
        auto learn = [&] {
            bool grew = false;
            for (std::uint32_t k = 0; k < a->r.nconf; ++k)
                if (!std::binary_search(conf.begin(), conf.end(), a->r.conf[k])) {
                    conf.insert(std::lower_bound(conf.begin(), conf.end(), a->r.conf[k]), a->r.conf[k]);
                    grew = true;
                }
            return grew;
        };
        for (int round = 0; round < 4 && !failed; ++round) {
            bool grew = false;
            bool first = true;
            orders([&](const sched::Plan &p) { // no common written memory in one order: all schedules are equivalent
                if (!first && conf.empty()) return;
                first = false;
                one(p);
                grew |= learn();
            });
            c.state(chk::mix(chk::mix(c.idx, world), 99));
            if (!grew && (round > 0 || conf.empty())) break; // independent, or explored with all the conflicts found
            if (failed) break;
            c.count("pairs_with_common_written_memory_or_locks", round == 0);
            runs = 0;
            orders([&](const sched::Plan &p) { explore(p, bound); });
            if (!failed && !learn()) break;
        }
    }
};
} // namespace

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool T = run.thorough();
    g_ops = ops::alphabet();
    const auto N = g_ops.size();
    std::vector<std::string> startup;
    {
        auto *a = shared_area<Area>();
        for (std::size_t i = 0; i < N; ++i) {
            g_world.push_back(needs_world(g_ops[i]));
            a->got[0] = 0;
            if (in_child(
                    [&] {
                        World w;
                        Sink s;
                        g_ops[i].run(w, s);
                        a->got[0] = digest(s);
                    },
                    20)
                != OK)
                startup.push_back("crash|" + g_ops[i].name + "|alone");
            g_ref.push_back(a->got[0]);
        }
        munmap(a, sizeof(Area));
    }
    run.info["calls_in_alphabet"] = std::to_string(N);
    run.section("alone", 1, [&](std::uint64_t, Case &c) {
        for (auto &m : startup) c.fail(m, "the call does not return");
        c.eval(N);
    });
    const std::uint64_t pairs = N * (N + 1) / 2;
    // a tree with much shared state may need more time than the quick check has: what is left out is counted
    const auto t0 = std::chrono::steady_clock::now();
    const auto late = [&](Case &c, double s) {
        if (T || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < s) return false;
        c.count("cases_left_out_for_lack_of_time");
        return true;
    };
    run.section(
        "pairs", pairs,
        [&](std::uint64_t k, Case &c) {
            if (late(c, 500)) return;
            std::uint64_t i = 0, r = k;
            while (r >= N - i) r -= N - i, ++i;
            const std::uint64_t j = i + r;
            auto *a = shared_area<Area>();
            // with objects created before, and in a process that has not used the library
            for (int cold = 0; cold < 2; ++cold) {
                if (cold && (g_world[i] || g_world[j])) continue;
                Explorer e{c, {i, j}, cold == 0, a, g_ops[i].name + " with " + g_ops[j].name + (cold ? " (first calls)" : ""), T ? 3 : 2, T ? 60000u : 4000u};
                e.all();
                if (c.want_sample) c.sample(e.key + ": " + std::to_string(a->r.accesses) + " accesses recorded, " + std::to_string(a->r.nconf) + " common written words");
            }
            munmap(a, sizeof(Area));
        },
        800);
    // three threads: the same call in all of them, and with its neighbours in the alphabet
    run.section(
        "triples", T ? N * 12 : N,
        [&](std::uint64_t k, Case &c) {
            if (late(c, 600)) return;
            const std::size_t i = k % N, d = k / N;
            auto *a = shared_area<Area>();
            for (int cold = 0; cold < 2; ++cold) {
                const std::size_t j = (i + d) % N, l = (i + 2 * d) % N;
                if (cold && (g_world[i] || g_world[j] || g_world[l])) continue;
                Explorer e{c, {i, j, l}, cold == 0, a, g_ops[i].name + " with " + g_ops[j].name + " with " + g_ops[l].name + (cold ? " (first calls)" : ""), T ? 2 : 1, T ? 60000u : 3000u};
                e.all();
            }
            munmap(a, sizeof(Area));
        },
        800);
    // preemptions at function entries, whatever the memory accessed: one preemption at evenly spaced entries
    run.section(
        "function_entries", T ? pairs : N,
        [&](std::uint64_t k, Case &c) {
            if (late(c, 680)) return;
            std::uint64_t i = k, j = k;
            if (T) {
                std::uint64_t r = k;
                i = 0;
                while (r >= N - i) r -= N - i, ++i;
                j = i + r;
                if (g_ops[i].family != g_ops[j].family) return;
            }
            auto *a = shared_area<Area>();
            const bool world = g_world[i] || g_world[j];
            Explorer e{c, {i, j}, world, a, g_ops[i].name + " with " + g_ops[j].name + " (function entries)", 1, 100000u};
            sched::Plan p;
            p.at_functions = true;
            e.one(p);
            const std::uint32_t n = a->r.points, M = T ? 64 : 12;
            for (std::uint32_t q = 0; q < std::min(n, M) && !e.failed; ++q) {
                auto x = p;
                x.switches.push_back({static_cast<std::uint32_t>(static_cast<std::uint64_t>(q) * n / std::min(n, M)), 1});
                e.one(x);
                x = p;
                std::swap(x.order[0], x.order[1]);
                x.switches.push_back({static_cast<std::uint32_t>(static_cast<std::uint64_t>(q) * n / std::min(n, M)), 0});
                e.one(x);
            }
            c.state(chk::mix(k, 5));
            munmap(a, sizeof(Area));
        },
        800);
    // calls that integrate numerically: the integrators asked for are cached (P27 judges the caches themselves), the
    // objects kept are shared and only read
    for (auto &o : ops::taylor_alphabet())
        if (o.name.rfind("kept stark", 0) != 0 || o.name.find("printed") != std::string::npos) g_tops.push_back(o); // those are not const
    const auto nt = g_tops.size();
    g_tworld.emplace();
    (void)g_tworld->leg();
    (void)g_tworld->stark();
    (void)g_tworld->body();
    {
        auto *a = shared_area<Area>();
        for (std::size_t i = 0; i < nt; ++i) {
            Sink s; // all integrators get cached
            g_tops[i].run(*g_tworld, s);
            g_tref.push_back(digest(s));
        }
        munmap(a, sizeof(Area));
    }
    run.info["integrating_calls"] = std::to_string(nt);
    run.section(
        "integrating_pairs", nt * (nt + 1) / 2,
        [&](std::uint64_t k, Case &c) {
            if (late(c, 720)) return;
            std::uint64_t i = 0, r = k;
            while (r >= nt - i) r -= nt - i, ++i;
            auto *a = shared_area<Area>();
            Explorer e{c, {i, i + r}, true, a, g_tops[i].name + " with " + g_tops[i + r].name, T ? 2 : 1, T ? 20000u : 200u};
            e.taylor = true;
            e.all();
            if (c.want_sample) c.sample(e.key + ": " + std::to_string(a->r.accesses) + " accesses recorded, " + std::to_string(a->r.nconf) + " common written words");
            munmap(a, sizeof(Area));
        },
        800);
    return run.go();
}
