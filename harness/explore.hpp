// Systematic exploration of the schedules of one program of threads under the controlled scheduler of sched.hpp.
#pragma once
#include <algorithm>
#include <csignal>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include "common.hpp"
#include "sched.hpp"

namespace explore
{
template <typename T>
T *shared_area()
{
    void *p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) std::abort();
    return static_cast<T *>(p);
}
enum Exit { OK, CRASH, HANG, DEADLOCK };
template <typename F>
Exit in_child(F &&f, unsigned seconds)
{
    const pid_t p = fork();
    if (p == 0) {
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) std::signal(s, SIG_DFL);
        alarm(seconds);
        f();
        _exit(0);
    }
    if (p < 0) std::abort();
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return OK;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 9) return DEADLOCK;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return HANG;
    return CRASH;
}
inline std::string plan_text(const sched::Plan &p)
{
    std::string s = "order";
    for (int k : p.order) s += std::to_string(k);
    for (auto &x : p.switches) s += " " + std::to_string(x.at) + ">" + std::to_string(static_cast<int>(x.to));
    return s;
}
// run_one(plan) executes one schedule in a child, judges it, and returns false to stop; it leaves the schedule's trace in r
struct Explorer {
    chk::Case &c;
    std::size_t threads;
    sched::Result &r;
    int bound;
    std::uint64_t cap;
    std::function<bool(const sched::Plan &)> run_one;
    std::uint64_t runs = 0;
    bool stop = false;

    void one(const sched::Plan &p)
    {
        runs++;
        c.trans();
        c.trace();
        c.eval();
        if (!run_one(p)) stop = true;
    }
    void go(const sched::Plan &p, int left)
    {
        if (stop) return;
        one(p);
        c.state(chk::mix(c.idx, runs));
        if (stop || left == 0) return;
        const auto n = std::min<std::uint32_t>(r.points, sched::MAXP);
        std::vector<std::uint8_t> who(r.who, r.who + n), can(r.runnable, r.runnable + n);
        const std::uint32_t from = p.switches.empty() ? 0 : p.switches.back().at + 1;
        for (std::uint32_t k = from; k < n; ++k)
            for (std::size_t t = 0; t < threads; ++t)
                if (static_cast<int>(t) != who[k] && (can[k] & (1u << t))) {
                    if (runs >= cap) {
                        c.count("explorations_cut_at_schedule_limit");
                        return;
                    }
                    auto q = p;
                    q.switches.push_back({k, static_cast<std::int8_t>(t)});
                    go(q, left - 1);
                    if (stop) return;
                }
    }
    void all()
    {
        std::vector<std::uintptr_t> conf;
        const auto orders = [&](auto &&f) {
            std::vector<int> o;
            for (std::size_t k = 0; k < threads; ++k) o.push_back(static_cast<int>(k));
            do {
                sched::Plan p;
                for (std::size_t k = 0; k < o.size(); ++k) p.order[k] = o[k];
                p.conflicts = conf;
                f(p);
            } while (!stop && std::next_permutation(o.begin(), o.end()));
        };
        const auto learn = [&] {
            bool grew = false;
            for (std::uint32_t k = 0; k < r.nconf; ++k)
                if (!std::binary_search(conf.begin(), conf.end(), r.conf[k])) {
                    conf.insert(std::lower_bound(conf.begin(), conf.end(), r.conf[k]), r.conf[k]);
                    grew = true;
                }
            return grew;
        };
        for (int round = 0; round < 4 && !stop; ++round) {
            bool grew = false;
            orders([&](const sched::Plan &p) {
                one(p);
                grew |= learn();
            });
            if (!grew && (round > 0 || conf.empty())) break;
            if (stop) break;
            runs = 0;
            orders([&](const sched::Plan &p) { go(p, bound); });
            if (!stop && !learn()) break;
        }
    }
};
} // namespace explore
