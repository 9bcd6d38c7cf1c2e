// A controlled scheduler for real threads running real code. The code under test is compiled with -fsanitize=thread but
// linked with the runtime in sched.cpp instead of libtsan: every memory access, atomic operation, lock and static
// initialisation of the instrumented code calls into it, and it decides which thread runs next.
//
// One call of run() executes one schedule; it is made in a forked child, so that every schedule starts from the same
// process image. Only one thread runs at a time (sequentially consistent interleavings).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <vector>

namespace sched
{
constexpr int MAXT = 3;
struct Switch {
    std::uint32_t at; // number of scheduling points passed
    std::int8_t to;   // thread to continue with
};
struct Plan {
    int order[MAXT] = {0, 1, 2};  // who is taken when the running thread ends or blocks: the first runnable one
    std::vector<Switch> switches; // preemptions
    std::vector<std::uintptr_t> conflicts; // sorted granules (address / 8) whose accesses are scheduling points (locks included)
    bool at_functions = false;    // function entries are scheduling points instead
};
constexpr std::uint32_t MAXP = 1 << 14, MAXC = 4096, MAXR = 64;
struct Race {
    std::uintptr_t addr;
    int t1, t2;
    bool w1, w2;
};
struct Result { // plain data in shared memory
    std::uint32_t points;           // scheduling points passed
    std::uint8_t who[MAXP];         // thread running at each point
    std::uint8_t runnable[MAXP];    // mask of the threads that could have run there
    std::uint32_t nconf;            // conflicting granules found (not all of them are in plan.conflicts)
    std::uintptr_t conf[MAXC];
    std::uint32_t nrace;
    Race race[MAXR];
    std::uint32_t deadlock, finished, spins;
    std::uint64_t accesses;
};
void run(const std::vector<std::function<void()>> &bodies, const Plan &p, Result &r);
} // namespace sched
