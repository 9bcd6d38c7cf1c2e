// P24: results depend only on the arguments. The reachable states of the process are explored by forking: every node of
// the tree of call histories is a real process image, every edge executes one call of the alphabet on it, and the result
// of each call must be bit for bit the one it gives in a fresh process; arguments must be left unchanged.
#include "common.hpp"
#include "ops.hpp"
#include "tops.hpp"

#include <new>
#include <optional>
#include <link.h>
#include <sys/mman.h>
#include <sys/wait.h>

using chk::Case;
using ops::Op;
using ops::Sink;
using ops::World;

extern "C" char __data_start, _end;

namespace
{
std::vector<Op> g_ops;
std::vector<std::vector<std::uint64_t>> g_ref;
std::vector<std::vector<std::size_t>> g_family; // of each op: ops of the same family

bool needs_world(const Op &o)
{
    if (o.family == "leg") return true;
    if (o.name.find("kept") != std::string::npos) return true;
    if (o.family == "epoch") return o.name[0] == 'e' && (o.name[1] == '0' || o.name[1] == '1');
    if (o.family == "planet") return o.name.rfind("jpl_lp(", 0) != 0 && o.name.rfind("keplerian from", 0) != 0;
    return o.name == "fb_con(planet)";
}

// noise: leave recognisable garbage on the stack, in the heap and in the floating point registers
[[gnu::noinline]] void fill_stack(unsigned char c)
{
    volatile unsigned char b[160 * 1024];
    std::memset(const_cast<unsigned char *>(b), c, sizeof b);
    asm volatile("" ::"r"(b) : "memory");
}
[[gnu::noinline]] void fill_heap(unsigned char c)
{
    std::vector<void *> v;
    for (std::size_t n = 16; n < 8192; n += 16)
        for (int k = 0; k < 3; ++k) {
            auto *p = std::malloc(n);
            std::memset(p, c, n);
            asm volatile("" ::"r"(p) : "memory");
            v.push_back(p);
        }
    for (auto *p : v) std::free(p);
}
[[gnu::noinline]] double odd_math(double a, int n)
{
    double s = 0;
    for (int k = 1; k <= n; ++k) s += std::sin(a * k) / k + std::sqrt(-a) + 1 / (a - a);
    return s;
}

struct Shared { // written by the children
    std::atomic<std::uint64_t> trans, traces, nviol, nstates, nprobed;
    std::uint64_t states[4096];
    char viol[8][512];
    std::uint64_t ref[1 << 16];
    std::atomic<std::uint64_t> nref;
};
Shared *make_shared_area()
{
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) std::abort();
    return new (p) Shared{};
}
// The writable static and thread-local data of the program, as a difference to what they are in the process that forks
// the cases.
std::size_t tls_words()
{
    std::size_t n = 0;
    dl_iterate_phdr(
        [](dl_phdr_info *i, std::size_t, void *p) {
            for (int k = 0; k < i->dlpi_phnum; ++k)
                if (i->dlpi_phdr[k].p_type == PT_TLS) *static_cast<std::size_t *>(p) = (i->dlpi_phdr[k].p_memsz + 7) / 8;
            return 1; // the executable only
        },
        &n);
    return n;
}
struct Image {
    const std::uint64_t *a, *e, *t;
    std::size_t nt;
    std::vector<std::uint64_t> base, tbase;
    Image()
        : a(reinterpret_cast<const std::uint64_t *>((reinterpret_cast<std::uintptr_t>(&__data_start) + 7) & ~std::uintptr_t{7})),
          e(reinterpret_cast<const std::uint64_t *>(&_end)), t(static_cast<const std::uint64_t *>(__builtin_thread_pointer())), nt(tls_words())
    {
        t -= nt; // x86-64: the block of the executable ends at the thread pointer
    }
    void start()
    {
        base.assign(a, e);
        tbase.assign(t, t + nt);
    }
    [[nodiscard]] std::uint64_t hash() const
    {
        std::uint64_t h = 1;
        for (std::size_t k = 0; k < base.size(); ++k)
            if (a[k] != base[k]) h = chk::mix(chk::mix(h, k), a[k]);
        for (std::size_t k = 0; k < tbase.size(); ++k)
            if (t[k] != tbase[k]) h = chk::mix(chk::mix(h, ~k), t[k]);
        return h;
    }
};
thread_local std::unique_ptr<Image> t_image;
std::vector<Op> g_probes;
std::vector<std::uint64_t> g_probe_ref;
std::uint64_t digest(const Sink &s)
{
    std::uint64_t h = 24;
    for (auto x : s.w) h = chk::mix(h, x);
    return h;
}
void probe(Shared *s, const std::string &hist);
bool note_state(Shared *s) // true: a state not seen before in this case
{
    const auto h = t_image->hash();
    const auto n = std::min<std::uint64_t>(s->nstates.load(), 4096);
    for (std::uint64_t k = 0; k < n; ++k)
        if (s->states[k] == h) return false;
    const auto at = s->nstates.fetch_add(1);
    if (at < 4096) s->states[at] = h;
    return h != 1;
}
void report(Shared *s, const std::string &m)
{
    const auto at = s->nviol.fetch_add(1);
    if (at < 8) std::snprintf(s->viol[at], sizeof s->viol[at], "%s", m.c_str());
}
struct Node {
    Shared *sh;
    const World *w;
    std::string hist;
    void step(std::size_t i, bool quiet = false)
    {
        Sink s;
        g_ops[i].run(*w, s);
        sh->trans.fetch_add(1, std::memory_order_relaxed);
        if (s.arg_changed) report(sh, "argument-modified|" + g_ops[i].name + "|after" + hist);
        if (s.w != g_ref[i]) report(sh, "result-depends-on-history|" + g_ops[i].name + "|after" + hist);
        if (!quiet) hist += " " + g_ops[i].name + ";";
    }
};
// runs f in a child process; true if it left normally
template <typename F>
bool in_child(F &&f)
{
    const pid_t p = fork();
    if (p == 0) {
        if (!t_image) {
            t_image = std::make_unique<Image>();
            t_image->start();
        }
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) std::signal(s, SIG_DFL);
        f();
        _exit(0);
    }
    if (p < 0) std::abort();
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {}
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
// All the probes, from the present state, in both directions. (The probes may move the state on; any history will do.)
void probe(Shared *s, const std::string &hist)
{
    if (s->nprobed.fetch_add(1) >= 48) return;
    for (int dir = 0; dir < 2; ++dir)
        if (!in_child([&] {
                World w;
                for (std::size_t q = 0; q < g_probes.size(); ++q) {
                    const auto i = dir ? g_probes.size() - 1 - q : q;
                    Sink k;
                    g_probes[i].run(w, k);
                    s->trans.fetch_add(1, std::memory_order_relaxed);
                    if (digest(k) != g_probe_ref[i]) report(s, "result-depends-on-history|probe " + g_probes[i].name + "|after" + hist);
                }
            }))
            report(s, "crash|probe|after" + hist);
}
template <typename F>
void children(Node &n, const std::vector<std::size_t> &next, F &&then)
{
    for (auto j : next)
        if (!in_child([&] {
                n.step(j);
                if (note_state(n.sh)) probe(n.sh, n.hist);
                then(n, j);
                n.sh->traces.fetch_add(1, std::memory_order_relaxed);
            }))
            report(n.sh, "crash|" + g_ops[j].name + "|after" + n.hist);
}
void collect(Case &c, Shared *s)
{
    c.trans(s->trans);
    c.trace(s->traces);
    c.eval(s->trans);
    for (std::uint64_t k = 0; k < std::min<std::uint64_t>(s->nstates, 4096); ++k) c.state(s->states[k]);
    for (std::uint64_t k = 0; k < std::min<std::uint64_t>(s->nviol, 8); ++k) {
        std::string m = s->viol[k];
        c.fail(m, "the result (or the argument) differs from that of the same call made in a fresh process");
    }
    munmap(s, sizeof(Shared));
}
} // namespace

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool T = run.thorough();
    g_ops = ops::alphabet();
    const auto N0 = g_ops.size();
    for (int c : {0x00, 0xff, 0x7f, 0x3f})
        g_ops.push_back({"noise", "stack filled with " + std::to_string(c), [c](const World &, Sink &s) {
                             fill_stack(static_cast<unsigned char>(c));
                             s.put(c);
                         }});
    for (int c : {0xff, 0x3f})
        g_ops.push_back({"noise", "heap filled with " + std::to_string(c), [c](const World &, Sink &s) {
                             fill_heap(static_cast<unsigned char>(c));
                             s.put(c);
                         }});
    g_ops.push_back({"noise", "invalid arithmetic", [](const World &, Sink &s) { s.put(odd_math(0.3, 12)); }});
    const auto N = g_ops.size();
    std::vector<std::size_t> all(N);
    for (std::size_t i = 0; i < N; ++i) all[i] = i;
    g_family.resize(N);
    for (std::size_t i = 0; i < N; ++i)
        for (std::size_t j = 0; j < N; ++j)
            if (g_ops[i].family == g_ops[j].family || g_ops[j].family == "noise") g_family[i].push_back(j);
    // Reference: the call alone in a fresh process (this one never calls the library itself).
    g_ref.resize(N);
    std::vector<std::string> startup;
    for (std::size_t i = 0; i < N; ++i) {
        auto *s = make_shared_area();
        const bool ok = in_child([&] {
            World w;
            Sink k;
            g_ops[i].run(w, k);
            if (k.w.size() > (1 << 16)) _exit(3);
            std::copy(k.w.begin(), k.w.end(), s->ref);
            s->nref = k.w.size();
        });
        if (!ok) startup.push_back("crash|" + g_ops[i].name + "|alone");
        g_ref[i].assign(s->ref, s->ref + s->nref);
        munmap(s, sizeof(Shared));
    }
    g_probes = ops::battery();
    {
        auto *s = make_shared_area();
        for (std::size_t i = 0; i < g_probes.size(); ++i) {
            if (!in_child([&] {
                    World w;
                    Sink k;
                    g_probes[i].run(w, k);
                    s->ref[0] = digest(k);
                }))
                startup.push_back("crash|" + g_probes[i].name + "|alone");
            g_probe_ref.push_back(s->ref[0]);
        }
        munmap(s, sizeof(Shared));
    }
    run.info["probes"] = std::to_string(g_probes.size());
    run.info["calls_in_alphabet"] = std::to_string(N);
    // the probes one after the other in one process, from several starting points, forwards and backwards
    run.section("probes", T ? 64 : 16, [&](std::uint64_t r, Case &c) {
        for (const auto &m : startup)
            if (m.find("|alone") != std::string::npos && r == 0) c.fail(m, "the call does not return");
        auto *s = make_shared_area();
        if (!in_child([&] {
                World w;
                const auto n = g_probes.size();
                for (std::size_t q = 0; q < n; ++q) {
                    auto i = (r / 2 * (n / 31) + q) % n;
                    if (r % 2) i = n - 1 - i;
                    Sink k;
                    g_probes[i].run(w, k);
                    s->trans.fetch_add(1, std::memory_order_relaxed);
                    if (digest(k) != g_probe_ref[i]) report(s, "result-depends-on-history|probe " + g_probes[i].name + "|after the other probes, order " + std::to_string(r));
                }
                note_state(s);
                s->traces++;
            }))
            c.fail("crash|probes|" + std::to_string(r), "a call does not return");
        collect(c, s);
    });
    run.section("alone", N, [&](std::uint64_t i, Case &c) {
        for (const auto &m : startup)
            if (m.find("|" + g_ops[i].name + "|") != std::string::npos) c.fail(m, "the call does not return");
        if (i < N0 && needs_world(g_ops[i])) return;
        auto *s = make_shared_area();
        // before any object of the library was created, and again in that process once objects exist
        if (!in_child([&] {
                Node n{s, nullptr, " (nothing)"};
                n.step(i);
                note_state(s);
                World w;
                n.w = &w;
                n.hist = " objects created;";
                n.step(i);
                note_state(s);
                s->traces++;
            }))
            c.fail("crash|" + g_ops[i].name + "|fresh", "the call does not return");
        collect(c, s);
    });
    run.section(
        "histories", N,
        [&](std::uint64_t i, Case &c) {
            auto *s = make_shared_area();
            if (!in_child([&] {
                    World w;
                    Node n{s, &w, ""};
                    note_state(s);
                    n.step(i);
                    if (note_state(s)) probe(s, n.hist);
                    children(n, all, [&](Node &m, std::size_t j) {
                        if (T) children(m, all, [](Node &, std::size_t) {});
                        else if (g_ops[j].family == g_ops[i].family) children(m, g_family[i], [](Node &, std::size_t) {});
                    });
                }))
                c.fail("crash|" + g_ops[i].name + "|first", "the call does not return");
            if (c.want_sample) c.sample("first call " + g_ops[i].name + ": " + std::to_string(s->traces.load()) + " histories, " + std::to_string(s->nstates.load()) + " images of the static data");
            collect(c, s);
        },
        800);
    run.section(
        "repeated", N,
        [&](std::uint64_t i, Case &c) {
            auto *s = make_shared_area();
            if (!in_child([&] {
                    World w;
                    Node n{s, &w, " repetitions of it and"};
                    for (int k = 0; k < (T ? 3000 : 150); ++k) n.step(i, true);
                    n.hist = " many " + g_ops[i].name + ";";
                    if (note_state(s)) probe(s, n.hist);
                    children(n, T ? all : g_family[i], [](Node &, std::size_t) {});
                }))
                c.fail("crash|" + g_ops[i].name + "|repeated", "the call does not return");
            collect(c, s);
        },
        800);
    run.section(
        "rotations", 2 * N,
        [&](std::uint64_t r, Case &c) { // the whole alphabet from every starting point, in both directions, twice
            auto *s = make_shared_area();
            if (!in_child([&] {
                    World w;
                    Node n{s, &w, " rotation " + std::to_string(r)};
                    for (std::size_t k = 0; k < 2 * N; ++k) {
                        const auto q = (r / 2 + (r % 2 ? 2 * N - k : k)) % N;
                        n.step(q, true);
                    }
                    if (note_state(s)) probe(s, n.hist);
                    s->traces++;
                }))
                c.fail("crash|rotation|" + std::to_string(r), "a call does not return");
            collect(c, s);
        },
        800);
    // ---- the computations that integrate numerically (Stark problem, continuous-thrust leg, integrators): from the empty
    // caches of a fresh process, histories of calls in child processes
    static const auto tops = ops::taylor_alphabet();
    static std::vector<std::uint64_t> tref;
    const auto nt = tops.size();
    {
        auto *s = make_shared_area();
        for (std::size_t i = 0; i < nt; ++i) {
            s->ref[0] = 0;
            if (!in_child([&] {
                    ops::TWorld w;
                    Sink k;
                    tops[i].run(w, k);
                    s->ref[0] = digest(k);
                }))
                startup.push_back("crash|" + tops[i].name + "|alone");
            tref.push_back(s->ref[0]);
        }
        munmap(s, sizeof(Shared));
    }
    run.info["integrating_calls"] = std::to_string(nt);
    const auto tstep = [](Shared *s, const ops::TWorld &w, std::size_t i, const std::string &hist) {
        Sink k;
        tops[i].run(w, k);
        s->trans.fetch_add(1, std::memory_order_relaxed);
        if (k.arg_changed) report(s, "argument-modified|" + tops[i].name + "|after" + hist);
        if (digest(k) != tref[i]) report(s, "result-depends-on-history|" + tops[i].name + "|after" + hist);
        return hist + " " + tops[i].name + ";";
    };
    run.section(
        "integrating_calls", nt,
        [&](std::uint64_t i, Case &c) {
            for (const auto &m : startup)
                if (m.find("|" + tops[i].name + "|") != std::string::npos) c.fail(m, "the call does not return");
            auto *s = make_shared_area();
            if (!in_child([&] {
                    ops::TWorld w;
                    const auto h1 = tstep(s, w, i, "");
                    note_state(s);
                    std::function<void(const std::string &, int)> deeper = [&](const std::string &h, int left) {
                        for (std::size_t j = 0; j < nt; ++j) {
                            if (!T && left == 1 && (j + h.size()) % 8) continue; // the last call of three: an eighth, depending on the history
                            if (!in_child([&] {
                                    const auto h2 = tstep(s, w, j, h);
                                    note_state(s);
                                    s->traces++;
                                    if (left > 1) deeper(h2, left - 1);
                                }))
                                report(s, "crash|" + tops[j].name + "|after" + h);
                        }
                    };
                    deeper(h1, 2);
                }))
                c.fail("crash|" + tops[i].name + "|first", "the call does not return");
            // many of them, all of them, in both directions
            for (int dir = 0; dir < 2; ++dir)
                if (!in_child([&] {
                        ops::TWorld w;
                        for (int q = 0; q < 20; ++q) tstep(s, w, i, " repetitions of it");
                        for (std::size_t q = 0; q < 2 * nt; ++q) tstep(s, w, (i + (dir ? 2 * nt - q : q)) % nt, " rotation " + std::to_string(i) + (dir ? " backwards" : ""));
                        s->traces++;
                    }))
                    c.fail("crash|rotation|" + tops[i].name, "a call does not return");
            collect(c, s);
        },
        800);
    // a few of them before and after the calls of the other alphabet
    run.section(
        "integrating_and_other_calls", N,
        [&](std::uint64_t i, Case &c) {
            auto *s = make_shared_area();
            for (std::size_t j = i % 3; j < nt; j += T ? 1 : 9)
                for (int order = 0; order < 2; ++order)
                    if (!in_child([&] {
                            ops::TWorld tw;
                            World w;
                            Node n{s, &w, order ? " " + tops[j].name + ";" : ""};
                            if (order) tstep(s, tw, j, "");
                            n.step(i);
                            if (!order) tstep(s, tw, j, n.hist);
                            s->traces++;
                        }))
                        c.fail("crash|" + g_ops[i].name + " and " + tops[j].name, "a call does not return");
            collect(c, s);
        },
        800);
    return run.go();
}
