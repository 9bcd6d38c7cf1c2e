// Exhaustive-enumeration driver shared by all harnesses.
//
// A harness registers sections; a section is a finite set of cases 0..n-1, each case being one root of the bounded
// transition system (a model state with all its outgoing transitions, or a subtree of histories). Every case of every
// section is executed. A case can be replayed alone with --replay <section>:<index>.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

namespace chk
{
inline std::string jesc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c < 32) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += static_cast<char>(c);
    }
    return o;
}
inline std::string d2s(double x)
{
    char b[40];
    std::snprintf(b, sizeof b, "%.17g", x);
    return b;
}
template <typename C>
inline std::string v2s(const C &c)
{
    std::string o = "[";
    bool first = true;
    for (const auto &x : c) {
        if (!first) o += ",";
        first = false;
        o += d2s(static_cast<double>(x));
    }
    return o + "]";
}
inline std::string rv2s(const std::array<std::array<double, 3>, 2> &s) { return v2s(s[0]) + v2s(s[1]); }

inline std::uint64_t mix(std::uint64_t h, std::uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull + h;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline std::uint64_t mixd(std::uint64_t h, double d)
{
    std::uint64_t u;
    std::memcpy(&u, &d, 8);
    return mix(h, u);
}

struct Viol {
    std::string key, msg, sec;
    std::uint64_t idx;
};
struct Metric {
    double mx = 0;
    std::string where;
};
struct Local {
    std::vector<std::uint64_t> states;
    std::uint64_t transitions = 0, traces = 0, evals = 0, skips = 0;
    std::map<std::string, Metric> metrics;
    std::map<std::string, std::uint64_t> counters;
    std::vector<Viol> viols;
    std::vector<std::string> samples;
};

class Run;
struct Case {
    Run &run;
    Local &l;
    std::string sec;
    std::uint64_t idx;
    bool verbose;
    bool want_sample;
    void fail(const std::string &key, const std::string &msg)
    {
        if (verbose) std::printf("FAIL %s: %s\n", key.c_str(), msg.c_str());
        if (l.viols.size() < 3000) l.viols.push_back({key, msg, sec, idx});
        else l.counters["violations_not_stored"]++;
    }
    void state(std::uint64_t h) { l.states.push_back(h); }
    void trans(std::uint64_t n = 1) { l.transitions += n; }
    void trace(std::uint64_t n = 1) { l.traces += n; }
    void eval(std::uint64_t n = 1) { l.evals += n; }
    void skip(const char *why)
    {
        l.skips++;
        l.counters[std::string("skipped_") + why]++;
    }
    void count(const std::string &k, std::uint64_t n = 1) { l.counters[k] += n; }
    // err must be <= tol; records the largest err/tol ratio. NaN err fails.
    template <typename F>
    bool within(const char *metric, double err, double tol, F &&describe)
    {
        double ratio = err / tol;
        if (!(ratio >= 0)) ratio = HUGE_VAL; // NaN
        if (err == 0) ratio = 0;
        auto &m = l.metrics[metric];
        if (ratio > m.mx) {
            m.mx = ratio;
            m.where = sec + ":" + std::to_string(idx);
        }
        if (verbose) std::printf("  %s err=%g tol=%g ratio=%g\n", metric, err, tol, ratio);
        if (ratio > 1) {
            fail(std::string(metric) + "|" + describe(), "err=" + d2s(err) + " tol=" + d2s(tol));
            return false;
        }
        return true;
    }
    void sample(const std::string &s)
    {
        if (want_sample && l.samples.size() < 6) l.samples.push_back(sec + ":" + std::to_string(idx) + " " + s);
    }
};

struct Slot {
    std::atomic<const char *> sec{nullptr};
    std::atomic<std::uint64_t> idx{0};
    std::atomic<std::int64_t> start{0};
};

inline std::string g_out;
inline Slot g_slots[64];
inline thread_local int g_me = -1;
inline std::atomic<bool> g_dead{false};

inline void emergency(const char *kind, const char *sec, std::uint64_t idx)
{
    // async-signal-safe-enough: build a tiny JSON by hand and leave
    if (g_dead.exchange(true)) _exit(7);
    char b[1024];
    int n = std::snprintf(b, sizeof b,
                          "{\"aborted\":\"%s\",\"violations\":[{\"key\":\"%s|%s:%llu\",\"msg\":\"%s while executing this "
                          "case\",\"replay\":\"%s:%llu\"}]}\n",
                          kind, kind, sec, static_cast<unsigned long long>(idx), kind, sec,
                          static_cast<unsigned long long>(idx));
    int fd = ::open(g_out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
        if (::write(fd, b, static_cast<size_t>(n)) < 0) {}
        ::close(fd);
    }
    std::fprintf(stderr, "%s in %s:%llu\n", kind, sec, static_cast<unsigned long long>(idx));
    _exit(1);
}
inline void on_signal(int s)
{
    const char *k = s == SIGSEGV ? "crash-SIGSEGV" : s == SIGABRT ? "crash-SIGABRT" : s == SIGFPE ? "crash-SIGFPE" : "crash";
    const char *sec = g_me >= 0 ? g_slots[g_me].sec.load() : nullptr;
    emergency(k, sec ? sec : "outside-case", g_me >= 0 ? g_slots[g_me].idx.load() : 0);
}

class Run
{
public:
    struct Section {
        std::string name;
        std::uint64_t n;
        std::function<void(std::uint64_t, Case &)> fn;
        double limit_s;
        bool serial;
    };
    std::string tier = "quick", replay;
    bool thorough() const { return tier == "thorough"; }
    std::vector<Section> secs;
    std::map<std::string, std::string> info; // free-form JSON fragments for the evidence
    unsigned nthreads = 8;
    double limit_scale = 1;
    std::vector<Viol> all;

    Run(int argc, char **argv)
    {
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string k = argv[i], v = argv[i + 1];
            if (k == "--tier") tier = v;
            if (k == "--out") g_out = v;
            if (k == "--replay") replay = v;
            if (k == "--limit-scale") limit_scale = std::stod(v);
            if (k == "--threads") nthreads = static_cast<unsigned>(std::stoul(v));
        }
    }
    void section(const std::string &name, std::uint64_t n, std::function<void(std::uint64_t, Case &)> fn,
                 double limit_s = 90, bool serial = false)
    {
        secs.push_back({name, n, std::move(fn), limit_s, serial});
    }
    int go()
    {
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) std::signal(s, on_signal);
        auto t0 = std::chrono::steady_clock::now();
        std::string rsec;
        std::uint64_t ridx = 0;
        if (!replay.empty()) {
            auto p = replay.rfind(':');
            rsec = replay.substr(0, p);
            ridx = std::stoull(replay.substr(p + 1));
        }
        std::atomic<bool> done{false};
        std::thread mon([&] {
            while (!done) {
                std::this_thread::sleep_for(std::chrono::milliseconds(200));
                auto now = std::chrono::duration_cast<std::chrono::milliseconds>(
                               std::chrono::steady_clock::now().time_since_epoch())
                               .count();
                for (auto &s : g_slots) {
                    const char *sec = s.sec.load();
                    if (!sec) continue;
                    double lim = 90;
                    for (auto &x : secs)
                        if (x.name == sec) lim = x.limit_s;
                    auto st = s.start.load();
                    if (st && static_cast<double>(now - st) > lim * 1000 * limit_scale) emergency("hang", sec, s.idx.load());
                }
            }
        });
        Local total;
        std::map<std::string, double> sec_time;
        std::map<std::string, std::uint64_t> sec_n;
        for (auto &s : secs) {
            if (!rsec.empty() && s.name != rsec) continue;
            auto ts = std::chrono::steady_clock::now();
            std::atomic<std::uint64_t> next{0};
            unsigned nt = (!rsec.empty() || s.serial) ? 1u : std::min<std::uint64_t>(nthreads, std::max<std::uint64_t>(1, s.n));
            std::vector<Local> loc(nt);
            std::vector<std::thread> th;
            std::uint64_t chunk = std::max<std::uint64_t>(1, std::min<std::uint64_t>(64, s.n / (nt * 16 + 1)));
            for (unsigned t = 0; t < nt; ++t)
                th.emplace_back([&, t] {
                    g_me = static_cast<int>(t);
                    auto &sl = g_slots[t];
                    for (;;) {
                        std::uint64_t a, b;
                        if (!rsec.empty()) {
                            if (next.fetch_add(1)) break;
                            a = ridx;
                            b = ridx + 1;
                        } else {
                            a = next.fetch_add(chunk);
                            b = std::min(s.n, a + chunk);
                        }
                        if (a >= s.n) break;
                        for (auto i = a; i < b; ++i) {
                            sl.idx = i;
                            sl.start = std::chrono::duration_cast<std::chrono::milliseconds>(
                                           std::chrono::steady_clock::now().time_since_epoch())
                                           .count();
                            sl.sec = s.name.c_str();
                            Case c{*this, loc[t], s.name, i, !rsec.empty(), i == 0 || i == s.n / 2 || i == s.n - 1};
                            const auto b4 = std::array<std::uint64_t, 4>{loc[t].states.size(), loc[t].transitions, loc[t].traces, loc[t].samples.size()};
                            try {
                                s.fn(i, c);
                            } catch (const std::exception &e) {
                                c.fail("unexpected-exception|" + s.name + ":" + std::to_string(i), e.what());
                            } catch (...) {
                                c.fail("unexpected-exception|" + s.name + ":" + std::to_string(i), "non-standard exception");
                            }
                            if (c.want_sample && loc[t].samples.size() == b4[3])
                                c.sample("(case " + std::to_string(i) + " of " + std::to_string(s.n) + "): " + std::to_string(loc[t].states.size() - b4[0]) + " states, "
                                         + std::to_string(loc[t].transitions - b4[1]) + " transitions, " + std::to_string(loc[t].traces - b4[2]) + " traces executed and compared");
                            sl.sec = nullptr;
                        }
                    }
                });
            for (auto &x : th) x.join();
            sec_n[s.name] = rsec.empty() ? s.n : 1;
            sec_time[s.name] = std::chrono::duration<double>(std::chrono::steady_clock::now() - ts).count();
            for (auto &l : loc) {
                total.states.insert(total.states.end(), l.states.begin(), l.states.end());
                total.transitions += l.transitions;
                total.traces += l.traces;
                total.evals += l.evals;
                total.skips += l.skips;
                for (auto &[k, m] : l.metrics) {
                    auto &g = total.metrics[k];
                    if (m.mx > g.mx) g = m;
                }
                for (auto &[k, n] : l.counters) total.counters[k] += n;
                for (auto &v : l.viols) total.viols.push_back(v);
                for (auto &x : l.samples)
                    if (total.samples.size() < 24) total.samples.push_back(x);
            }
        }
        done = true;
        mon.join();
        std::sort(total.states.begin(), total.states.end());
        auto nstates = static_cast<std::uint64_t>(std::unique(total.states.begin(), total.states.end()) - total.states.begin());
        std::sort(total.viols.begin(), total.viols.end(), [](const Viol &a, const Viol &b) {
            return std::tie(a.sec, a.idx, a.key) < std::tie(b.sec, b.idx, b.key);
        });
        double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        std::ostringstream o;
        o.precision(6);
        o << "{\"states\":" << nstates << ",\"transitions\":" << total.transitions << ",\"traces\":" << total.traces
          << ",\"evaluations\":" << total.evals << ",\"skips\":" << total.skips << ",\"wall_s\":" << wall;
        o << ",\"sections\":{";
        bool f = true;
        for (auto &[k, n] : sec_n) {
            o << (f ? "" : ",") << "\"" << jesc(k) << "\":{\"cases\":" << n << ",\"wall_s\":" << sec_time[k] << "}";
            f = false;
        }
        o << "},\"metrics\":{";
        f = true;
        for (auto &[k, m] : total.metrics) {
            o << (f ? "" : ",") << "\"" << jesc(k) << "\":{\"max_err_over_tol\":" << (std::isfinite(m.mx) ? m.mx : 1e308)
              << ",\"at\":\"" << jesc(m.where) << "\"}";
            f = false;
        }
        o << "},\"counters\":{";
        f = true;
        for (auto &[k, n] : total.counters) {
            o << (f ? "" : ",") << "\"" << jesc(k) << "\":" << n;
            f = false;
        }
        o << "},\"info\":{";
        f = true;
        for (auto &[k, v] : info) {
            o << (f ? "" : ",") << "\"" << jesc(k) << "\":" << v;
            f = false;
        }
        o << "},\"samples\":[";
        f = true;
        for (auto &x : total.samples) {
            o << (f ? "" : ",") << "\"" << jesc(x) << "\"";
            f = false;
        }
        o << "],\"violations\":[";
        f = true;
        for (auto &v : total.viols) {
            o << (f ? "" : ",\n") << "{\"key\":\"" << jesc(v.key) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"replay\":\""
              << jesc(v.sec) << ":" << v.idx << "\"}";
            f = false;
        }
        o << "]}\n";
        if (!g_out.empty()) {
            std::ofstream(g_out) << o.str();
        } else
            std::fputs(o.str().c_str(), stdout);
        if (!rsec.empty())
            std::printf("replay of %s: %zu violation(s)\n", replay.c_str(), total.viols.size());
        return total.viols.empty() ? 0 : 1;
    }
};
} // namespace chk
