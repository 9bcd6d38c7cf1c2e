// P13: histories of setters, copies and evaluations vs freshly constructed legs (state graph + all words up to a depth).
// P14: rejected calls at every reached state.   P17: throttle constraints.   Selected with -DPROP=13|14|17.
#include <kep3/leg/sims_flanagan.hpp>

#include <optional>
#include <sstream>

#include "hfleg.hpp"
#include "orbits.hpp"

using namespace orb;
using chk::Case;
using Leg = kep3::leg::sims_flanagan;

namespace
{
struct Set { // model state: indices into the alphabets
    std::array<int, 10> k{};
    bool operator<(const Set &o) const { return k < o.k; }
    bool operator==(const Set &o) const { return k == o.k; }
};
enum { RVS, MS, THR, RVF, MF, TOF, TMAX, ISP, MU, CUT };
const std::vector<RV> rvs{{{{1., 0.1, -0.1}, {0.2, 1., -0.2}}}, {{{0.3, -1.2, 0.4}, {0.9, 0.3, 0.1}}}};
const std::vector<RV> rvf{{{{1.2, -0.1, 0.1}, {-0.2, 1.023, -0.44}}}, {{{-0.8, 0.7, 0.2}, {-0.5, -0.8, 0.3}}}};
const std::vector<double> mss{1500., 1.7}, mfs{1300., 1.1}, tofs{1.3, 4.7}, tms{0.12, 0.03}, isps{2.1, 0.7}, mus{1., 0.83};
const std::vector<std::vector<double>> thrs{
    {0.3, -0.2, 0.5},
    {0.1, 0.2, -0.3, -0.4, 0.5, 0.6},
    {0.1, 0.11, 0.12, -0.13, 0.14, 0.15, 0.16, -0.17, 0.18, 0.19, 0.2, 0.21, 0.22, 0.23, -0.24},
    {-0.5, 0.4, 0.3, 0.2, 0.1, -0.6, 0.7, 0.8, 0.9},
    {-0.6, 0.2, -0.1, 0.5, 0.3, 0.4}};
const std::vector<double> cuts{0.5, 0., 1., 0.34, 0.81};
const std::array<int, 10> sizes{2, 2, 5, 2, 2, 2, 2, 2, 2, 5};

Leg fresh(const Set &s)
{
    return Leg(rvs[s.k[RVS]], mss[s.k[MS]], thrs[s.k[THR]], rvf[s.k[RVF]], mfs[s.k[MF]], tofs[s.k[TOF]], tms[s.k[TMAX]], isps[s.k[ISP]], mus[s.k[MU]], cuts[s.k[CUT]]);
}
struct Obs {
    std::array<std::array<double, 3>, 2> rvs, rvf;
    double ms, mf, tof, tmax, isp, mu, cut;
    std::vector<double> thr;
    unsigned n, nf, nb;
    std::vector<double> calc; // mismatch, throttle constraints, both gradients
    std::vector<size_t> cut_at;
};
Obs observe(const Leg &l)
{
    Obs o;
    o.rvs = l.get_rvs();
    o.rvf = l.get_rvf();
    o.ms = l.get_ms();
    o.mf = l.get_mf();
    o.tof = l.get_tof();
    o.tmax = l.get_max_thrust();
    o.isp = l.get_isp();
    o.mu = l.get_mu();
    o.cut = l.get_cut();
    o.thr = l.get_throttles();
    o.n = l.get_nseg();
    o.nf = l.get_nseg_fwd();
    o.nb = l.get_nseg_bck();
    auto put = [&](const auto &v) {
        o.cut_at.push_back(v.size());
        o.calc.insert(o.calc.end(), v.begin(), v.end());
    };
    put(l.compute_mismatch_constraints());
    put(l.compute_throttle_constraints());
    auto [a, b, g] = l.compute_mc_grad();
    put(a);
    put(b);
    put(g);
    put(l.compute_tc_grad());
    return o;
}
std::string settings_diff(const Obs &a, const Obs &b)
{
    if (a.rvs != b.rvs) return "rvs";
    if (a.rvf != b.rvf) return "rvf";
    if (a.ms != b.ms) return "ms";
    if (a.mf != b.mf) return "mf";
    if (a.tof != b.tof) return "tof";
    if (a.tmax != b.tmax) return "max_thrust";
    if (a.isp != b.isp) return "isp";
    if (a.mu != b.mu) return "mu";
    if (a.cut != b.cut) return "cut";
    if (a.thr != b.thr) return "throttles";
    if (a.n != b.n) return "nseg";
    if (a.nf != b.nf) return "nseg_fwd";
    if (a.nb != b.nb) return "nseg_bck";
    return "";
}
std::string calc_diff(const Obs &a, const Obs &b)
{
    static const char *nm[] = {"mismatch", "throttle_constraints", "grad_state_start", "grad_state_end", "grad_throttles", "tc_grad"};
    if (a.cut_at != b.cut_at) return "sizes_of_results";
    size_t p = 0;
    for (size_t k = 0; k < a.cut_at.size(); ++k) {
        double nrm = 0, d = 0;
        for (size_t i = p; i < p + a.cut_at[k]; ++i) {
            if (std::isnan(a.calc[i]) && std::isnan(b.calc[i])) continue;
            nrm = std::max(nrm, std::fabs(b.calc[i]));
            double e = std::fabs(a.calc[i] - b.calc[i]);
            if (std::isnan(e)) return nm[k];
            d = std::max(d, e);
        }
        if (d > 1e-11 * nrm) return nm[k];
        p += a.cut_at[k];
    }
    return "";
}
// model of the segment counters
std::string counters(const Obs &o, const Set &s)
{
    auto n = static_cast<unsigned>(thrs[s.k[THR]].size() / 3);
    auto nf = static_cast<unsigned>(std::floor(n * cuts[s.k[CUT]]));
    if (o.n != n || o.nf != nf || o.nb != n - nf) return "nseg " + std::to_string(o.n) + "=" + std::to_string(o.nf) + "+" + std::to_string(o.nb);
    return "";
}
Obs model_settings(const Set &s)
{
    Obs o;
    o.rvs = rvs[s.k[RVS]];
    o.rvf = rvf[s.k[RVF]];
    o.ms = mss[s.k[MS]];
    o.mf = mfs[s.k[MF]];
    o.tof = tofs[s.k[TOF]];
    o.tmax = tms[s.k[TMAX]];
    o.isp = isps[s.k[ISP]];
    o.mu = mus[s.k[MU]];
    o.cut = cuts[s.k[CUT]];
    o.thr = thrs[s.k[THR]];
    o.n = static_cast<unsigned>(o.thr.size() / 3);
    o.nf = static_cast<unsigned>(std::floor(o.n * o.cut));
    o.nb = o.n - o.nf;
    return o;
}
struct Op {
    std::string name;
    std::function<void(Leg &, Set &)> f;
};
const std::vector<Op> &ops()
{
    static std::vector<Op> v = [] {
        std::vector<Op> r;
        auto add = [&](const std::string &n, int field, int idx, std::function<void(Leg &)> f) {
            r.push_back({n + "#" + std::to_string(idx), [=](Leg &l, Set &s) {
                             f(l);
                             s.k[static_cast<size_t>(field)] = idx;
                         }});
        };
        for (int i = 0; i < 2; ++i) {
            add("set_rvs", RVS, i, [i](Leg &l) { l.set_rvs(rvs[i]); });
            add("set_ms", MS, i, [i](Leg &l) { l.set_ms(mss[i]); });
            add("set_rvf", RVF, i, [i](Leg &l) { l.set_rvf(rvf[i]); });
            add("set_mf", MF, i, [i](Leg &l) { l.set_mf(mfs[i]); });
            add("set_tof", TOF, i, [i](Leg &l) { l.set_tof(tofs[i]); });
            add("set_max_thrust", TMAX, i, [i](Leg &l) { l.set_max_thrust(tms[i]); });
            add("set_isp", ISP, i, [i](Leg &l) { l.set_isp(isps[i]); });
            add("set_mu", MU, i, [i](Leg &l) { l.set_mu(mus[i]); });
        }
        for (int i = 0; i < sizes[THR]; ++i) {
            add("set_throttles", THR, i, [i](Leg &l) { l.set_throttles(thrs[i]); });
            add("set_throttles_it", THR, i, [i](Leg &l) { l.set_throttles(thrs[i].begin(), thrs[i].end()); });
        }
        for (int i = 0; i < sizes[CUT]; ++i) add("set_cut", CUT, i, [i](Leg &l) { l.set_cut(cuts[i]); });
        // collective setter: a few targets
        for (int t = 0; t < 6; ++t)
            r.push_back({"set#" + std::to_string(t), [t](Leg &l, Set &s) {
                             Set n;
                             for (size_t q = 0; q < 10; ++q) n.k[q] = static_cast<int>((t * (q + 3) + q * t * t + t / 2) % static_cast<size_t>(sizes[q]));
                             l.set(rvs[n.k[RVS]], mss[n.k[MS]], thrs[n.k[THR]], rvf[n.k[RVF]], mfs[n.k[MF]], tofs[n.k[TOF]], tms[n.k[TMAX]], isps[n.k[ISP]], mus[n.k[MU]], cuts[n.k[CUT]]);
                             s = n;
                         }});
        // no-ops of the model: evaluation, printing, copies
        r.push_back({"evaluate", [](Leg &l, Set &) {
                         (void)l.compute_mismatch_constraints();
                         (void)l.compute_mc_grad();
                         (void)l.compute_throttle_constraints();
                         (void)l.compute_tc_grad();
                     }});
        r.push_back({"print", [](Leg &l, Set &) {
                         std::ostringstream o;
                         o << l;
                     }});
        r.push_back({"copy-then-change-the-copy", [](Leg &l, Set &) {
                         Leg c(l);
                         c.set_throttles(thrs[3]);
                         c.set_cut(0.9);
                         c.set_tof(0.01);
                     }});
        r.push_back({"replace-by-copy", [](Leg &l, Set &) {
                         Leg c(l), d;
                         d = c;
                         l = std::move(d);
                     }});
        return r;
    }();
    return v;
}
// invalid calls: (name, call). Each must raise and leave the leg as it was.
struct Bad {
    std::string name;
    std::function<void(Leg &)> f;
};
const double NZ = -1e-300, INF = HUGE_VAL;
const std::vector<Bad> &bads()
{
    static std::vector<Bad> v = [] {
        std::vector<Bad> r;
        const std::vector<double> neg{-1., NZ, -INF, -1e9};
        const std::vector<double> bc{-0.1, NZ, std::nextafter(1., 2.), 1.5, 32., INF, -INF};
        const std::vector<size_t> sz{0, 1, 2, 4, 5, 7, 301};
        for (double x : neg) {
            auto n = chk::d2s(x);
            r.push_back({"set_tof(" + n + ")", [x](Leg &l) { l.set_tof(x); }});
            r.push_back({"set_max_thrust(" + n + ")", [x](Leg &l) { l.set_max_thrust(x); }});
            r.push_back({"set_isp(" + n + ")", [x](Leg &l) { l.set_isp(x); }});
            r.push_back({"set_mu(" + n + ")", [x](Leg &l) { l.set_mu(x); }});
        }
        for (double x : bc) r.push_back({"set_cut(" + chk::d2s(x) + ")", [x](Leg &l) { l.set_cut(x); }});
        for (size_t k : sz) {
            r.push_back({"set_throttles(size " + std::to_string(k) + ")", [k](Leg &l) { l.set_throttles(std::vector<double>(k, 0.77)); }});
            r.push_back({"set_throttles_it(size " + std::to_string(k) + ")", [k](Leg &l) {
                             const std::vector<double> t(k + 6, 0.77);
                             l.set_throttles(t.begin() + 3, t.begin() + 3 + static_cast<long>(k));
                         }});
        }
        r.push_back({"set_throttles_it(reversed)", [](Leg &l) {
                         const std::vector<double> t(6, 0.77);
                         l.set_throttles(t.begin() + 3, t.begin());
                     }});
        // collective setter: every non-empty subset of the six validated arguments is invalid, plus each invalid class alone
        auto coll = [&](const std::string &n, double tof, double tm, double isp, double mu, double cut, size_t nt) {
            r.push_back({"set(" + n + ")", [=](Leg &l) { l.set(rvf[1], 3.3, std::vector<double>(nt, 0.33), rvs[1], 4.4, tof, tm, isp, mu, cut); }});
        };
        for (int m = 1; m < 64; ++m)
            coll("invalid mask " + std::to_string(m), m & 1 ? -1. : 2., m & 2 ? -1. : 2., m & 4 ? -1. : 2., m & 8 ? -1. : 2., m & 16 ? 1.1 : 0.2, m & 32 ? 4 : 9);
        for (double x : neg) {
            auto n = chk::d2s(x);
            coll("tof " + n, x, 2, 2, 2, 0.2, 9);
            coll("thrust " + n, 2, x, 2, 2, 0.2, 9);
            coll("isp " + n, 2, 2, x, 2, 0.2, 9);
            coll("mu " + n, 2, 2, 2, x, 0.2, 9);
        }
        for (double x : bc) coll("cut " + chk::d2s(x), 2, 2, 2, 2, x, 9);
        for (size_t k : sz) coll("throttles " + std::to_string(k), 2, 2, 2, 2, 0.2, k);
        return r;
    }();
    return v;
}
} // namespace

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool th = run.thorough();
    auto check = [](Case &c, const Leg &l, const Set &s, const Obs &want, const std::string &hist) {
        c.eval();
        Obs o = observe(l);
        auto d = settings_diff(o, model_settings(s));
        if (!d.empty()) c.fail("reported_" + d + "|" + hist, "differs from the last value set");
        auto ct = counters(o, s);
        if (!ct.empty()) c.fail("segment_counters|" + hist, ct);
        auto cd = calc_diff(o, want);
        if (!cd.empty()) c.fail("computed_" + cd + "|" + hist, "differs from a freshly constructed leg");
        auto o2 = observe(l); // computing must not change the leg
        if (!settings_diff(o, o2).empty() || !calc_diff(o2, o).empty()) c.fail("evaluation_changes_leg|" + hist, "");
    };
    (void)check;
    auto hash = [](const Set &s) {
        std::uint64_t h = 3;
        for (int x : s.k) h = chk::mix(h, static_cast<unsigned>(x));
        return h;
    };
    (void)hash;
    (void)th;
#if PROP == 13
    // ---- 1. the whole graph of settings: every state, every operation. One case per (ms, mf, tof, tmax, isp, mu, rvs, rvf).
    run.section("settings_graph", 256, [&](std::uint64_t i, Case &c) {
        Set root;
        static const int order[8] = {RVS, MS, RVF, MF, TOF, TMAX, ISP, MU};
        for (int b = 0; b < 8; ++b) root.k[order[b]] = (i >> b) & 1;
        for (int t = 0; t < sizes[THR]; ++t)
            for (int q = 0; q < sizes[CUT]; ++q) {
                Set s = root;
                s.k[THR] = t;
                s.k[CUT] = q;
                // reached by setters from the default leg, order depending on the state
                Leg l;
                Set cur;
                std::vector<size_t> idx;
                for (size_t o = 0; o < ops().size(); ++o) idx.push_back(o);
                std::rotate(idx.begin(), idx.begin() + static_cast<long>((i * 7 + t * 3 + q) % idx.size()), idx.end());
                std::string hist = "default";
                for (size_t o : idx) {
                    Set n = cur;
                    auto &op = ops()[o];
                    if (op.name.rfind("set_", 0) != 0) continue;
                    Leg probe;
                    op.f(probe, n);
                    // apply only if it leads towards s in its field
                    int f = -1;
                    for (int z = 0; z < 10; ++z)
                        if (n.k[z] != cur.k[z]) f = z;
                    int idv = op.name.back() - '0';
                    static const std::map<std::string, int> fm{{"set_rvs", RVS}, {"set_ms", MS}, {"set_throttles", THR}, {"set_throttles_it", THR}, {"set_rvf", RVF}, {"set_mf", MF}, {"set_tof", TOF}, {"set_max_thrust", TMAX}, {"set_isp", ISP}, {"set_mu", MU}, {"set_cut", CUT}};
                    f = fm.at(op.name.substr(0, op.name.find('#')));
                    if (idv != s.k[f]) continue;
                    op.f(l, cur);
                    hist += "." + op.name;
                }
                if (!(cur == s)) continue;
                c.state(hash(s));
                c.trace();
                check(c, l, s, observe(fresh(s)), hist);
                for (auto &op : ops()) {
                    Leg l2(l);
                    Set s2 = s;
                    op.f(l2, s2);
                    c.trans();
                    c.trace();
                    Obs o = observe(l2), w = observe(fresh(s2));
                    auto h2 = hist + "." + op.name;
                    c.eval();
                    auto d = settings_diff(o, model_settings(s2));
                    if (!d.empty()) c.fail("reported_" + d + "|" + h2, "differs from the last value set");
                    auto cd = calc_diff(o, w);
                    if (!cd.empty()) c.fail("computed_" + cd + "|" + h2, "differs from a freshly constructed leg");
                }
            }
    });
    // ---- 2. all words of operations up to a depth, from a default and from a constructed leg
    const int depth = th ? 4 : 3;
    static std::map<Set, Obs> memo;
    static std::mutex mx;
    auto want = [&](const Set &s) -> const Obs & {
        {
            std::lock_guard<std::mutex> g(mx);
            auto it = memo.find(s);
            if (it != memo.end()) return it->second;
        }
        Obs o = observe(fresh(s));
        std::lock_guard<std::mutex> g(mx);
        return memo.emplace(s, o).first->second;
    };
    run.section("words", ops().size() * 2, [&](std::uint64_t i, Case &c) {
        Leg l;
        Set s;
        std::string h;
        if (i % 2) {
            for (size_t q = 0; q < 10; ++q) s.k[q] = sizes[q] - 1;
            l = fresh(s);
            h = "constructed";
        } else {
            // the default leg is not in the alphabet: bring it in with the collective setter
            ops()[0].f(l, s);
            Leg z;
            for (auto &op : ops())
                if (op.name == "set#0") op.f(l, s);
            h = "default.set#0";
        }
        std::function<void(const Leg &, const Set &, int, const std::string &, size_t)> walk = [&](const Leg &l0, const Set &s0, int d, const std::string &hist, size_t only) {
            for (size_t o = 0; o < ops().size(); ++o) {
                if (only != SIZE_MAX && o != only) continue;
                Leg l2(l0);
                Set s2 = s0;
                ops()[o].f(l2, s2);
                c.trans();
                c.trace();
                c.state(chk::mix(hash(s2), chk::mix(static_cast<unsigned>(d), o)));
                auto h2 = hist + "." + ops()[o].name;
                if (d == depth || th || d <= 2) check(c, l2, s2, want(s2), h2);
                if (d < depth) walk(l2, s2, d + 1, h2, SIZE_MAX);
            }
        };
        walk(l, s, 1, h, i / 2);
    });
    // ---- the number of forward segments for every count and every cut next to a multiple of 1/n, set in every way and order
    run.section("segment_counts", th ? 400 : 120, [&](std::uint64_t i, Case &c) {
        const auto n = static_cast<unsigned>(i + 1);
        const std::vector<double> t(3 * n, .1);
        for (unsigned k = 0; k <= n; ++k)
            for (int w = -3; w <= 3; ++w) {
                double cut = static_cast<double>(k) / n;
                if (std::abs(w) <= 2)
                    for (int j = 0; j < std::abs(w); ++j) cut = std::nextafter(cut, w < 0 ? -1. : 2.);
                else
                    cut += w < 0 ? -1e-12 : 1e-12;
                if (cut < 0 || cut > 1) continue;
                const auto f1 = static_cast<unsigned>(std::floor(static_cast<double>(n) * cut)), f2 = static_cast<unsigned>(floorq(Q(n) * Q(cut))); // rounded product or exact one
                Leg a(rvs[0], 2., t, rvf[0], 1., 1., 1., 1., 1., cut);
                Leg b;
                b.set_cut(cut);
                b.set_throttles(t);
                Leg d;
                d.set_throttles(t.begin(), t.end());
                d.set_cut(cut);
                Leg e;
                e.set(rvs[0], 2., t, rvf[0], 1., 1., 1., 1., 1., cut);
                c.trans(4);
                c.trace();
                c.eval(4);
                c.state(chk::mixd(chk::mix(n, k), cut));
                for (auto *l : {&a, &b, &d, &e})
                    if (l->get_nseg() != n || (l->get_nseg_fwd() != f1 && l->get_nseg_fwd() != f2) || l->get_nseg_fwd() + l->get_nseg_bck() != n)
                        c.fail("segment_counts|n=" + std::to_string(n) + " cut=" + chk::d2s(cut), std::to_string(l->get_nseg()) + "=" + std::to_string(l->get_nseg_fwd()) + "+" + std::to_string(l->get_nseg_bck()));
            }
    });
    // the same of the continuous-thrust leg
    hf::histories(run, th ? 5 : 1, th ? 3 : 2);
    hf::counts(run, th);
#elif PROP == 14
    // every invalid call at every state of a set of reached legs; then the leg must still work as before, and accept valid values
    const int NS = th ? 6400 : 320;
    run.section("rejections", static_cast<std::uint64_t>(NS), [&](std::uint64_t i, Case &c) {
        Set s;
        std::uint64_t x = th ? i : i * 20 + (i % 20);
        s.k[THR] = static_cast<int>(x % 5);
        s.k[CUT] = static_cast<int>(x / 5 % 5);
        static const int order[8] = {RVS, MS, RVF, MF, TOF, TMAX, ISP, MU};
        for (int b = 0; b < 8; ++b) s.k[order[b]] = static_cast<int>(((x / 25) >> b) & 1);
        Leg l = fresh(s);
        if (i % 3 == 1) { // reached by setters instead
            Leg m;
            m.set_cut(cuts[s.k[CUT]]);
            m.set_throttles(thrs[s.k[THR]]);
            m.set_rvs(rvs[s.k[RVS]]);
            m.set_ms(mss[s.k[MS]]);
            m.set_rvf(rvf[s.k[RVF]]);
            m.set_mf(mfs[s.k[MF]]);
            m.set_tof(tofs[s.k[TOF]]);
            m.set_max_thrust(tms[s.k[TMAX]]);
            m.set_isp(isps[s.k[ISP]]);
            m.set_mu(mus[s.k[MU]]);
            l = m;
        }
        Obs before = observe(l);
        c.state(hash(s));
        std::string base = "state " + std::to_string(x);
        auto same = [&](const Leg &q, const std::string &what) {
            Obs a = observe(q);
            auto d = settings_diff(a, before);
            if (d.empty()) d = calc_diff(a, before);
            if (!d.empty()) c.fail("changed_by_rejected_call|" + what, d);
        };
        auto rejected = [&](Leg &q, const Bad &b) {
            c.trans();
            c.eval();
            c.trace();
            try {
                b.f(q);
            } catch (const std::exception &) {
                return true;
            }
            return false;
        };
        Leg acc(l); // the same leg through the whole sequence of rejected calls
        for (auto &b : bads()) {
            Leg q(l);
            if (!rejected(q, b)) {
                c.fail("invalid_value_accepted|" + base + " " + b.name, "no exception");
                continue;
            }
            same(q, base + " " + b.name);
            if (!rejected(acc, b)) c.fail("invalid_value_accepted|" + base + " (after other rejected calls) " + b.name, "no exception");
        }
        same(acc, base + " all invalid calls in sequence");
        // all pairs (invalid, valid) and (invalid, invalid, valid): the valid call must be accepted and have its normal effect
        size_t nb = bads().size(), step = th ? 1 : 7;
        for (size_t b = i % step; b < nb; b += step) {
            auto &op = ops()[(i + b) % ops().size()];
            Leg q(l);
            Set s2 = s;
            if (!rejected(q, bads()[b])) continue;
            rejected(q, bads()[(b * 5 + i) % nb]);
            auto what = base + " " + bads()[b].name + "." + bads()[(b * 5 + i) % nb].name + "." + op.name;
            c.trans();
            try {
                op.f(q, s2);
            } catch (const std::exception &e) {
                c.fail("valid_value_rejected|" + what, e.what());
                continue;
            }
            Obs o = observe(q), w = observe(fresh(s2));
            auto d = settings_diff(o, w);
            if (d.empty()) d = calc_diff(o, w);
            if (!d.empty()) c.fail("wrong_after_rejection|" + what, d);
        }
        // boundary values are accepted by every way of setting them
        for (int m = 0; m < 32; ++m)
            for (double cut : {0., -0., 1., 0.5}) {
                double tof = m & 1 ? 0. : 1.7, tm = m & 2 ? 0. : 0.3, isp = m & 4 ? 0. : 1.5, mu = m & 8 ? 0. : 1.1;
                std::vector<double> t(m & 16 ? 3 : 12, 0.25);
                auto what = "mask " + std::to_string(m) + " cut " + chk::d2s(cut);
                c.trans();
                c.eval();
                try {
                    Leg a(rvs[0], 2., t, rvf[0], 1., tof, tm, isp, mu, cut);
                    Leg b(l);
                    b.set(rvs[0], 2., t, rvf[0], 1., tof, tm, isp, mu, cut);
                    Leg d(l);
                    d.set_rvs(rvs[0]);
                    d.set_rvf(rvf[0]);
                    d.set_ms(2.);
                    d.set_mf(1.);
                    d.set_tof(tof);
                    d.set_max_thrust(tm);
                    d.set_isp(isp);
                    d.set_mu(mu);
                    d.set_cut(cut);
                    d.set_throttles(t.begin(), t.end());
                    for (auto *q : {&a, &b, &d})
                        if (q->get_tof() != tof || q->get_max_thrust() != tm || q->get_isp() != isp || q->get_mu() != mu || q->get_cut() != cut || q->get_throttles() != t
                            || q->get_nseg() != t.size() / 3 || q->get_nseg_fwd() != static_cast<unsigned>(std::floor(static_cast<double>(t.size() / 3) * cut))
                            || q->get_nseg_fwd() + q->get_nseg_bck() != q->get_nseg())
                            c.fail("boundary_value_not_reported|" + base + " " + what, "");
                } catch (const std::exception &e) {
                    c.fail("valid_value_rejected|" + base + " " + what, e.what());
                }
            }
    });
    // construction: full product of classes
    const std::vector<double> v{1.3, 0., -0., NZ, -2., -INF};
    const std::vector<double> vc{0., 0.4, 1., -0., NZ, std::nextafter(1., 2.), -3., 7.};
    const std::vector<size_t> vt{0, 1, 2, 3, 4, 6, 8, 9, 30, 31};
    run.section("construction", v.size() * v.size(), [&](std::uint64_t i, Case &c) {
        double tof = v[i % v.size()], tm = v[i / v.size()];
        for (double isp : v)
            for (double mu : v)
                for (double cut : vc)
                    for (size_t k : vt) {
                        c.trans();
                        c.eval();
                        c.trace();
                        c.state(chk::mixd(chk::mixd(chk::mixd(chk::mixd(chk::mixd(chk::mix(5, k), tof), tm), isp), mu), cut));
                        bool ok = tof >= 0 && tm >= 0 && isp >= 0 && mu >= 0 && cut >= 0 && cut <= 1 && k > 0 && k % 3 == 0, got = true;
                        try {
                            Leg l(rvs[0], 1., std::vector<double>(k, 0.1), rvf[0], 1., tof, tm, isp, mu, cut);
                        } catch (const std::exception &) {
                            got = false;
                        }
                        if (ok != got)
                            c.fail(std::string(ok ? "valid_leg_rejected|" : "invalid_leg_constructed|") + "tof=" + chk::d2s(tof) + " thrust=" + chk::d2s(tm) + " isp=" + chk::d2s(isp) + " mu=" + chk::d2s(mu) + " cut=" + chk::d2s(cut) + " size=" + std::to_string(k), "");
                    }
    });
    hf::rejections(run, th);
    hf::construction(run);
#else // P17
    // all throttle vectors over an alphabet of segment throttles, all cuts, reached in four ways
    const std::vector<std::array<double, 3>> letters{{0, 0, 0}, {1, 0, 0}, {0, -1, 0}, {0.3, -0.4, 0.5}, {-1.5, 2., 0.25}, {1e-8, 0., -1e-9}, {0.6, 0., 0.8}};
    const int nmax = th ? 6 : 5;
    std::vector<std::vector<int>> words;
    std::vector<std::vector<int>> cur{{}};
    for (int n = 1; n <= nmax; ++n) {
        std::vector<std::vector<int>> nx;
        for (auto &w : cur)
            for (int k = 0; k < static_cast<int>(letters.size()); ++k) {
                auto q = w;
                q.push_back(k);
                nx.push_back(q);
            }
        cur = nx;
        words.insert(words.end(), nx.begin(), nx.end());
    }
    for (int n : {7, 10, 20, 33}) // long legs: periodic words
        for (int a = 0; a < 7; ++a)
            for (int b = 1; b < 7; ++b) {
                std::vector<int> w;
                for (int k = 0; k < n; ++k) w.push_back((a + b * k + k * k) % 7);
                words.push_back(w);
            }
    run.section("throttles", words.size(), [&](std::uint64_t i, Case &c) {
        auto &w = words[i];
        std::vector<double> t;
        for (int k : w) t.insert(t.end(), letters[static_cast<size_t>(k)].begin(), letters[static_cast<size_t>(k)].end());
        size_t n = w.size();
        for (double cut : {0., 0.5, 1., 0.37}) {
            for (int way = 0; way < 4; ++way) {
                Leg l;
                if (way == 0) l = Leg(rvs[0], 1., t, rvf[0], 1., 1., 1., 1., 1., cut);
                if (way == 1) {
                    l.set_cut(cut);
                    l.set_throttles(t);
                }
                if (way == 2) {
                    l.set_throttles(std::vector<double>(15, 3.));
                    l.set_throttles(t.begin(), t.end());
                    l.set_cut(cut);
                }
                if (way == 3) l.set(rvs[0], 1., t, rvf[0], 1., 1., 1., 1., 1., cut);
                c.trans();
                c.trace();
                c.eval();
                c.state(chk::mixd(chk::mix(chk::mix(17, i), static_cast<unsigned>(way)), cut));
                auto key = "n=" + std::to_string(n) + " way=" + std::to_string(way) + " cut=" + chk::d2s(cut) + " " + (n < 8 ? chk::v2s(t) : std::to_string(i));
                auto tc = l.compute_throttle_constraints();
                auto g = l.compute_tc_grad();
                if (tc.size() != n || g.size() != 3 * n * n) {
                    c.fail("size|" + key, std::to_string(tc.size()) + " " + std::to_string(g.size()));
                    continue;
                }
                for (size_t k = 0; k < n; ++k) {
                    Q e = Q(t[3 * k]) * t[3 * k] + Q(t[3 * k + 1]) * t[3 * k + 1] + Q(t[3 * k + 2]) * t[3 * k + 2];
                    c.within("throttle_constraint", std::fabs(dd(Q(tc[k]) - (e - 1))), 8 * EPS * (1 + dd(e)), [&] { return key + " segment " + std::to_string(k); });
                    for (size_t j = 0; j < 3 * n; ++j) {
                        double want = j / 3 == k ? 2 * t[j] : 0.;
                        if (!(std::fabs(g[k * 3 * n + j] - want) <= 4 * EPS * std::fabs(want))) c.fail("tc_grad|" + key, "entry " + std::to_string(k) + "," + std::to_string(j) + " is " + chk::d2s(g[k * 3 * n + j]) + " expected " + chk::d2s(want));
                    }
                }
            }
        }
    });
    hf::physics(run, th, hf::THROTTLES, th ? 1 : 6);
#endif
    return run.go();
}
