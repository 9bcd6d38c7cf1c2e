#pragma once
// The continuous-thrust low-thrust leg: histories of setters, copies, archives and evaluations against freshly
// constructed legs, rejected calls at every reached state, and the physics against a quad precision integrator.
#include "orbits.hpp"
#include "taylorq.hpp"

#include <optional>
#include <sstream>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/vector.hpp>

#include <kep3/leg/sims_flanagan_hf.hpp>

#pragma GCC diagnostic ignored "-Wunused-function"
namespace hf
{
using namespace orb;
using chk::Case;
using Leg = kep3::leg::sims_flanagan_hf;
using A7 = std::array<double, 7>;

// ------------------------------------------------------------------------------------------------ model of the settings
enum { RVS, MS, THR, RVF, MF, TOF, TMAX, ISP, MU, CUT, TOL, NF };
struct Set { // indices into the alphabets
    std::array<int, NF> k{};
    bool operator<(const Set &o) const { return k < o.k; }
    bool operator==(const Set &o) const { return k == o.k; }
};
const std::vector<RV> rvs{{{{1., 0.1, -0.1}, {0.2, 1., -0.2}}}, {{{0.3, -1.2, 0.4}, {0.9, 0.3, 0.1}}}};
const std::vector<RV> rvf{{{{1.2, -0.1, 0.1}, {-0.2, 1.023, -0.44}}}, {{{-0.8, 0.7, 0.2}, {-0.5, -0.8, 0.3}}}};
const std::vector<double> mss{15., 1.7}, mfs{13., 1.1}, tofs{1.3, 2.9}, tms{0.12, 0.03}, isps{2.1, 0.7}, mus{1., 0.83}, tols{1e-16, 1e-9};
const std::vector<std::vector<double>> thrs{{0.3, -0.2, 0.5}, {0.1, 0.2, -0.3, -0.4, 0.5, 0.6}, {0.1, 0.11, 0.12, -0.13, 0.14, 0.15, 0.16, -0.17, 0.18, 0.19, 0.2, 0.21}, {-0.5, 0.4, 0.3, 0.2, 0.1, -0.6, 0.7, 0.8, 0.9}, {-0.6, 0.2, -0.1, 0.5, 0.3, 0.4}};
const std::vector<double> cuts{0.5, 0., 1., 0.34, 0.81};
const std::array<int, NF> sizes{2, 2, 5, 2, 2, 2, 2, 2, 2, 5, 2};

A7 state(const RV &s, double m)
{
    return {s[0][0], s[0][1], s[0][2], s[1][0], s[1][1], s[1][2], m};
}
A7 sms(const Set &s) { return state(rvs[s.k[RVS]], mss[s.k[MS]]); }
A7 smf(const Set &s) { return state(rvf[s.k[RVF]], mfs[s.k[MF]]); }
Leg fresh(const Set &s, int way = 0)
{
    if (way)
        return Leg(sms(s), thrs[s.k[THR]], smf(s), tofs[s.k[TOF]], tms[s.k[TMAX]], isps[s.k[ISP]], mus[s.k[MU]], cuts[s.k[CUT]], tols[s.k[TOL]]);
    return Leg(rvs[s.k[RVS]], mss[s.k[MS]], thrs[s.k[THR]], rvf[s.k[RVF]], mfs[s.k[MF]], tofs[s.k[TOF]], tms[s.k[TMAX]], isps[s.k[ISP]], mus[s.k[MU]], cuts[s.k[CUT]], tols[s.k[TOL]]);
}
struct Obs {
    RV rvs, rvf;
    A7 sms, smf;
    double ms, mf, tof, tmax, isp, mu, cut, tol;
    std::vector<double> thr;
    unsigned n, nf, nb;
    std::vector<double> calc;
    std::vector<size_t> cut_at;
};
void settings(const Leg &l, Obs &o)
{
    o.rvs = l.get_rvs();
    o.rvf = l.get_rvf();
    o.sms = l.get_rvms();
    o.smf = l.get_rvmf();
    o.ms = l.get_ms();
    o.mf = l.get_mf();
    o.tof = l.get_tof();
    o.tmax = l.get_max_thrust();
    o.isp = l.get_isp();
    o.mu = l.get_mu();
    o.cut = l.get_cut();
    o.tol = l.get_tol();
    o.thr = l.get_throttles();
    o.n = l.get_nseg();
    o.nf = l.get_nseg_fwd();
    o.nb = l.get_nseg_bck();
}
const char *const RES[] = {"mismatch", "throttle_constraints", "grad_state_start", "grad_state_end", "grad_throttles", "tc_grad", "constraints", "state_derivative", "history"};
// what: bit mask of the groups of results computed
enum { CHEAP = 1, GRAD = 2, HIST = 4, ALL = 7 };
Obs observe(const Leg &l, int what)
{
    Obs o;
    settings(l, o);
    auto put = [&](const auto &v) {
        o.cut_at.push_back(v.size());
        o.calc.insert(o.calc.end(), v.begin(), v.end());
    };
    const std::vector<double> none;
    put(l.compute_mismatch_constraints());
    put(l.compute_throttle_constraints());
    if (what & GRAD) {
        try {
            auto [a, b, g] = l.compute_mc_grad();
            put(a);
            put(b);
            put(g);
        } catch (const std::domain_error &) { // a segment without thrust: no derivatives there
            put(std::vector<double>{1.});
            put(none);
            put(none);
        }
    } else
        for (int k = 0; k < 3; ++k) put(none);
    put(l.compute_tc_grad());
    if (what & CHEAP) {
        put(l.compute_constraints());
        put(l.get_state_derivative({.7, -.4, .2, .1, -.9, .3, 4.}, {.3, -.5, .1}));
    } else
        for (int k = 0; k < 2; ++k) put(none);
    std::vector<double> h;
    if (what & HIST)
        for (auto &r : l.get_state_history(3)) h.insert(h.end(), r.begin(), r.end());
    put(h);
    return o;
}
std::string settings_diff(const Obs &a, const Obs &b)
{
    if (a.rvs != b.rvs) return "rvs";
    if (a.rvf != b.rvf) return "rvf";
    if (a.sms != b.sms) return "rvms";
    if (a.smf != b.smf) return "rvmf";
    if (a.ms != b.ms) return "ms";
    if (a.mf != b.mf) return "mf";
    if (a.tof != b.tof) return "tof";
    if (a.tmax != b.tmax) return "max_thrust";
    if (a.isp != b.isp) return "isp";
    if (a.mu != b.mu) return "mu";
    if (a.cut != b.cut) return "cut";
    if (a.tol != b.tol) return "tol";
    if (a.thr != b.thr) return "throttles";
    if (a.n != b.n) return "nseg";
    if (a.nf != b.nf) return "nseg_fwd";
    if (a.nb != b.nb) return "nseg_bck";
    return "";
}
// results of two legs with the same settings: equal up to rounding (the integration steps are the same)
std::string calc_diff(const Obs &a, const Obs &b)
{
    size_t pa = 0, pb = 0;
    for (size_t k = 0; k < a.cut_at.size(); ++k) {
        const size_t n = a.cut_at[k], m = b.cut_at[k];
        if (n && m) {
            if (n != m) return std::string("size_of_") + RES[k];
            double nrm = 0, d = 0;
            for (size_t i = 0; i < n; ++i) {
                const double x = a.calc[pa + i], y = b.calc[pb + i];
                if (std::isnan(x) && std::isnan(y)) continue;
                nrm = std::max(nrm, std::fabs(y));
                const double e = std::fabs(x - y);
                if (std::isnan(e)) return RES[k];
                d = std::max(d, e);
            }
            if (d > 1e-13 * nrm) return RES[k];
        }
        pa += n;
        pb += m;
    }
    return "";
}
Obs model_settings(const Set &s)
{
    Obs o;
    o.rvs = rvs[s.k[RVS]];
    o.rvf = rvf[s.k[RVF]];
    o.sms = sms(s);
    o.smf = smf(s);
    o.ms = mss[s.k[MS]];
    o.mf = mfs[s.k[MF]];
    o.tof = tofs[s.k[TOF]];
    o.tmax = tms[s.k[TMAX]];
    o.isp = isps[s.k[ISP]];
    o.mu = mus[s.k[MU]];
    o.cut = cuts[s.k[CUT]];
    o.tol = tols[s.k[TOL]];
    o.thr = thrs[s.k[THR]];
    o.n = static_cast<unsigned>(o.thr.size() / 3);
    o.nf = static_cast<unsigned>(std::floor(o.n * o.cut));
    o.nb = o.n - o.nf;
    return o;
}
std::uint64_t hash(const Set &s)
{
    std::uint64_t h = 29;
    for (int x : s.k) h = chk::mix(h, static_cast<unsigned>(x));
    return h;
}
// ------------------------------------------------------------------------------------------------ operations
struct Op {
    std::string name;
    std::function<void(Leg &, Set &)> f;
    bool setter; // of single fields
};
const std::vector<Op> &ops()
{
    static std::vector<Op> v = [] {
        std::vector<Op> r;
        auto add = [&](const std::string &n, std::vector<int> fields, int idx, std::function<void(Leg &)> f) {
            r.push_back({n + "#" + std::to_string(idx), [=](Leg &l, Set &s) {
                             f(l);
                             for (int z : fields) s.k[static_cast<size_t>(z)] = idx;
                         }, true});
        };
        for (int i = 0; i < 2; ++i) {
            add("set_rvs", {RVS}, i, [i](Leg &l) { l.set_rvs(rvs[i]); });
            add("set_ms", {MS}, i, [i](Leg &l) { l.set_ms(mss[i]); });
            add("set_rvms", {RVS, MS}, i, [i](Leg &l) { l.set_rvms(state(rvs[i], mss[i])); });
            add("set_rvf", {RVF}, i, [i](Leg &l) { l.set_rvf(rvf[i]); });
            add("set_mf", {MF}, i, [i](Leg &l) { l.set_mf(mfs[i]); });
            add("set_rvmf", {RVF, MF}, i, [i](Leg &l) { l.set_rvmf(state(rvf[i], mfs[i])); });
            add("set_tof", {TOF}, i, [i](Leg &l) { l.set_tof(tofs[i]); });
            add("set_max_thrust", {TMAX}, i, [i](Leg &l) { l.set_max_thrust(tms[i]); });
            add("set_isp", {ISP}, i, [i](Leg &l) { l.set_isp(isps[i]); });
            add("set_mu", {MU}, i, [i](Leg &l) { l.set_mu(mus[i]); });
            add("set_tol", {TOL}, i, [i](Leg &l) { l.set_tol(tols[i]); });
        }
        for (int i = 0; i < sizes[THR]; ++i) {
            add("set_throttles", {THR}, i, [i](Leg &l) { l.set_throttles(thrs[i]); });
            add("set_throttles_it", {THR}, i, [i](Leg &l) {
                std::vector<double> t{9., 9., 9.};
                t.insert(t.end(), thrs[i].begin(), thrs[i].end());
                t.push_back(7.);
                l.set_throttles(t.begin() + 3, t.end() - 1);
            });
        }
        for (int i = 0; i < sizes[CUT]; ++i) add("set_cut", {CUT}, i, [i](Leg &l) { l.set_cut(cuts[i]); });
        // collective setters: a few targets
        for (int t = 0; t < 6; ++t)
            r.push_back({"set#" + std::to_string(t), [t](Leg &l, Set &s) {
                             Set n;
                             for (size_t q = 0; q < NF; ++q) n.k[q] = static_cast<int>((t * (q + 3) + q * t * t + t / 2) % static_cast<size_t>(sizes[q]));
                             if (t % 2)
                                 l.set(rvs[n.k[RVS]], mss[n.k[MS]], thrs[n.k[THR]], rvf[n.k[RVF]], mfs[n.k[MF]], tofs[n.k[TOF]], tms[n.k[TMAX]], isps[n.k[ISP]], mus[n.k[MU]], cuts[n.k[CUT]], tols[n.k[TOL]]);
                             else
                                 l.set(sms(n), thrs[n.k[THR]], smf(n), tofs[n.k[TOF]], tms[n.k[TMAX]], isps[n.k[ISP]], mus[n.k[MU]], cuts[n.k[CUT]], tols[n.k[TOL]]);
                             s = n;
                         }, false});
        for (int t = 0; t < 3; ++t)
            r.push_back({"set_short#" + std::to_string(t), [t](Leg &l, Set &s) {
                             s.k[RVS] = t & 1;
                             s.k[MS] = (t + 1) & 1;
                             s.k[THR] = s.k[THR] == 1 ? 4 : s.k[THR] == 4 && t ? 1 : (t * 2 + 1) % 5;
                             s.k[RVF] = t & 1;
                             s.k[MF] = t & 1;
                             s.k[TOF] = (t + 1) & 1;
                             l.set(sms(s), thrs[s.k[THR]], smf(s), tofs[s.k[TOF]]);
                         }, false});
        for (int t = 0; t < 2; ++t)
            r.push_back({"set_and_compute#" + std::to_string(t), [t](Leg &l, Set &s) { // keeps the number of segments
                             const auto n = thrs[s.k[THR]].size();
                             if (s.k[THR] == 1 || s.k[THR] == 4) s.k[THR] = t ? 1 : 4;
                             s.k[RVS] = t;
                             s.k[MS] = t;
                             s.k[RVF] = 1 - t;
                             s.k[MF] = t;
                             s.k[TOF] = t;
                             std::vector<double> x;
                             auto put = [&](const auto &v) { x.insert(x.end(), v.begin(), v.end()); };
                             put(sms(s));
                             put(thrs[s.k[THR]]);
                             put(smf(s));
                             x.push_back(tofs[s.k[TOF]]);
                             (void)n;
                             auto got = l.set_and_compute_constraints(x);
                             if (got != fresh(s).compute_constraints() && got != l.compute_constraints()) throw std::runtime_error("set_and_compute_constraints returned something else than the constraints");
                         }, false});
        // no-ops of the model: evaluation, printing, copies, archives
        r.push_back({"mismatch", [](Leg &l, Set &) { (void)l.compute_mismatch_constraints(); }, false});
        r.push_back({"gradients", [](Leg &l, Set &) { (void)l.compute_mc_grad(); }, false});
        r.push_back({"history", [](Leg &l, Set &) { (void)l.get_state_history(4); }, false});
        r.push_back({"print", [](Leg &l, Set &) {
                         std::ostringstream o;
                         o << l;
                         (void)l.compute_constraints();
                         (void)l.compute_tc_grad();
                     }, false});
        r.push_back({"copy-then-change-the-copy", [](Leg &l, Set &) {
                         Leg c(l);
                         c.set_throttles(thrs[3]);
                         c.set_cut(0.9);
                         c.set_mu(7.);
                         c.set_isp(0.01);
                         c.set_tof(0.01);
                         (void)c.compute_mc_grad();
                     }, false});
        r.push_back({"replace-by-copy", [](Leg &l, Set &) {
                         Leg c(l), d;
                         d = c;
                         l = std::move(d);
                     }, false});
        r.push_back({"save-and-load", [](Leg &l, Set &) {
                         std::stringstream ss;
                         {
                             boost::archive::binary_oarchive ar(ss);
                             ar << l;
                         }
                         Leg z;
                         z.set_mu(3.);
                         {
                             boost::archive::binary_iarchive ar(ss);
                             ar >> z;
                         }
                         l = z;
                     }, false});
        r.push_back({"zero-thrust-excursion", [](Leg &l, Set &s) { // the gradients may be refused there; nothing of that may stay
                         l.set_throttles(std::vector<double>(6, 0.));
                         (void)l.compute_mismatch_constraints();
                         try {
                             (void)l.compute_mc_grad();
                         } catch (const std::domain_error &) {
                         }
                         l.set_throttles(thrs[s.k[THR]]);
                     }, false});
        return r;
    }();
    return v;
}
// ------------------------------------------------------------------------------------------------ invalid calls
struct Bad {
    std::string name;
    std::function<void(Leg &)> f;
};
const double NZ = -1e-300, INF = HUGE_VAL;
const std::vector<Bad> &bads()
{
    static std::vector<Bad> v = [] {
        std::vector<Bad> r;
        const std::vector<double> neg{-1., NZ, -INF, -1e9};
        const std::vector<double> bc{-0.1, NZ, std::nextafter(1., 2.), 1.5, 32., INF, -INF};
        const std::vector<double> bt{0., -0., -1e-16, -1., std::nextafter(1., 2.), 10., INF, -INF};
        const std::vector<size_t> sz{0, 1, 2, 4, 5, 7, 301};
        for (double x : neg) {
            auto n = chk::d2s(x);
            r.push_back({"set_tof(" + n + ")", [x](Leg &l) { l.set_tof(x); }});
            r.push_back({"set_max_thrust(" + n + ")", [x](Leg &l) { l.set_max_thrust(x); }});
            r.push_back({"set_isp(" + n + ")", [x](Leg &l) { l.set_isp(x); }});
            r.push_back({"set_mu(" + n + ")", [x](Leg &l) { l.set_mu(x); }});
        }
        for (double x : bc) r.push_back({"set_cut(" + chk::d2s(x) + ")", [x](Leg &l) { l.set_cut(x); }});
        for (double x : bt) r.push_back({"set_tol(" + chk::d2s(x) + ")", [x](Leg &l) { l.set_tol(x); }});
        for (size_t k : sz) {
            r.push_back({"set_throttles(size " + std::to_string(k) + ")", [k](Leg &l) { l.set_throttles(std::vector<double>(k, 0.77)); }});
            r.push_back({"set_throttles_it(size " + std::to_string(k) + ")", [k](Leg &l) {
                             const std::vector<double> t(k + 6, 0.77);
                             l.set_throttles(t.begin() + 3, t.begin() + 3 + static_cast<long>(k));
                         }});
        }
        r.push_back({"set_throttles_it(reversed)", [](Leg &l) {
                         const std::vector<double> t(6, 0.77);
                         l.set_throttles(t.begin() + 3, t.begin());
                     }});
        auto coll = [&](const std::string &n, double tof, double tm, double isp, double mu, double cut, double tol, size_t nt) {
            r.push_back({"set(" + n + ")", [=](Leg &l) { l.set(rvf[1], 3.3, std::vector<double>(nt, 0.33), rvs[1], 4.4, tof, tm, isp, mu, cut, tol); }});
            r.push_back({"set_rvms(" + n + ")", [=](Leg &l) { l.set(state(rvf[1], 3.3), std::vector<double>(nt, 0.33), state(rvs[1], 4.4), tof, tm, isp, mu, cut, tol); }});
        };
        for (int m = 1; m < 128; ++m)
            coll("invalid mask " + std::to_string(m), m & 1 ? -1. : 2., m & 2 ? -1. : 2., m & 4 ? -1. : 2., m & 8 ? -1. : 2., m & 16 ? 1.1 : 0.2, m & 32 ? 0. : 1e-12, m & 64 ? 4 : 9);
        for (double x : neg) {
            auto n = chk::d2s(x);
            coll("tof " + n, x, 2, 2, 2, 0.2, 1e-12, 9);
            coll("thrust " + n, 2, x, 2, 2, 0.2, 1e-12, 9);
            coll("isp " + n, 2, 2, x, 2, 0.2, 1e-12, 9);
            coll("mu " + n, 2, 2, 2, x, 0.2, 1e-12, 9);
            r.push_back({"set_short(tof " + n + ")", [=](Leg &l) { l.set(state(rvf[1], 3.3), std::vector<double>(9, 0.33), state(rvs[1], 4.4), x); }});
            r.push_back({"set_and_compute(tof " + n + ")", [=](Leg &l) {
                             std::vector<double> c(15 + l.get_throttles().size(), .4);
                             c.back() = x;
                             (void)l.set_and_compute_constraints(c);
                         }});
        }
        for (double x : bc) coll("cut " + chk::d2s(x), 2, 2, 2, 2, x, 1e-12, 9);
        for (double x : bt) coll("tol " + chk::d2s(x), 2, 2, 2, 2, 0.2, x, 9);
        for (size_t k : sz) {
            coll("throttles " + std::to_string(k), 2, 2, 2, 2, 0.2, 1e-12, k);
            r.push_back({"set_short(throttles " + std::to_string(k) + ")", [=](Leg &l) { l.set(state(rvf[1], 3.3), std::vector<double>(k, 0.33), state(rvs[1], 4.4), 2.); }});
        }
        return r;
    }();
    return v;
}

// ------------------------------------------------------------------------------------------------ physics
struct Cfg {
    A7 s, f;
    std::vector<double> thr;
    double tof, tmax, isp, mu, cut;
    std::string text;
};
const std::vector<Units> &un()
{
    static const std::vector<Units> u{units()[0], units()[1], units()[2], units()[5]};
    return u;
}
struct Shape {
    int n;
    double cut;
};
const std::vector<Shape> &shapes(bool T)
{
    static const std::vector<Shape> q{{1, 0.}, {1, 1.}, {2, .5}, {2, 0.}, {2, 1.}, {3, .5}, {3, .7}, {4, .5}, {5, .25}, {5, .6}, {6, .5}, {7, .3}, {8, .5}, {9, .7}};
    static const std::vector<Shape> t{{1, 0.}, {1, .5}, {1, 1.}, {2, .5}, {2, 0.}, {2, 1.}, {3, .5}, {3, .7}, {3, 0.}, {3, 1.}, {4, .5}, {4, .26}, {5, .25}, {5, .6}, {5, .8}, {6, .5}, {7, .43}, {7, .3}, {8, .5}, {9, .7}, {10, .5}, {10, .3}, {20, .5}, {21, .2}};
    return T ? t : q;
}
// kinds of throttle histories: 0 all different directions, 1 along one axis each, 2 all in one direction, 3 some segments coast, 4 all coast, 5 beyond the limit
constexpr int NKIND = 6;
const std::vector<double> &tf(bool T)
{
    static const std::vector<double> q{1e-3, .7, 2.5, 6.}, t{0., 1e-6, 1e-3, .1, .7, 1.5, 2.5, 4., 6., 12.};
    return T ? t : q;
}
const std::vector<std::array<double, 2>> &accs(bool T) // thrust acceleration over gravity, fraction of the mass lost
{
    static const std::vector<std::array<double, 2>> q{{1e-3, .02}, {.1, .3}}, t{{1e-6, 1e-3}, {1e-3, .02}, {1e-2, .1}, {.1, .3}, {.4, .6}};
    return T ? t : q;
}
const std::vector<std::array<double, 2>> &ends(bool T) // eccentricity and anomaly pairs packed
{
    static const std::vector<std::array<double, 2>> q{{0., 0.}, {.4, 1.1}, {1.4, -.6}}, t{{0., 0.}, {.1, 2.}, {.4, 1.1}, {.7, -2.}, {1.4, -.6}, {2.5, .4}};
    return T ? t : q;
}
std::uint64_t ncfg(bool T)
{
    return un().size() * shapes(T).size() * NKIND * tf(T).size() * accs(T).size() * ends(T).size();
}
Cfg config(std::uint64_t k, bool T)
{
    Cfg g;
    const auto take = [&](std::uint64_t n) {
        const auto r = k % n;
        k /= n;
        return r;
    };
    const auto k0 = k;
    const auto &U = un()[take(un().size())];
    const auto sh = shapes(T)[take(shapes(T).size())];
    const int kind = static_cast<int>(take(NKIND));
    const double tm = tf(T)[take(tf(T).size())];
    const auto ac = accs(T)[take(accs(T).size())];
    const auto &e1 = ends(T)[take(ends(T).size())];
    const auto &e2 = ends(T)[(k0 / 7) % ends(T).size()];
    const auto &o1 = orients()[k0 % orients().size()], &o2 = orients()[(k0 * 5 + 2) % orients().size()];
    const double tu = std::sqrt(U.L / U.mu) * U.L, grav = U.mu / U.L / U.L;
    const double m = k0 % 2 ? 900. : 2.;
    g.s = state(make(e1[0] < 1 ? U.L : -U.L, e1[0], o1.i, o1.W, o1.w, e1[1], U.mu), m);
    g.f = state(make(e2[0] < 1 ? 1.2 * U.L : -1.2 * U.L, e2[0], o2.i, o2.W, o2.w, -e2[1], U.mu), m * .7);
    for (int i = 0; i < sh.n; ++i) {
        const double a = 1.1 * i + .3;
        std::array<double, 3> d{.8 * std::cos(a), .7 * std::sin(a), .5 * std::cos(2.3 * a)};
        if (kind == 1) d = {i % 3 == 0 ? .9 : 0., i % 3 == 1 ? -.9 : 0., i % 3 == 2 ? .9 : 0.};
        if (kind == 2) d = {.2, -.6, .5};
        if (kind == 3 && i % 2 == 0) d = {0, 0, 0};
        if (kind == 4) d = {0, 0, 0};
        if (kind == 5) d = {1.3 + .1 * i, -.4, .2 * i};
        g.thr.insert(g.thr.end(), d.begin(), d.end());
    }
    g.tmax = ac[0] * grav * m;
    g.isp = g.tmax * std::max(tm, 1.) * tu / (ac[1] * m) / kep3::G0 * (kind == 5 ? 3. : 1.);
    g.tof = tm * tu;
    g.mu = U.mu;
    g.cut = sh.cut;
    g.text = std::string(U.name) + " n=" + std::to_string(sh.n) + " cut=" + chk::d2s(sh.cut) + " kind=" + std::to_string(kind) + " t=" + chk::d2s(tm) + " acc=" + chk::d2s(ac[0]) + " e=" + chk::d2s(e1[0]) + "," + chk::d2s(e2[0]);
    return g;
}
using M77 = std::array<std::array<Q, 7>, 7>;
struct SegRef {
    std::array<Q, 7> x0, x1; // in the direction of flight
    M77 a;
    std::array<std::array<Q, 3>, 7> b;
    bool coast;
    int steps;
    double closest;
};
// scales of the blocks of a state
std::array<double, 7> scale(const std::array<Q, 7> &x, double mu)
{
    double r = 0, v = 0;
    for (int i = 0; i < 3; ++i) {
        r += std::pow(dd(x[i]), 2);
        v += std::pow(dd(x[i + 3]), 2);
    }
    r = std::sqrt(r);
    v = std::max(std::sqrt(v), std::sqrt(mu / r));
    return {r, r, r, v, v, v, std::fabs(dd(x[6]))};
}
struct Side {
    std::vector<SegRef> seg;
    std::array<Q, 7> end;
    M77 all;          // end with respect to start
    double grow = 1;  // growth of errors relative to the scales
    int steps = 1;
    double close = 1; // largest ratio of distances along the way
};
M77 mul(const M77 &a, const M77 &b)
{
    M77 r;
    for (int i = 0; i < 7; ++i)
        for (int j = 0; j < 7; ++j) {
            Q s = 0;
            for (int k = 0; k < 7; ++k) s += a[i][k] * b[k][j];
            r[i][j] = s;
        }
    return r;
}
M77 eye()
{
    M77 r{};
    for (int i = 0; i < 7; ++i) r[i][i] = 1;
    return r;
}
Side fly(const Cfg &g, const A7 &start, const std::vector<int> &segs, int sign)
{
    using DD = ref::Dual<10>;
    Side z;
    std::array<Q, 7> x;
    for (int i = 0; i < 7; ++i) x[i] = start[i];
    z.all = eye();
    const auto n = static_cast<int>(g.thr.size() / 3);
    for (int k : segs) {
        SegRef s;
        s.x0 = x;
        std::array<DD, 7> y;
        std::array<DD, 3> u;
        s.coast = g.thr[3 * k] == 0 && g.thr[3 * k + 1] == 0 && g.thr[3 * k + 2] == 0;
        for (int i = 0; i < 7; ++i) y[i] = DD::var(x[i], i);
        for (int i = 0; i < 3; ++i) {
            const Q t = Q(g.thr[3 * k + i]) * Q(g.tmax);
            u[i] = s.coast ? DD(t) : DD::var(t, 7 + i);
        }
        ref::Stats st;
        ref::stark_flow(y, u, Q(sign) * Q(g.tof) / Q(n), DD(g.mu), DD(Q(g.isp) * Q(kep3::G0)), &st);
        s.steps = st.steps;
        s.closest = st.steps ? dd(st.min_dist) : HUGE_VAL;
        for (int i = 0; i < 7; ++i) {
            s.x1[i] = y[i].v;
            for (int j = 0; j < 7; ++j) s.a[i][j] = y[i].d[j];
            for (int j = 0; j < 3; ++j) s.b[i][j] = y[i].d[7 + j] * Q(g.tmax);
        }
        const auto si = scale(s.x0, g.mu), so = scale(s.x1, g.mu);
        double fro = 0;
        for (int i = 0; i < 7; ++i)
            for (int j = 0; j < 7; ++j) fro += std::pow(dd(s.a[i][j]) * si[j] / so[i], 2);
        z.grow *= std::max(1., std::sqrt(fro));
        z.steps += s.steps + 1;
        z.close = std::max(z.close, si[0] / s.closest);
        z.all = mul(s.a, z.all);
        x = s.x1;
        z.seg.push_back(s);
    }
    z.end = x;
    return z;
}

// ------------------------------------------------------------------------------------------------ the explorations
enum { MISMATCH = 1, GRADIENTS = 2, THROTTLES = 4, HISTORY = 8, EVERYTHING = 15 };
// what a leg with given settings computes
inline std::map<Set, Obs> g_memo;
inline std::mutex g_mx;
inline const Obs &want(const Set &s)
{
    {
        std::lock_guard<std::mutex> g(g_mx);
        auto it = g_memo.find(s);
        if (it != g_memo.end()) return it->second;
    }
    Obs o = observe(fresh(s), ALL);
    std::lock_guard<std::mutex> g(g_mx);
    return g_memo.emplace(s, o).first->second;
}
inline bool judge(Case &c, const Leg &l, const Set &s, const std::string &hist, int what)
{
    c.eval();
    const Obs o = observe(l, what);
    auto d = settings_diff(o, model_settings(s));
    if (!d.empty()) c.fail("reported_" + d + "|" + hist, "differs from the last value set");
    auto cd = calc_diff(o, want(s));
    if (!cd.empty()) c.fail("computed_" + cd + "|" + hist, "differs from a freshly constructed leg");
    return d.empty() && cd.empty();
}
inline void physics(chk::Run &run, bool T, int judged, unsigned every)
{
    // ---------------------------------------------------------------------------------------- physics
    run.section(
        "hf_physics", ncfg(T),
        [=](std::uint64_t k, Case &c) {
            if ((k * 2654435761u >> 7) % every != 0) return; // a fixed part of the product
            const auto g = config(k, T);
            const int n = static_cast<int>(g.thr.size() / 3), nf = static_cast<int>(std::floor(n * g.cut));
            std::vector<int> sf, sb;
            for (int i = 0; i < nf; ++i) sf.push_back(i);
            for (int i = n; i-- > nf;) sb.push_back(i);
            const Side F = fly(g, g.s, sf, 1), B = fly(g, g.f, sb, -1);
            const auto scf = scale(F.end, g.mu), scb = scale(B.end, g.mu);
            const double growf = EPS * F.grow * F.steps * F.close, growb = EPS * B.grow * B.steps * B.close;
            Leg l(g.s, g.thr, g.f, g.tof, g.tmax, g.isp, g.mu, g.cut, 1e-16);
            const auto what = [&] { return g.text; };
            c.state(chk::mix(k, 9));
            c.trans();
            c.trace();
            c.eval();
            const auto mis = l.compute_mismatch_constraints();
            for (int i = 0; i < 7 && (judged & MISMATCH); ++i)
                c.within("mismatch", std::fabs(dd(Q(mis[i]) - (F.end[i] - B.end[i]))), 20 * (growf * scf[i] + growb * scb[i]), [&] { return g.text + " entry " + std::to_string(i); });
            if (judged & THROTTLES) {
            const auto con = l.compute_constraints();
            const auto thc = l.compute_throttle_constraints();
            if (con.size() != 7u + n || !std::equal(mis.begin(), mis.end(), con.begin()) || thc.size() != static_cast<size_t>(n) || !std::equal(thc.begin(), thc.end(), con.begin() + 7)) c.fail("constraints-layout|" + g.text, "");
            for (int i = 0; i < n; ++i) {
                const Q e = Q(g.thr[3 * i]) * g.thr[3 * i] + Q(g.thr[3 * i + 1]) * g.thr[3 * i + 1] + Q(g.thr[3 * i + 2]) * g.thr[3 * i + 2];
                c.within("throttle_constraint", std::fabs(dd(Q(thc[static_cast<size_t>(i)]) - (e - 1))), 8 * EPS * (1 + dd(e)), what);
            }
            const auto tg = l.compute_tc_grad();
            if (tg.size() != static_cast<size_t>(3 * n * n)) c.fail("tc_grad-size|" + g.text, "");
            else
                for (int i = 0; i < n; ++i)
                    for (int j = 0; j < 3 * n; ++j)
                        if (!(std::fabs(tg[static_cast<size_t>(i * 3 * n + j)] - (j / 3 == i ? 2 * g.thr[static_cast<size_t>(j)] : 0.)) <= 1e-15)) c.fail("tc_grad|" + g.text, std::to_string(i) + "," + std::to_string(j));
            }
            if (judged & HISTORY) {
            // the equations of motion
            for (int i = 0; i < n; ++i) {
                const std::array<double, 3> th{g.thr[3 * i], g.thr[3 * i + 1], g.thr[3 * i + 2]};
                const auto d = l.get_state_derivative(i % 2 ? g.s : g.f, th);
                std::array<Q, 7> x;
                std::array<Q, 3> u;
                for (int j = 0; j < 7; ++j) x[j] = (i % 2 ? g.s : g.f)[j];
                for (int j = 0; j < 3; ++j) u[j] = Q(th[j]) * Q(g.tmax);
                const auto e = ref::stark_rhs<Q>(x, u, Q(g.mu), Q(g.isp) * Q(kep3::G0));
                const auto sc = scale(x, g.mu);
                for (int j = 0; j < 7; ++j)
                    c.within("state_derivative", std::fabs(dd(Q(d[j]) - e[j])), 64 * EPS * (j < 3 ? sc[3] : j < 6 ? g.mu / sc[0] / sc[0] + std::fabs(dd(u[j - 3] / x[6])) : std::fabs(dd(e[6]))) + 1e-300, what);
            }
            // the state along the leg
            if (g.tof > 0)
                for (unsigned np : {2u, 5u}) {
                    const auto h = l.get_state_history(np);
                    if (h.size() != static_cast<size_t>(n)) {
                        c.fail("history-size|" + g.text, std::to_string(h.size()));
                        continue;
                    }
                    for (int s = 0; s < n; ++s) {
                        const bool fw = s < nf;
                        const auto &R = fw ? F.seg[static_cast<size_t>(s)] : B.seg[static_cast<size_t>(n - 1 - s)];
                        if (h[static_cast<size_t>(s)].size() != 7 * np) {
                            c.fail("history-size|" + g.text, std::to_string(h[static_cast<size_t>(s)].size()));
                            continue;
                        }
                        std::array<Q, 7> x = R.x0;
                        std::array<Q, 3> u;
                        for (int i = 0; i < 3; ++i) u[i] = Q(g.thr[3 * s + i]) * Q(g.tmax);
                        for (unsigned p = 0; p < np; ++p) {
                            if (p) ref::stark_flow<Q>(x, u, Q(fw ? 1 : -1) * Q(g.tof) / Q(n) / Q(np - 1), Q(g.mu), Q(g.isp) * Q(kep3::G0));
                            const auto sc = scale(x, g.mu);
                            for (int i = 0; i < 7; ++i)
                                c.within("history", std::fabs(dd(Q(h[static_cast<size_t>(s)][7 * p + i]) - x[i])), 40 * (fw ? growf : growb) * sc[i] * (fw ? F : B).close, [&] { return g.text + " segment " + std::to_string(s) + " point " + std::to_string(p) + "/" + std::to_string(np); });
                        }
                    }
                }
            }
            if (!(judged & GRADIENTS)) return;
            // gradients
            bool coast = false;
            for (auto *S : {&F, &B})
                for (auto &s : S->seg) coast = coast || s.coast;
            if (coast) return; // not differentiable there
            const auto [g1, g2, gt] = l.compute_mc_grad();
            c.trans();
            c.eval();
            if (gt.size() != static_cast<size_t>(7 * (3 * n + 1))) {
                c.fail("gradient-size|" + g.text, std::to_string(gt.size()));
                return;
            }
            std::array<Q, 7> qs, qf;
            for (int i = 0; i < 7; ++i) {
                qs[i] = g.s[i];
                qf[i] = g.f[i];
            }
            const auto s0 = scale(qs, g.mu), f0 = scale(qf, g.mu);
            for (int i = 0; i < 7; ++i)
                for (int j = 0; j < 7; ++j) {
                    const auto w = [&] { return g.text + " entry " + std::to_string(i) + "," + std::to_string(j); };
                    c.within("gradient_start", std::fabs(dd(Q(g1[7 * i + j]) - F.all[i][j])) * s0[j], 10 * growf * F.grow * scf[i], w);
                    c.within("gradient_end", std::fabs(dd(Q(g2[7 * i + j]) + B.all[i][j])) * f0[j], 10 * growb * B.grow * scb[i], w);
                }
            std::array<Q, 7> dt{};
            for (int side = 0; side < 2; ++side) {
                const Side &S = side ? B : F;
                M77 after = eye();
                for (size_t q = S.seg.size(); q-- > 0;) {
                    const auto &s = S.seg[q];
                    const int idx = side ? n - 1 - static_cast<int>(q) : static_cast<int>(q);
                    for (int i = 0; i < 7; ++i)
                        for (int j = 0; j < 3; ++j) {
                            Q e = 0;
                            for (int m = 0; m < 7; ++m) e += after[i][m] * s.b[m][j];
                            if (side) e = -e;
                            c.within("gradient_throttles", std::fabs(dd(Q(gt[static_cast<size_t>(i * (3 * n + 1) + 3 * idx + j)]) - e)), 1 * (side ? growb : growf) * S.grow * (side ? scb : scf)[i],
                                     [&] { return g.text + " entry " + std::to_string(i) + " segment " + std::to_string(idx) + " component " + std::to_string(j); });
                        }
                    // time: the end of the segment moves with the velocity there
                    std::array<Q, 3> u;
                    for (int j = 0; j < 3; ++j) u[j] = Q(g.thr[static_cast<size_t>(3 * idx + j)]) * Q(g.tmax);
                    const auto f = ref::stark_rhs<Q>(s.x1, u, Q(g.mu), Q(g.isp) * Q(kep3::G0));
                    for (int i = 0; i < 7; ++i)
                        for (int m = 0; m < 7; ++m) dt[i] += after[i][m] * f[m] / Q(n);
                    after = mul(after, s.a);
                }
            }
            const double tu = std::min(s0[0] / s0[3], f0[0] / f0[3]) / F.close / B.close;
            for (int i = 0; i < 7; ++i)
                c.within("gradient_tof", std::fabs(dd(Q(gt[static_cast<size_t>(i * (3 * n + 1) + 3 * n)]) - dt[i])) * tu, 10 * (growf * F.grow * scf[i] + growb * B.grow * scb[i]), [&] { return g.text + " entry " + std::to_string(i); });
        },
        120);

}
inline void motion(chk::Run &run)
{
    // ---------------------------------------------------------------------------------------- equations of motion
    {
        static const std::vector<double> P{-1.3, 0., .4, 2.}, MU{1., 1.327e20, 3.98e5}, TM{1e-12, 1e-6, .1, 22., 1e4}, IS{1e-4, 2., 3000.}, MM{1e-7, 1., 1500.};
        static const std::vector<std::array<double, 3>> TH{{0, 0, 0}, {1, 0, 0}, {0, -.3, 0}, {0, 0, .8}, {.3, -.5, .2}, {1e-5, 1e-6, 0.}, {1e-9, 0, -1e-9}};
        run.section("hf_state_derivative", P.size() * P.size() * P.size(), [](std::uint64_t k, Case &c) {
            const std::array<double, 3> r0{P[k % 4], P[k / 4 % 4], P[k / 16]};
            if (r0[0] == 0 && r0[1] == 0 && r0[2] == 0) return;
            Leg l;
            for (double mu : MU)
                for (double tm : TM)
                    for (double isp : IS) {
                        l.set_mu(mu);
                        l.set_max_thrust(tm);
                        l.set_isp(isp);
                        for (double m : MM)
                            for (auto &th : TH)
                                for (double unit : {1., 1.5e11}) {
                                    const A7 x{r0[0] * unit, r0[1] * unit, r0[2] * unit, .3, -.7 * std::sqrt(unit), 1.1, m};
                                    const auto d = l.get_state_derivative(x, th);
                                    std::array<Q, 7> xq;
                                    std::array<Q, 3> u;
                                    for (int j = 0; j < 7; ++j) xq[j] = x[j];
                                    for (int j = 0; j < 3; ++j) u[j] = Q(th[j]) * Q(tm);
                                    const auto e = ref::stark_rhs<Q>(xq, u, Q(mu), Q(isp) * Q(kep3::G0));
                                    const double r2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2];
                                    c.trans();
                                    c.eval();
                                    c.trace();
                                    c.state(chk::mixd(chk::mixd(chk::mixd(chk::mixd(chk::mixd(k, mu), tm), isp), m), th[0] + unit));
                                    for (int j = 0; j < 7; ++j)
                                        c.within("state_derivative", std::fabs(dd(Q(d[j]) - e[j])), 64 * EPS * (j < 3 ? std::fabs(x[j + 3]) : j < 6 ? mu / r2 + std::fabs(dd(u[j - 3] / xq[6])) : std::fabs(dd(e[6]))) + 1e-300,
                                                 [&] { return "state " + chk::v2s(x) + " throttle " + chk::v2s(th) + " mu " + chk::d2s(mu) + " thrust " + chk::d2s(tm) + " isp " + chk::d2s(isp); });
                                }
                    }
        });
    }

}
// part: fifths of the graph of settings; depth of the words
inline void histories(chk::Run &run, int part, int depth)
{
    // ---- the graph of settings: states reached by setters in an order depending on the state, then every operation
    const std::uint64_t NB = 512;
    run.section(
        "hf_settings_graph", NB,
        [=](std::uint64_t i, Case &c) {
            Set root;
            static const int order[9] = {RVS, MS, RVF, MF, TOF, TMAX, ISP, MU, TOL};
            for (int b = 0; b < 9; ++b) root.k[order[b]] = (i >> b) & 1;
            for (int t = 0; t < sizes[THR]; ++t)
                for (int q = 0; q < sizes[CUT]; ++q) {
                    if ((t * 3 + q + static_cast<int>(i)) % 5 >= part) continue;
                    Set s = root;
                    s.k[THR] = t;
                    s.k[CUT] = q;
                    Leg l;
                    Set cur;
                    std::vector<size_t> idx;
                    for (size_t o = 0; o < ops().size(); ++o)
                        if (ops()[o].setter) idx.push_back(o);
                    std::rotate(idx.begin(), idx.begin() + static_cast<long>((i * 7 + t * 3 + q) % idx.size()), idx.end());
                    if (i % 2) std::reverse(idx.begin(), idx.end());
                    std::string hist = "default";
                    for (size_t o : idx) {
                        auto &op = ops()[o];
                        Set a, b; // the fields this setter writes agree with the target?
                        for (auto &x : a.k) x = 9;
                        b = a;
                        Leg probe;
                        op.f(probe, b);
                        bool fits = true;
                        for (int z = 0; z < NF; ++z)
                            if (b.k[z] != a.k[z] && b.k[z] != s.k[z]) fits = false;
                        if (!fits) continue;
                        op.f(l, cur);
                        hist += "." + op.name;
                    }
                    if (!(cur == s)) continue;
                    c.state(hash(s));
                    c.trace();
                    judge(c, l, s, hist, ALL);
                    c.eval();
                    auto d = calc_diff(observe(fresh(s, 1), ALL), want(s));
                    if (!d.empty()) c.fail("constructors_disagree_" + d + "|" + hist, "");
                    for (size_t o = 0; o < ops().size(); ++o) {
                        Leg l2(l);
                        Set s2 = s;
                        try {
                            ops()[o].f(l2, s2);
                        } catch (const std::exception &e) {
                            c.fail("valid_call_rejected|" + hist + "." + ops()[o].name, e.what());
                            continue;
                        }
                        c.trans();
                        c.trace();
                        judge(c, l2, s2, hist + "." + ops()[o].name, ALL);
                    }
                }
        },
        600);
    // ---- all words of operations up to a depth
    
    run.section(
        "hf_words", ops().size() * 4,
        [=](std::uint64_t i, Case &c) {
            Leg l;
            Set s;
            std::string h;
            if (i % 4 < 2) {
                for (size_t q = 0; q < NF; ++q) s.k[q] = (i % 4) ? sizes[q] - 1 : 0;
                if (i % 4 == 0) s.k[THR] = 2;
                l = fresh(s, i % 4 == 0);
                h = i % 4 ? "constructed-last" : "constructed-first";
            } else {
                for (auto &op : ops())
                    if (op.name == (i % 4 == 2 ? "set#4" : "set#3")) op.f(l, s);
                h = i % 4 == 2 ? "default.set#4" : "default.set#3";
            }
            std::function<void(const Leg &, const Set &, int, const std::string &, size_t)> walk = [&](const Leg &l0, const Set &s0, int d, const std::string &hist, size_t only) {
                for (size_t o = 0; o < ops().size(); ++o) {
                    if (only != SIZE_MAX && o != only) continue;
                    Leg l2(l0);
                    Set s2 = s0;
                    auto h2 = hist + "." + ops()[o].name;
                    try {
                        ops()[o].f(l2, s2);
                    } catch (const std::exception &e) {
                        c.fail("valid_call_rejected|" + h2, e.what());
                        continue;
                    }
                    c.trans();
                    c.trace();
                    c.state(chk::mix(hash(s2), chk::mix(static_cast<unsigned>(d), o)));
                    if (depth == 4 ? d >= 3 && (d < 4 || (o + hist.size()) % 8 == 0) : d == depth) judge(c, l2, s2, h2, (o % 3 == 0 ? CHEAP : 0) | GRAD | (o % 4 == 1 ? HIST : 0));
                    if (d < depth) walk(l2, s2, d + 1, h2, SIZE_MAX);
                }
            };
            walk(l, s, 1, h, i / 4);
        },
        800);
}
inline void counts(chk::Run &run, bool T)
{
    // ---- the number of forward segments for every count and every cut next to a multiple of 1/n, set in every way and order
    run.section("hf_segment_counts", T ? 120 : 40, [&](std::uint64_t i, Case &c) {
        const auto n = static_cast<unsigned>(i + 1);
        const std::vector<double> t(3 * n, .1);
        for (unsigned k = 0; k <= n; ++k)
            for (int w = -3; w <= 3; ++w) {
                double cut = static_cast<double>(k) / n;
                if (std::abs(w) <= 2)
                    for (int j = 0; j < std::abs(w); ++j) cut = std::nextafter(cut, w < 0 ? -1. : 2.);
                else
                    cut += w < 0 ? -1e-12 : 1e-12;
                if (cut < 0 || cut > 1) continue;
                const auto f1 = static_cast<unsigned>(std::floor(static_cast<double>(n) * cut)), f2 = static_cast<unsigned>(floorq(Q(n) * Q(cut))); // rounded product or exact one
                Leg a(state(rvs[0], 2.), t, state(rvf[0], 1.), 1., 1., 1., 1., cut);
                Leg b;
                b.set_cut(cut);
                b.set_throttles(t);
                Leg d;
                d.set_throttles(t.begin(), t.end());
                d.set_cut(cut);
                Leg e;
                e.set(rvs[0], 2., t, rvf[0], 1., 1., 1., 1., 1., cut);
                c.trans(4);
                c.trace();
                c.eval(4);
                c.state(chk::mixd(chk::mix(n, k), cut));
                for (auto *l : {&a, &b, &d, &e})
                    if (l->get_nseg() != n || (l->get_nseg_fwd() != f1 && l->get_nseg_fwd() != f2) || l->get_nseg_fwd() + l->get_nseg_bck() != n)
                        c.fail("segment_counts|n=" + std::to_string(n) + " cut=" + chk::d2s(cut), std::to_string(l->get_nseg()) + "=" + std::to_string(l->get_nseg_fwd()) + "+" + std::to_string(l->get_nseg_bck()));
            }
    });
}
inline void rejections(chk::Run &run, bool T)
{
    // ---- rejected calls at reached states
    const std::uint64_t NS = T ? 1600 : 320;
    run.section(
        "hf_rejections", NS,
        [=](std::uint64_t i, Case &c) {
            Set s;
            const std::uint64_t x = T ? i * 8 + i % 8 : i * 40 + (i * 7) % 40;
            s.k[THR] = static_cast<int>(x % 5);
            s.k[CUT] = static_cast<int>(x / 5 % 5);
            static const int order[9] = {RVS, MS, RVF, MF, TOF, TMAX, ISP, MU, TOL};
            for (int b = 0; b < 9; ++b) s.k[order[b]] = static_cast<int>(((x / 25) >> b) & 1);
            const Leg l = fresh(s, static_cast<int>(i % 2));
            const std::string base = "state " + std::to_string(x);
            Obs m = model_settings(s);
            auto rejected = [&](Leg &q, const Bad &b) {
                c.trans();
                c.eval();
                c.trace();
                try {
                    b.f(q);
                } catch (const std::exception &) {
                    return true;
                }
                return false;
            };
            auto same = [&](const Leg &q, const std::string &w, int what) {
                Obs a = observe(q, what);
                auto d = settings_diff(a, m);
                if (d.empty()) d = calc_diff(a, want(s));
                if (!d.empty()) c.fail("changed_by_rejected_call|" + w, d);
            };
            Leg acc(l);
            size_t nb = 0;
            for (auto &b : bads()) {
                Leg q(l);
                ++nb;
                if (!rejected(q, b)) {
                    c.fail("invalid_value_accepted|" + base + " " + b.name, "no exception");
                    continue;
                }
                same(q, base + " " + b.name, (nb + i) % 5 == 0 ? GRAD : 0);
                if (!rejected(acc, b)) c.fail("invalid_value_accepted|" + base + " (after other rejected calls) " + b.name, "no exception");
            }
            same(acc, base + " all invalid calls in sequence", ALL);
            for (size_t b = i % 9; b < bads().size(); b += T ? 1 : 9) {
                auto &op = ops()[(i + b) % ops().size()];
                Leg q(l);
                Set s2 = s;
                if (!rejected(q, bads()[b])) continue;
                rejected(q, bads()[(b * 5 + i) % bads().size()]);
                auto what = base + " " + bads()[b].name + "." + bads()[(b * 5 + i) % bads().size()].name + "." + op.name;
                c.trans();
                try {
                    op.f(q, s2);
                } catch (const std::exception &e) {
                    c.fail("valid_value_rejected|" + what, e.what());
                    continue;
                }
                judge(c, q, s2, what, GRAD);
            }
            // boundary values are accepted by every way of setting them
            for (int mk = 0; mk < 32; ++mk)
                for (double cut : {0., 1., .5})
                    for (double tol : {1., 1e-16}) {
                        if (mk % 4 != static_cast<int>(i % 4)) continue;
                        const double tof = mk & 1 ? 0. : 1.7, tm = mk & 2 ? 0. : 0.3, isp = mk & 4 ? 0. : 1.5, mu = mk & 8 ? 0. : 1.1;
                        const std::vector<double> t(mk & 16 ? 3 : 12, 0.25);
                        auto what = "mask " + std::to_string(mk) + " cut " + chk::d2s(cut) + " tol " + chk::d2s(tol);
                        c.trans();
                        c.eval();
                        try {
                            Leg a(rvs[0], 2., t, rvf[0], 1., tof, tm, isp, mu, cut, tol), a2(state(rvs[0], 2.), t, state(rvf[0], 1.), tof, tm, isp, mu, cut, tol);
                            Leg b(l), b2(l), e(l);
                            b.set(rvs[0], 2., t, rvf[0], 1., tof, tm, isp, mu, cut, tol);
                            b2.set(state(rvs[0], 2.), t, state(rvf[0], 1.), tof, tm, isp, mu, cut, tol);
                            Leg d(l);
                            d.set_rvs(rvs[0]);
                            d.set_rvf(rvf[0]);
                            d.set_ms(2.);
                            d.set_mf(1.);
                            d.set_tof(tof);
                            d.set_max_thrust(tm);
                            d.set_isp(isp);
                            d.set_mu(mu);
                            d.set_cut(cut);
                            d.set_tol(tol);
                            d.set_throttles(t.begin(), t.end());
                            e.set_max_thrust(tm);
                            e.set_isp(isp);
                            e.set_mu(mu);
                            e.set_cut(cut);
                            e.set_tol(tol);
                            e.set(state(rvs[0], 2.), t, state(rvf[0], 1.), tof);
                            for (auto *q : {&a, &a2, &b, &b2, &d, &e})
                                if (q->get_tof() != tof || q->get_max_thrust() != tm || q->get_isp() != isp || q->get_mu() != mu || q->get_cut() != cut || q->get_tol() != tol || q->get_throttles() != t || q->get_rvms() != state(rvs[0], 2.)
                                    || q->get_rvmf() != state(rvf[0], 1.) || q->get_nseg() != t.size() / 3 || q->get_nseg_fwd() != static_cast<unsigned>(std::floor(static_cast<double>(t.size() / 3) * cut))
                                    || q->get_nseg_fwd() + q->get_nseg_bck() != q->get_nseg())
                                    c.fail("boundary_value_not_reported|" + base + " " + what, "");
                        } catch (const std::exception &ex) {
                            c.fail("valid_value_rejected|" + base + " " + what, ex.what());
                        }
                    }
        },
        600);
}
inline void construction(chk::Run &run)
{
    // ---- construction: full product of classes
    const std::vector<double> v{1.3, 0., -0., NZ, -2., -INF};
    const std::vector<double> vc{0., 0.4, 1., NZ, std::nextafter(1., 2.), -3.};
    const std::vector<double> vt{1e-12, 1., 0., -1., std::nextafter(1., 2.)};
    const std::vector<size_t> vn{0, 2, 3, 4, 30};
    run.section("hf_construction", v.size() * v.size(), [=](std::uint64_t i, Case &c) {
        const double tof = v[i % v.size()], tm = v[i / v.size()];
        for (double isp : v)
            for (double mu : v)
                for (double cut : vc)
                    for (double tol : vt)
                        for (size_t k : vn)
                            for (int way = 0; way < 2; ++way) {
                                const bool ok = tof >= 0 && tm >= 0 && isp >= 0 && mu >= 0 && cut >= 0 && cut <= 1 && tol > 0 && tol <= 1 && k > 0 && k % 3 == 0;
                                bool got = true;
                                c.trans();
                                c.eval();
                                c.trace();
                                c.state(chk::mixd(chk::mixd(chk::mixd(chk::mixd(chk::mixd(chk::mixd(chk::mix(5, k), tof), tm), isp), mu), cut), tol));
                                try {
                                    if (way) {
                                        Leg l(state(rvs[0], 1.), std::vector<double>(k, 0.1), state(rvf[0], 1.), tof, tm, isp, mu, cut, tol);
                                    } else
                                        Leg l(rvs[0], 1., std::vector<double>(k, 0.1), rvf[0], 1., tof, tm, isp, mu, cut, tol);
                                } catch (const std::exception &) {
                                    got = false;
                                }
                                if (ok != got)
                                    c.fail(std::string(ok ? "valid_leg_rejected|" : "invalid_leg_constructed|") + "tof=" + chk::d2s(tof) + " thrust=" + chk::d2s(tm) + " isp=" + chk::d2s(isp) + " mu=" + chk::d2s(mu) + " cut=" + chk::d2s(cut) + " tol=" + chk::d2s(tol) + " size=" + std::to_string(k), "");
                            }
    });
}
inline void archives(chk::Run &run)
{
    // ---- archives
    run.section("hf_archives", 64, [=](std::uint64_t i, Case &c) {
        Set s, s2;
        for (size_t q = 0; q < NF; ++q) {
            s.k[q] = static_cast<int>((i * (q + 1) + i / 3 + q) % static_cast<std::uint64_t>(sizes[q]));
            s2.k[q] = static_cast<int>((i * 3 + q * i + 1) % static_cast<std::uint64_t>(sizes[q]));
        }
        for (int fmt = 0; fmt < 2; ++fmt)
            for (int into = 0; into < 2; ++into) {
                Leg a = fresh(s), b = into ? fresh(s2) : Leg();
                std::stringstream ss;
                if (fmt) {
                    {
                        boost::archive::text_oarchive ar(ss);
                        ar << a;
                    }
                    boost::archive::text_iarchive ar(ss);
                    ar >> b;
                } else {
                    {
                        boost::archive::binary_oarchive ar(ss);
                        ar << a;
                    }
                    boost::archive::binary_iarchive ar(ss);
                    ar >> b;
                }
                c.trans();
                c.trace();
                c.state(chk::mix(hash(s), static_cast<unsigned>(fmt * 2 + into)));
                auto name = "case " + std::to_string(i) + (fmt ? " text" : " binary") + (into ? " into another leg" : " into a default leg");
                if (!judge(c, b, s, name, ALL)) continue;
                judge(c, a, s, name + " (the original)", ALL);
                for (size_t o = i % 5; o < ops().size(); o += 5) {
                    Leg d(b);
                    Set s3 = s;
                    ops()[o].f(d, s3);
                    c.trans();
                    judge(c, d, s3, name + "." + ops()[o].name, ALL);
                }
            }
    });

}
} // namespace hf
