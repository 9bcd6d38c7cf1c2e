// An alphabet of calls covering every computation of the library, each with a fingerprint of its complete result.
// Used by P24 (histories of calls) and P25 (concurrent calls).
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <optional>
#include <sstream>
#include <string>
#include <tuple>
#include <typeinfo>
#include <vector>

#include <kep3/core_astro/convert_anomalies.hpp>
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/core_astro/flyby.hpp>
#include <kep3/core_astro/ic2eq2ic.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/core_astro/stm.hpp>
#include <kep3/epoch.hpp>
#include <kep3/lambert_problem.hpp>
#include <kep3/leg/sims_flanagan.hpp>
#include <kep3/planet.hpp>
#include <kep3/udpla/jpl_lp.hpp>
#include <kep3/udpla/keplerian.hpp>

namespace ops
{
using V3 = std::array<double, 3>;
using RV = std::array<V3, 2>;
using A6 = std::array<double, 6>;

// ---- fingerprints ---------------------------------------------------------------------------------------------------
struct Sink {
    std::vector<std::uint64_t> w;
    bool arg_changed = false;
    void put(double d)
    {
        std::uint64_t u;
        if (std::isnan(d)) u = 0x7ff8dead00000000ull; // any NaN
        else std::memcpy(&u, &d, 8);
        w.push_back(u);
    }
    void put(bool b) { w.push_back(b); }
    void put(int b) { w.push_back(static_cast<std::uint64_t>(b)); }
    void put(unsigned b) { w.push_back(b); }
    void put(std::size_t b) { w.push_back(b); }
    void put(long b) { w.push_back(static_cast<std::uint64_t>(b)); }
    void put(const std::string &s)
    {
        w.push_back(s.size());
        std::uint64_t h = 1469598103934665603ull;
        for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
        w.push_back(h);
    }
    template <typename T, std::size_t N>
    void put(const std::array<T, N> &a)
    {
        for (const auto &x : a) put(x);
    }
    template <typename T>
    void put(const std::vector<T> &a)
    {
        w.push_back(a.size());
        for (const auto &x : a) put(x);
    }
    template <typename A, typename B>
    void put(const std::pair<A, B> &p)
    {
        put(p.first);
        put(p.second);
    }
    template <typename T>
    void put(const std::optional<T> &o)
    {
        put(o.has_value());
        if (o) put(*o);
    }
    template <typename... T>
    void put(const std::tuple<T...> &t)
    {
        std::apply([&](const auto &...x) { (put(x), ...); }, t);
    }
    void put(const kep3::epoch &e) { w.push_back(static_cast<std::uint64_t>(e.get_tp().time_since_epoch().count())); }
    void put(const kep3::lambert_problem &l)
    {
        put(l.get_v0());
        put(l.get_v1());
        put(l.get_r0());
        put(l.get_r1());
        put(l.get_tof());
        put(l.get_mu());
        put(l.get_x());
        put(l.get_iters());
        put(l.get_Nmax());
    }
    void put(const kep3::leg::sims_flanagan &l)
    {
        put(l.get_rvs());
        put(l.get_ms());
        put(l.get_throttles());
        put(l.get_rvf());
        put(l.get_mf());
        put(l.get_tof());
        put(l.get_max_thrust());
        put(l.get_isp());
        put(l.get_mu());
        put(l.get_cut());
        put(l.get_nseg());
        put(l.get_nseg_fwd());
        put(l.get_nseg_bck());
    }
    void put(const kep3::planet &p)
    {
        put(p.get_name());
        put(p.get_mu_central_body());
        put(p.get_mu_self());
        put(p.get_radius());
        put(p.get_safe_radius());
        put(p.get_extra_info());
    }
};
template <typename T>
std::string printed(const T &x)
{
    std::ostringstream s;
    s << x;
    return s.str();
}
// Runs f(args...) and records the result; the arguments must be unchanged afterwards.
template <typename F, typename... A>
void call(Sink &s, F &&f, A &...args)
{
    Sink before, after;
    (before.put(args), ...);
    try {
        s.put(f(args...));
    } catch (const std::exception &e) {
        s.put(std::string("exception ") + typeid(e).name());
    }
    (after.put(args), ...);
    if (before.w != after.w) s.arg_changed = true;
}

// ---- objects that live through the whole history -------------------------------------------------------------------
inline std::vector<double> throttles(int kind)
{
    switch (kind) {
        case 0: return {0.1, -0.2, 0.3, 0.4, 0.05, -0.6, -0.3, 0.2, 0.1, 0.5, 0.5, -0.1, 0., 0., 0.};
        case 1: return {0.6, 0.2, -0.1, 0.3, 0.3, 0.3};
        default: return {0., 0., 1., 0.2, -0.7, 0.1, 0.9, 0.1, 0.1};
    }
}
struct World {
    kep3::leg::sims_flanagan leg0{{{{1., 0.1, -0.1}, {0.02, 1., 0.1}}}, 1., throttles(0), {{{0.1, 1.2, -0.1}, {-0.9, 0.05, 0.1}}}, 0.9, 1.7, 0.12, 2.1, 1.1, 0.6};
    kep3::leg::sims_flanagan leg1{{{{1.2, 0.1, -0.1}, {0.1, 1.4, 0.1}}}, 2., throttles(1), {{{0.3, 1.1, 0.2}, {-0.8, 0.15, 0.1}}}, 1.7, 0.9, 0.3, 1.1, 0.9, 0.};
    kep3::leg::sims_flanagan leg2{{{{0.8, 0.3, 0.1}, {-0.2, 0.9, 0.1}}}, 1.5, throttles(2), {{{0.1, 1.2, -0.1}, {-0.9, 0.05, 0.1}}}, 1.4, 2.2, 0.05, 3.1, 1.3, 1.};
    kep3::lambert_problem lp0{{1., 0.2, 0.1}, {-0.3, 1.4, 0.2}, 9.3, 1.1, false, 3};
    kep3::lambert_problem lp1{{1., 0.2, 0.1}, {-0.3, 1.4, -0.2}, 1.3, 0.9, true, 2};
    kep3::udpla::keplerian k0{kep3::epoch(123.5), RV{{{1.1, 0.2, -0.3}, {0.1, 0.9, 0.2}}}, 1.2, "alpha", {0.3, 0.01, 0.02}};
    kep3::udpla::keplerian k1{kep3::epoch(-1000.25), A6{1.7, 0.4, 0.9, 2.2, 3.3, 1.1}, 0.8, "beta", {0.1, 0.02, 0.03}, kep3::elements_type::KEP_M};
    kep3::planet pk0{k0}, pk1{k1}, pnull{};
    kep3::udpla::jpl_lp je{"earth"}, jm{"Mars"}, jn{"neptune"};
    kep3::planet pe{je}, pm{jm};
    kep3::epoch e0{7543.2109}, e1{2001, 2, 28, 23, 59, 59, 999, 999};
};

struct Op {
    std::string family, name;
    std::function<void(const World &, Sink &)> run;
};

inline std::vector<Op> alphabet()
{
    std::vector<Op> L;
    auto add = [&](const std::string &f, const std::string &n, std::function<void(const World &, Sink &)> r) { L.push_back({f, n, std::move(r)}); };
    struct PS {
        const char *n;
        RV s;
        double tof, mu;
    };
    const RV b{{{1.1, 0.2, -0.3}, {0.1, 0.9, 0.2}}};
    const std::vector<PS> P = {{"base", b, 1.3, 1.},
                               {"tof", b, -2.7, 1.},
                               {"mu", b, 1.3, 1.7},
                               {"pos", {{{1.1, 0.25, -0.3}, {0.1, 0.9, 0.2}}}, 1.3, 1.},
                               {"vel", {{{1.1, 0.2, -0.3}, {0.1, 0.9, 0.25}}}, 1.3, 1.},
                               {"hyp", {{{1.1, 0.2, -0.3}, {0.3, 1.9, 0.4}}}, 1.3, 1.},
                               {"long", b, 61.7, 1.},
                               {"zero", b, 0., 1.},
                               {"si", {{{1.5e11, 2e10, -3e9}, {-4e3, 2.8e4, 1e3}}}, 2.3e7, 1.32712440018e20}};
    for (const auto &p : P) {
        const auto n = std::string(p.n);
        add("lagrangian", "propagate_lagrangian(" + n + ")", [p](const World &, Sink &s) mutable {
            call(s, [](auto &a, auto &t, auto &m) { return kep3::propagate_lagrangian(a, t, m); }, p.s, p.tof, p.mu);
        });
        add("lagrangian", "propagate_lagrangian(" + n + ",stm)", [p](const World &, Sink &s) mutable {
            call(s, [](auto &a, auto &t, auto &m) { return kep3::propagate_lagrangian(a, t, m, true); }, p.s, p.tof, p.mu);
        });
        add("universal", "propagate_lagrangian_u(" + n + ")", [p](const World &, Sink &s) mutable {
            call(s, [](auto &a, auto &t, auto &m) { return kep3::propagate_lagrangian_u(a, t, m); }, p.s, p.tof, p.mu);
        });
        add("keplerian", "propagate_keplerian(" + n + ")", [p](const World &, Sink &s) mutable {
            call(s, [](auto &a, auto &t, auto &m) { return kep3::propagate_keplerian(a, t, m); }, p.s, p.tof, p.mu);
        });
        add("reynolds", "propagate_stm_reynolds(" + n + ")", [p](const World &, Sink &s) mutable {
            call(s, [](auto &a, auto &t, auto &m) { return kep3::propagate_stm_reynolds(a, t, m, true); }, p.s, p.tof, p.mu);
        });
    }
    for (int k = 0; k < 3; ++k)
        add("lagrangian_v", "propagate_lagrangian_v(" + std::to_string(k) + ")", [k, P](const World &, Sink &s) {
            auto p = P[k == 2 ? 5 : 0];
            std::vector<double> g{1.3, -0.4, 0., 7.7};
            if (k == 1) g = {1.3};
            call(s, [k](auto &a, auto &t, auto &m) { return kep3::propagate_lagrangian_v(a, t, m, k == 2); }, p.s, g, p.mu);
        });
    for (int k : {0, 2, 3, 4, 5}) {
        const auto p = P[static_cast<std::size_t>(k)];
        add("stm", std::string("stm_reynolds(") + p.n + ")", [p](const World &, Sink &s) mutable {
            RV f{{{-0.2, 1.0, 0.3}, {-0.9, 0.1, 0.2}}};
            call(s, [](auto &a, auto &c, auto &t, auto &m) { return kep3::stm_reynolds(a, c, t, m); }, p.s, f, p.tof, p.mu);
        });
        add("ic2par", std::string("ic2par(") + p.n + ")", [p](const World &, Sink &s) mutable {
            call(s, [](auto &a, auto &m) { return kep3::ic2par(a, m); }, p.s, p.mu);
        });
        for (bool r : {false, true})
            add("ic2eq", std::string("ic2eq(") + p.n + (r ? ",retro)" : ")"), [p, r](const World &, Sink &s) mutable {
                call(s, [r](auto &a, auto &m) { return kep3::ic2eq(a, m, r); }, p.s, p.mu);
            });
    }
    struct ES {
        const char *n;
        A6 e;
        double mu;
    };
    const std::vector<ES> EL = {{"base", {1.7, 0.4, 0.9, 2.2, 3.3, 1.1}, 1.}, {"mu", {1.7, 0.4, 0.9, 2.2, 3.3, 1.1}, 1.4}, {"anomaly", {1.7, 0.4, 0.9, 2.2, 3.3, 4.1}, 1.},
                                {"hyp", {-1.7, 1.4, 0.9, 2.2, 3.3, 0.6}, 1.}, {"invalid", {1.7, 1.4, 0.9, 2.2, 3.3, 0.6}, 1.}};
    for (const auto &p : EL) {
        add("par2ic", std::string("par2ic(") + p.n + ")", [p](const World &, Sink &s) mutable {
            call(s, [](auto &a, auto &m) { return kep3::par2ic(a, m); }, p.e, p.mu);
        });
        for (bool r : {false, true})
            add("par2eq", std::string("par2eq(") + p.n + (r ? ",retro)" : ")"), [p, r](const World &, Sink &s) mutable {
                call(s, [r](auto &a) { return kep3::par2eq(a, r); }, p.e);
            });
    }
    const std::vector<ES> EQ = {{"base", {1.4, 0.2, -0.3, 0.4, 0.1, 1.2}, 1.}, {"mu", {1.4, 0.2, -0.3, 0.4, 0.1, 1.2}, 1.4}, {"L", {1.4, 0.2, -0.3, 0.4, 0.1, 5.2}, 1.},
                                {"hyp", {1.4, 1.2, -0.3, 0.4, 0.1, 0.6}, 1.}};
    for (const auto &p : EQ)
        for (bool r : {false, true}) {
            add("eq2ic", std::string("eq2ic(") + p.n + (r ? ",retro)" : ")"), [p, r](const World &, Sink &s) mutable {
                call(s, [r](auto &a, auto &m) { return kep3::eq2ic(a, m, r); }, p.e, p.mu);
            });
            add("eq2par", std::string("eq2par(") + p.n + (r ? ",retro)" : ")"), [p, r](const World &, Sink &s) mutable {
                call(s, [r](auto &a) { return kep3::eq2par(a, r); }, p.e);
            });
        }
    using AF = double (*)(double, double);
    const std::vector<std::tuple<const char *, AF, bool>> AN = {
        {"m2e", kep3::m2e, true}, {"e2m", kep3::e2m, true}, {"e2f", kep3::e2f, true}, {"f2e", kep3::f2e, true}, {"m2f", kep3::m2f, true}, {"f2m", kep3::f2m, true},
        {"zeta2f", kep3::zeta2f, false}, {"f2zeta", kep3::f2zeta, false}, {"n2h", kep3::n2h, false}, {"h2n", kep3::h2n, false}, {"h2f", kep3::h2f, false},
        {"f2h", kep3::f2h, false}, {"n2f", kep3::n2f, false}, {"f2n", kep3::f2n, false}};
    for (const auto &[n, f, ell] : AN)
        for (int k = 0; k < 4; ++k) { // angle, other angle, other eccentricity, wrong conic
            const AF g = f;
            const double ecc = k == 2 ? (ell ? 0.8 : 2.5) : k == 3 ? (ell ? 1.5 : 0.5) : (ell ? 0.3 : 1.4), ang = k == 1 ? -1.1 : 0.7;
            add("anomalies", std::string(n) + "(" + std::to_string(k) + ")", [g, ecc, ang](const World &, Sink &s) mutable {
                call(s, [g](auto &a, auto &e) { return g(a, e); }, ang, ecc);
            });
        }
    struct LS {
        const char *n;
        V3 r0, r1;
        double tof, mu;
        bool cw;
        unsigned M;
    };
    const LS lb{"base", {1., 0.2, 0.1}, {-0.3, 1.4, 0.2}, 9.3, 1.1, false, 1};
    std::vector<LS> LL{lb};
    auto lv = [&](const char *n, auto f) {
        auto x = lb;
        x.n = n;
        f(x);
        LL.push_back(x);
    };
    lv("cw", [](LS &x) { x.cw = true; });
    lv("M0", [](LS &x) { x.M = 0; });
    lv("M5", [](LS &x) { x.M = 5; });
    lv("tof", [](LS &x) { x.tof = 0.7; });
    lv("mu", [](LS &x) { x.mu = 0.6; });
    lv("r0", [](LS &x) { x.r0[1] = 0.3; });
    lv("r1", [](LS &x) { x.r1[2] = -0.4; });
    lv("invalid", [](LS &x) { x.tof = -1; });
    lv("plane", [](LS &x) { x.r1 = {0.5, 0.1, 0.9}; });
    for (const auto &l : LL)
        add("lambert", std::string("lambert(") + l.n + ")", [l](const World &, Sink &s) mutable {
            call(s, [&](auto &a, auto &c, auto &t, auto &m) { return kep3::lambert_problem(a, c, t, m, l.cw, l.M); }, l.r0, l.r1, l.tof, l.mu);
        });
    add("lambert", "lambert kept 0", [](const World &w, Sink &s) { call(s, [](auto &l) { return printed(l); }, w.lp0); });
    add("lambert", "lambert kept 1", [](const World &w, Sink &s) { call(s, [](auto &l) { return printed(l); }, w.lp1); });
    using LegP = const kep3::leg::sims_flanagan World::*;
    const std::vector<std::pair<const char *, LegP>> LG = {{"leg0", &World::leg0}, {"leg1", &World::leg1}, {"leg2", &World::leg2}};
    for (const auto &[n, m] : LG) {
        const LegP q = m;
        const auto nn = std::string(n);
        add("leg", nn + ".compute_mismatch_constraints", [q](const World &w, Sink &s) { call(s, [](auto &l) { return l.compute_mismatch_constraints(); }, w.*q); });
        add("leg", nn + ".compute_throttle_constraints", [q](const World &w, Sink &s) { call(s, [](auto &l) { return l.compute_throttle_constraints(); }, w.*q); });
        add("leg", nn + ".compute_mc_grad", [q](const World &w, Sink &s) { call(s, [](auto &l) { return l.compute_mc_grad(); }, w.*q); });
        add("leg", nn + ".compute_tc_grad", [q](const World &w, Sink &s) { call(s, [](auto &l) { return l.compute_tc_grad(); }, w.*q); });
    }
    add("leg", "leg0 printed", [](const World &w, Sink &s) { call(s, [](auto &l) { return printed(l); }, w.leg0); });
    for (int k = 0; k < 4; ++k)
        add("leg", "leg copy changed " + std::to_string(k), [k](const World &w, Sink &s) {
            call(
                s,
                [k](auto &l) {
                    auto c = l;
                    if (k == 0) c.set_mu(1.9);
                    if (k == 1) c.set_tof(0.4);
                    if (k == 2) c.set_throttles(throttles(2));
                    if (k == 3) c.set_cut(1.);
                    return std::make_tuple(c.compute_mismatch_constraints(), c.compute_mc_grad());
                },
                w.leg0);
        });
    add("leg", "leg invalid", [](const World &w, Sink &s) {
        call(
            s,
            [](auto &l) {
                auto c = l;
                c.set_throttles(std::vector<double>{1., 2.});
                return c.get_nseg();
            },
            w.leg1);
    });
    add("epoch", "epoch(string)", [](const World &, Sink &s) {
        std::string t = "2024-02-29T12:34:56.789012";
        call(s, [](auto &x) { return kep3::epoch(x); }, t);
    });
    add("epoch", "epoch(short string)", [](const World &, Sink &s) {
        std::string t = "2024-02";
        call(s, [](auto &x) { return kep3::epoch(x); }, t);
    });
    add("epoch", "epoch(bad string)", [](const World &, Sink &s) {
        std::string t = "2024-02-3";
        call(s, [](auto &x) { return kep3::epoch(x); }, t);
    });
    for (int k = 0; k < 3; ++k)
        add("epoch", "epoch(number," + std::to_string(k) + ")", [k](const World &, Sink &s) {
            double d = 2451545.25;
            call(s, [k](auto &x) { return kep3::epoch(x, static_cast<kep3::epoch::julian_type>(k)); }, d);
        });
    add("epoch", "e0 printed", [](const World &w, Sink &s) { call(s, [](auto &e) { return printed(e); }, w.e0); });
    add("epoch", "e1 printed", [](const World &w, Sink &s) { call(s, [](auto &e) { return std::make_tuple(e.as_utc_string(), e.jd(), e.mjd(), e.mjd2000()); }, w.e1); });
    add("epoch", "e1 - e0", [](const World &w, Sink &s) { call(s, [](auto &a, auto &c) { return std::make_tuple(static_cast<long>((a - c).count()), a < c, a == c); }, w.e1, w.e0); });
    using PlP = const kep3::planet World::*;
    const std::vector<std::pair<const char *, PlP>> PLN = {{"keplerian alpha", &World::pk0}, {"keplerian beta", &World::pk1}, {"earth", &World::pe}, {"mars", &World::pm}, {"null", &World::pnull}};
    for (const auto &[n, m] : PLN) {
        const PlP q = m;
        const auto nn = std::string(n);
        for (double d : {123.25, 7654.5})
            add("planet", nn + ".eph(" + std::to_string(d) + ")", [q, d](const World &w, Sink &s) { call(s, [d](auto &p) { return p.eph(d); }, w.*q); });
        add("planet", nn + ".eph_v", [q](const World &w, Sink &s) {
            std::vector<double> g{1.5, 2000., -300.};
            call(s, [](auto &p, auto &v) { return p.eph_v(v); }, w.*q, g);
        });
        add("planet", nn + ".period", [q](const World &w, Sink &s) { call(s, [](auto &p) { return p.period(12.); }, w.*q); });
        for (auto t : {kep3::elements_type::KEP_F, kep3::elements_type::KEP_M, kep3::elements_type::MEQ})
            add("planet", nn + ".elements(" + std::to_string(static_cast<int>(t)) + ")", [q, t](const World &w, Sink &s) { call(s, [t](auto &p) { return p.elements(33., t); }, w.*q); });
        add("planet", nn + " printed", [q](const World &w, Sink &s) { call(s, [](auto &p) { return printed(p); }, w.*q); });
    }
    for (const char *n : {"venus", "saturn", "Uranus", "pluto"})
        add("planet", std::string("jpl_lp(") + n + ").eph", [n](const World &, Sink &s) {
            std::string nm = n;
            call(s, [](auto &x) { return kep3::udpla::jpl_lp(x).eph(4321.); }, nm);
        });
    add("planet", "jpl_lp out of range", [](const World &w, Sink &s) { call(s, [](auto &p) { return p.eph(1e6); }, w.pe); });
    for (int k = 0; k < 3; ++k) {
        add("planet", "keplerian from elements " + std::to_string(k), [k](const World &, Sink &s) {
            A6 e = k == 0 ? A6{1.7, 0.4, 0.9, 2.2, 3.3, 1.1} : k == 1 ? A6{1.4, 0.2, -0.3, 0.4, 0.1, 1.2} : A6{-1.7, 0.4, 0.9, 2.2, 3.3, 1.1};
            call(s, [k](auto &x) { return kep3::udpla::keplerian(kep3::epoch(3.), x, 1.1, "k", {0.1, 0.2, 0.3}, k == 1 ? kep3::elements_type::MEQ : kep3::elements_type::KEP_F).eph(77.); }, e);
        });
    }
    for (int k = 0; k < 4; ++k) {
        V3 a{3.1, 0.4, -0.2}, o{2.9, 1.2, 0.3};
        double mu = 0.7, rs = 0.4;
        if (k == 1) mu = 0.9;
        if (k == 2) rs = 0.9;
        if (k == 3) o = {-3., 0.5, 0.1};
        const auto kk = "(" + std::to_string(k) + ")";
        add("flyby", "fb_con" + kk, [=](const World &, Sink &s) mutable { call(s, [](auto &x, auto &y, auto &m, auto &r) { return kep3::fb_con(x, y, m, r); }, a, o, mu, rs); });
        add("flyby", "fb_dv" + kk, [=](const World &, Sink &s) mutable { call(s, [](auto &x, auto &y, auto &m, auto &r) { return kep3::fb_dv(x, y, m, r); }, a, o, mu, rs); });
        add("flyby", "fb_vout" + kk, [=](const World &, Sink &s) mutable { call(s, [k](auto &x, auto &y, auto &m, auto &r) { return kep3::fb_vout(x, y, r, 0.3 + (k == 3), m); }, a, o, mu, rs); });
    }
    add("flyby", "fb_con(planet)", [](const World &w, Sink &s) {
        V3 a{3.1, 0.4, -0.2}, o{2.9, 1.2, 0.3};
        call(s, [](auto &x, auto &y, auto &p) { return std::make_tuple(kep3::fb_con(x, y, p), kep3::fb_dv(x, y, p)); }, a, o, w.pk0);
    });
    return L;
}

// Many more calls, without shared objects: run in every process state that differs from the initial one. They contain
// nearly equal arguments on purpose (an answer remembered for "the same" arguments).
inline std::vector<Op> battery()
{
    std::vector<Op> L;
    auto add = [&](const std::string &n, std::function<void(Sink &)> r) {
        L.push_back({"probe", n + " #" + std::to_string(L.size()), [r](const World &, Sink &s) {
                         try {
                             r(s);
                         } catch (const std::exception &e) {
                             s.put(std::string("exception ") + typeid(e).name());
                         }
                     }});
    };
    auto prop = [&](const RV &s, double t, double mu, bool all) {
        add("propagate_lagrangian", [=](Sink &k) { k.put(kep3::propagate_lagrangian(s, t, mu)); });
        add("propagate_lagrangian_u", [=](Sink &k) { k.put(kep3::propagate_lagrangian_u(s, t, mu)); });
        if (!all) return;
        add("propagate_lagrangian stm", [=](Sink &k) { k.put(kep3::propagate_lagrangian(s, t, mu, true)); });
        add("propagate_keplerian", [=](Sink &k) { k.put(kep3::propagate_keplerian(s, t, mu)); });
        add("propagate_stm_reynolds", [=](Sink &k) { k.put(kep3::propagate_stm_reynolds(s, t, mu, true)); });
        add("ic2par", [=](Sink &k) { k.put(kep3::ic2par(s, mu)); });
        add("ic2eq", [=](Sink &k) { k.put(kep3::ic2eq(s, mu)); });
        add("ic2eq retro", [=](Sink &k) { k.put(kep3::ic2eq(s, mu, true)); });
        add("propagate_lagrangian_v", [=](Sink &k) { k.put(kep3::propagate_lagrangian_v(s, {t, -t, t, 0.5 * t}, mu)); });
    };
    const RV b{{{1.1, 0.2, -0.3}, {0.1, 0.9, 0.2}}}, hy{{{1.1, 0.2, -0.3}, {0.3, 1.9, 0.4}}}, ret{{{1.1, 0.2, -0.3}, {0.1, -0.9, 0.2}}};
    for (const auto &s : {b, hy, ret})
        for (double d : {0., 1e-15, 1e-12, 1e-9, 1e-7, 1e-5, 1e-3})
            for (int w = 0; w < 4; ++w) {
                auto x = s;
                double t = 1.3, mu = 1.;
                if (w == 0) x[0][0] *= 1 + d;
                if (w == 1) x[1][1] *= 1 + d;
                if (w == 2) t *= 1 + d;
                if (w == 3) mu *= 1 + d;
                prop(x, t, mu, true);
            }
    for (double v : {0.7, 1., 1.3, 1.5, 2., 3., 6.}) // hyperbolic from 1.5 on
        for (double u : {-0.8, -0.2, 0., 0.1, 0.9})
            for (double t : {1e-6, 0.01, 0.3, 1.3, 4., 17., 230., -0.5, -6., -90.}) prop({{{1.1, 0.2, -0.3}, {u, v, 0.2}}}, t, 1., false);
    for (double e : {0., 0.05, 0.3, 0.7, 0.95})
        for (double a : {-3.3, -1.1, -0.01, 0.3, 0.30000000000001, 0.3000001, 1.7, 3.1, 6.5})
            for (auto f : {kep3::m2e, kep3::e2m, kep3::e2f, kep3::f2e, kep3::m2f, kep3::f2m}) add("elliptic anomaly", [=](Sink &k) { k.put(f(a, e)); });
    for (double e : {1.01, 1.4, 3., 12.})
        for (double a : {-1.3, -0.6, -0.01, 0.3, 0.30000000000001, 0.3000001, 1.1, 1.4})
            for (auto f : {kep3::zeta2f, kep3::f2zeta, kep3::n2h, kep3::h2n, kep3::h2f, kep3::f2h, kep3::n2f, kep3::f2n}) add("hyperbolic anomaly", [=](Sink &k) { k.put(f(a, e)); });
    for (double e : {0.01, 0.4, 0.9, 1.3, 4.})
        for (double i : {0.2, 1.5, 2.9})
            for (double f : {0.1, 1.1, -1.2}) {
                const A6 x{e < 1 ? 1.7 : -1.7, e, i, 2.2, 3.3, f};
                add("par2ic", [=](Sink &k) { k.put(kep3::par2ic(x, 1.1)); });
                for (bool r : {false, true}) {
                    add("par2eq", [=](Sink &k) { k.put(kep3::par2eq(x, r)); });
                    add("eq2ic", [=](Sink &k) { k.put(kep3::eq2ic(kep3::par2eq(x, r), 1.1, r)); });
                    add("eq2par", [=](Sink &k) { k.put(kep3::eq2par(kep3::par2eq(x, r), r)); });
                }
            }
    const V3 r0{1., 0.2, 0.1};
    for (double te : {0.4, 1.9, 3.3, 5.5})
        for (double t : {0.1, 0.9, 3.1, 9.3, 9.3000000001, 31.})
            for (double mu : {0.6, 1.1, 1.1000000001})
                for (unsigned M : {0u, 1u, 4u})
                    add("lambert", [=](Sink &k) { k.put(kep3::lambert_problem(r0, {1.3 * std::cos(te), 1.3 * std::sin(te), 0.2}, t, mu, M == 1, M)); });
    for (double d : {0., 1e-12, 1e-7, 0.3})
        for (double mu : {0.7, 0.7000001, 2.})
            for (double rs : {0.4, 0.4000001, 1.2}) {
                const V3 a{3.1, 0.4 + d, -0.2}, o{2.9, 1.2, 0.3 - d};
                add("fb_con", [=](Sink &k) { k.put(kep3::fb_con(a, o, mu, rs)); });
                add("fb_dv", [=](Sink &k) { k.put(kep3::fb_dv(a, o, mu, rs)); });
                add("fb_vout", [=](Sink &k) { k.put(kep3::fb_vout(a, o, rs, 0.3, mu)); });
            }
    for (double d : {0., 0.25, -0.25, 1e-8, 123.456, -20000.7, 99999.})
        for (int t = 0; t < 3; ++t)
            add("epoch", [=](Sink &k) {
                kep3::epoch e(d + (t ? 2e4 : 0.), static_cast<kep3::epoch::julian_type>(t));
                k.put(e);
                k.put(printed(e));
                k.put(e.jd());
                k.put(kep3::epoch(e.as_utc_string()));
            });
    for (const char *t : {"2000", "2000-01", "2000-01-01", "2024-02-29T23:59:59.999999", "1999-12-31T00:00:00", "2100-03-01T12"}) add("epoch string", [=](Sink &k) { k.put(kep3::epoch(std::string(t))); });
    for (const char *n : {"mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto"})
        for (double d : {0., 1e-9, 100., 100.0000001, -3000.5, 8000.}) add("jpl_lp", [=](Sink &k) {
                kep3::udpla::jpl_lp p(n);
                k.put(p.eph(d));
                k.put(p.elements(d, kep3::elements_type::KEP_M));
                k.put(p.get_mu_self());
            });
    for (double d : {0., 1e-9, 50.})
        for (double x : {0., 1e-12, 1e-7, 0.1}) add("keplerian", [=](Sink &k) {
                kep3::planet p(kep3::udpla::keplerian(kep3::epoch(d), RV{{{1.1 + x, 0.2, -0.3}, {0.1, 0.9, 0.2}}}, 1.2, "k", {0.1, 0.2, 0.3}));
                k.put(p.eph(3.));
                k.put(p.eph_v(std::vector<double>{3., 3. + 1e-9, 5., 3.}));
                k.put(p.period());
            });
    for (double x : {0., 1e-12, 1e-7, 0.1})
        for (double cut : {0., 0.5, 0.5000001, 1.})
            for (int th = 0; th < 3; ++th)
                for (double tof : {1.7, 1.7000000001}) add("leg", [=](Sink &k) {
                        kep3::leg::sims_flanagan l({{{1. + x, 0.1, -0.1}, {0.02, 1., 0.1}}}, 1., throttles(th), {{{0.1, 1.2, -0.1}, {-0.9, 0.05, 0.1}}}, 0.9, tof, 0.12, 2.1, 1.1, cut);
                        k.put(l.compute_mismatch_constraints());
                        k.put(l.compute_mc_grad());
                        k.put(l.compute_tc_grad());
                    });
    return L;
}
} // namespace ops
