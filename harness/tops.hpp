// The part of the alphabet of calls that integrates numerically: Stark problem, continuous-thrust leg, the integrators
// of the caches. Used by P24 (histories of calls) and P25 (concurrent calls).
#pragma once
#include "ops.hpp"

#include <kep3/leg/sims_flanagan_hf.hpp>
#include <kep3/stark_problem.hpp>
#include <kep3/ta/cr3bp.hpp>
#include <kep3/ta/stark.hpp>
#include <kep3/udpla/vsop2013.hpp>

namespace ops
{
using A7 = std::array<double, 7>;
using LegHF = kep3::leg::sims_flanagan_hf;

// objects that live through the whole history, created when first used
struct TWorld {
    mutable std::optional<LegHF> l;
    mutable std::optional<kep3::stark_problem> s;
    mutable std::optional<kep3::udpla::vsop2013> v;
    [[nodiscard]] const kep3::udpla::vsop2013 &body() const
    {
        if (!v) v.emplace("saturn", .02);
        return *v;
    }
    [[nodiscard]] const LegHF &leg() const
    {
        if (!l) l.emplace(A7{1., .1, -.2, .05, .9, .2, 3.}, std::vector<double>{.1, .2, .3, -.4, .1, 0., .2, .2, -.6}, A7{.4, 1.1, -.1, -.9, .3, .1, 2.5}, 1.1, .3, 2., 1.1, .4, 1e-12);
        return *l;
    }
    [[nodiscard]] kep3::stark_problem &stark() const
    {
        if (!s) s.emplace(1.1, 2.3, 1e-12);
        return *s;
    }
};
struct TOp {
    std::string name;
    bool kept; // uses an object of the world
    std::function<void(const TWorld &, Sink &)> run;
};
template <typename TA>
void put_ta(Sink &s, const TA &t)
{
    s.put(t.get_state());
    s.put(t.get_pars());
    s.put(t.get_tol());
    s.put(t.get_time());
}
inline void put_leg(Sink &s, const LegHF &l)
{
    s.put(l.get_rvms());
    s.put(l.get_rvmf());
    s.put(l.get_throttles());
    s.put(l.get_tof());
    s.put(l.get_max_thrust());
    s.put(l.get_isp());
    s.put(l.get_mu());
    s.put(l.get_cut());
    s.put(l.get_tol());
    s.put(l.get_nseg());
    s.put(l.get_nseg_fwd());
    s.put(l.get_nseg_bck());
}
inline std::vector<TOp> taylor_alphabet()
{
    std::vector<TOp> L;
    auto add = [&](const std::string &n, bool kept, std::function<void(const TWorld &, Sink &)> r) { L.push_back({n, kept, std::move(r)}); };
    // the integrators themselves: copies flown
    static const char *KN[4] = {"get_ta_stark", "get_ta_stark_var", "get_ta_cr3bp", "get_ta_cr3bp_var"};
    for (int k = 0; k < 4; ++k)
        for (double tol : {1e-12, 1e-6, -1.})
            add(std::string(KN[k]) + "(" + std::to_string(tol > 0 ? -std::log10(tol) : -1) + ")", false, [k, tol](const TWorld &, Sink &s) mutable {
                call(
                    s,
                    [k](auto &e) {
                        const auto &p = k == 0 ? kep3::ta::get_ta_stark(e) : k == 1 ? kep3::ta::get_ta_stark_var(e) : k == 2 ? kep3::ta::get_ta_cr3bp(e) : kep3::ta::get_ta_cr3bp_var(e);
                        Sink q;
                        put_ta(q, p);
                        auto c = p;
                        for (std::size_t i = 0; i < c.get_pars().size(); ++i) c.get_pars_data()[i] = .3 + .1 * static_cast<double>(i);
                        for (std::size_t i = 0; i < 6; ++i) c.get_state_data()[i] = .7 - .15 * static_cast<double>(i);
                        c.set_time(0.);
                        (void)c.propagate_until(.2);
                        put_ta(q, c);
                        put_ta(q, p);
                        return q.w;
                    },
                    tol);
            });
    // Stark problems: one argument varied at a time
    struct SP {
        const char *n;
        double mu, veff, tol;
        A7 x;
        V3 u;
        double t;
    };
    const A7 x{1., .1, -.2, .05, .9, .2, 3.};
    const V3 u{.1, -.2, .05};
    for (const auto &p : std::vector<SP>{{"base", 1.1, 2.3, 1e-12, x, u, .4},
                                         {"mu", 1.3, 2.3, 1e-12, x, u, .4},
                                         {"veff", 1.1, 1.9, 1e-12, x, u, .4},
                                         {"tol", 1.1, 2.3, 1e-6, x, u, .4},
                                         {"state", 1.1, 2.3, 1e-12, {1., .1, -.2, .05, .9, .25, 3.}, u, .4},
                                         {"mass", 1.1, 2.3, 1e-12, {1., .1, -.2, .05, .9, .2, 1.}, u, .4},
                                         {"thrust", 1.1, 2.3, 1e-12, x, {.1, -.2, .15}, .4},
                                         {"coast", 1.1, 2.3, 1e-12, x, {0., 0., 0.}, .4},
                                         {"back", 1.1, 2.3, 1e-12, x, u, -.4},
                                         {"zero", 1.1, 2.3, 1e-12, x, u, 0.},
                                         {"invalid mu", -1.1, 2.3, 1e-12, x, u, .4},
                                         {"invalid veff", 1.1, -2.3, 1e-12, x, u, .4}}) {
        const std::string n = p.n;
        add("stark_problem(" + n + ").propagate", false, [p](const TWorld &, Sink &s) mutable {
            call(s, [](auto &m, auto &v, auto &e, auto &a, auto &b, auto &t) { return kep3::stark_problem(m, v, e).propagate(a, b, t); }, p.mu, p.veff, p.tol, p.x, p.u, p.t);
        });
        add("stark_problem(" + n + ").propagate_var", false, [p](const TWorld &, Sink &s) mutable {
            call(s, [](auto &m, auto &v, auto &e, auto &a, auto &b, auto &t) { return kep3::stark_problem(m, v, e).propagate_var(a, b, t); }, p.mu, p.veff, p.tol, p.x, p.u, p.t);
        });
    }
    for (int k = 0; k < 3; ++k) {
        add("kept stark_problem.propagate " + std::to_string(k), true, [k, x, u](const TWorld &w, Sink &s) mutable {
            auto u2 = u;
            u2[0] *= k;
            call(s, [&w](auto &a, auto &b) { return w.stark().propagate(a, b, .3); }, x, u2);
        });
        add("kept stark_problem.propagate_var " + std::to_string(k), true, [k, x, u](const TWorld &w, Sink &s) mutable {
            auto x2 = x;
            x2[1] *= k;
            call(s, [&w](auto &a, auto &b) { return w.stark().propagate_var(a, b, .3); }, x2, u);
        });
    }
    add("kept stark_problem printed", true, [](const TWorld &w, Sink &s) {
        s.put(printed(w.stark()));
        s.put(w.stark().get_mu());
        s.put(w.stark().get_veff());
        s.put(w.stark().get_tol());
    });
    // continuous-thrust legs: one setting varied at a time
    struct LP {
        const char *n;
        A7 s;
        int thr;
        A7 f;
        double tof, tmax, isp, mu, cut, tol;
    };
    const A7 f{.4, 1.1, -.1, -.9, .3, .1, 2.5};
    for (const auto &p : std::vector<LP>{{"base", x, 1, f, 1.1, .3, 2., 1.1, .5, 1e-12},
                                         {"start", {1., .1, -.2, .05, .95, .2, 3.}, 1, f, 1.1, .3, 2., 1.1, .5, 1e-12},
                                         {"throttles", x, 2, f, 1.1, .3, 2., 1.1, .5, 1e-12},
                                         {"end", x, 1, {.4, 1.1, -.1, -.9, .3, .1, 2.}, 1.1, .3, 2., 1.1, .5, 1e-12},
                                         {"tof", x, 1, f, 1.3, .3, 2., 1.1, .5, 1e-12},
                                         {"thrust", x, 1, f, 1.1, .4, 2., 1.1, .5, 1e-12},
                                         {"isp", x, 1, f, 1.1, .3, 1., 1.1, .5, 1e-12},
                                         {"mu", x, 1, f, 1.1, .3, 2., .9, .5, 1e-12},
                                         {"cut", x, 1, f, 1.1, .3, 2., 1.1, 1., 1e-12},
                                         {"tol", x, 1, f, 1.1, .3, 2., 1.1, .5, 1e-6},
                                         {"invalid tof", x, 1, f, -1.1, .3, 2., 1.1, .5, 1e-12}}) {
        const auto make = [p] { return LegHF(p.s, throttles(p.thr), p.f, p.tof, p.tmax, p.isp, p.mu, p.cut, p.tol); };
        const std::string n = "leg_hf(" + std::string(p.n) + ")";
        add(n + ".mismatch", false, [make](const TWorld &, Sink &s) { call(s, [&] { return make().compute_mismatch_constraints(); }); });
        add(n + ".mc_grad", false, [make](const TWorld &, Sink &s) { call(s, [&] { return make().compute_mc_grad(); }); });
        add(n + ".history", false, [make](const TWorld &, Sink &s) { call(s, [&] { return make().get_state_history(3); }); });
    }
    add("leg_hf set up by setters", false, [x, f](const TWorld &, Sink &s) {
        call(s, [&] {
            LegHF l;
            l.set_tol(1e-12);
            l.set_mu(1.1);
            l.set_isp(2.);
            l.set_max_thrust(.3);
            l.set_rvms(x);
            l.set_rvmf(f);
            l.set_throttles(throttles(1));
            l.set_tof(1.1);
            l.set_cut(.5);
            Sink q;
            q.put(l.compute_mismatch_constraints());
            q.put(l.compute_mc_grad());
            put_leg(q, l);
            q.put(printed(l));
            return q.w;
        });
    });
    add("leg_hf of a chromosome", false, [](const TWorld &w, Sink &s) {
        call(s, [&] {
            auto l = w.leg();
            std::vector<double> ch(7 + 9 + 7 + 1, .1);
            ch[0] = ch[4] = 1.;
            ch[17] = ch[19] = ch[22] = 1.2;
            ch[6] = 2.;
            ch[23] = .9;
            return l.set_and_compute_constraints(ch);
        });
    });
    add("kept leg_hf.mismatch", true, [](const TWorld &w, Sink &s) { call(s, [&] { return w.leg().compute_mismatch_constraints(); }); });
    add("kept leg_hf.constraints", true, [](const TWorld &w, Sink &s) { call(s, [&] { return w.leg().compute_constraints(); }); });
    add("kept leg_hf.throttle_constraints", true, [](const TWorld &w, Sink &s) { call(s, [&] { return w.leg().compute_throttle_constraints(); }); });
    add("kept leg_hf.tc_grad", true, [](const TWorld &w, Sink &s) { call(s, [&] { return w.leg().compute_tc_grad(); }); });
    add("kept leg_hf.mc_grad", true, [](const TWorld &w, Sink &s) { call(s, [&] { return w.leg().compute_mc_grad(); }); });
    for (unsigned k : {2u, 4u}) add("kept leg_hf.history " + std::to_string(k), true, [k](const TWorld &w, Sink &s) { call(s, [&] { return w.leg().get_state_history(k); }); });
    for (double k : {1., .5})
        add("kept leg_hf.state_derivative " + std::to_string(k), true, [k](const TWorld &w, Sink &s) mutable {
            A7 y{1., .1, k, .05, .9, .2, 3.};
            V3 th{.1, k, -.2};
            call(s, [&](auto &a, auto &b) { return w.leg().get_state_derivative(a, b); }, y, th);
        });
    add("kept leg_hf seen", true, [](const TWorld &w, Sink &s) {
        put_leg(s, w.leg());
        s.put(printed(w.leg()));
    });
    // VSOP2013 bodies
    for (const char *n : {"venus", "Mars", "vulcan"})
        for (double th : {1e-5, .5, -1.})
            add("vsop2013(" + std::string(n) + "," + std::to_string(th) + ")", false, [n, th](const TWorld &, Sink &s) mutable {
                call(
                    s,
                    [n](auto &t) {
                        const kep3::udpla::vsop2013 b(n, t);
                        Sink q;
                        q.put(b.eph(12.5));
                        q.put(b.eph(-3e4));
                        q.put(b.get_name());
                        q.put(kep3::planet(b).eph(12.5));
                        return q.w;
                    },
                    th);
            });
    for (double d : {3.5, -7.25}) add("kept vsop2013.eph " + std::to_string(d), true, [d](const TWorld &w, Sink &s) mutable { call(s, [&w](auto &t) { return w.body().eph(t); }, d); });
    add("kept vsop2013 copied", true, [](const TWorld &w, Sink &s) {
        const auto c = w.body();
        s.put(c.eph(1.));
        s.put(c.get_name());
    });
    return L;
}
} // namespace ops
