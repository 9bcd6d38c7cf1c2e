// P01: propagate_lagrangian equals the exact two-body flow.
#include <kep3/core_astro/propagate_lagrangian.hpp>

#include "orbits.hpp"

using namespace orb;
using chk::Case;

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool th = run.thorough();
    std::vector<double> ecc_e{0., 1e-12, 1e-7, 1e-3, 0.05, 0.3, 0.6, 0.8, 0.9, 0.97, 0.99, 0.999, 0.9999};
    std::vector<double> ecc_h{1.0001, 1.001, 1.01, 1.05, 1.2, 1.5, 2., 3., 6., 20., 100.};
    if (th) {
        ecc_e.insert(ecc_e.end(), {1e-15, 1e-9, 1e-5, 0.01, 0.1, 0.2, 0.4, 0.5, 0.7, 0.85, 0.93, 0.95, 0.98, 0.995, 0.99999});
        ecc_h.insert(ecc_h.end(), {1.00001, 1.005, 1.02, 1.1, 1.3, 1.7, 2.5, 4., 10., 50., 1000.});
    }
    // true anomalies (fractions of pi for ellipses, of the asymptote for hyperbolas)
    std::vector<double> fr{0., 1e-9, -1e-9, 0.1, -0.1, 0.3, -0.3, 0.5, -0.5, 0.75, -0.75, 0.9, -0.9, 0.97, -0.97, 0.999999, 1.};
    if (th) fr.insert(fr.end(), {0.02, -0.02, 0.2, -0.2, 0.4, -0.4, 0.6, -0.6, 0.65, -0.65, 0.8, -0.8, 0.85, -0.85, 0.95, -0.95, 0.99, -0.99, -0.999999});
    // times of flight in periods (ellipse)
    std::vector<double> te{0., 1e-14, 1e-9, 1e-5, 1e-3, 0.02, 0.1, 0.2, 0.25, 0.3, 0.4, 0.45, 0.499999, 0.5, 0.500001, 0.55, 0.6, 0.7, 0.75, 0.8, 0.9, 0.97, 0.999999, 1., 1.000001,
                           1.1, 1.37, 1.5, 1.63, 1.9, 2., 2.5, 3.25, 7.1, 10.4, 33.3, 100., 123.456, 1000.75, 12345.6};
    std::vector<double> hy{0., 1e-14, 1e-9, 1e-5, 1e-3, 0.01, 0.1, 0.3, 0.7, 1., 1.5, 2., 3., 5., 8., 12., 20., 50., 100., 300., 1000., 1e4, 1e6};
    if (th) {
        for (int i = 1; i < 60; ++i) te.push_back(i / 60. * 1.0001);
        te.insert(te.end(), {4.9, 20.01, 50.5, 250.3, 5000.1, 98765.4, 1e6 + 0.3});
        for (int i = 1; i < 40; ++i) hy.push_back(std::pow(10., -3 + i * 0.2));
    }
    struct Cfg {
        int u, o;
        double e, f;
    };
    std::vector<Cfg> cfg;
    const int nu = static_cast<int>(units().size()), no = static_cast<int>(orients().size());
    int rot = 0;
    for (int u = 0; u < nu; ++u)
        for (auto *es : {&ecc_e, &ecc_h})
            for (double e : *es)
                for (double x : fr) {
                    if (e > 1 && std::fabs(x) >= 0.9999) continue;
                    double f = e < 1 ? x * M_PI : x * std::acos(-1 / e);
                    // every orientation in thorough; one rotating orientation per state in quick
                    if (th)
                        for (int o = 0; o < no; ++o) cfg.push_back({u, o, e, f});
                    else
                        cfg.push_back({u, rot++ % no, e, f});
                }
    auto one = [&](Case &c, const RV &s, double t, double mu, const std::string &what) {
        c.trans();
        c.eval();
        std::uint64_t h = chk::mixd(chk::mixd(1, t), mu);
        for (auto &b : s)
            for (double x : b) h = chk::mixd(h, x);
        c.state(h);
        auto o = flow8(s, t, mu);
        auto cond = flow_cond(o, s, t, mu);
        RV y{};
        try {
            y = kep3::propagate_lagrangian(s, t, mu, false).first;
        } catch (const std::exception &ex) {
            c.fail("raises|" + what, ex.what());
            return;
        }
        double rn = 0, vn = 0, er = 0, ev = 0;
        for (int k = 0; k < 3; ++k) {
            rn += std::pow(dd(o.y[k].v), 2);
            vn += std::pow(dd(o.y[3 + k].v), 2);
            er += std::pow(dd(Q(y[0][k]) - o.y[k].v), 2);
            ev += std::pow(dd(Q(y[1][k]) - o.y[3 + k].v), 2);
        }
        er = std::sqrt(er);
        ev = std::sqrt(ev);
        const double K = 1000;
        double tr = K * EPS * cond[0], tv = K * EPS * cond[1];
        c.count(tr > 1e-6 * std::sqrt(rn) ? "tol_rel_above_1e-6" : tr > 1e-10 * std::sqrt(rn) ? "tol_rel_1e-10_1e-6" : "tol_rel_below_1e-10");
        auto desc = [&] { return what; };
        c.within("position", er, tr, desc);
        c.within("velocity", ev, tv, desc);
        if (t == 0 && (y != s)) {
            // exact identity is not required, only rounding; covered by the tolerances above
            c.count("zero_time_not_bitwise");
        }
        c.trace();
        if (c.verbose)
            std::printf("  %s\n  in=%s t=%.17g mu=%.17g\n  out=%s\n  ref=%s %s %s %s %s %s\n", what.c_str(), chk::rv2s(s).c_str(), t, mu, chk::rv2s(y).c_str(),
                        ref::qs(o.y[0].v).c_str(), ref::qs(o.y[1].v).c_str(), ref::qs(o.y[2].v).c_str(), ref::qs(o.y[3].v).c_str(), ref::qs(o.y[4].v).c_str(),
                        ref::qs(o.y[5].v).c_str());
    };
    run.section("orbits", cfg.size(), [&](std::uint64_t i, Case &c) {
        auto g = cfg[i];
        auto &un = units()[static_cast<size_t>(g.u)];
        auto &orn = orients()[static_cast<size_t>(g.o)];
        double a = g.e < 1 ? un.L : -un.L;
        auto s = make(a, g.e, orn.i, orn.W, orn.w, g.f, un.mu);
        double scale = std::sqrt(un.L * un.L * un.L / un.mu);
        c.sample(std::string(un.name) + " e=" + chk::d2s(g.e) + " f=" + chk::d2s(g.f) + " rv=" + chk::rv2s(s));
        for (double x : (g.e < 1 ? te : hy))
            for (int sg = 1; sg >= -1; sg -= 2) {
                double t = sg * x * scale * (g.e < 1 ? 2 * M_PI : 1.);
                std::string what = std::string(un.name) + " e=" + chk::d2s(g.e) + " f=" + chk::d2s(g.f) + " o=" + std::to_string(g.o) + " t=" + chk::d2s(sg * x);
                one(c, s, t, un.mu, what);
            }
    });
    // Rectilinear orbits (zero angular momentum), before the collision.
    std::vector<std::array<double, 3>> rect; // R0, radial velocity, t
    for (double r0 : {0.5, 1., 1.7})
        for (double v : {0., 0.3, -0.2, 0.9, 1.3, 1.9, 2.5})
            for (double t : {0., 0.01, 0.1, 0.3, -0.05}) rect.push_back({r0, v, t});
    run.section("rectilinear", rect.size(), [&](std::uint64_t i, Case &c) {
        auto [r0, v, t] = rect[i];
        RV s{{{0.6 * r0, 0., 0.8 * r0}, {0.6 * v, 0., 0.8 * v}}};
        double en = v * v / 2 - 1 / r0;
        if (std::fabs(en) < 0.05) return c.skip("parabolic");
        // stop before the fall
        auto o = flow8(s, t, 1.);
        double z = dd(o.y[2].v), rad = dd(o.alpha) * 0 + z;
        if (!(rad > 0.1) || (v < 0 && t > 0.2)) return c.skip("near-collision");
        one(c, s, t, 1., "rectilinear r0=" + chk::d2s(r0) + " v=" + chk::d2s(v) + " t=" + chk::d2s(t));
    });
    return run.go();
}
