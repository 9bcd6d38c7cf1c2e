// P04: every entry of the state transition matrix against the exact Jacobian of the exact flow.
#include <optional>

#include <kep3/core_astro/propagate_lagrangian.hpp>

#include "stmref.hpp"

using namespace orb;
using chk::Case;

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool th = run.thorough();
    std::vector<double> es{0., 1e-9, 1e-3, 0.1, 0.5, 0.8, 0.95, 0.99, 1.01, 1.1, 1.5, 3., 20.};
    std::vector<double> fr{0., 0.15, -0.3, 0.5, -0.7, 0.9, -0.95, 1.};
    std::vector<double> te{0., 1e-6, 0.03, 0.2, 0.45, 0.5, 0.7, 0.95, 1., 1.4, 3.3, 20.1};
    std::vector<double> hy{0., 1e-6, 0.03, 0.3, 1., 3., 10., 100., 3000.};
    if (th) {
        es.insert(es.end(), {1e-5, 0.02, 0.25, 0.65, 0.9, 0.97, 0.999, 1.001, 1.05, 1.25, 2., 6., 100.});
        fr.insert(fr.end(), {1e-6, -0.15, 0.3, -0.5, 0.7, -0.85, 0.97});
        te.insert(te.end(), {1e-3, 0.1, 0.25, 0.35, 0.55, 0.62, 0.8, 0.9, 0.99, 1.1, 1.7, 2., 7.6, 50.5});
        hy.insert(hy.end(), {1e-3, 0.1, 0.6, 2., 5., 25., 500.});
    }
    struct Cfg {
        int u, o;
        double e, f;
    };
    std::vector<Cfg> cfg;
    int rot = 0;
    for (int u = 0; u < static_cast<int>(units().size()); ++u)
        for (double e : es)
            for (double x : fr) {
                if (e > 1 && std::fabs(x) > 0.999) continue;
                double f = e < 1 ? x * M_PI : x * std::acos(-1 / e);
                if (th)
                    for (int o = 0; o < 5; o += 2) cfg.push_back({u, (o + rot) % 5, e, f});
                else
                    cfg.push_back({u, rot % 5, e, f});
                ++rot;
            }
    run.section("orbits", cfg.size(), [&](std::uint64_t i, Case &c) {
        auto g = cfg[i];
        auto &un = units()[static_cast<size_t>(g.u)];
        auto &orn = orients()[static_cast<size_t>(g.o)];
        double a = g.e < 1 ? un.L : -un.L, mu = un.mu;
        auto s = make(a, g.e, orn.i, orn.W, orn.w, g.f, mu);
        double scale = std::sqrt(un.L * un.L * un.L / mu);
        std::string ob = std::string(un.name) + " e=" + chk::d2s(g.e) + " f=" + chk::d2s(g.f) + " o=" + std::to_string(g.o);
        c.sample(ob + " rv=" + chk::rv2s(s));
        for (double x : (g.e < 1 ? te : hy))
            for (int sg = 1; sg >= -1; sg -= 2) {
                double t = sg * x * scale * (g.e < 1 ? 2 * M_PI : 1.);
                std::string what = ob + " t/T=" + chk::d2s(t / scale);
                auto desc = [&] { return what; };
                c.state(chk::mixd(chk::mixd(chk::mixd(4, s[0][0]), s[1][1]), t));
                c.trans();
                c.eval();
                try {
                    auto p = kep3::propagate_lagrangian(s, t, mu, true);
                    auto q = kep3::propagate_lagrangian(s, t, mu, false);
                    if (p.first != q.first) c.fail("stm_changes_state|" + what, "");
                    if (!p.second || q.second) {
                        c.fail("stm_presence|" + what, "");
                        continue;
                    }
                    auto R = stm_reference(s, t, mu);
                    // 1000 EPS: rounding amplified by conditioning; see stmref.hpp
                    compare_stm(c, "stm", *p.second, R, 1000., desc);
                    c.trace();
                } catch (const std::exception &ex) {
                    c.fail("raises|" + what, ex.what());
                }
            }
    });
    return run.go();
}
