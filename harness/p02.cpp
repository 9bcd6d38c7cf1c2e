// P02: all histories of propagation steps up to a depth; the model state is (initial orbit, exact elapsed time).
#include <kep3/core_astro/propagate_lagrangian.hpp>

#include "orbits.hpp"

using namespace orb;
using chk::Case;

namespace
{
struct Inv {
    Q en, h[3], e[3];
};
Inv invariants(const RV &s, double mu)
{
    ref::V3<Q> r{s[0][0], s[0][1], s[0][2]}, v{s[1][0], s[1][1], s[1][2]};
    Inv o;
    Q R = sqrtq(ref::dot3(r, r)), V2 = ref::dot3(v, v), rv = ref::dot3(r, v);
    o.en = V2 / 2 - Q(mu) / R;
    auto h = ref::cross3(r, v);
    for (int k = 0; k < 3; ++k) {
        o.h[k] = h[k];
        o.e[k] = ((V2 - Q(mu) / R) * r[k] - rv * v[k]) / Q(mu);
    }
    return o;
}
} // namespace

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool th = run.thorough();
    std::vector<double> es{0., 1e-7, 0.2, 0.7, 0.95, 0.999, 1.001, 1.2, 3.};
    std::vector<double> fr{0., 0.6, -0.8, 0.97};
    if (th) {
        es.insert(es.end(), {0.01, 0.5, 0.85, 0.99, 1.05, 1.6, 10., 50.});
        fr.insert(fr.end(), {-0.3, 0.3, 0.85, -0.95});
    }
    const int depth = th ? 5 : 4;
    struct Cfg {
        int u, o;
        double e, f;
    };
    std::vector<Cfg> cfg;
    int rot = 0;
    for (int u = 0; u < static_cast<int>(units().size()); ++u)
        for (double e : es)
            for (double x : fr) cfg.push_back({u, rot++ % 5, e, e < 1 ? x * M_PI : x * std::acos(-1 / e)});
    auto body = [&](std::uint64_t i, Case &c, int depth, bool special) {
        auto g = cfg[i];
        auto &un = units()[static_cast<size_t>(g.u)];
        auto &orn = orients()[static_cast<size_t>(g.o)];
        double a = g.e < 1 ? un.L : -un.L, mu = un.mu;
        const RV s0 = make(a, g.e, orn.i, orn.W, orn.w, g.f, mu);
        c.sample(std::string(un.name) + " e=" + chk::d2s(g.e) + " f=" + chk::d2s(g.f) + " rv=" + chk::rv2s(s0) + " alphabet^" + std::to_string(depth));
        double sc = std::sqrt(un.L * un.L * un.L / mu);
        // the alphabet of steps; the exact period is the period of the *rounded* initial state
        std::vector<double> dts;
        if (g.e < 1) {
            Q al = flowq(s0, 0.1 * sc, mu).alpha;
            double P = dd(2 * ref::PI / sqrtq(al * al * al * Q(mu)));
            dts = {0.05 * P, -0.05 * P, 0.37 * P, -0.63 * P, P, -P, 3.2 * P};
        } else
            dts = {0.05 * sc, -0.05 * sc, 1.3 * sc, -1.3 * sc, 7. * sc, -7. * sc, 0.4 * sc};
        if (special) { // steps next to zero, to whole and to half periods: total times a few ulps .. 1e-4 periods off
            double P = g.e < 1 ? dts[4] : sc;
            dts.clear();
            for (double x : {1e-12, 1e-9, 1e-6, 1e-4}) {
                dts.push_back(x * P);
                dts.push_back(-x * P);
            }
            for (double x : {1., 0.5}) {
                dts.push_back(x * P);
                dts.push_back(-x * P);
                for (double d : {1e-15, 1e-12, 1e-9, 1e-6})
                    for (int sg : {1, -1}) dts.push_back(x * P * (1 + sg * d));
            }
            dts.push_back(0.);
            dts.push_back(1000 * P);
            dts.push_back(-1000 * P * (1 + 1e-9));
        }
        const Inv i0 = invariants(s0, mu);
        std::string path;
        auto rec = [&](auto &&self, const RV &s, Q T, double Er, double Ev, int d) -> void {
            if (d == depth) {
                c.trace();
                return;
            }
            for (size_t k = 0; k < dts.size(); ++k) {
                double dt = dts[k];
                path.push_back(static_cast<char>('a' + k));
                c.trans();
                auto o = flow8(s, dt, mu);
                auto cond = flow_cond(o, s, dt, mu);
                RV y{};
                bool bad = false;
                try {
                    y = kep3::propagate_lagrangian(s, dt, mu, false).first;
                } catch (const std::exception &ex) {
                    c.fail("raises|" + std::string(un.name) + " e=" + chk::d2s(g.e) + " f=" + chk::d2s(g.f) + " steps=" + path, ex.what());
                    bad = true;
                }
                if (!bad) {
                    // error bound of this history (block norms of the step Jacobian)
                    double J[2][2];
                    for (int p = 0; p < 2; ++p)
                        for (int q = 0; q < 2; ++q) {
                            double n = 0;
                            for (int x = 0; x < 3; ++x)
                                for (int z = 0; z < 3; ++z) n += std::pow(dd(o.y[p * 3 + x].d[q * 3 + z]), 2);
                            J[p][q] = std::sqrt(n);
                        }
                    const double K = 200;
                    double nEr = J[0][0] * Er + J[0][1] * Ev + K * EPS * cond[0], nEv = J[1][0] * Er + J[1][1] * Ev + K * EPS * cond[1];
                    Q nT = T + Q(dt);
                    // exact model: elapsed time from the initial state
                    auto ex = ref::flow<Q>({Q(s0[0][0]), Q(s0[0][1]), Q(s0[0][2]), Q(s0[1][0]), Q(s0[1][1]), Q(s0[1][2])}, nT, Q(mu));
                    double er = 0, ev = 0, rn = 0;
                    for (int m = 0; m < 3; ++m) {
                        er += std::pow(dd(Q(y[0][m]) - ex.y[m]), 2);
                        ev += std::pow(dd(Q(y[1][m]) - ex.y[3 + m]), 2);
                        rn += std::pow(dd(ex.y[m]), 2);
                    }
                    auto desc = [&] { return std::string(un.name) + " e=" + chk::d2s(g.e) + " f=" + chk::d2s(g.f) + " steps=" + path; };
                    c.eval();
                    c.state(chk::mixd(chk::mixd(chk::mixd(chk::mix(7, i), y[0][0]), y[0][1]), y[1][2]));
                    double R = norm3(y[0]), V = norm3(y[1]);
                    if (nEr > 0.01 * R || nEv > 0.01 * V) {
                        c.skip("ill_conditioned_history");
                        path.pop_back();
                        continue;
                    }
                    c.count(nEr > 1e-6 * R ? "tol_rel_above_1e-6" : nEr > 1e-9 * R ? "tol_rel_1e-9_1e-6" : "tol_rel_below_1e-9");
                    bool ok = c.within("history_position", std::sqrt(er), nEr, desc);
                    ok &= c.within("history_velocity", std::sqrt(ev), nEv, desc);
                    auto iv = invariants(y, mu);
                    double te = V * nEv + mu / R / R * nEr + 0.5 * nEv * nEv, thh = R * nEv + V * nEr,
                           tec = nEr * (2 * V * V / mu + 2 / R) + nEv * (4 * R * V / mu);
                    ok &= c.within("energy", std::fabs(dd(iv.en - i0.en)), 2 * te, desc);
                    double dh = 0, de = 0;
                    for (int m = 0; m < 3; ++m) {
                        dh += std::pow(dd(iv.h[m] - i0.h[m]), 2);
                        de += std::pow(dd(iv.e[m] - i0.e[m]), 2);
                    }
                    ok &= c.within("angular_momentum", std::sqrt(dh), 2 * thh, desc);
                    ok &= c.within("eccentricity_vector", std::sqrt(de), 2 * tec, desc);
                    // return to the start: |total| = 0 or whole periods is covered because the model is exact in T
                    if (ok) self(self, y, nT, nEr, nEv, d + 1);
                }
                path.pop_back();
            }
        };
        rec(rec, s0, Q(0), 0., 0., 0);
    };
    run.section("histories", cfg.size(), [&](std::uint64_t i, Case &c) { body(i, c, depth, false); });
    // every second initial orbit in the quick tier (all orbits are visited: the list is shifted per unit system)
    run.section("special_steps", cfg.size(), [&](std::uint64_t i, Case &c) {
        if (th)
            body(i, c, 3, true);
        else
            body(i, c, 2, true);
    });
    return run.go();
}
