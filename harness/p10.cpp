// P10: every solution solves its boundary value problem (right time, direction, revolutions).
// P11: all solutions are returned, once, in order.   Selected with -DPROP=10|11.
#include <kep3/lambert_problem.hpp>

#include "lam.hpp"

using namespace lam;
using chk::Case;

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool th = run.thorough();
    std::vector<double> ths{1e-3, 0.05, 0.4, 1.1, M_PI / 2, 2.4, 3.0, 3.13, 3.16, 3.3, 4.1, 5.0, 5.9, 6.25};
    std::vector<double> ratios{0.01, 0.3, 0.9, 1., 1.2, 4., 60.};
    // times: multiples of the parabolic time, of the x = 0 time, around minimum times, absolute
    std::vector<double> f1{1e-6, 1e-3, 0.05, 0.3, 0.8, 0.97, 0.9999, 0.9999999, 1.0000001, 1.0001, 1.02};
    std::vector<double> f2{0.5, 0.9, 0.999, 1., 1.001, 1.3};
    std::vector<double> Ts{3.2, 4.1, 6.2, 6.4, 9.3, 9.6, 14., 22., 47., 160.};
    std::vector<double> fm{1 - 1e-3, 1 - 1e-6, 1 + 1e-6, 1 + 1e-4, 1 + 1e-2}; // around Tmin(N), N = 1, 2, 5
    if (th) {
        ths.insert(ths.end(), {1e-4, 0.01, 0.2, 0.7, 2., 2.8, 3.1, 3.139, 3.145, 3.6, 4.6, 5.5, 6.1, 6.28});
        ratios.insert(ratios.end(), {0.001, 0.1, 0.6, 0.9999, 1.0001, 1.7, 10., 300.});
        f1.insert(f1.end(), {1e-8, 1e-4, 0.01, 0.15, 0.5, 0.9, 0.99, 0.999, 0.999999, 0.999999999, 1.000000001, 1.001});
        f2.insert(f2.end(), {0.2, 0.7, 0.97, 0.999999, 1.000001, 1.03});
        Ts.insert(Ts.end(), {3.5, 5., 7.5, 11., 12.6, 18., 30., 70., 100., 400.});
        fm.insert(fm.end(), {1 - 1e-4, 1 - 1e-8, 1 + 1e-8, 1 + 1e-5, 1 + 1e-3, 1.1});
    }
    const int bigM = th ? 200 : 60;
    struct Cfg {
        int u, o;
        double ratio, theta;
    };
    std::vector<Cfg> cfg;
    const std::vector<Orient> ors{{0., 0., 0.}, {0.4, 1.1, 2.2}, {1.5, 4.0, 0.7}, {2.6, 5.5, 4.4}, {3.141592653589793, 0.3, 1.9}, {1.6, 2.0, 5.1}};
    int rot = 0;
    for (double r : ratios)
        for (double t : ths)
            for (int u = 0; u < static_cast<int>(units().size()); ++u)
                cfg.push_back({u, (rot++ * 5 + u) % 6, r, t});
    run.section("problems", cfg.size(), [&](std::uint64_t i, Case &c) {
        auto g = cfg[i];
        auto &un = units()[static_cast<size_t>(g.u)];
        for (bool cw : {false, true}) {
            auto p0 = make_prob(un, g.ratio, g.theta, ors[static_cast<size_t>(g.o)], 1., cw);
            auto g0 = geometry(p0.r0, p0.r1, p0.tof, p0.mu, cw);
            std::vector<double> T;
            for (double f : f1) T.push_back(f * dd(g0.T1));
            for (double f : f2) T.push_back(f * dd(g0.T00));
            for (double t : Ts) T.push_back(t);
            for (int n : {1, 2, 5}) {
                Q tm = tof_x(g0.lam, x_min(g0.lam, n), n);
                for (double f : fm) T.push_back(f * dd(tm));
            }
            const auto nT = T.size(); // from here on: long times, few revolutions (x close to 1 and to -1)
            for (double t : {500., 1000., 3000., 1e4, 1e5, 1e6}) T.push_back(t);
            for (size_t ti = 0; ti < T.size(); ++ti) {
                const double t = T[ti];
                auto p = make_prob(un, g.ratio, g.theta, ors[static_cast<size_t>(g.o)], t, cw);
                auto gg = geometry(p.r0, p.r1, p.tof, p.mu, cw);
                std::string what = p.what;
                std::vector<std::array<double, 3>> first;
                const int NM = std::min(ti < nT ? bigM : th ? 12 : 3, static_cast<int>(t / M_PI) + 2);
                std::vector<int> Ms{NM};
#if PROP == 11
                Ms = {0, 1, 2, 3, 7, NM};
                if (ti >= nT) Ms = {1, NM};
                std::sort(Ms.begin(), Ms.end());
                Ms.erase(std::unique(Ms.begin(), Ms.end()), Ms.end());
                int Nref;
                double margin;
                auto sols = solve(gg, p.mu, *std::max_element(Ms.begin(), Ms.end()), Nref, margin);
#endif
                for (int M : Ms) {
                    kep3::lambert_problem lp(p.r0, p.r1, p.tof, p.mu, cw, static_cast<unsigned>(M));
                    c.trans();
                    c.trace();
                    auto &v0 = lp.get_v0(), &v1 = lp.get_v1();
                    auto &x = lp.get_x();
#if PROP == 11
                    c.eval();
                    int N = std::min(M, Nref);
                    c.state(chk::mixd(chk::mixd(chk::mix(static_cast<unsigned>(M), i), p.tof), cw));
                    if (margin < 1e-9) {
                        c.skip("at_minimum_time");
                        continue;
                    }
                    auto key = what + " M=" + std::to_string(M);
                    if (static_cast<int>(lp.get_Nmax()) != N) {
                        c.fail("wrong_number_of_revolutions|" + key, "reported " + std::to_string(lp.get_Nmax()) + " exact " + std::to_string(N) + " T=" + chk::d2s(dd(gg.T)));
                        continue;
                    }
                    size_t len = static_cast<size_t>(2 * N + 1);
                    if (v0.size() != len || v1.size() != len || x.size() != len || lp.get_iters().size() != len) {
                        c.fail("wrong_list_length|" + key, std::to_string(v0.size()) + " " + std::to_string(v1.size()) + " " + std::to_string(x.size()));
                        continue;
                    }
                    for (size_t j = 0; j < len; ++j) {
                        auto dist = [&](const Sol &s) {
                            double d = 0;
                            for (int k = 0; k < 3; ++k) d += std::pow(dd(Q(v0[j][k]) - s.v0[k]), 2);
                            return std::sqrt(d);
                        };
                        double own = dist(sols[j]);
                        // solution j must be the exact solution j: within its conditioning
                        c.within(j == 0 ? "solution_0_rev" : (j % 2 ? "solution_left" : "solution_right"), own, 3000 * EPS * sols[j].err0, [&] { return key + " solution=" + std::to_string(j); });
                        if (j && j % 2 == 0) {
                            if (!(x[j - 1] < x[j])) c.fail("left_not_below_right|" + key, chk::v2s(x));
                        }
                    }
#else
                    for (size_t j = 0; j < v0.size(); ++j) {
                        auto key = what + " solution=" + std::to_string(j);
                        c.eval();
                        c.state(chk::mixd(chk::mixd(chk::mix(j, i), p.tof), cw));
                        RV s{p.r0, v0[j]};
                        bool fin = true;
                        for (int k = 0; k < 3; ++k) fin = fin && std::isfinite(v0[j][k]) && std::isfinite(v1[j][k]);
                        if (!fin) {
                            c.fail("not_finite|" + key, chk::v2s(v0[j]) + chk::v2s(v1[j]));
                            continue;
                        }
                        // energy and direction
                        Q R = 0, V2 = 0;
                        for (int k = 0; k < 3; ++k) {
                            R += Q(p.r0[k]) * p.r0[k];
                            V2 += Q(v0[j][k]) * v0[j][k];
                        }
                        R = sqrtq(R);
                        Q al = 2 / R - V2 / Q(p.mu);
                        Q hz = Q(p.r0[0]) * v0[j][1] - Q(p.r0[1]) * v0[j][0];
                        // beyond the rounding of the velocity itself (planes that nearly contain z, nearly radial flights)
                        double hr = 100 * EPS * std::sqrt(dd(R * R * V2)) * (1 + gg.amp);
                        if (std::fabs(dd(hz)) < hr) c.skip("direction_within_rounding");
                        else if ((hz > 0) == cw) c.fail("wrong_direction|" + key, "hz=" + chk::d2s(dd(hz)));
                        double revs = al <= 0 ? 0. : dd(Q(p.tof) * sqrtq(Q(p.mu)) * powq(al, Q(3) / 2) / (2 * ref::PI));
                        double want = static_cast<double>((j + 1) / 2);
                        // revolutions are known up to the rounding of the energy
                        double rt = al <= 0 ? 0. : 3000 * EPS * (1 + gg.amp) * 1.5 * (revs + 1) * dd((2 / R + 2 * V2 / Q(p.mu)) / al);
                        if (revs < want - rt || revs >= want + 1 + rt) c.fail("wrong_revolutions|" + key, "makes " + chk::d2s(revs) + " expected " + chk::d2s(want));
                        auto o = flow8(s, p.tof, p.mu);
                        auto cd = flow_cond(o, s, p.tof, p.mu);
                        double er = 0, ev = 0;
                        for (int k = 0; k < 3; ++k) {
                            er += std::pow(dd(Q(p.r1[k]) - o.y[k].v), 2);
                            ev += std::pow(dd(Q(v1[j][k]) - o.y[3 + k].v), 2);
                        }
                        double A = 1 + gg.amp;
                        c.within("joins_position", std::sqrt(er), 3000 * EPS * cd[0] * A, [&] { return key; });
                        c.within("joins_velocity", std::sqrt(ev), 3000 * EPS * cd[1] * A, [&] { return key; });
                    }
#endif
                    c.sample(what + " M=" + std::to_string(M) + " -> " + std::to_string(v0.size()) + " solutions");
                }
            }
        }
    });
#if PROP == 10
    // the floats around the parabolic time of flight
    const std::vector<double> pth{0.05, 0.4, 1.1, M_PI / 2, 2.4, 3.3, 5., 6.1}, pra{0.3, 1., 1.2, 4., 60.};
    const int W = th ? 200 : 24;
    run.section("parabolic", pth.size() * pra.size() * units().size(), [&](std::uint64_t i, Case &c) {
        auto &un = units()[i % units().size()];
        double ra = pra[i / units().size() % pra.size()], te = pth[i / units().size() / pra.size()];
        for (bool cw : {false, true}) {
            auto p = make_prob(un, ra, te, ors[i % 6], 1., cw);
            auto g = geometry(p.r0, p.r1, p.tof, p.mu, cw);
            double t = dd(Q(p.tof) * g.T1 / g.T);
            for (int k = 0; k < W; ++k) t = std::nextafter(t, 0.);
            for (int k = -W; k <= W; ++k, t = std::nextafter(t, 1e300)) {
                kep3::lambert_problem lp(p.r0, p.r1, t, p.mu, cw, 0);
                c.trans();
                c.trace();
                c.eval();
                c.state(chk::mixd(chk::mix(77, i), t));
                auto key = "parabolic " + p.what + " ulp=" + std::to_string(k);
                if (lp.get_v0().size() != 1) {
                    c.fail("parabolic_count|" + key, std::to_string(lp.get_v0().size()));
                    continue;
                }
                // the exact velocity of the parabola; the neighbouring floats differ by rounding only
                auto gg = geometry(p.r0, p.r1, t, p.mu, cw);
                int N;
                double m;
                auto s = solve(gg, p.mu, 0, N, m);
                double e0 = 0, e1 = 0;
                for (int q = 0; q < 3; ++q) {
                    e0 += std::pow(dd(Q(lp.get_v0()[0][q]) - s[0].v0[q]), 2);
                    e1 += std::pow(dd(Q(lp.get_v1()[0][q]) - s[0].v1[q]), 2);
                }
                c.within("parabolic_v0", std::sqrt(e0), 3000 * EPS * s[0].err0, [&] { return key; });
                c.within("parabolic_v1", std::sqrt(e1), 3000 * EPS * s[0].err1, [&] { return key; });
            }
        }
    });
#endif
    return run.go();
}
