// P12: symmetries of the Lambert problem (all words of generators up to a length), rejected arguments, getters.
#include <kep3/lambert_problem.hpp>

#include "lam.hpp"

using namespace lam;
using chk::Case;

namespace
{
// generators of the symmetry group of the problem
enum { ROT1, ROT2, ROT3, MIRX, MIRY, MIRZ, REV, SC1, SC2, NG };
const char *gname[] = {"rot0.7", "rot90", "rot180", "mirror-x", "mirror-y", "mirror-z", "reverse", "scale-up", "scale-mu"};
struct S { // a problem with the exact transformation of its solutions
    A3 r0, r1;
    double tof, mu;
    bool cw;
    std::vector<A3> v0, v1;
};
void act(int g, S &s)
{
    auto rot = [&](Q cs, Q sn) {
        auto f = [&](A3 &a) {
            Q x = a[0], y = a[1];
            a[0] = dd(cs * x - sn * y);
            a[1] = dd(sn * x + cs * y);
        };
        f(s.r0);
        f(s.r1);
        for (auto &v : s.v0) f(v);
        for (auto &v : s.v1) f(v);
    };
    auto mir = [&](int k) {
        s.r0[k] = -s.r0[k];
        s.r1[k] = -s.r1[k];
        for (auto &v : s.v0) v[k] = -v[k];
        for (auto &v : s.v1) v[k] = -v[k];
        if (k < 2) s.cw = !s.cw;
    };
    auto scale = [&](double L, double T) { // lengths x L, times x T (powers of two: exact)
        for (int k = 0; k < 3; ++k) {
            s.r0[k] *= L;
            s.r1[k] *= L;
        }
        s.tof *= T;
        s.mu *= L * L * L / (T * T);
        for (auto &v : s.v0)
            for (auto &x : v) x *= L / T;
        for (auto &v : s.v1)
            for (auto &x : v) x *= L / T;
    };
    switch (g) {
        case ROT1: rot(cosq(Q(0.7)), sinq(Q(0.7))); break;
        case ROT2: rot(0, 1); break;
        case ROT3: rot(-1, 0); break;
        case MIRX: mir(0); break;
        case MIRY: mir(1); break;
        case MIRZ: mir(2); break;
        case REV:
            std::swap(s.r0, s.r1);
            std::swap(s.v0, s.v1);
            for (auto &v : s.v0)
                for (auto &x : v) x = -x;
            for (auto &v : s.v1)
                for (auto &x : v) x = -x;
            s.cw = !s.cw;
            break;
        case SC1: scale(1024., 1.); break;
        default: scale(0.25, 16384.); break;
    }
}
} // namespace

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool th = run.thorough();
    std::vector<double> ths{0.3, 1.2, 2.7, 3.5, 4.4, 6.0}, ratios{0.2, 0.95, 1., 3.};
    std::vector<double> Ts{0.05, 0.6, 1.3, 3.0, 7.1, 20.3};
    std::vector<Orient> os{{0., 0.3, 0.}, {0.4, 1.1, 2.2}, {1.5, 4.0, 0.7}, {2.6, 5.5, 4.4}, {3.141592653589793, 0.3, 1.9}, {1.6, 2.0, 5.1}};
    if (th) {
        ths.insert(ths.end(), {0.05, 0.8, 2., 3.1, 3.9, 5.2});
        ratios.insert(ratios.end(), {0.03, 0.6, 1.4, 10.});
        Ts.insert(Ts.end(), {0.3, 0.9, 2.1, 4.4, 10.7, 51.});
    }
    const int depth = th ? 5 : 4;
    struct Cfg {
        int u, o;
        double ratio, theta, T;
    };
    std::vector<Cfg> cfg;
    int rot = 0;
    for (double r : ratios)
        for (double t : ths)
            for (double T : Ts) {
                cfg.push_back({rot % static_cast<int>(units().size()), (rot / 6 + rot) % 6, r, t, T});
                rot++;
            }
    run.section("symmetry", cfg.size(), [&](std::uint64_t i, Case &c) {
        auto g = cfg[i];
        auto &un = units()[static_cast<size_t>(g.u)];
        for (bool cw : {false, true}) {
            auto p = make_prob(un, g.ratio, g.theta, os[static_cast<size_t>(g.o)], g.T, cw);
            auto ge = geometry(p.r0, p.r1, p.tof, p.mu, cw);
            int N;
            double margin;
            auto ref = solve(ge, p.mu, 5, N, margin);
            if (margin < 1e-6) {
                c.skip("at_minimum_time");
                continue;
            }
            kep3::lambert_problem base(p.r0, p.r1, p.tof, p.mu, cw, 5);
            S s0{p.r0, p.r1, p.tof, p.mu, cw, base.get_v0(), base.get_v1()};
            std::vector<double> n0, n1; // relative forward errors
            for (size_t j = 0; j < ref.size(); ++j) {
                double a = 0, b = 0;
                for (int k = 0; k < 3; ++k) {
                    a += std::pow(dd(ref[j].v0[k]), 2);
                    b += std::pow(dd(ref[j].v1[k]), 2);
                }
                n0.push_back(ref[j].err0 / std::sqrt(a));
                n1.push_back(ref[j].err1 / std::sqrt(b));
            }
            std::function<void(const S &, int, std::string)> walk = [&](const S &s, int d, std::string w) {
                c.state(chk::mixd(chk::mixd(chk::mixd(chk::mixd(chk::mix(12, s.cw), s.r0[0]), s.r1[1]), s.tof), s.r0[1]));
                auto key = p.what + " word=" + w;
                c.eval();
                c.trace();
                kep3::lambert_problem lp(s.r0, s.r1, s.tof, s.mu, s.cw, 5);
                if (lp.get_r0() != s.r0 || lp.get_r1() != s.r1 || lp.get_tof() != s.tof || lp.get_mu() != s.mu) c.fail("getters|" + key, "problem not reported back");
                if (lp.get_v0().size() != s.v0.size() || lp.get_v1().size() != s.v1.size() || lp.get_Nmax() != base.get_Nmax())
                    c.fail("solution_count_changes|" + key, std::to_string(lp.get_v0().size()) + " vs " + std::to_string(s.v0.size()));
                else
                    for (size_t j = 0; j < s.v0.size() && j < ref.size(); ++j) {
                        double e0 = 0, e1 = 0, m0 = 0, m1 = 0;
                        for (int k = 0; k < 3; ++k) {
                            e0 += std::pow(lp.get_v0()[j][k] - s.v0[j][k], 2);
                            e1 += std::pow(lp.get_v1()[j][k] - s.v1[j][k], 2);
                            m0 += std::pow(s.v0[j][k], 2);
                            m1 += std::pow(s.v1[j][k], 2);
                        }
                        // relative errors; time reversal exchanges the end points, so allow the larger of the two
                        double tol = 1000 * EPS * std::max(n0[j], n1[j]) * (1 + d);
                        c.within("symmetric_v0", std::sqrt(e0 / m0), tol, [&] { return key + " sol=" + std::to_string(j); });
                        c.within("symmetric_v1", std::sqrt(e1 / m1), tol, [&] { return key + " sol=" + std::to_string(j); });
                    }
                if (d == depth) return;
                for (int q = 0; q < NG; ++q) {
                    S n = s;
                    act(q, n);
                    c.trans();
                    walk(n, d + 1, w + (w.empty() ? "" : ".") + gname[q]);
                }
            };
            walk(s0, 0, "");
        }
    });
    // ---- argument acceptance: every combination of classes
    const double INF = HUGE_VAL;
    const std::vector<double> tofs{1., 1e-3, 50., 0., -0., -1e-300, -1., -INF}, mus{1., 1e-10, 4e14, 0., -0., -1e-300, -1., -INF};
    struct Pos {
        A3 a, b;
        bool ok;
    };
    std::vector<Pos> pos;
    // planes containing the z axis: second position in the half planes spanned by the first one and z
    for (double x : {1., -0.7, 0.1, 3e10})
        for (double y : {0., 1., -0.3, 0.123456789})
            for (double z0 : {0., 0.5, -2.})
                for (double f : {1., -1., 0.5, -4., 1024., -0.125})
                    for (double z1 : {1., -0.3}) {
                        if (z0 * x * f == x * z1) continue; // collinear
                        pos.push_back({{x, y, z0 * x}, {f * x, f * y, z1 * x}, false});
                    }
    for (double z : {1., -2.})
        for (double x : {1., -0.4})
            for (double y : {0., 0.9}) {
                pos.push_back({{0., 0., z}, {x, y, 0.3}, false});
                pos.push_back({{x, y, 0.3}, {0., 0., z}, false});
            }
    for (double x : {1., -0.7, 3e10})
        for (double z : {0., 0.5, -2., 100.})
            for (double te : {1e-3, 1., 2., 3., 3.3, 5., 6.28})
                for (double z1 : {0., 1., -50.}) // planes of ordinary inclination
                    pos.push_back({{x, 0., z * x}, {x * std::cos(te), x * std::sin(te), z1 * x}, true});
    // planes that nearly contain the z axis: accepted, in the asked direction, with the mirrored solutions for the
    // mirrored problem and with the same velocities as for the problem rotated into an ordinary plane
    struct Near {
        int u;
        double tilt, te, T;
    };
    std::vector<Near> near;
    for (int u = 0; u < static_cast<int>(units().size()); ++u)
        for (double ti : {1e-12, 1e-10, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2})
            for (int sg : {1, -1})
                for (double te : {0.4, 1.9, 3.6, 5.3})
                    for (double T : {0.4, 2.2, 9.}) near.push_back({u, sg * ti, te, T});
    run.section("near_vertical", near.size(), [&](std::uint64_t i, Case &c) {
        auto &g = near[i];
        auto &un = units()[static_cast<size_t>(g.u)];
        for (double W : {0., 1.1, 4.})
            for (double w : {0.3, 2.6})
                for (bool cw : {false, true}) {
                    auto p = make_prob(un, 1.3, g.te, {M_PI / 2 + g.tilt, W, w}, g.T, cw);
                    auto ge = geometry(p.r0, p.r1, p.tof, p.mu, cw);
                    auto key = p.what + " W=" + chk::d2s(W) + " w=" + chk::d2s(w) + " tilt=" + chk::d2s(g.tilt);
                    c.trans();
                    c.trace();
                    c.eval();
                    c.state(chk::mixd(chk::mixd(chk::mixd(chk::mix(77, cw), p.r0[0]), p.r1[0]), p.tof));
                    // the direction is decided by the sign of the z component of r0 x r1: beyond rounding?
                    Q hz = Q(p.r0[0]) * p.r1[1] - Q(p.r0[1]) * p.r1[0];
                    double R0 = norm3(p.r0), R1 = norm3(p.r1);
                    if (std::fabs(dd(hz)) < 1e-14 * R0 * R1) {
                        c.skip("vertical_up_to_rounding");
                        continue;
                    }
                    try {
                        kep3::lambert_problem lp(p.r0, p.r1, p.tof, p.mu, cw, 2);
                        int N;
                        double margin;
                        auto ref = solve(ge, p.mu, 2, N, margin);
                        if (margin < 1e-9) {
                            c.skip("at_minimum_time");
                            continue;
                        }
                        if (lp.get_v0().size() != ref.size()) {
                            c.fail("near_vertical_count|" + key, std::to_string(lp.get_v0().size()));
                            continue;
                        }
                        for (size_t j = 0; j < ref.size(); ++j) {
                            double e0 = 0, e1 = 0;
                            for (int k = 0; k < 3; ++k) {
                                e0 += std::pow(dd(Q(lp.get_v0()[j][k]) - ref[j].v0[k]), 2);
                                e1 += std::pow(dd(Q(lp.get_v1()[j][k]) - ref[j].v1[k]), 2);
                            }
                            c.within("near_vertical_v0", std::sqrt(e0), 3000 * EPS * ref[j].err0, [&] { return key; });
                            c.within("near_vertical_v1", std::sqrt(e1), 3000 * EPS * ref[j].err1, [&] { return key; });
                        }
                    } catch (const std::exception &ex) {
                        c.fail("near_vertical_raises|" + key, ex.what());
                    }
                }
    });
    run.section("acceptance", pos.size(), [&](std::uint64_t i, Case &c) {
        auto &p = pos[i];
        for (double t : tofs)
            for (double m : mus)
                for (bool cw : {false, true})
                    for (unsigned M : {0u, 1u, 4u}) {
                        c.trans();
                        c.eval();
                        c.trace();
                        c.state(chk::mixd(chk::mixd(chk::mix(chk::mix(13, i), M * 2 + cw), t), m));
                        bool want = p.ok && t > 0 && m > 0;
                        bool huge = std::fabs(p.a[0]) > 1e5;
                        double tt = t, mm = m;
                        if (huge && m > 0) mm = m * 1e30; // keep the dimensionless time moderate
                        auto key = chk::v2s(p.a) + chk::v2s(p.b) + " tof=" + chk::d2s(tt) + " mu=" + chk::d2s(mm) + (cw ? " cw" : "") + " M=" + std::to_string(M);
                        if (want && tt * std::sqrt(mm / std::pow(std::fabs(p.a[0]) + 1e-300, 3)) > 1e4) continue; // thousands of revolutions: P10
                        std::string got = "accepted";
                        try {
                            kep3::lambert_problem lp(p.a, p.b, tt, mm, cw, M);
                            if (want) {
                                if (lp.get_r0() != p.a || lp.get_r1() != p.b || lp.get_tof() != tt || lp.get_mu() != mm)
                                    c.fail("getters|" + key, "problem not reported back");
                                if (lp.get_v0().size() != 2 * lp.get_Nmax() + 1 || lp.get_Nmax() > M) c.fail("sizes|" + key, std::to_string(lp.get_v0().size()));
                            }
                        } catch (const std::domain_error &) {
                            got = "rejected";
                        } catch (const std::exception &e) {
                            got = std::string("raises another error: ") + e.what();
                        }
                        if (got != (want ? "accepted" : "rejected")) c.fail(std::string(want ? "valid_problem_not_accepted|" : "invalid_problem_not_rejected|") + key, got);
                    }
    });
    return run.go();
}
