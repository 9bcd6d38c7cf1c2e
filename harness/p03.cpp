// P03: every two-body propagator against the exact flow and against each other.
#include <optional>

#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/core_astro/stm.hpp>

#include "orbits.hpp"

using namespace orb;
using chk::Case;

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool th = run.thorough();
    std::vector<double> es{0., 1e-9, 1e-4, 0.05, 0.3, 0.7, 0.9, 0.97, 0.99, 0.999, 1.001, 1.01, 1.1, 1.5, 3., 10., 50.};
    std::vector<double> fr{0., 1e-9, 0.15, -0.15, 0.5, -0.5, 0.8, -0.8, 0.95, -0.95, 1.};
    std::vector<double> te{0., 1e-9, 1e-3, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 1., 1.3, 1.5, 2.7, 10.1, 123.4};
    std::vector<double> hy{0., 1e-9, 1e-3, 0.05, 0.3, 1., 2., 5., 12., 50., 300., 1e4};
    if (th) {
        es.insert(es.end(), {1e-7, 0.01, 0.2, 0.5, 0.6, 0.8, 0.95, 0.995, 0.9999, 1.0001, 1.005, 1.05, 1.2, 2., 5., 20., 100.});
        fr.insert(fr.end(), {-1e-9, 0.3, -0.3, 0.65, -0.65, 0.9, -0.9, 0.99, -0.99, 0.999999});
        te.insert(te.end(), {1e-5, 0.02, 0.05, 0.15, 0.33, 0.45, 0.55, 0.68, 0.83, 0.97, 0.999999, 1.000001, 1.7, 3.3, 33.3, 1000.7});
        hy.insert(hy.end(), {1e-5, 0.1, 0.6, 1.5, 3.5, 8., 25., 100., 1000., 1e5, 1e6});
    }
    struct Cfg {
        int u, o;
        double e, f;
    };
    std::vector<Cfg> cfg;
    int rot = 0;
    for (int u = 0; u < static_cast<int>(units().size()); ++u)
        for (double e : es)
            for (double x : fr) {
                if (e > 1 && std::fabs(x) > 0.999) continue;
                double f = e < 1 ? x * M_PI : x * std::acos(-1 / e);
                if (th)
                    for (int o = 0; o < 5; ++o) cfg.push_back({u, o, e, f});
                else
                    cfg.push_back({u, rot++ % 5, e, f});
            }
    auto errs = [&](const RV &y, const ref::FlowOut<D8> &o) {
        double er = 0, ev = 0;
        for (int k = 0; k < 3; ++k) {
            er += std::pow(dd(Q(y[0][k]) - o.y[k].v), 2);
            ev += std::pow(dd(Q(y[1][k]) - o.y[3 + k].v), 2);
        }
        return std::array<double, 2>{std::sqrt(er), std::sqrt(ev)};
    };
    run.section("orbits", cfg.size(), [&](std::uint64_t i, Case &c) {
        auto g = cfg[i];
        auto &un = units()[static_cast<size_t>(g.u)];
        auto &orn = orients()[static_cast<size_t>(g.o)];
        double a = g.e < 1 ? un.L : -un.L, mu = un.mu;
        auto s = make(a, g.e, orn.i, orn.W, orn.w, g.f, mu);
        double R0 = norm3(s[0]), V0 = norm3(s[1]);
        double scale = std::sqrt(un.L * un.L * un.L / mu);
        std::string ob = std::string(un.name) + " e=" + chk::d2s(g.e) + " f=" + chk::d2s(g.f) + " o=" + std::to_string(g.o);
        c.sample(ob + " rv=" + chk::rv2s(s));
        std::vector<double> tofs;
        for (double x : (g.e < 1 ? te : hy))
            for (int sg = 1; sg >= -1; sg -= 2) tofs.push_back(sg * x * scale * (g.e < 1 ? 2 * M_PI : 1.));
        std::vector<std::pair<RV, std::optional<std::array<double, 36>>>> scal, scal_s;
        for (double t : tofs) {
            std::string what = ob + " t/T=" + chk::d2s(t / scale);
            auto desc = [&] { return what; };
            c.state(chk::mixd(chk::mixd(chk::mixd(3, s[0][0]), s[1][1]), t));
            auto o = flow8(s, t, mu);
            auto cond = flow_cond(o, s, t, mu);
            try {
                scal.push_back(kep3::propagate_lagrangian(s, t, mu, false));
                scal_s.push_back(kep3::propagate_lagrangian(s, t, mu, true));
                c.eval();
                if (scal.back().second.has_value() || !scal_s.back().second.has_value()) c.fail("stm_presence_scalar|" + what, "");
                // Reynolds: state from the Lagrangian propagation
                auto y1 = kep3::propagate_stm_reynolds(s, t, mu, false);
                c.trans(3);
                c.trace();
                auto e1 = errs(y1.first, o);
                c.within("reynolds_state", std::max(e1[0] / cond[0], e1[1] / cond[1]), 1000 * EPS, desc);
                if (y1.second.has_value()) c.fail("stm_presence_reynolds|" + what, "");
                if (g.e != 0 || true) {
                    auto y2 = kep3::propagate_stm_reynolds(s, t, mu, true);
                    c.trans();
                    if (!y2.second.has_value()) c.fail("stm_presence_reynolds|" + what, "");
                    if (y2.first != y1.first) c.fail("stm_changes_state_reynolds|" + what, "");
                }
            } catch (const std::exception &ex) {
                c.fail("raises_lagrangian_or_reynolds|" + what, ex.what());
                return;
            }
            // universal variables: the same conditioning plus the near-parabolic loss of its closed-form Stumpff functions
            double near_par = 1 + 1 / std::fabs(R0 * dd(o.alpha));
            try {
                auto y = kep3::propagate_lagrangian_u(s, t, mu, false).first;
                c.trans();
                c.trace();
                c.eval();
                auto e = errs(y, o);
                double n1 = 0, n2 = 0;
                for (int k = 0; k < 3; ++k) {
                    n1 += std::pow(dd(o.y[k].d[6]), 2);
                    n2 += std::pow(dd(o.y[k + 3].d[6]), 2);
                }
                double Rf = std::sqrt(dd(o.y[0].v * o.y[0].v + o.y[1].v * o.y[1].v + o.y[2].v * o.y[2].v));
                double extra_r = near_par * (R0 + Rf), extra_v = near_par * (V0 + mu * std::sqrt(n1) / (Rf * Rf) / 1.) * 0;
                (void)extra_v;
                extra_v = near_par * (V0 + std::sqrt(n1)) * (1 + R0 / Rf);
                double K = 1000;
                c.within("universal_position", e[0], K * EPS * (cond[0] + extra_r), desc);
                c.within("universal_velocity", e[1], K * EPS * (cond[1] + extra_v), desc);
                if (c.verbose) std::printf("%s u: %s\n", what.c_str(), chk::rv2s(y).c_str());
            } catch (const std::exception &ex) {
                c.fail("raises_universal|" + what, ex.what());
            }
            // element based: needs well defined Keplerian elements
            bool sing = g.e < 1e-3 || std::fabs(std::sin(orn.i)) < 1e-3;
            if (sing) {
                c.skip("element_based_singular");
                continue;
            }
            try {
                auto y = kep3::propagate_keplerian(s, t, mu, false).first;
                c.trans();
                c.trace();
                c.eval();
                auto e = errs(y, o);
                // angle errors of the acos-based element extraction (sqrt(eps) next to the apsides / nodes)
                double al = std::fabs(dd(o.alpha)), ee = g.e, om = std::fabs(1 - ee * ee);
                auto acos_err = [&](double sn, double rel) { return std::min(rel / std::max(std::fabs(sn), 1e-300), std::sqrt(2 * rel)); };
                const double K = 200;
                double rel = K * EPS * (1 + 1 / ee);
                double df = acos_err(std::sin(g.f), rel), dw = acos_err(std::sin(orn.w), rel * (1 + 1 / std::fabs(std::sin(orn.i)))),
                       dW = acos_err(std::sin(orn.W), K * EPS / std::fabs(std::sin(orn.i))), di = acos_err(std::sin(orn.i), K * EPS);
                double hmag = std::sqrt(mu * om / al);
                double dt_f = df * R0 * R0 / hmag;                  // shift along the orbit
                double dt_a = 1.5 * std::fabs(t) * K * EPS * (1 + 1 / om);  // error in the mean motion
                // mean anomaly errors (angles of size pi, hyperbolic terms) and the error in e
                double H = al > 0 ? std::sqrt(al) * std::fabs(dd(o.chi)) : 0;
                double terms = dd(o.alpha) > 0 ? 2 * M_PI : (2 + H + ee * std::cosh(std::min(300., H + 5)));
                (void)terms;
                double n1 = 0, n2 = 0, y1 = 0, y2 = 0;
                for (int k = 0; k < 3; ++k) {
                    n1 += std::pow(dd(o.y[k].d[6]), 2);
                    n2 += std::pow(dd(o.y[k + 3].d[6]), 2);
                    y1 += std::pow(dd(o.y[k].v), 2);
                    y2 += std::pow(dd(o.y[k + 3].v), 2);
                }
                n1 = std::sqrt(n1), n2 = std::sqrt(n2), y1 = std::sqrt(y1), y2 = std::sqrt(y2);
                // sensitivity of M and of the final f to e: bounded by (1 + 1/om) radians of anomaly, at both ends
                double amp = 1 + 1 / om;
                double dang = K * EPS * amp * (ee > 1 ? 1 + ee : 1.);
                double dt_e = dang * (R0 * R0 / hmag + 2 * M_PI * std::pow(al, -1.5) / std::sqrt(mu) * (ee < 1 ? 1 : 0) + std::fabs(t));
                double ang_end = dang * y1 * y1 / hmag; // final anomaly error as time
                double dtt = dt_f + dt_a + dt_e + ang_end;
                double rotn = df * 0 + dw + dW + di + dang;
                double tr = K * EPS * cond[0] + n1 * dtt + y1 * rotn + K * EPS * amp * y1, tv = K * EPS * cond[1] + n2 * dtt + y2 * rotn + K * EPS * amp * y2;
                // near the asymptote the true anomaly determines the radius badly (1 + e cos f cancels)
                double cf = 0;
                {
                    double p = om / al;
                    cf = std::max(y1, R0) / p; // 1/(1+e cos f)
                }
                tr += K * EPS * (1 + ee) * (1 + cf) * (y1 + n1 * R0 * R0 / hmag * (1 + cf)) + K * EPS * (1 + ee) * cf * cf * y1;
                tv += K * EPS * (1 + ee) * (1 + cf) * (y2 + n2 * R0 * R0 / hmag * (1 + cf)) + K * EPS * (1 + ee) * cf * y2;
                if (!(tr < 1e-3 * y1) || !(tv < 1e-3 * y2)) {
                    c.skip("element_based_ill_conditioned");
                    continue;
                }
                c.within("element_position", e[0], tr, desc);
                c.within("element_velocity", e[1], tv, desc);
                if (c.verbose) std::printf("%s k: %s\n", what.c_str(), chk::rv2s(y).c_str());
            } catch (const std::exception &ex) {
                c.fail("raises_element|" + what, ex.what());
            }
        }
        // the vectorised propagator: same length, same order, bit-identical, STM if and only if asked
        for (bool stm : {false, true}) {
            auto &expd = stm ? scal_s : scal;
            try {
                auto v = kep3::propagate_lagrangian_v(s, tofs, mu, stm);
                c.trans();
                c.trace();
                c.eval();
                if (v.size() != tofs.size()) {
                    c.fail("vector_size|" + ob, std::to_string(v.size()));
                    continue;
                }
                for (size_t k = 0; k < v.size(); ++k) {
                    if (v[k].second.has_value() != stm) c.fail("vector_stm_presence|" + ob, std::to_string(k));
                    bool same = v[k].first == expd[k].first && (!stm || *v[k].second == *expd[k].second);
                    if (!same) c.fail("vector_differs|" + ob + " k=" + std::to_string(k), chk::rv2s(v[k].first) + " vs " + chk::rv2s(expd[k].first));
                }
            } catch (const std::exception &ex) {
                c.fail("raises_vector|" + ob, ex.what());
            }
        }
        // other lengths and orders of the list of times
        for (int pat = 0; pat < 4; ++pat) {
            std::vector<double> tt;
            std::vector<size_t> id;
            for (size_t k = 0; k < tofs.size(); ++k)
                if (pat == 1 ? k % 3 == 0 : pat == 2 ? k == 5 : pat == 3) {
                    size_t q = pat == 3 ? tofs.size() - 1 - k : k;
                    tt.push_back(tofs[q]);
                    id.push_back(q);
                    if (pat == 1) { // duplicates
                        tt.push_back(tofs[q]);
                        id.push_back(q);
                    }
                }
            auto v = kep3::propagate_lagrangian_v(s, tt, mu, pat == 3);
            c.trans();
            if (v.size() != tt.size()) {
                c.fail("vector_size|" + ob + " pat=" + std::to_string(pat), std::to_string(v.size()));
                continue;
            }
            for (size_t k = 0; k < v.size(); ++k)
                if (v[k].first != scal[id[k]].first) c.fail("vector_order|" + ob + " pat=" + std::to_string(pat), std::to_string(k));
        }
    });
    // parabolas (energy exactly zero): only the universal formulation is defined on them
    struct Par {
        double R, mu;
        std::array<double, 3> v;
    };
    std::vector<Par> pars;
    for (double sc : {1., 1024., 1048576. * 1024})
        for (auto v : std::vector<std::array<double, 3>>{{0, 5, 0}, {3, 4, 0}, {-3, 4, 0}, {4, 0, 3}, {-4, 0, 3}, {0, 3, -4}, {5, 0, 0}})
            pars.push_back({2 * sc, 25. * sc, v});
    run.section("parabolas", pars.size(), [&](std::uint64_t i, Case &c) {
        auto p = pars[i];
        RV s{{{p.R, 0, 0}, p.v}};
        for (double x : {1e-3, 0.1, 0.5, 1., 3., 10., 100., 1e4})
            for (int sg : {1, -1}) {
                double t = sg * x * p.R / 5;
                if (p.v[0] == 5 && sg < 0 && x > 0.1) continue; // collision
                std::string what = "R=" + chk::d2s(p.R) + " v=" + chk::v2s(p.v) + " t=" + chk::d2s(t);
                auto o = flowq(s, t, p.mu);
                c.state(chk::mixd(chk::mixd(i, t), 9));
                c.trans();
                c.trace();
                c.eval();
                try {
                    auto y = kep3::propagate_lagrangian_u(s, t, p.mu, false).first;
                    double er = 0, ev = 0, rn = 0, vn = 0;
                    for (int k = 0; k < 3; ++k) {
                        er += std::pow(dd(Q(y[0][k]) - o.y[k]), 2);
                        ev += std::pow(dd(Q(y[1][k]) - o.y[3 + k]), 2);
                        rn += std::pow(dd(o.y[k]), 2);
                        vn += std::pow(dd(o.y[k + 3]), 2);
                    }
                    auto d = [&] { return what; };
                    c.within("parabola_position", std::sqrt(er / rn), 1e-10, d);
                    c.within("parabola_velocity", std::sqrt(ev / vn), 1e-10, d);
                } catch (const std::exception &ex) {
                    c.fail("raises_parabola|" + what, ex.what());
                }
            }
    });
    // every list of times up to a length over an alphabet of special and nearly equal times
    std::vector<Cfg> nc;
    for (double e : {0., 0.3, 0.9, 1.2, 5.})
        for (double x : {0., 0.5, -0.8}) nc.push_back({rot++ % static_cast<int>(units().size()), rot % 5, e, e < 1 ? x * M_PI : x * std::acos(-1 / e)});
    const int maxlen = th ? 5 : 4;
    run.section("time_lists", nc.size(), [&](std::uint64_t i, Case &c) {
        auto g = nc[i];
        auto &un = units()[static_cast<size_t>(g.u)];
        auto &orn = orients()[static_cast<size_t>(g.o)];
        auto s = make(g.e < 1 ? un.L : -un.L, g.e, orn.i, orn.W, orn.w, g.f, un.mu);
        double sc = std::sqrt(un.L * un.L * un.L / un.mu), t = 0.7 * sc;
        std::vector<double> al{t, std::nextafter(t, 1e300), t * (1 + 1e-12), t * (1 + 1e-9), t * (1 + 1e-6), -t, 0., -0., 2 * t, 2 * M_PI * sc, 1e-9 * sc, 12. * sc};
        std::vector<std::pair<RV, std::optional<std::array<double, 36>>>> one[2];
        for (int st = 0; st < 2; ++st)
            for (double x : al) one[st].push_back(kep3::propagate_lagrangian(s, x, un.mu, st));
        std::string ob = std::string(un.name) + " e=" + chk::d2s(g.e) + " f=" + chk::d2s(g.f);
        std::vector<size_t> id;
        auto rec = [&](auto &&self) -> void {
            std::vector<double> tt;
            for (auto q : id) tt.push_back(al[q]);
            for (int st = 0; st < 2; ++st) {
                std::string key = ob + (st ? " stm" : "") + " list=";
                auto nm = [&] {
                    std::string k = key;
                    for (auto q : id) k += static_cast<char>('a' + q);
                    return k;
                };
                c.trans();
                c.eval();
                try {
                    auto v = kep3::propagate_lagrangian_v(s, tt, un.mu, st);
                    if (v.size() != tt.size())
                        c.fail("vector_size|" + nm(), std::to_string(v.size()));
                    else
                        for (size_t k = 0; k < v.size(); ++k)
                            if (v[k].first != one[st][id[k]].first || v[k].second != one[st][id[k]].second) c.fail("vector_differs|" + nm() + " k=" + std::to_string(k), chk::rv2s(v[k].first) + " vs " + chk::rv2s(one[st][id[k]].first));
                } catch (const std::exception &ex) {
                    c.fail("raises_vector|" + nm(), ex.what());
                }
            }
            std::uint64_t h = chk::mix(31, i);
            for (auto q : id) h = chk::mix(h, q);
            c.state(h);
            if (static_cast<int>(id.size()) == maxlen) {
                c.trace();
                return;
            }
            for (size_t q = 0; q < al.size(); ++q) {
                id.push_back(q);
                self(self);
                id.pop_back();
            }
        };
        rec(rec);
    });
    return run.go();
}
