// P21: keplerian bodies: every way of constructing x every orbit x every date x every element type queried.
#include <kep3/epoch.hpp>
#include <kep3/planet.hpp>
#include <kep3/udpla/keplerian.hpp>

#include "elcheck.hpp"

using namespace el;
using chk::Case;
using kep3::udpla::keplerian;

namespace
{
constexpr kep3::elements_type TY[4] = {kep3::elements_type::KEP_F, kep3::elements_type::KEP_M, kep3::elements_type::MEQ, kep3::elements_type::MEQ_R};
Q true_of(Q M, Q e) // f from M, ellipse
{
    Q Mw = wrapq(M), lo = -ref::PI - 1, hi = ref::PI + 1, E = Mw;
    for (int k = 0; k < 300; ++k) {
        Q F = E - e * sinq(E) - Mw;
        if (F > 0) hi = E;
        else lo = E;
        Q n = E - F / (1 - e * cosq(E));
        if (!(n > lo && n < hi)) n = (lo + hi) / 2;
        if (fabsq(n - E) < Q(1e-33)) { E = n; break; }
        E = n;
    }
    return 2 * atan2q(sqrtq(1 + e) * sinq(E / 2), sqrtq(1 - e) * cosq(E / 2));
}
struct Phys {
    std::array<Q, 6> s;
    double tr, tv; // tolerance of a double precision evaluation
    bool ok;
};
// state denoted by elements of type t given in double
Phys denote(int t, const A6 &x, double mu, double K)
{
    Phys P{};
    P.ok = true;
    A6 kx = x;
    double extra = 0;
    Q fq = x[5];
    if (t == 1) {
        Q df, de;
        fq = true_of(Q(x[5]), Q(x[1]));
        mean_of(fq, Q(x[1]), &df, &de);
        kx[5] = dd(fq);
        extra = K * EPS * (10 + std::fabs(x[5])) / dd(df) + K * EPS * std::fabs(dd(de / df)) * x[1] + K * EPS / std::sqrt(1 - x[1]);
    }
    int op = t < 2 ? PAR2IC : t == 2 ? EQ2IC : EQ2ICR;
    auto R = reference(op, kx, mu, K);
    P.ok = R.defined;
    for (size_t k = 0; k < 6; ++k) P.s[k] = R.y[k];
    P.tr = R.tol[0];
    P.tv = R.tol[3];
    if (t == 1) { // exact anomaly and its uncertainty
        E6<Q> p;
        for (size_t k = 0; k < 6; ++k) p[k] = x[k];
        p[5] = fq;
        auto y = kep2ic<Q>(p, Q(mu));
        for (size_t k = 0; k < 6; ++k) P.s[k] = y[k];
        auto D = physical(KEP, kx, mu);
        double a = 0, b = 0;
        for (size_t k = 0; k < 3; ++k) {
            a += std::pow(dd(D[k].d[5]), 2);
            b += std::pow(dd(D[k + 3].d[5]), 2);
        }
        P.tr += std::sqrt(a) * extra;
        P.tv += std::sqrt(b) * extra;
    }
    if (t >= 2) { // a computation through the Keplerian elements is acceptable: rounding of those
        E6<Q> q;
        for (size_t k = 0; k < 6; ++k) q[k] = x[k];
        auto kp = eqn2kep<Q>(q, t == 2 ? 1 : -1);
        A6 kd;
        for (size_t k = 0; k < 6; ++k) kd[k] = std::isnan(dd(kp[k])) ? 0. : dd(kp[k]);
        auto R2 = reference(PAR2IC, kd, mu, K);
        if (R2.defined) {
            P.tr += 2 * R2.tol[0];
            P.tv += 2 * R2.tol[3];
        }
    }
    return P;
}
template <typename F>
std::string thrown(F &&f)
{
    try {
        f();
    } catch (const std::logic_error &) {
        return "logic"; // includes domain_error
    } catch (const std::exception &e) {
        return std::string("other: ") + e.what();
    }
    return "";
}
} // namespace

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool th = run.thorough();
    const double K = 300;
    std::vector<double> es{0., 1e-8, 1e-3, 0.1, 0.6, 0.95, 0.999, 1.001, 1.05, 1.6, 5., 40.}, is{0., 1e-7, 0.3, M_PI / 2, 2.4, M_PI - 1e-7, M_PI}, Ws{0., 0.7, 4.5}, ws{0., 2.2, 5.9},
        fs{0., 0.3, -0.3, 0.7, -0.93};
    std::vector<double> refs{0., 12.22, -5000.5}, dts{0., 0.3, -1.7, 40.25}; // dates, in periods (or in sqrt(|a|^3/mu) x 2 pi)
    if (th) {
        es.insert(es.end(), {1e-5, 0.02, 0.3, 0.8, 0.99, 1.01, 1.2, 2.});
        is.insert(is.end(), {1e-3, 1.2, 2.9});
        Ws.insert(Ws.end(), {2.4});
        fs.insert(fs.end(), {0.1, -0.1, 0.5, -0.5, 0.97});
        dts.insert(dts.end(), {1e-6, 1., -0.5, -333.3});
    }
    auto make_body = [&](int con, const kep3::epoch &ep, const RV &pv, const A6 &x, double mu) {
        if (con < 0) return keplerian(ep, pv, mu, "body", {1.5, 2.5, 3.5});
        return keplerian(ep, x, mu, "body", {1.5, 2.5, 3.5}, TY[con]);
    };
    std::uint64_t nu = units().size();
    run.section("orbits", nu * es.size() * is.size(), [&](std::uint64_t ci, Case &c) {
        auto &un = units()[ci % nu];
        double e = es[ci / nu % es.size()], inc = is[ci / nu / es.size()];
        double a = un.L * (e < 1 ? 1 : -1), mu = un.mu;
        int rot = 0;
        for (double W : Ws)
            for (double w : ws)
                for (double x : fs) {
                    double f = e < 1 ? x * M_PI : x * std::acos(-1 / e);
                    double rd = refs[static_cast<size_t>(rot++) % refs.size()];
                    kep3::epoch ep(rd);
                    double ref2000 = ep.mjd2000();
                    A6 kep{a, e, inc, W, w, f};
                    std::string base = std::string(un.name) + " e=" + chk::d2s(e) + " i=" + chk::d2s(inc) + " W=" + chk::d2s(W) + " w=" + chk::d2s(w) + " f=" + chk::d2s(f);
                    E6<Q> kq;
                    for (size_t k = 0; k < 6; ++k) kq[k] = kep[k];
                    for (int con = -1; con < 4; ++con) {
                        if (con == 1 && e > 1) continue;
                        A6 in = kep;
                        RV pv = make(a, e, inc, W, w, f, mu);
                        if (con == 1) in[5] = dd(mean_of(Q(f), Q(e)));
                        if (con >= 2) {
                            auto q = kep2eqn<Q>(kq, con == 2 ? 1 : -1);
                            for (size_t k = 0; k < 6; ++k) in[k] = dd(q[k]);
                            if (!(std::fabs(in[3]) + std::fabs(in[4]) < 1e4)) {
                                c.skip("singular_equinoctial");
                                continue;
                            }
                        }
                        std::string what = std::string(con < 0 ? "POSVEL" : ty_name(con)) + " " + base;
                        Phys P{};
                        if (con < 0) {
                            auto fl = flat(pv);
                            for (size_t k = 0; k < 6; ++k) P.s[k] = fl[k];
                            P.ok = true;
                        } else
                            P = denote(con, in, mu, K);
                        RV s0;
                        for (size_t k = 0; k < 3; ++k) {
                            s0[0][k] = dd(P.s[k]);
                            s0[1][k] = dd(P.s[k + 3]);
                        }
                        double R0 = norm3(s0[0]), V0 = norm3(s0[1]);
                        if (!P.ok || P.tr > 1e-4 * R0 || P.tv > 1e-4 * V0) {
                            c.skip("ill_conditioned_construction");
                            continue;
                        }
                        c.state(chk::mixd(chk::mixd(chk::mixd(chk::mixd(chk::mix(21, static_cast<unsigned>(con + 1)), s0[0][0]), s0[0][1]), s0[1][0]), s0[1][2]));
                        c.trans();
                        c.eval();
                        std::unique_ptr<keplerian> b;
                        auto kk = thrown([&] { b = std::make_unique<keplerian>(make_body(con, ep, pv, in, mu)); });
                        if (kk != "") {
                            c.fail("construction_raises|" + what, kk + " in=" + chk::v2s(in));
                            continue;
                        }
                        if (b->get_name() != "body" || b->get_mu_central_body() != mu || b->get_mu_self() != 1.5 || b->get_radius() != 2.5 || b->get_safe_radius() != 3.5 || !(b->get_ref_epoch() == ep))
                            c.fail("getters|" + what, "reported settings differ from the ones given");
                        kep3::planet pl(*b);
                        // period
                        E6<Q> sq;
                        for (size_t k = 0; k < 6; ++k) sq[k] = P.s[k];
                        auto B = basics<Q>(sq, Q(mu));
                        Q T = 2 * ref::PI / sqrtq(fabsq(B.alpha * B.alpha * B.alpha) * Q(mu));
                        double erel = (EPS * K + P.tr / R0 + P.tv / V0) * (V0 * V0 / mu + 2 / R0) / std::fabs(dd(B.alpha));
                        for (double t : {0., 77.}) {
                            double g = t == 0. ? b->period() : pl.period(t);
                            if (e > 1) {
                                if (!std::isnan(g)) c.fail("period_hyperbola|" + what, chk::d2s(g));
                            } else
                                c.within("period", std::fabs(dd(Q(g) - T)), 3 * dd(T) * (erel + K * EPS), [&] { return what; });
                        }
                        // ephemerides
                        for (double d : dts) {
                            double date = ref2000 + d * dd(T) / 86400.;
                            Q dt = (Q(date) - Q(ref2000)) * 86400;
                            if (e > 1 && std::fabs(d) > 10) dt = 0, date = ref2000;
                            c.trans();
                            c.eval();
                            RV g;
                            auto k2 = thrown([&] { g = b->eph(date); });
                            if (k2 != "") {
                                c.fail("eph_raises|" + what + " date=" + chk::d2s(date), k2);
                                continue;
                            }
                            RV g2 = pl.eph(date);
                            if (std::memcmp(&g, &g2, sizeof g) != 0) c.fail("planet_differs|" + what, chk::rv2s(g) + chk::rv2s(g2));
                            auto o8 = flow8(s0, dd(dt), mu);
                            auto cond = flow_cond(o8, s0, dd(dt), mu);
                            ref::S6<Q> xq;
                            for (size_t k = 0; k < 6; ++k) xq[k] = P.s[k];
                            auto o = ref::flow<Q>(xq, dt, Q(mu));
                            double tol[2], err[2], mag[2];
                            for (size_t out = 0; out < 2; ++out) {
                                double na = 0, nb = 0, er = 0, m = 0;
                                for (size_t i = 0; i < 3; ++i) {
                                    for (size_t j = 0; j < 3; ++j) {
                                        na += std::pow(dd(o8.y[out * 3 + i].d[j]), 2);
                                        nb += std::pow(dd(o8.y[out * 3 + i].d[3 + j]), 2);
                                    }
                                    er += std::pow(dd(Q(g[out][i]) - o.y[out * 3 + i]), 2);
                                    m += std::pow(dd(o.y[out * 3 + i]), 2);
                                }
                                tol[out] = K * EPS * cond[out] + std::sqrt(na) * P.tr + std::sqrt(nb) * P.tv;
                                err[out] = std::sqrt(er);
                                mag[out] = std::sqrt(m);
                            }
                            if (tol[0] > 1e-3 * mag[0] || tol[1] > 1e-3 * mag[1]) {
                                c.skip("ill_conditioned_date");
                                continue;
                            }
                            auto desc = [&] { return what + " date=" + chk::d2s(date) + " ref=" + chk::d2s(ref2000); };
                            c.within("position", err[0], tol[0], desc);
                            c.within("velocity", err[1], tol[1], desc);
                            c.trace();
                        }
                        // elements
                        for (int t = 0; t < 4; ++t) {
                            A6 y{};
                            auto k3 = thrown([&] { y = b->elements(123., TY[t]); });
                            if (t == 1 && e > 1) {
                                if (k3 != "logic") c.fail("mean_anomaly_of_hyperbola|" + what, "raised: " + k3);
                                continue;
                            }
                            if (k3 != "") {
                                c.fail(std::string("elements_raise_") + ty_name(t) + "|" + what, k3);
                                continue;
                            }
                            A6 y2 = pl.elements(0., TY[t]);
                            if (std::memcmp(&y, &y2, sizeof y) != 0) c.fail("planet_elements_differ|" + what, chk::v2s(y) + chk::v2s(y2));
                            c.trans();
                            bool singular = !(e >= 1e-3 && std::sin(inc) > 1e-4);
                            if (con < 0) {
                                if (t < 2 && singular) {
                                    c.skip("singular_elements");
                                    continue;
                                }
                                auto R = ref_elements(t, flat(pv), mu, K);
                                if (R.defined) match(c, "elements", t, y, R, what);
                                else c.skip("undefined_representation");
                                continue;
                            }
                            if (con == t) { // the elements given, up to whole turns
                                bool ok = true;
                                for (size_t k = 0; k < 6; ++k) {
                                    if ((t < 2 && k >= 3) || (t >= 2 && k == 5)) continue;
                                    double sc = (t >= 2 && k) ? std::max({1., std::fabs(in[3]), std::fabs(in[4]), std::fabs(in[1]), std::fabs(in[2])}) : std::fabs(in[k]);
                                    double om = std::fabs(1 - e * e);
                                    if (!(std::fabs(y[k] - in[k]) <= K * EPS * (sc + (t >= 2 ? sc * sc * 4 + sc / om : 0) + (k == 2 ? 1 : 0)))) ok = false;
                                }
                                if (!ok) c.fail(std::string("elements_echo_") + ty_name(t) + "|" + what, "given " + chk::v2s(in) + " reported " + chk::v2s(y));
                            }
                            if (t >= 2) {
                                auto q = kep2eqn<Q>(kq, t == 2 ? 1 : -1);
                                if (!(std::fabs(dd(q[3])) + std::fabs(dd(q[4])) < 1e4)) {
                                    c.skip("singular_equinoctial");
                                    continue;
                                }
                            }
                            bool fin = true;
                            for (double v : y) fin &= static_cast<bool>(std::isfinite(v));
                            if (!fin) {
                                c.fail(std::string("elements_not_finite_") + ty_name(t) + "|" + what, chk::v2s(y));
                                continue;
                            }
                            // they denote the orbit
                            auto D = denote(t, y, mu, K);
                            double hk = t >= 2 ? 1 + y[3] * y[3] + y[4] * y[4] : 1;
                            double om = std::fabs(1 - e * e), amp = hk / om * (1 + 1 / (1 + e * std::cos(f)));
                            double tr = D.tr + P.tr + K * EPS * R0 * amp, tv = D.tv + P.tv + K * EPS * V0 * amp;
                            if (!D.ok || tr > 1e-4 * R0 || tv > 1e-4 * V0) {
                                c.skip("ill_conditioned_elements");
                                continue;
                            }
                            double er = 0, ev = 0;
                            for (size_t k = 0; k < 3; ++k) {
                                er += std::pow(dd(D.s[k] - P.s[k]), 2);
                                ev += std::pow(dd(D.s[k + 3] - P.s[k + 3]), 2);
                            }
                            c.within((std::string("elements_denote_r_") + ty_name(t)).c_str(), std::sqrt(er), tr, [&] { return what; });
                            c.within((std::string("elements_denote_v_") + ty_name(t)).c_str(), std::sqrt(ev), tv, [&] { return what; });
                        }
                        if (thrown([&] { (void)b->elements(0., kep3::elements_type::POSVEL); }) != "logic") c.fail("elements_posvel|" + what, "not rejected");
                    }
                }
    });
    // rejections
    std::vector<double> as{-3., -1., -1e-3, 0., 1e-3, 1., 3.}, ee{0., 0.2, 0.999, 1., 1.001, 2., 30.}, ang{0., 1., 2., 2.7, M_PI, 4., 5.5};
    run.section("rejections", as.size() * ee.size(), [&](std::uint64_t ci, Case &c) {
        double a = as[ci % as.size()], e = ee[ci / as.size()];
        kep3::epoch ep(10.);
        for (double f : ang)
            for (double g : {0., 0.4, 2., 3.5, 5.})
                for (int t = 0; t < 4; ++t) {
                    A6 x{a, e, 0.3, g, 0.7, f};
                    bool valid;
                    if (t < 2) {
                        valid = a * (1 - e) > 0 && (t == 0 || e < 1);
                        if (t == 0 && e > 1) {
                            double mg = 1 + e * std::cos(f);
                            if (std::fabs(mg) < 1e-9) continue;
                            valid = valid && mg > 0;
                        }
                    } else {
                        // p = a, |(f, g)| = e pointing at angle g
                        x = {a, e * std::cos(g), e * std::sin(g), 0.2, 0.1, f};
                        double mg = 1 + e * std::cos(f - g);
                        if (std::fabs(mg) < 1e-9) continue;
                        if (e == 1. && g != 0.) continue; // |(f, g)| is not exactly one: no exact parabola
                        valid = a > 0 && mg > 0 && e != 1.;
                    }
                    c.state(chk::mixd(chk::mixd(chk::mixd(chk::mix(22, static_cast<unsigned>(t)), x[0]), x[1]), x[5] + 10 * x[2] + 100 * x[3]));
                    c.trans();
                    c.eval();
                    c.trace();
                    std::string k = thrown([&] { keplerian b(ep, x, 1., "b", {-1., -1., -1.}, TY[t]); });
                    if (valid && k != "") c.fail(std::string("valid_rejected_") + ty_name(t) + "|" + chk::v2s(x), k);
                    if (!valid && k != "logic") c.fail(std::string("invalid_accepted_") + ty_name(t) + "|" + chk::v2s(x), "raised: " + k);
                    if (t == 0 && thrown([&] { keplerian b(ep, x, 1., "b", {-1., -1., -1.}, kep3::elements_type::POSVEL); }) != "logic") c.fail("posvel_accepted|" + chk::v2s(x), "");
                }
    });
    return run.go();
}
