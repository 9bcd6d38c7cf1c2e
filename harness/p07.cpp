// P07 (Keplerian), P08 (equinoctial): single conversions against the exact ones on a grid of orbits; rejections.
// P09: all walks of conversions up to a depth keep the physical orbit.
// The property is selected at compile time with -DPROP=7|8|9.
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/core_astro/ic2eq2ic.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>

#include "elements.hpp"

using namespace el;
using chk::Case;
using A6 = std::array<double, 6>;

namespace
{
A6 apply(int op, const A6 &x, double mu)
{
    switch (op) {
        case IC2PAR: return kep3::ic2par(unflat(x), mu);
        case PAR2IC: return flat(kep3::par2ic(x, mu));
        case IC2EQ: return kep3::ic2eq(unflat(x), mu, false);
        case EQ2IC: return flat(kep3::eq2ic(x, mu, false));
        case IC2EQR: return kep3::ic2eq(unflat(x), mu, true);
        case EQ2ICR: return flat(kep3::eq2ic(x, mu, true));
        case PAR2EQ: return kep3::par2eq(x, false);
        case EQ2PAR: return kep3::eq2par(x, false);
        case PAR2EQR: return kep3::par2eq(x, true);
        default: return kep3::eq2par(x, true);
    }
}
} // namespace

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool th = run.thorough();
    const double K = 300;
    std::vector<double> es{0., 1e-8, 1e-3, 0.1, 0.6, 0.95, 0.999, 1.001, 1.05, 1.6, 5., 40.};
    std::vector<double> is{0., 1e-7, 1e-3, 0.3, 1.2, M_PI / 2, 2., 2.9, M_PI - 1e-3, M_PI - 1e-7, M_PI};
    std::vector<double> Ws{0., 0.7, M_PI / 2, 2.4, M_PI, 4.5, 5.9}, ws{0., 1e-6, 0.7, M_PI / 2, 2.4, M_PI, 4.5, 6.1};
    std::vector<double> fs{0., 1e-7, 0.25, -0.25, 0.5, -0.5, 0.8, -0.8, 0.97, 1.};
    if (th) {
        es.insert(es.end(), {1e-5, 0.02, 0.3, 0.8, 0.9, 0.99, 0.9999, 1.0001, 1.01, 1.2, 2., 10., 100.});
        is.insert(is.end(), {1e-5, 0.05, 0.8, 1.4, 1.7, 2.4, 3.1, M_PI - 1e-5});
        Ws.insert(Ws.end(), {0.2, 1.2, 1.9, 3.6, 5.1, 2 * M_PI - 1e-7});
        ws.insert(ws.end(), {0.2, 1.2, 1.9, 3.6, 5.1, 2 * M_PI - 1e-7});
        fs.insert(fs.end(), {-1e-7, 0.1, -0.1, 0.35, -0.35, 0.65, -0.65, 0.9, -0.9, 0.99, -0.99});
    }
    struct Cfg {
        int u;
        double e, i;
    };
    std::vector<Cfg> cfg;
    for (int u = 0; u < static_cast<int>(units().size()); ++u)
        for (double e : es)
            for (double i : is)
                // quick: the two cheap conversions in all unit systems, the rest in half of them
                if (th || PROP == 7 || (u + static_cast<int>(cfg.size())) % 2 == 0 || u < 2) cfg.push_back({u, e, i});
    [[maybe_unused]] auto single = [&](Case &c, int op, const A6 &x, double mu, const std::string &what) -> bool {
        c.trans();
        c.eval();
        auto R = reference(op, x, mu, K);
        if (!R.defined) {
            c.skip("undefined_representation");
            return false;
        }
        A6 y{};
        auto desc = [&] { return std::string(op_name(op)) + " " + what; };
        try {
            y = apply(op, x, mu);
        } catch (const std::exception &ex) {
            c.fail(std::string("raises_") + op_name(op) + "|" + desc(), ex.what());
            return false;
        }
        c.trace();
        c.state(chk::mixd(chk::mixd(chk::mixd(chk::mix(8, static_cast<unsigned>(op)), x[0]), x[3]), x[5] + x[1]));
        Rep to = to_of(op);
        bool ok = true;
        if (c.verbose) {
            std::printf(" %s in %s\n  out %s\n  exact", desc().c_str(), chk::v2s(x).c_str(), chk::v2s(y).c_str());
            for (auto q : R.y) std::printf(" %s", ref::qs(q).c_str());
            std::printf("\n");
        }
        if (to == IC) {
            double er = 0, ev = 0, rn = 0, vn = 0;
            for (int k = 0; k < 3; ++k) {
                er += std::pow(dd(Q(y[k]) - R.y[k]), 2);
                ev += std::pow(dd(Q(y[k + 3]) - R.y[k + 3]), 2);
                rn += std::pow(dd(R.y[k]), 2);
                vn += std::pow(dd(R.y[k + 3]), 2);
            }
            if (R.tol[0] > 1e-2 * std::sqrt(rn)) {
                c.skip("ill_conditioned");
                return false;
            }
            ok &= c.within((std::string(op_name(op)) + "_position").c_str(), std::sqrt(er), R.tol[0], desc);
            ok &= c.within((std::string(op_name(op)) + "_velocity").c_str(), std::sqrt(ev), R.tol[3], desc);
            return ok;
        }
        for (int k = 0; k < 6; ++k) {
            double lim = (k == 0 ? 1e-2 * std::fabs(dd(R.y[0])) : (to != KEP && (k == 3 || k == 4)) ? 1e-2 * (1 + std::fabs(dd(R.y[3])) + std::fabs(dd(R.y[4]))) : 1e-2);
            if (!(R.tol[k] < lim)) {
                c.skip("ill_conditioned_component");
                continue;
            }
            double err = is_angle(to, k) ? std::fabs(dd(wrapq(Q(y[k]) - R.y[k]))) : std::fabs(dd(Q(y[k]) - R.y[k]));
            if (std::isnan(y[k])) err = NAN;
            ok &= c.within((std::string(op_name(op)) + "_" + std::to_string(k)).c_str(), err, R.tol[k], desc);
        }
        if (op == IC2PAR) { // documented ranges
            for (int k = 3; k < 6; ++k)
                if (R.tol[k] < 1e-2 && !(y[k] >= 0 && y[k] <= 2 * M_PI + 1e-14)) c.fail("range_" + std::to_string(k) + "|" + desc(), chk::d2s(y[k]));
            if (!(y[2] >= 0 && y[2] <= M_PI)) c.fail("range_i|" + desc(), chk::d2s(y[2]));
            if (!((y[0] > 0) == (dd(R.y[0]) > 0)) && R.tol[0] < 1e-2 * std::fabs(dd(R.y[0]))) c.fail("sign_a|" + desc(), chk::d2s(y[0]));
        }
        return ok;
    };
    auto for_orbit = [&](const Cfg &g, auto &&fn) {
        auto &un = units()[static_cast<size_t>(g.u)];
        double a = g.e < 1 ? un.L : -un.L;
        for (double W : Ws)
            for (double w : ws)
                for (double x : fs) {
                    if (g.e > 1 && x == 1.) continue;
                    double f = g.e < 1 ? x * M_PI : x * std::acos(-1 / g.e);
                    A6 kep{a, g.e, g.i, W, w, f < 0 ? f + 2 * M_PI : f};
                    std::string what = std::string(un.name) + " e=" + chk::d2s(g.e) + " i=" + chk::d2s(g.i) + " W=" + chk::d2s(W) + " w=" + chk::d2s(w) + " f=" + chk::d2s(kep[5]);
                    fn(un, kep, what);
                }
    };
    (void)for_orbit;
#if PROP == 7
    run.section("elements", cfg.size(), [&](std::uint64_t i, Case &c) {
        bool first = true;
        for_orbit(cfg[i], [&](const Units &un, const A6 &kep, const std::string &what) {
            if (first) c.sample(what);
            first = false;
            single(c, PAR2IC, kep, un.mu, what);
            auto s = make(kep[0], kep[1], kep[2], kep[3], kep[4], kep[5], un.mu);
            if (kep[1] >= 1e-3 && std::sin(kep[2]) > 1e-4) single(c, IC2PAR, flat(s), un.mu, what);
            else c.skip("singular_elements");
            // both orders of the round trip
            if (kep[1] >= 1e-3 && std::sin(kep[2]) > 1e-4) {
                try {
                    auto back = kep3::ic2par(kep3::par2ic(kep, un.mu), un.mu);
                    single(c, PAR2IC, back, un.mu, what + " (of the round trip)");
                    auto R = reference(IC2PAR, flat(s), un.mu, K);
                    auto P = reference(PAR2IC, kep, un.mu, K);
                    double rn = norm3(s[0]), vn = norm3(s[1]);
                    auto D = physical(KEP, kep, un.mu);
                    (void)D;
                    auto V = vars(flat(s));
                    auto y = ic2kep(V, D7::var(un.mu, 6));
                    (void)rn;
                    (void)vn;
                    for (int k = 0; k < 6; ++k) {
                        double tol = R.tol[k];
                        for (int j = 0; j < 6; ++j) tol += std::fabs(dd(y[k].d[j])) * (P.tol[j] + EPS * std::fabs(flat(s)[j]));
                        double err = is_angle(KEP, k) ? std::fabs(dd(wrapq(Q(back[k]) - Q(kep[k])))) : std::fabs(back[k] - kep[k]);
                        if (std::isnan(back[k])) err = NAN;
                        // second-order effect next to the points where an angle is recovered by an arc cosine
                        if (k >= 2) tol += std::sqrt(tol) * (std::fabs(std::sin(kep[k])) < 10 * std::sqrt(tol) ? 1. : 0.);
                        if (tol > 1e-2 * (k == 0 ? std::fabs(kep[0]) : 1.)) {
                            c.skip("ill_conditioned_round_trip");
                            continue;
                        }
                        c.within("round_trip_elements", err, tol, [&] { return what + " k=" + std::to_string(k); });
                    }
                } catch (const std::exception &ex) {
                    c.fail("raises_round_trip|" + what, ex.what());
                }
            }
        });
    });
    // exhaustive sign / asymptote table of acceptance
    std::vector<double> as{1., -1., 1e-3, -1e-3, 7e6, -7e6, 1e12, -1e12}, ev{0., 1e-9, 0.3, 0.999999, 1.000001, 1.3, 2., 50.};
    std::vector<double> fo;
    for (int k = -64; k <= 64; ++k) fo.push_back(k * M_PI / 32);
    run.section("acceptance", as.size() * ev.size(), [&](std::uint64_t i, Case &c) {
        double a = as[i / ev.size()], e = ev[i % ev.size()];
        std::vector<double> ff = fo;
        if (e > 1) {
            double lim = std::acos(-1 / e);
            for (double d : {1e-6, 1e-3, 0.05})
                for (int w = -1; w <= 1; ++w)
                    for (int s : {1, -1}) {
                        ff.push_back(s * (lim - d) + 2 * M_PI * w);
                        ff.push_back(s * (lim + d) + 2 * M_PI * w);
                    }
        }
        for (double f : ff)
            for (double inc : {0.3, 2.}) {
                c.trans();
                c.eval();
                c.trace();
                c.state(chk::mixd(chk::mixd(i, f), inc));
                bool same = (a > 0) == (e < 1);
                Q cosf = cosq(Q(f));
                bool beyond = e > 1 && 1 + Q(e) * cosf < 0;
                if (e > 1 && fabsq(1 + Q(e) * cosf) < 1e-12) continue;
                bool want = same && !beyond;
                std::string what = "a=" + chk::d2s(a) + " e=" + chk::d2s(e) + " f=" + chk::d2s(f);
                A6 p{a, e, inc, 0.3, 1.1, f};
                int got = 1;
                try {
                    auto s = kep3::par2ic(p, 1.3);
                    (void)s;
                } catch (const std::domain_error &) {
                    got = 0;
                } catch (...) {
                    got = 2;
                }
                if (got == 2) c.fail("wrong_exception|" + what, "");
                else if (got == 1 && !want) c.fail("accepted_invalid|" + what, "");
                else if (got == 0 && want) c.fail("rejected_valid|" + what, "");
            }
    });
#elif PROP == 8
    run.section("elements", cfg.size(), [&](std::uint64_t i, Case &c) {
        bool first = true;
        for_orbit(cfg[i], [&](const Units &un, const A6 &kep, const std::string &what) {
            if (first) c.sample(what);
            first = false;
            auto s = make(kep[0], kep[1], kep[2], kep[3], kep[4], kep[5], un.mu);
            for (int retro = 0; retro < 2; ++retro) {
                double d = 1 + (retro ? -1 : 1) * std::cos(kep[2]);
                if (d < 1e-5) {
                    c.skip("singular_variant");
                    continue;
                }
                int to = retro ? IC2EQR : IC2EQ, fr = retro ? EQ2ICR : EQ2IC;
                if (!single(c, to, flat(s), un.mu, what)) continue;
                A6 q = apply(to, flat(s), un.mu);
                single(c, fr, q, un.mu, what);
                // shifted longitudes denote the same state
                for (double sh : {2 * M_PI, -2 * M_PI, 6 * M_PI}) {
                    A6 z = q;
                    z[5] += sh;
                    single(c, fr, z, un.mu, what + " L+" + chk::d2s(sh));
                }
                // round trip of the state, and of the elements
                try {
                    auto s2 = flat(kep3::eq2ic(q, un.mu, retro));
                    auto q2 = kep3::ic2eq(unflat(s2), un.mu, retro);
                    auto R = reference(to, flat(s), un.mu, K);
                    auto P = reference(fr, q, un.mu, K);
                    auto y = exact(to, vars(s2), D7::var(un.mu, 6));
                    auto D = physical(retro ? EQR : EQ, q, un.mu);
                    double tr = P.tol[0], tv = P.tol[3], er = 0, ev = 0;
                    for (int k = 0; k < 6; ++k) {
                        double a = 0, b = 0;
                        for (int j = 0; j < 3; ++j) {
                            a += std::pow(dd(D[j].d[k]), 2);
                            b += std::pow(dd(D[j + 3].d[k]), 2);
                        }
                        tr += std::sqrt(a) * R.tol[k];
                        tv += std::sqrt(b) * R.tol[k];
                    }
                    for (int j = 0; j < 3; ++j) {
                        er += std::pow(s2[j] - s[0][j], 2);
                        ev += std::pow(s2[j + 3] - s[1][j], 2);
                    }
                    if (tr < 1e-2 * norm3(s[0]) && tv < 1e-2 * norm3(s[1])) {
                        c.within("round_trip_position", std::sqrt(er), tr, [&] { return what + (retro ? " retro" : ""); });
                        c.within("round_trip_velocity", std::sqrt(ev), tv, [&] { return what + (retro ? " retro" : ""); });
                    } else
                        c.skip("ill_conditioned_round_trip");
                    for (int k = 0; k < 6; ++k) {
                        double tol = R.tol[k];
                        for (int j = 0; j < 6; ++j) tol += std::fabs(dd(y[k].d[j])) * P.tol[j];
                        double err = k == 5 ? std::fabs(dd(wrapq(Q(q2[k]) - Q(q[k])))) : std::fabs(q2[k] - q[k]);
                        if (std::isnan(q2[k])) err = NAN;
                        if (tol < 1e-2 * (k == 0 ? q[0] : 1 + std::fabs(q[k]))) c.within("round_trip_elements", err, tol, [&] { return what + " k=" + std::to_string(k) + (retro ? " retro" : ""); });
                    }
                } catch (const std::exception &ex) {
                    c.fail("raises_round_trip|" + what, ex.what());
                }
            }
        });
    });
#else
    const int depth = th ? 5 : 4;
    std::vector<double> w9{0.7, 2.4, 4.5}, W9{0.2, 1.9, 5.1}, f9{0.05, 0.45, -0.45, 0.9};
    if (th) {
        w9.push_back(5.9);
        W9.push_back(3.7);
    }
    Ws = W9;
    ws = w9;
    fs = f9;
    run.section("walks", cfg.size(), [&](std::uint64_t i, Case &c) {
        auto g = cfg[i];
        bool kepok = g.e >= 1e-3 && std::sin(g.i) > 1e-4, eqok = 1 + std::cos(g.i) > 1e-5, eqrok = 1 - std::cos(g.i) > 1e-5;
        bool first = true;
        for_orbit(g, [&](const Units &un, const A6 &kep, const std::string &what) {
            if (first) c.sample("walks of length " + std::to_string(depth) + " from every representation of " + what);
            first = false;
            double mu = un.mu;
            auto s = make(kep[0], kep[1], kep[2], kep[3], kep[4], kep[5], mu);
            auto rec = [&](auto &&self, Rep rep, const A6 &x, const E6<Q> &phys, double sr, double sv, const std::string &path, int d) -> void {
                if (d == depth) {
                    c.trace();
                    return;
                }
                for (int op = 0; op < NOPS; ++op) {
                    if (from_of(op) != rep) continue;
                    Rep to = to_of(op);
                    if ((to == KEP && !kepok) || (to == EQ && !eqok) || (to == EQR && !eqrok)) continue;
                    auto desc = [&] { return what + " " + path + ">" + op_name(op); };
                    c.trans();
                    c.eval();
                    auto R = reference(op, x, mu, K);
                    if (!R.defined) {
                        c.skip("undefined_representation");
                        continue;
                    }
                    A6 y{};
                    try {
                        y = apply(op, x, mu);
                    } catch (const std::exception &ex) {
                        c.fail(std::string("raises_") + op_name(op) + "|" + desc(), ex.what());
                        continue;
                    }
                    c.state(chk::mixd(chk::mixd(chk::mixd(chk::mix(9, static_cast<unsigned>(to)), y[0]), y[4]), y[5]));
                    auto D = physical(to, y, mu);
                    double dr = 0, dv = 0, er = 0, ev = 0, rn = 0, vn = 0;
                    for (int k = 0; k < 6; ++k) {
                        double a = 0, b = 0;
                        for (int j = 0; j < 3; ++j) {
                            a += std::pow(dd(D[j].d[k]), 2);
                            b += std::pow(dd(D[j + 3].d[k]), 2);
                        }
                        dr += std::sqrt(a) * R.tol[k];
                        dv += std::sqrt(b) * R.tol[k];
                    }
                    for (int j = 0; j < 3; ++j) {
                        er += std::pow(dd(D[j].v - phys[j]), 2);
                        ev += std::pow(dd(D[j + 3].v - phys[j + 3]), 2);
                        rn += std::pow(dd(phys[j]), 2);
                        vn += std::pow(dd(phys[j + 3]), 2);
                    }
                    rn = std::sqrt(rn);
                    vn = std::sqrt(vn);
                    double nr = sr + dr, nv = sv + dv;
                    if (!(nr < 1e-3 * rn) || !(nv < 1e-3 * vn)) {
                        c.skip("ill_conditioned");
                        continue;
                    }
                    bool ok = c.within("walk_position", std::isnan(er) ? NAN : std::sqrt(er), nr, desc);
                    ok &= c.within("walk_velocity", std::isnan(ev) ? NAN : std::sqrt(ev), nv, desc);
                    if (ok) self(self, to, y, phys, nr, nv, path + ">" + op_name(op), d + 1);
                }
            };
            E6<Q> p0;
            auto fl = flat(s);
            for (int k = 0; k < 6; ++k) p0[k] = fl[k];
            rec(rec, IC, fl, p0, 0., 0., "IC", 0);
            // start from exact (quad) elements rounded to double: their own physical state
            auto start = [&](Rep r, const A6 &x, const char *n) {
                auto D = physical(r, x, mu);
                E6<Q> p;
                for (int k = 0; k < 6; ++k) p[k] = D[k].v;
                rec(rec, r, x, p, 0., 0., n, 0);
            };
            if (kepok) start(KEP, kep, "KEP");
            for (int r = 0; r < 2; ++r)
                if (r ? eqrok : eqok) {
                    auto q = ic2eqn<Q>(p0, Q(mu), r ? -1 : 1);
                    A6 x;
                    for (int k = 0; k < 6; ++k) x[k] = dd(q[k]);
                    start(r ? EQR : EQ, x, r ? "EQR" : "EQ");
                }
        });
    });
    // Circular and / or equatorial orbits: individually undetermined angles are free, but the equinoctial -> Keplerian
    // -> ... chains must keep denoting the orbit (no loss to NaN).
    std::vector<double> se{0., 1e-16, 1e-12, 1e-8, 1e-5, 0.3, 0.95, 1.3, 8.}, si{0., 1e-16, 1e-12, 1e-7, 1e-4, 0.7, 1.9};
    run.section("singular_chains", units().size() * se.size() * si.size() * 2, [&](std::uint64_t ci, Case &c) {
        auto &un = units()[ci % units().size()];
        std::uint64_t r = ci / units().size();
        double e = se[r % se.size()];
        double inc = si[r / se.size() % si.size()];
        int retro = static_cast<int>(r / se.size() / si.size());
        if (retro) inc = 0; // in the retrograde variant the singular inclination is pi, i.e. h = k = 0
        double hk = retro ? std::tan(si[r / se.size() % si.size()] / 2) : std::tan(inc / 2);
        double mu = un.mu;
        for (double g : {0., 0.9, M_PI / 2, 2.8, M_PI, 4.4, 5.8})
            for (double W : {0., 1.2, M_PI, 5.})
                for (double dl : {0., 0.6, -0.6, 1., -1.}) {
                    double L = g + (e < 1 ? dl * 3.1 : dl * 0.9 * std::acos(-1 / e));
                    A6 q{un.L * std::fabs(1 - e * e), e * std::cos(g), e * std::sin(g), hk * std::cos(W), hk * std::sin(W), L};
                    std::string what = std::string(un.name) + (retro ? " retro" : "") + " q=" + chk::v2s(q);
                    int op = retro ? EQ2ICR : EQ2IC;
                    auto R0 = reference(op, q, mu, K);
                    if (!R0.defined) {
                        c.skip("undefined_representation");
                        continue;
                    }
                    double rn = 0, vn = 0;
                    for (int k = 0; k < 3; ++k) {
                        rn += std::pow(dd(R0.y[k]), 2);
                        vn += std::pow(dd(R0.y[k + 3]), 2);
                    }
                    rn = std::sqrt(rn);
                    vn = std::sqrt(vn);
                    double tr = R0.tol[0], tv = R0.tol[3];
                    auto near = [&](Rep rep, const A6 &y, const std::string &path) {
                        c.trans();
                        c.eval();
                        c.trace();
                        c.state(chk::mixd(chk::mixd(chk::mixd(chk::mix(99, static_cast<unsigned>(rep)), y[0]), y[3] + 3 * y[4]), y[5] + 7 * y[1]));
                        auto R = reference(rep == KEP ? PAR2IC : rep == EQ ? EQ2IC : EQ2ICR, y, mu, K);
                        auto D = physical(rep, y, mu);
                        double er = 0, ev = 0;
                        for (int k = 0; k < 3; ++k) {
                            er += std::pow(dd(D[k].v - R0.y[k]), 2);
                            ev += std::pow(dd(D[k + 3].v - R0.y[k + 3]), 2);
                        }
                        bool fin = true;
                        for (double v : y) fin &= static_cast<bool>(std::isfinite(v));
                        if (!fin || !R.defined) {
                            c.fail("singular_chain_not_finite|" + what + " " + path, chk::v2s(y));
                            return false;
                        }
                        tr += 3 * R.tol[0];
                        tv += 3 * R.tol[3];
                        if (!(tr < 1e-3 * rn) || !(tv < 1e-3 * vn)) {
                            c.skip("ill_conditioned");
                            return false;
                        }
                        return c.within("singular_chain_position", std::isnan(er) ? NAN : std::sqrt(er), tr, [&] { return what + " " + path; })
                               && c.within("singular_chain_velocity", std::isnan(ev) ? NAN : std::sqrt(ev), tv, [&] { return what + " " + path; });
                    };
                    A6 x = q;
                    std::string path = "eq";
                    for (int k = 0; k < depth; ++k) {
                        A6 kp = apply(retro ? EQ2PARR : EQ2PAR, x, mu);
                        path += ">kep";
                        if (!near(KEP, kp, path)) break;
                        try {
                            A6 st = apply(PAR2IC, kp, mu);
                            c.trans();
                            double er = 0;
                            for (int j = 0; j < 3; ++j) er += std::pow(dd(Q(st[j]) - R0.y[j]), 2);
                            c.within("singular_chain_state", std::isnan(er) ? NAN : std::sqrt(er), 2 * tr, [&] { return what + " " + path + ">ic"; });
                        } catch (const std::exception &ex) {
                            c.fail("singular_chain_raises|" + what + " " + path, ex.what());
                            break;
                        }
                        x = apply(retro ? PAR2EQR : PAR2EQ, kp, mu);
                        path += ">eq";
                        if (!near(retro ? EQR : EQ, x, path)) break;
                    }
                }
    });
#endif
    return run.go();
}
