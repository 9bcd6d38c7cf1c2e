// P06: anomaly conversions. Nodes: M, E, f (ellipse); N, H, f, zeta (hyperbola). Every walk on the conversion graph up
// to a depth, from a grid of anomalies and eccentricities, against exact conversions in quad precision.
#include <kep3/core_astro/convert_anomalies.hpp>

#include "orbits.hpp"

using namespace orb;
using chk::Case;
namespace
{
const Q TWO_PI = 2 * ref::PI;
Q wrap(Q x)
{
    x = fmodq(x, TWO_PI);
    if (x > ref::PI) x -= TWO_PI;
    if (x <= -ref::PI) x += TWO_PI;
    return x;
}
Q kepE(Q M, Q e)
{
    M = wrap(M);
    Q lo = -ref::PI - Q(1e-20), hi = ref::PI + Q(1e-20), E = M;
    for (int it = 0; it < 300; ++it) {
        Q f = E - e * sinq(E) - M, d = 1 - e * cosq(E);
        if (f > 0) hi = E;
        else lo = E;
        Q n = d > 0 ? E - f / d : lo;
        if (!(n > lo && n < hi)) n = (lo + hi) / 2;
        if (fabsq(n - E) <= Q(1e-33) * fabsq(n) || hi - lo < Q(1e-36)) return n;
        E = n;
    }
    return E;
}
Q kepH(Q N, Q e)
{
    if (N == 0) return 0;
    Q s = N > 0 ? 1 : -1;
    N *= s;
    Q lo = 0, hi = asinhq(N / (e - 1)) + 1;
    if (hi > 11000) hi = 11000;
    Q H = hi / 2;
    for (int it = 0; it < 2000; ++it) {
        Q f = e * sinhq(H) - H - N, d = e * coshq(H) - 1;
        if (f > 0) hi = H;
        else lo = H;
        Q n = H - f / d;
        if (!(n > lo && n < hi)) n = (lo + hi) / 2;
        if (fabsq(n - H) <= Q(1e-33) * fabsq(n)) return s * n;
        H = n;
    }
    return s * H;
}
// exact conversions through the pivot (E or H)
struct Ell {
    Q e;
    Q piv(char from, Q x) const
    {
        if (from == 'E') return wrap(x);
        if (from == 'M') return kepE(x, e);
        x = wrap(x);
        Q t = atan2q(sqrtq(1 - e) * sinq(x / 2), sqrtq(1 + e) * cosq(x / 2));
        return 2 * t;
    }
    Q to(char dst, Q E) const
    {
        if (dst == 'E') return E;
        if (dst == 'M') return E - e * sinq(E);
        return 2 * atan2q(sqrtq(1 + e) * sinq(E / 2), sqrtq(1 - e) * cosq(E / 2));
    }
    // d(dst)/dE
    Q der(char dst, Q E) const
    {
        if (dst == 'E') return 1;
        Q w = 1 - e * cosq(E);
        if (dst == 'M') return w;
        return sqrtq(1 - e * e) / w;
    }
};
struct Hyp {
    Q e;
    Q piv(char from, Q x) const
    {
        if (from == 'H') return x;
        if (from == 'N') return kepH(x, e);
        Q k = sqrtq((e - 1) / (e + 1));
        if (from == 'f') return 2 * atanhq(k * tanq(wrap(x) / 2));
        return 0;
    }
    Q to(char dst, Q H) const
    {
        if (dst == 'H') return H;
        if (dst == 'N') return e * sinhq(H) - H;
        return 2 * atanq(sqrtq((e + 1) / (e - 1)) * tanhq(H / 2));
    }
    Q der(char dst, Q H) const
    {
        if (dst == 'H') return 1;
        Q w = e * coshq(H) - 1;
        if (dst == 'N') return w;
        return sqrtq(e * e - 1) / w;
    }
};
struct Op {
    char from, to;
    double (*fn)(double, double);
    const char *name;
};
const Op ell_ops[] = {{'M', 'E', kep3::m2e, "m2e"}, {'E', 'M', kep3::e2m, "e2m"}, {'E', 'f', kep3::e2f, "e2f"},
                      {'f', 'E', kep3::f2e, "f2e"}, {'M', 'f', kep3::m2f, "m2f"}, {'f', 'M', kep3::f2m, "f2m"}};
const Op hyp_ops[] = {{'N', 'H', kep3::n2h, "n2h"}, {'H', 'N', kep3::h2n, "h2n"}, {'H', 'f', kep3::h2f, "h2f"},
                      {'f', 'H', kep3::f2h, "f2h"}, {'N', 'f', kep3::n2f, "n2f"}, {'f', 'N', kep3::f2n, "f2n"}};
} // namespace

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool th = run.thorough();
    std::vector<double> ee{0., 1e-300, 1e-16, 1e-9, 1e-4, 0.01, 0.1, 0.2, 0.3, 0.45, 0.6, 0.7, 0.8, 0.85, 0.9, 0.93, 0.96, 0.98, 0.99, 0.995, 0.999, 0.9999, 0.99999, 0.9999999};
    std::vector<double> eh{1.0000001, 1.00001, 1.0001, 1.001, 1.01, 1.03, 1.1, 1.2, 1.5, 2., 3., 5., 10., 30., 100., 1e3, 1e5};
    std::vector<double> ang;
    const int n1 = th ? 720 : 72;
    for (int k = -n1; k <= n1; ++k) ang.push_back(M_PI * k / n1);
    for (double x : {1e-300, 1e-20, 1e-12, 1e-8, 1e-5, 1e-3, 0.01, 3.14, 3.1415, 3.14159265, 3.1415926535897, 3.5, 5., 6.28, 6.2831853, 6.3, 9., 12.566370614359172, 100.,
                     1234.5, 1e5 + 0.1, 1e6, 12345678.9, 1e9})
        for (int s : {1, -1}) ang.push_back(s * x);
    if (th)
        for (int k = 0; k < 60; ++k) {
            ee.push_back(k / 60.);
            eh.push_back(1 + std::pow(10., -4 + k * 0.1));
        }
    const double K = 100;
    const int depth = th ? 5 : 4;

    run.section("ellipse", ee.size(), [&](std::uint64_t i, Case &c) {
        Ell X{Q(ee[i])};
        double e = ee[i];
        c.sample("ellipse e=" + chk::d2s(e) + ": all walks of length " + std::to_string(depth) + " from M,E,f in " + std::to_string(ang.size()) + " angles");
        auto rec = [&](auto &&self, char node, double x, Q E0, double slack, std::string path, int d, double start) -> void {
            if (d == depth) {
                c.trace();
                return;
            }
            for (auto &op : ell_ops) {
                if (op.from != node) continue;
                c.trans();
                c.eval();
                auto what = [&] { return "e=" + chk::d2s(e) + " start=" + chk::d2s(start) + " " + path + ">" + op.name; };
                double y;
                try {
                    y = op.fn(x, e);
                } catch (const std::exception &ex) {
                    c.fail("raises|" + what(), ex.what());
                    continue;
                }
                c.state(chk::mixd(chk::mixd(chk::mix(static_cast<unsigned>(op.to), i), x), y));
                Q E = X.piv(node, x), ex = X.to(op.to, E);
                Q gx = X.der(op.to, E) / X.der(node, E);
                double g = std::fabs(dd(gx));
                // rounding of the input and of the terms of the equations
                double gm = std::fabs(dd(X.der(op.to, E) / X.der('M', E))), gE = std::fabs(dd(X.der(op.to, E)));
                bool uses_m = (op.from == 'M');
                double tol = K * EPS * (g * (std::fabs(x) + 4) + (uses_m ? gm * 4 : 0) + gE + std::fabs(dd(ex)) + 1 + (op.to == 'f' || op.from == 'f' ? g * 0 + 1 : 0));
                if (tol > 1e-3) {
                    c.skip("ill_conditioned");
                    continue;
                }
                // branch: e2m keeps the revolution of its input; everything else lies in [-pi, pi]
                double err;
                if (std::string(op.name) == "e2m")
                    err = std::fabs(dd(Q(y) - (Q(x) - Q(e) * sinq(Q(x)))));
                else {
                    err = std::fabs(dd(wrap(Q(y) - ex)));
                    if (!(std::fabs(y) <= M_PI + tol)) c.fail(std::string("branch_") + op.name + "|" + what(), chk::d2s(y));
                }
                if (std::isnan(y)) err = NAN;
                bool ok = c.within((std::string("exact_") + op.name).c_str(), err, tol, what);
                // the whole walk: still the anomaly it started from
                double nsl = slack * g + tol;
                if (nsl < 1e-3) ok &= c.within("walk", std::fabs(dd(wrap(Q(y) - X.to(op.to, E0)))), nsl, what);
                else c.skip("ill_conditioned_walk");
                if (ok && nsl < 1e-3) self(self, op.to, y, E0, nsl, path + ">" + op.name, d + 1, start);
            }
        };
        for (char st : {'M', 'E', 'f'})
            for (double x : ang) rec(rec, st, x, X.piv(st, x), 0., std::string(1, st), 0, x);
    });

    std::vector<double> hs;
    for (int k = -40; k <= 40; ++k) hs.push_back(k * 0.25);
    for (double x : {1e-300, 1e-12, 1e-8, 1e-4, 0.01, 0.1, 12., 15., 18., 20.})
        for (int s : {1, -1}) hs.push_back(s * x);
    std::vector<double> ns;
    for (double x : {0., 1e-300, 1e-12, 1e-8, 1e-5, 1e-3, 0.01, 0.1, 0.5, 1., 2., 3., 5., 10., 20., 50., 100., 1e3, 1e4, 1e5, 1e6, 1e8})
        for (int s : {1, -1}) ns.push_back(s * x);
    std::vector<double> fh;
    for (int k = -30; k <= 30; ++k) fh.push_back(k / 30.5);
    for (double x : {1e-300, 1e-12, 1e-8, 1e-4, 0.99, 0.995, 0.999, 0.9999})
        for (int s : {1, -1}) fh.push_back(s * x);
    if (th) {
        for (int k = -400; k <= 400; ++k) hs.push_back(k * 0.025 + 0.011);
        for (int k = -150; k < 100; ++k) ns.push_back(std::pow(10., k * 0.05)), ns.push_back(-std::pow(10., k * 0.05));
        for (int k = -300; k <= 300; ++k) fh.push_back(k / 300.5);
    }
    run.section("hyperbola", eh.size(), [&](std::uint64_t i, Case &c) {
        Hyp X{Q(eh[i])};
        double e = eh[i];
        c.sample("hyperbola e=" + chk::d2s(e) + ": all walks of length " + std::to_string(depth));
        auto rec = [&](auto &&self, char node, double x, Q H0, double slack, std::string path, int d, double start) -> void {
            if (d == depth) {
                c.trace();
                return;
            }
            for (auto &op : hyp_ops) {
                if (op.from != node) continue;
                c.trans();
                c.eval();
                auto what = [&] { return "e=" + chk::d2s(e) + " start=" + chk::d2s(start) + " " + path + ">" + op.name; };
                double y;
                try {
                    y = op.fn(x, e);
                } catch (const std::exception &ex) {
                    c.fail("raises|" + what(), ex.what());
                    continue;
                }
                c.state(chk::mixd(chk::mixd(chk::mix(static_cast<unsigned>(op.to) + 100, i), x), y));
                Q H = X.piv(node, x), ex = X.to(op.to, H);
                if (isnanq(H)) {
                    c.skip("beyond_asymptote");
                    continue;
                }
                double g = std::fabs(dd(X.der(op.to, H) / X.der(node, H))), gN = std::fabs(dd(X.der(op.to, H) / X.der('N', H))), gH = std::fabs(dd(X.der(op.to, H)));
                double h = std::fabs(dd(H));
                double tol = K * EPS * (g * std::fabs(x) + gN * (op.from == 'N' ? e * std::sinh(h) + h : 0.) + gH * (h + (op.from == 'f' ? std::sinh(h) : 0.)) + std::fabs(dd(ex)) + (op.to == 'N' ? e * std::sinh(h) + h : 0.)
                                        + (op.to == 'f' ? 1. : 0.) + 1e-3)
                             + (op.from == 'f' ? K * EPS * gH : 0);
                if (tol > 1e-3 * (1 + std::fabs(dd(ex)))) {
                    c.skip("ill_conditioned");
                    continue;
                }
                double err = std::fabs(dd(Q(y) - ex));
                if (op.to == 'f') {
                    err = std::fabs(dd(wrap(Q(y) - ex)));
                    if (!(std::fabs(y) <= M_PI + tol)) c.fail(std::string("branch_") + op.name + "|" + what(), chk::d2s(y));
                }
                if (std::isnan(y)) err = NAN;
                bool ok = c.within((std::string("exact_") + op.name).c_str(), err, tol, what);
                double nsl = slack * g + tol;
                Q e0 = X.to(op.to, H0);
                bool good = nsl < 1e-3 * (1 + std::fabs(dd(e0)));
                if (good) ok &= c.within("walk", std::fabs(dd(op.to == 'f' ? wrap(Q(y) - e0) : Q(y) - e0)), nsl, what);
                else c.skip("ill_conditioned_walk");
                if (ok && good) self(self, op.to, y, H0, nsl, path + ">" + op.name, d + 1, start);
            }
        };
        for (double x : hs) rec(rec, 'H', x, X.piv('H', x), 0., "H", 0, x);
        for (double x : ns) rec(rec, 'N', x * e, X.piv('N', x * e), 0., "N", 0, x * e);
        double fa = std::acos(-1 / e);
        for (double x : fh)
            for (int wind : {0, 1, -2}) {
                double f = x * fa + wind * 2 * M_PI;
                rec(rec, 'f', f, X.piv('f', f), 0., "f", 0, f);
            }
        // Gudermannian
        Q kk = sqrtq((Q(e) + 1) / (Q(e) - 1));
        for (double x : ang) {
            c.trans(2);
            c.eval(2);
            c.trace();
            auto w1 = [&] { return "e=" + chk::d2s(e) + " x=" + chk::d2s(x); };
            Q t = wrap(x);
            for (int dir = 0; dir < 2; ++dir) {
                Q k = dir ? 1 / kk : kk;
                double y = dir ? kep3::f2zeta(x, e) : kep3::zeta2f(x, e);
                Q ex = 2 * atan2q(k * sinq(t / 2), cosq(t / 2));
                double c2 = dd(cosq(t / 2)), s2 = dd(sinq(t / 2)), kd = dd(k);
                double g = kd / (c2 * c2 + kd * kd * s2 * s2);
                double tol = K * EPS * (g * (std::fabs(x) + 4) + 4);
                if (tol > 1e-3) {
                    c.skip("ill_conditioned");
                    continue;
                }
                c.state(chk::mixd(chk::mixd(dir + 77, x), e));
                c.within(dir ? "exact_f2zeta" : "exact_zeta2f", std::fabs(dd(wrap(Q(y) - ex))), tol, w1);
                if (!(std::fabs(y) <= M_PI + tol)) c.fail("branch_zeta|" + w1(), chk::d2s(y));
                double back = dir ? kep3::zeta2f(y, e) : kep3::f2zeta(y, e);
                double tol2 = tol / g + K * EPS * (4 / g + 4);
                if (tol2 < 1e-3) c.within("walk_zeta", std::fabs(dd(wrap(Q(back) - t))), tol2, w1);
            }
        }
    });
    // eccentricities of the wrong conic: NaN, never a number
    std::vector<double> wrongE{1., std::nextafter(1., 2.), 1.0000001, 1.1, 2., 100., 1e10, INFINITY}, wrongH{1., std::nextafter(1., 0.), 0.9999999, 0.9, 0.5, 0.1, 1e-10, 0.};
    run.section("wrong_conic", 8, [&](std::uint64_t i, Case &c) {
        for (double x : ang) {
            for (auto &op : ell_ops) {
                c.trans();
                c.eval();
                c.state(chk::mixd(chk::mixd(i + 1000, x), op.from));
                double y = 0;
                try {
                    y = op.fn(x, wrongE[i]);
                } catch (...) {
                }
                if (!std::isnan(y)) c.fail(std::string("wrong_conic_") + op.name + "|e=" + chk::d2s(wrongE[i]) + " x=" + chk::d2s(x), chk::d2s(y));
            }
            for (auto &op : hyp_ops) {
                c.trans();
                c.eval();
                double y = 0;
                try {
                    y = op.fn(x, wrongH[i]);
                } catch (...) {
                }
                if (!std::isnan(y)) c.fail(std::string("wrong_conic_") + op.name + "|e=" + chk::d2s(wrongH[i]) + " x=" + chk::d2s(x), chk::d2s(y));
            }
            c.trans(2);
            if (!std::isnan(kep3::zeta2f(x, wrongH[i])) || !std::isnan(kep3::f2zeta(x, wrongH[i]))) c.fail("wrong_conic_zeta|e=" + chk::d2s(wrongH[i]) + " x=" + chk::d2s(x), "");
        }
        c.trace();
    });
    return run.go();
}
