// Reference Lambert model in quad precision (Lagrange's time equation in the free parameter x) and problem alphabet.
#pragma once
#include "orbits.hpp"

namespace lam
{
using namespace orb;
using A3 = std::array<double, 3>;

struct Geo {      // exact geometry of a problem (quad)
    Q R0, R1, c, s, lam, T, T00, T1;
    Q ir0[3], ir1[3], it0[3], it1[3];
    double amp;   // amplification of rounding errors by the geometry
    double sinth; // |sin theta|
    bool ok = true;
};
inline Geo geometry(const A3 &r0, const A3 &r1, double tof, double mu, bool cw)
{
    Geo g;
    Q a[3], b[3], d[3];
    for (int k = 0; k < 3; ++k) {
        a[k] = r0[k];
        b[k] = r1[k];
        d[k] = b[k] - a[k];
    }
    auto nrm = [](const Q *x) { return sqrtq(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); };
    g.R0 = nrm(a);
    g.R1 = nrm(b);
    g.c = nrm(d);
    g.s = (g.R0 + g.R1 + g.c) / 2;
    Q h[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
    Q H = nrm(h);
    g.sinth = dd(H / (g.R0 * g.R1));
    if (h[2] == 0 || H == 0) g.ok = false;
    Q sgn = ((h[2] < 0) != cw) ? -1 : 1;
    for (auto &x : h) x /= H;
    // lambda^2 = 1 - c/s, computed without cancellation: R0 R1 cos^2(theta/2) = lambda^2 s^2
    Q cth = (a[0] * b[0] + a[1] * b[1] + a[2] * b[2]) / (g.R0 * g.R1);
    Q l2 = g.R0 * g.R1 * (1 + cth) / 2 / (g.s * g.s);
    if (cth < Q(-0.5)) { // 1 + cos = sin^2 / (1 - cos)
        Q sth = H / (g.R0 * g.R1);
        l2 = g.R0 * g.R1 * (sth * sth / (1 - cth)) / 2 / (g.s * g.s);
    }
    g.lam = sgn * sqrtq(l2);
    for (int k = 0; k < 3; ++k) {
        g.ir0[k] = a[k] / g.R0;
        g.ir1[k] = b[k] / g.R1;
    }
    auto crs = [&](const Q *r, Q *o) {
        o[0] = sgn * (h[1] * r[2] - h[2] * r[1]);
        o[1] = sgn * (h[2] * r[0] - h[0] * r[2]);
        o[2] = sgn * (h[0] * r[1] - h[1] * r[0]);
    };
    crs(g.ir0, g.it0);
    crs(g.ir1, g.it1);
    g.T = sqrtq(2 * Q(mu) / (g.s * g.s * g.s)) * Q(tof);
    g.T00 = acosq(g.lam) + g.lam * sqrtq(1 - l2);
    g.T1 = Q(2) / 3 * (1 - l2 * g.lam);
    double rho = dd((g.R0 - g.R1) / g.c);
    double om = dd(2 * g.R0 * g.R1 * (1 - cth) / (g.c * g.c));
    (void)rho;
    g.amp = 1 / g.sinth + 1 / om;
    return g;
}
// dimensionless time of flight for N revolutions and its derivative
inline Q tof_x(Q l, Q x, int N, Q *dT = nullptr)
{
    Q E = x * x - 1, y = sqrtq(1 + l * l * E), T;
    if (fabsq(x - 1) < Q(1e-3)) { // series 2F1(3,1,5/2,S)
        Q eta = y - l * x, S = (1 - l - x * eta) / 2, t = 1, sum = 1;
        for (int j = 0; j < 200; ++j) {
            t *= (Q(3) + j) / (Q(5) / 2 + j) * S;
            sum += t;
            if (fabsq(t) < Q(1e-38)) break;
        }
        T = (eta * eta * eta * (Q(4) / 3) * sum + 4 * l * eta) / 2;
        if (N) T += N * ref::PI / powq(fabsq(E), Q(3) / 2);
    } else if (E < 0) {
        Q w = sqrtq(-E), psi = atan2q((y - x * l) * w, x * y - l * E);
        T = ((psi + N * ref::PI) / w - x + l * y) / (-E);
    } else {
        Q w = sqrtq(E), psi = asinhq((y - x * l) * w);
        T = (psi / w - x + l * y) / (-E);
    }
    if (dT) {
        if (fabsq(E) < Q(1e-10))
            *dT = Q(2) / 5 * (l * l * l * l * l - 1);
        else
            *dT = (3 * T * x - 2 + 2 * l * l * l * x / y) / (1 - x * x);
    }
    return T;
}
// x of the minimum time for N >= 1 (dT/dx increasing in x on (-1, 1))
inline Q x_min(Q l, int N)
{
    Q lo = Q(-1) + Q(1e-12), hi = 1 - Q(1e-12);
    for (int i = 0; i < 130; ++i) {
        Q m = (lo + hi) / 2, d;
        tof_x(l, m, N, &d);
        if (d > 0)
            hi = m;
        else
            lo = m;
    }
    return (lo + hi) / 2;
}
// solve T(x) = T on a monotone interval. branch: 0 = the only solution for N = 0, 1 = left, 2 = right
inline Q solve_x(Q l, Q T, int N, int branch, Q xm)
{
    Q lo, hi;
    bool dec; // decreasing?
    if (N == 0) {
        lo = -1;
        hi = 2;
        while (tof_x(l, hi, 0) > T) {
            lo = hi;
            hi *= 2;
        }
        dec = true;
    } else if (branch == 1) {
        lo = -1;
        hi = xm;
        dec = true;
    } else {
        lo = xm;
        hi = 1;
        dec = false;
    }
    Q x = (lo + hi) / 2;
    for (int i = 0; i < 300; ++i) {
        Q d, t = tof_x(l, x, N, &d);
        if ((t > T) == dec)
            lo = x;
        else
            hi = x;
        Q nx = x - (t - T) / d;
        if (!(nx > lo && nx < hi)) nx = (lo + hi) / 2;
        if (fabsq(nx - x) < Q(1e-31) * (1 + fabsq(x)) || hi - lo < Q(1e-32)) {
            x = nx;
            break;
        }
        x = nx;
    }
    return x;
}
struct Sol {
    Q x;
    Q v0[3], v1[3];
    int revs;
    double dx;   // forward error of x for a relative error EPS of the problem
    double err0; // corresponding forward errors of the velocities (unit EPS)
    double err1;
};
inline void velocities(const Geo &g, double mu, Q x, Q *v0, Q *v1)
{
    Q gam = sqrtq(Q(mu) * g.s / 2), rho = (g.R0 - g.R1) / g.c, l = g.lam;
    Q cth = 0;
    for (int k = 0; k < 3; ++k) cth += g.ir0[k] * g.ir1[k];
    Q sg = sqrtq(2 * g.R0 * g.R1 * (1 - cth)) / g.c;
    Q y = sqrtq(1 - l * l + l * l * x * x);
    Q vr0 = gam * ((l * y - x) - rho * (l * y + x)) / g.R0, vr1 = -gam * ((l * y - x) + rho * (l * y + x)) / g.R1;
    Q vt = gam * sg * (y + l * x);
    for (int k = 0; k < 3; ++k) {
        v0[k] = vr0 * g.ir0[k] + vt / g.R0 * g.it0[k];
        v1[k] = vr1 * g.ir1[k] + vt / g.R1 * g.it1[k];
    }
}
// all solutions with up to M revolutions, in the order of the library; Nmax; margin = smallest |T - Tmin| / T met
inline std::vector<Sol> solve(const Geo &g, double mu, int M, int &Nmax, double &margin)
{
    std::vector<Sol> out;
    margin = 1;
    Nmax = 0;
    auto push = [&](Q x, int n) {
        Sol s;
        s.x = x;
        s.revs = n;
        velocities(g, mu, x, s.v0, s.v1);
        Q d, dl;
        tof_x(g.lam, x, n, &d);
        Q hl = Q(1e-12);
        dl = (tof_x(g.lam + hl, x, n) - tof_x(g.lam - hl, x, n)) / (2 * hl);
        // lambda is known to about EPS / |lambda| (from 1 - c/s) near 180 degrees, see DESIGN.md
        s.dx = dd((g.T + fabsq(dl)) / fabsq(d)) * (1 + g.amp) + dd(fabsq(x)) + 1;
        Q h = Q(1e-12) * (1 + fabsq(x)), a0[3], a1[3], b0[3], b1[3];
        velocities(g, mu, x + h, a0, a1);
        velocities(g, mu, x - h, b0, b1);
        double n0 = 0, n1 = 0, m0 = 0, m1 = 0;
        for (int k = 0; k < 3; ++k) {
            n0 += std::pow(dd((a0[k] - b0[k]) / (2 * h)), 2);
            n1 += std::pow(dd((a1[k] - b1[k]) / (2 * h)), 2);
            m0 += std::pow(dd(s.v0[k]), 2);
            m1 += std::pow(dd(s.v1[k]), 2);
        }
        // cancellation inside the radial terms
        double gam = dd(sqrtq(Q(mu) * g.s / 2)), X = dd(fabsq(x)) + 1;
        s.err0 = std::sqrt(n0) * s.dx + (std::sqrt(m0) + 2 * gam * X / dd(g.R0)) * (1 + g.amp);
        s.err1 = std::sqrt(n1) * s.dx + (std::sqrt(m1) + 2 * gam * X / dd(g.R1)) * (1 + g.amp);
        out.push_back(s);
    };
    push(solve_x(g.lam, g.T, 0, 0, 0), 0);
    for (int n = 1; n <= M; ++n) {
        if (g.T < (n - Q(1e-6)) * ref::PI) break; // Tmin(n) > n pi
        Q xm = x_min(g.lam, n), tm = tof_x(g.lam, xm, n);
        margin = std::min(margin, std::fabs(dd((g.T - tm) / g.T)));
        if (g.T < tm) break;
        Nmax = n;
        push(solve_x(g.lam, g.T, n, 1, xm), n);
        push(solve_x(g.lam, g.T, n, 2, xm), n);
    }
    return out;
}
// a problem of the alphabet
struct Prob {
    A3 r0, r1;
    double tof, mu;
    bool cw;
    std::string what;
};
inline Prob make_prob(const Units &un, double ratio, double theta, const Orient &o, double T, bool cw)
{
    Prob p;
    RV a = orb::make(un.L, 0., o.i, o.W, o.w, 0., un.mu), b = orb::make(un.L * ratio, 0., o.i, o.W, o.w, theta, un.mu);
    p.r0 = a[0];
    p.r1 = b[0];
    p.mu = un.mu;
    p.cw = cw;
    auto g = geometry(p.r0, p.r1, 1., p.mu, cw);
    p.tof = dd(Q(T) / g.T);
    p.what = std::string(un.name) + " ratio=" + chk::d2s(ratio) + " theta=" + chk::d2s(theta) + " i=" + chk::d2s(o.i) + " T=" + chk::d2s(T)
             + (cw ? " cw" : "");
    return p;
}
} // namespace lam
