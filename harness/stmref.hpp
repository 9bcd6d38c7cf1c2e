// Reference state transition matrix (quad automatic differentiation of the exact flow) with its own conditioning.
#pragma once
#include "orbits.hpp"

namespace orb
{
using D6 = ref::Dual<6>;
struct StmRef {
    std::array<Q, 36> J;            // exact Jacobian, row major
    std::array<double, 4> nrm;      // Frobenius norms of the rr, rv, vr, vv blocks
    std::array<double, 4> cond;     // forward error of each block for relative perturbations of the inputs
};
inline ref::FlowOut<D6> flow6(const ref::S6<Q> &s, Q t, Q mu)
{
    ref::S6<D6> x;
    for (int k = 0; k < 6; ++k) x[k] = D6::var(s[k], k);
    return ref::flow<D6>(x, D6(t), D6(mu));
}
inline std::array<double, 4> block_norms(const std::array<Q, 36> &M)
{
    std::array<double, 4> n{};
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) n[(i / 3) * 2 + j / 3] += std::pow(dd(M[i * 6 + j]), 2);
    for (auto &x : n) x = std::sqrt(x);
    return n;
}
inline StmRef stm_reference(const RV &s, double t, double mu)
{
    ref::S6<Q> x;
    for (int k = 0; k < 6; ++k) x[k] = s[k / 3][k % 3];
    auto o = flow6(x, t, mu);
    StmRef R;
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) R.J[i * 6 + j] = o.y[i].d[j];
    R.nrm = block_norms(R.J);
    double R0 = norm3(s[0]), V0 = norm3(s[1]);
    R.cond = R.nrm;
    const Q h = 1e-11;
    auto add = [&](const ref::FlowOut<D6> &p, double w) {
        std::array<Q, 36> D;
        for (int i = 0; i < 6; ++i)
            for (int j = 0; j < 6; ++j) D[i * 6 + j] = (p.y[i].d[j] - R.J[i * 6 + j]) / h;
        auto n = block_norms(D);
        for (int b = 0; b < 4; ++b) R.cond[b] += n[b] * w;
    };
    for (int k = 0; k < 6; ++k) {
        auto xx = x;
        xx[k] += h * Q(k < 3 ? R0 : V0);
        add(flow6(xx, t, mu), 1);
    }
    add(flow6(x, t, Q(mu) * (1 + h)), 1);
    // errors in time: the relative one, and the one equivalent to the solution of Kepler's equation in double precision
    double al = dd(o.alpha), chi = dd(o.chi), dtime;
    if (al > 0)
        dtime = 2 * M_PI * std::pow(al, -1.5) / std::sqrt(mu);
    else {
        double b = std::sqrt(-al), H = std::fabs(b * chi), s0 = 0;
        for (int k = 0; k < 3; ++k) s0 += s[0][k] * s[1][k];
        s0 = std::fabs(s0) / std::sqrt(mu) * b;
        dtime = (H + s0 * std::cosh(H) + std::fabs(1 - R0 * al) * std::sinh(H)) / (b * b * b) / std::sqrt(mu);
    }
    double tt = std::fabs(t) + dtime;
    add(flow6(x, Q(t) + h * Q(tt), mu), 1);
    // any formula differentiating the semi-major axis divides by the energy
    double np = 1 + 1 / std::fabs(R0 * al);
    // Lagrange-coefficient cancellation: M = F I + r0 dF + G I + v0 dG
    auto terms = [&](Q D6::*, int) {};
    (void)terms;
    double Rf = 0, Vf = 0;
    for (int k = 0; k < 3; ++k) {
        Rf += std::pow(dd(o.y[k].v), 2);
        Vf += std::pow(dd(o.y[k + 3].v), 2);
    }
    Rf = std::sqrt(Rf);
    Vf = std::sqrt(Vf);
    R.cond[0] += std::fabs(dd(o.F));
    R.cond[1] += std::fabs(dd(o.G));
    R.cond[2] += std::fabs(dd(o.Ft));
    R.cond[3] += std::fabs(dd(o.Gt));
    for (auto &q : R.cond) q *= 1;
    // scale of the terms that cancel for arcs close to parabolic or spanning several revolutions
    double n1 = 0, n2 = 0;
    for (int k = 0; k < 3; ++k) {
        // acceleration and velocity at the end: derivative of the state with respect to time
        n1 += std::pow(dd(o.y[k + 3].v), 2);
        n2 += std::pow(mu * dd(o.y[k].v) / (Rf * Rf * Rf), 2);
    }
    n1 = std::sqrt(n1);
    n2 = std::sqrt(n2);
    double dtr = (std::fabs(t) + dtime) / R0 * np, dtv = (std::fabs(t) + dtime) * V0 / mu * R0 * np; // d(time)/dr0, d(time)/dv0
    R.cond[0] += n1 * dtr;
    R.cond[1] += n1 * dtv;
    R.cond[2] += n2 * dtr;
    R.cond[3] += n2 * dtv;
    // absolute rounding of 1 - cos(DE) (or 1 - cosh(DH)) multiplied by the derivative of the semi-major axis
    double aa = 1 / std::fabs(al), dar = 2 * aa * aa / (R0 * R0), dav = 2 * aa * aa * V0 / mu;
    double Rm = std::min(R0, Rf);
    R.cond[0] += dar * R0 / Rm + 2 * V0 * V0 * R0 / mu; // (1 - F) (R0 dsigma0 + sigma0 dR0)
    R.cond[1] += dav * R0 / Rm + 2 * V0 * R0 * R0 / mu;
    R.cond[2] += (V0 + Vf) * dar / Rm;
    R.cond[3] += (V0 + Vf) * dav / Rm;
    return R;
}
template <typename D>
inline bool compare_stm(chk::Case &c, const char *name, const std::array<double, 36> &M, const StmRef &R, double K, D &&desc)
{
    std::array<Q, 36> E;
    for (int k = 0; k < 36; ++k) E[k] = Q(M[k]) - R.J[k];
    auto e = block_norms(E);
    static const char *bn[4] = {"_rr", "_rv", "_vr", "_vv"};
    bool ok = true;
    for (int b = 0; b < 4; ++b) {
        double tol = K * EPS * R.cond[b];
        if (tol > 1e-2 * R.nrm[b] && tol > 1e-3) {
            c.skip("stm_block_ill_conditioned");
            continue;
        }
        c.count(tol > 1e-6 * R.nrm[b] ? "tol_rel_above_1e-6" : tol > 1e-9 * R.nrm[b] ? "tol_rel_1e-9_1e-6" : "tol_rel_below_1e-9");
        ok &= c.within((std::string(name) + bn[b]).c_str(), e[b], tol, desc);
    }
    if (c.verbose)
        for (int k = 0; k < 36; ++k) std::printf("   [%d][%d] impl %.17g exact %s\n", k / 6, k % 6, M[k], ref::qs(R.J[k]).c_str());
    return ok;
}
} // namespace orb
