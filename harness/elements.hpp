// Exact (quad, differentiable) conversions between Cartesian, Keplerian and modified equinoctial elements, and the
// first-order rounding tolerance of each conversion of the library.
#pragma once
#include "orbits.hpp"

namespace el
{
using namespace orb;
template <typename T>
using E6 = std::array<T, 6>;

template <typename T>
inline E6<T> kep2ic(const E6<T> &p, const T &mu)
{
    T one{Q(1)};
    T par = p[0] * (one - p[1] * p[1]);
    T cf = ref::Cos(p[5]), sf = ref::Sin(p[5]);
    T r = par / (one + p[1] * cf), sq = ref::Sqrt(mu / par);
    T x = r * cf, y = r * sf, vx = -(sq * sf), vy = sq * (p[1] + cf);
    T ci = ref::Cos(p[2]), si = ref::Sin(p[2]), cW = ref::Cos(p[3]), sW = ref::Sin(p[3]), cw = ref::Cos(p[4]), sw = ref::Sin(p[4]);
    T R[3][2] = {{cW * cw - sW * sw * ci, -(cW * sw) - sW * cw * ci}, {sW * cw + cW * sw * ci, cW * cw * ci - sW * sw}, {sw * si, cw * si}};
    E6<T> o;
    for (int k = 0; k < 3; ++k) {
        o[k] = R[k][0] * x + R[k][1] * y;
        o[k + 3] = R[k][0] * vx + R[k][1] * vy;
    }
    return o;
}
template <typename T>
inline E6<T> eqn2ic(const E6<T> &q, const T &mu, int I)
{
    T one{Q(1)}, s{Q(I)}, two{Q(2)};
    T f = q[1], g = q[2], h = q[3], k = q[4];
    T cL = ref::Cos(q[5]), sL = ref::Sin(q[5]);
    T den = one + h * h + k * k;
    T F[3] = {(one - k * k + h * h) / den, two * k * h / den, -(two * s * k) / den};
    T G[3] = {two * s * k * h / den, (one + k * k - h * h) * s / den, two * h / den};
    T r = q[0] / (one + g * sL + f * cL), sq = ref::Sqrt(mu / q[0]);
    T X = r * cL, Y = r * sL, VX = -(sq * (g + sL)), VY = sq * (f + cL);
    E6<T> o;
    for (int i = 0; i < 3; ++i) {
        o[i] = X * F[i] + Y * G[i];
        o[i + 3] = VX * F[i] + VY * G[i];
    }
    return o;
}
template <typename T>
struct Basics {
    ref::V3<T> r, v, h, ev;
    T R, V2, H, rv, e, alpha;
};
template <typename T>
inline Basics<T> basics(const E6<T> &s, const T &mu)
{
    Basics<T> b;
    b.r = {s[0], s[1], s[2]};
    b.v = {s[3], s[4], s[5]};
    b.h = ref::cross3(b.r, b.v);
    b.R = ref::Sqrt(ref::dot3(b.r, b.r));
    b.V2 = ref::dot3(b.v, b.v);
    b.H = ref::Sqrt(ref::dot3(b.h, b.h));
    b.rv = ref::dot3(b.r, b.v);
    auto c = ref::cross3(b.v, b.h);
    for (int k = 0; k < 3; ++k) b.ev[k] = c[k] / mu - b.r[k] / b.R;
    b.e = ref::Sqrt(ref::dot3(b.ev, b.ev));
    b.alpha = T(Q(2)) / b.R - b.V2 / mu;
    return b;
}
template <typename T>
inline E6<T> ic2kep(const E6<T> &s, const T &mu)
{
    auto b = basics(s, mu);
    E6<T> o;
    o[0] = T(Q(1)) / b.alpha;
    o[1] = b.e;
    T hxy = ref::Sqrt(b.h[0] * b.h[0] + b.h[1] * b.h[1]);
    o[2] = ref::Atan2(hxy, b.h[2]);
    o[3] = ref::Atan2(b.h[0], -b.h[1]);
    ref::V3<T> n{-b.h[1], b.h[0], T(Q(0))};
    auto m = ref::cross3(b.h, n);
    o[4] = ref::Atan2(ref::dot3(m, b.ev) / b.H, ref::dot3(n, b.ev));
    auto q = ref::cross3(b.h, b.ev);
    o[5] = ref::Atan2(ref::dot3(q, b.r) / b.H, ref::dot3(b.ev, b.r));
    return o;
}
template <typename T>
inline E6<T> ic2eqn(const E6<T> &s, const T &mu, int I)
{
    auto b = basics(s, mu);
    T one{Q(1)}, sg{Q(I)}, two{Q(2)};
    ref::V3<T> w{b.h[0] / b.H, b.h[1] / b.H, b.h[2] / b.H};
    T d = one + sg * w[2];
    T k = w[0] / d, h = -(w[1] / d);
    T den = one + h * h + k * k;
    ref::V3<T> F{(one - k * k + h * h) / den, two * k * h / den, -(two * sg * k) / den}, G{two * sg * k * h / den, (one + k * k - h * h) * sg / den, two * h / den};
    E6<T> o;
    o[0] = b.H * b.H / mu;
    o[1] = ref::dot3(b.ev, F);
    o[2] = ref::dot3(b.ev, G);
    o[3] = h;
    o[4] = k;
    o[5] = ref::Atan2(ref::dot3(b.r, G), ref::dot3(b.r, F));
    return o;
}
template <typename T>
inline E6<T> kep2eqn(const E6<T> &p, int I)
{
    T s{Q(I)}, one{Q(1)};
    T th = ref::Tan(p[2] / T(Q(2)));
    if (I < 0) th = one / th;
    return {p[0] * (one - p[1] * p[1]), p[1] * ref::Cos(p[4] + s * p[3]), p[1] * ref::Sin(p[4] + s * p[3]), th * ref::Cos(p[3]), th * ref::Sin(p[3]), p[5] + p[4] + s * p[3]};
}
template <typename T>
inline E6<T> eqn2kep(const E6<T> &q, int I)
{
    T s{Q(I)}, one{Q(1)}, two{Q(2)};
    T e = ref::Sqrt(q[1] * q[1] + q[2] * q[2]), th = ref::Sqrt(q[3] * q[3] + q[4] * q[4]);
    T at = ref::Atan2(th, one);
    T W = ref::Atan2(q[4], q[3]), w = ref::Atan2(q[2], q[1]) - s * W;
    T inc = I > 0 ? two * at : T(ref::PI) - two * at;
    return {q[0] / (one - e * e), e, inc, W, w, q[5] - s * W - w};
}
using D7 = ref::Dual<7>;
inline E6<D7> vars(const std::array<double, 6> &x)
{
    E6<D7> v;
    for (int k = 0; k < 6; ++k) v[k] = D7::var(x[k], k);
    return v;
}
inline std::array<double, 6> flat(const RV &s) { return {s[0][0], s[0][1], s[0][2], s[1][0], s[1][1], s[1][2]}; }
inline RV unflat(const std::array<double, 6> &x) { return {{{x[0], x[1], x[2]}, {x[3], x[4], x[5]}}}; }
inline Q wrapq(Q x)
{
    const Q T2 = 2 * ref::PI;
    x = fmodq(x, T2);
    if (x > ref::PI) x -= T2;
    if (x <= -ref::PI) x += T2;
    return x;
}
enum Op { IC2PAR, PAR2IC, IC2EQ, EQ2IC, IC2EQR, EQ2ICR, PAR2EQ, EQ2PAR, PAR2EQR, EQ2PARR, NOPS };
inline const char *op_name(int o)
{
    static const char *n[] = {"ic2par", "par2ic", "ic2eq", "eq2ic", "ic2eq_retro", "eq2ic_retro", "par2eq", "eq2par", "par2eq_retro", "eq2par_retro"};
    return n[o];
}
enum Rep { IC, KEP, EQ, EQR };
inline Rep from_of(int o)
{
    static const Rep f[] = {IC, KEP, IC, EQ, IC, EQR, KEP, EQ, KEP, EQR};
    return f[o];
}
inline Rep to_of(int o)
{
    static const Rep f[] = {KEP, IC, EQ, IC, EQR, IC, EQ, KEP, EQR, KEP};
    return f[o];
}
inline E6<D7> exact(int op, const E6<D7> &x, const D7 &mu)
{
    switch (op) {
        case IC2PAR: return ic2kep(x, mu);
        case PAR2IC: return kep2ic(x, mu);
        case IC2EQ: return ic2eqn(x, mu, 1);
        case EQ2IC: return eqn2ic(x, mu, 1);
        case IC2EQR: return ic2eqn(x, mu, -1);
        case EQ2ICR: return eqn2ic(x, mu, -1);
        case PAR2EQ: return kep2eqn(x, 1);
        case EQ2PAR: return eqn2kep(x, 1);
        case PAR2EQR: return kep2eqn(x, -1);
        default: return eqn2kep(x, -1);
    }
}
// is output k of a representation an angle?
inline bool is_angle(Rep r, int k) { return r == KEP ? k >= 3 : (r == EQ || r == EQR) ? k == 5 : false; }

struct OpRef {
    E6<Q> y;                   // exact result
    std::array<double, 6> tol; // tolerance per component
    bool defined = true;
};
// K: multiple of EPS
inline OpRef reference(int op, const std::array<double, 6> &x, double mu, double K)
{
    OpRef R;
    auto v = vars(x);
    D7 m = D7::var(mu, 6);
    auto y = exact(op, v, m);
    double k1 = K * EPS;
    for (int i = 0; i < 6; ++i) {
        R.y[i] = y[i].v;
        R.tol[i] = 0;
        if (isnanq(y[i].v) || isinfq(y[i].v)) R.defined = false;
    }
    Rep fr = from_of(op), to = to_of(op);
    // propagated relative perturbations of the inputs
    double R0 = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]), V0 = std::sqrt(x[3] * x[3] + x[4] * x[4] + x[5] * x[5]);
    for (int i = 0; i < 6; ++i) {
        double c = std::fabs(dd(y[i].d[6])) * mu;
        if (fr == IC) {
            double a = 0, b = 0;
            for (int j = 0; j < 3; ++j) {
                a += std::pow(dd(y[i].d[j]), 2);
                b += std::pow(dd(y[i].d[j + 3]), 2);
            }
            c += std::sqrt(a) * R0 + std::sqrt(b) * V0;
        } else
            for (int j = 0; j < 6; ++j) c += std::fabs(dd(y[i].d[j])) * (std::fabs(x[j]) + (is_angle(fr, j) || (fr == KEP && j == 2) ? 1. : 0.));
        R.tol[i] = k1 * (c + std::fabs(dd(y[i].v)) + (is_angle(to, i) ? 4 : 0));
    }
    if (to == IC) { // rotation: compare blocks
        double rn = 0, vn = 0;
        for (int i = 0; i < 3; ++i) {
            rn += R.tol[i];
            vn += R.tol[i + 3];
        }
        for (int i = 0; i < 3; ++i) {
            R.tol[i] = rn;
            R.tol[i + 3] = vn;
        }
    }
    if (fr == IC) {
        E6<Q> s;
        for (int i = 0; i < 6; ++i) s[i] = x[i];
        auto b = basics<Q>(s, Q(mu));
        double e = dd(b.e), om = std::fabs(1 - e * e), H = dd(b.H), evn = V0 * H / mu + 1, hn = R0 * V0 / H; // hn: cancellation in r x v
        double ci = dd(b.h[2] / b.H), si = dd(sqrtq(b.h[0] * b.h[0] + b.h[1] * b.h[1]) / b.H);
        double base = k1 * (1 + hn);
        if (to == KEP) {
            double a = std::fabs(dd(y[0].v));
            auto ac = [](double sn, double rel) { return std::min(rel / std::max(std::fabs(sn), 1e-300), std::sqrt(2 * rel)) + rel; };
            double de = base * evn * (1 + hn);
            R.tol[0] += a * (base + 4 * de / om);
            R.tol[1] += de;
            R.tol[2] += ac(si, base);
            double W = dd(y[3].v), w = dd(y[4].v), f = dd(y[5].v);
            double nrel = base / std::max(si, 1e-300), erel = de / std::max(e, 1e-300);
            R.tol[3] += ac(std::sin(W), nrel);
            R.tol[4] += ac(std::sin(w), nrel + erel);
            R.tol[5] += ac(std::sin(f), erel);
        } else {
            double sg = to == EQ ? 1. : -1.;
            double d = 1 + sg * ci;
            if (d < 1e-12) d = 0.5 * si * si;
            double hk = si / d;
            double de = base * evn * (1 + hn), amp = base * (1 + 1 / d);
            R.tol[0] += std::fabs(dd(y[0].v)) * (base + 4 * de / om);
            R.tol[1] += de + amp * (e + evn);
            R.tol[2] += de + amp * (e + evn);
            R.tol[3] += amp * (hk + 1);
            R.tol[4] += amp * (hk + 1);
            R.tol[5] += amp * 4;
        }
    }
    return R;
}
// physical state denoted by a representation, with the derivative
inline E6<D7> physical(Rep r, const std::array<double, 6> &x, double mu)
{
    auto v = vars(x);
    D7 m = D7::var(mu, 6);
    if (r == KEP) return kep2ic(v, m);
    if (r == EQ) return eqn2ic(v, m, 1);
    if (r == EQR) return eqn2ic(v, m, -1);
    return v;
}
} // namespace el
