// Orbit alphabets and reference helpers shared by the propagation / STM / conversion harnesses.
#pragma once
#include "common.hpp"
#include "quad.hpp"
#include <array>
#include <vector>

namespace orb
{
using ref::Q;
using RV = std::array<std::array<double, 3>, 2>;

struct Units {
    double L, mu;
    const char *name;
};
// a length scale and a gravitational parameter
inline const std::vector<Units> &units()
{
    static const std::vector<Units> u{{1., 1., "unit"},
                                      {149597870700.0, 1.32712440041279419e20, "sun-si"},
                                      {7.0e6, 398600435507000.0, "earth-si"},
                                      {0.03, 1., "small"},
                                      {42164., 398600.4418, "earth-km"},
                                      {2.5, 1e-3, "weak"},
                                      {1e-6, 1., "tiny"},
                                      {1e15, 1e-3, "vast"}};
    return u;
}

// true anomaly etc in quad -> Cartesian in quad, then rounded to double: the *rounded* state is the model state.
inline RV make(double a, double e, double i, double W, double w, double f, double mu)
{
    Q p = Q(a) * (1 - Q(e) * Q(e));
    Q cf = cosq(f), sf = sinq(f);
    Q r = p / (1 + Q(e) * cf), h = sqrtq(p * Q(mu));
    Q x = r * cf, y = r * sf, vx = -Q(mu) / h * sf, vy = Q(mu) / h * (Q(e) + cf);
    Q cW = cosq(W), sW = sinq(W), cw = cosq(w), sw = sinq(w), ci = cosq(i), si = sinq(i);
    Q R[3][2] = {{cW * cw - sW * sw * ci, -cW * sw - sW * cw * ci},
                 {sW * cw + cW * sw * ci, -sW * sw + cW * cw * ci},
                 {sw * si, cw * si}};
    RV s{};
    for (int k = 0; k < 3; ++k) {
        s[0][k] = static_cast<double>(R[k][0] * x + R[k][1] * y);
        s[1][k] = static_cast<double>(R[k][0] * vx + R[k][1] * vy);
    }
    return s;
}

struct Orient {
    double i, W, w;
};
inline const std::vector<Orient> &orients()
{
    static const std::vector<Orient> o{{0., 0., 0.}, {0.4, 1.1, 2.2}, {1.5707963267948966, 4.0, 0.7}, {2.6, 5.5, 4.4}, {3.141592653589793, 0.3, 1.9}};
    return o;
}

// exact final state with 8 partials (6 state, t, mu)
using D8 = ref::Dual<8>;
inline ref::FlowOut<D8> flow8(const RV &s, double t, double mu)
{
    ref::S6<D8> x;
    for (int k = 0; k < 6; ++k) x[k] = D8::var(s[k / 3][k % 3], k);
    return ref::flow<D8>(x, D8::var(t, 6), D8::var(mu, 7));
}
inline ref::FlowOut<Q> flowq(const RV &s, double t, double mu)
{
    ref::S6<Q> x;
    for (int k = 0; k < 6; ++k) x[k] = s[k / 3][k % 3];
    return ref::flow<Q>(x, Q(t), Q(mu));
}
inline double norm3(const std::array<double, 3> &a) { return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
inline double dd(Q x) { return static_cast<double>(x); }

constexpr double EPS = 2.220446049250313e-16;

// Forward error of position and velocity for a relative perturbation EPS of every input, plus the cancellation inside
// F r0 + G v0 (any Lagrange-coefficient method has it). Returned per block (position, velocity), in absolute units.
inline std::array<double, 2> flow_cond(const ref::FlowOut<D8> &o, const RV &s, double t, double mu)
{
    std::array<double, 2> c{0, 0};
    double R0 = norm3(s[0]), V0 = norm3(s[1]);
    // perturb the blocks (not single components) so that the measure is rotation invariant
    for (int b = 0; b < 2; ++b) {
        double blk = b == 0 ? R0 : V0;
        for (int out = 0; out < 2; ++out) {
            double fro = 0;
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j) {
                    double q = dd(o.y[out * 3 + i].d[b * 3 + j]);
                    fro += q * q;
                }
            c[out] += std::sqrt(fro) * blk;
        }
    }
    for (int out = 0; out < 2; ++out) {
        double n1 = 0, n2 = 0, n3 = 0;
        for (int i = 0; i < 3; ++i) {
            double a = dd(o.y[out * 3 + i].d[6]), b = dd(o.y[out * 3 + i].d[7]), v = dd(o.y[out * 3 + i].v);
            n1 += a * a;
            n2 += b * b;
            n3 += v * v;
        }
        c[out] += std::sqrt(n1) * std::fabs(t) + std::sqrt(n2) * mu + std::sqrt(n3);
    }
    c[0] += std::fabs(dd(o.F)) * R0 + std::fabs(dd(o.G)) * V0;
    c[1] += std::fabs(dd(o.Ft)) * R0 + std::fabs(dd(o.Gt)) * V0;
    // Kepler's equation in double precision is solved up to an absolute error of a few EPS times the size of its
    // terms (angles up to 2 pi for ellipses; the hyperbolic terms for hyperbolae): an equivalent error in time.
    {
        double al = dd(o.alpha), chi = dd(o.chi);
        double dtime;
        if (al > 0)
            dtime = 2 * M_PI * std::pow(al, -1.5) / std::sqrt(mu);
        else {
            double b = std::sqrt(-al), H = std::fabs(b * chi);
            double s0 = 0;
            for (int k = 0; k < 3; ++k) s0 += s[0][k] * s[1][k];
            s0 = std::fabs(s0) / std::sqrt(mu) * b;
            double terms = H + s0 * std::cosh(H) + std::fabs(1 - R0 * al) * std::sinh(H);
            dtime = terms / (b * b * b) / std::sqrt(mu);
        }
        for (int out = 0; out < 2; ++out) {
            double n1 = 0;
            for (int i = 0; i < 3; ++i) n1 += std::pow(dd(o.y[out * 3 + i].d[6]), 2);
            c[out] += std::sqrt(n1) * dtime;
        }
    }
    return c;
}
} // namespace orb
