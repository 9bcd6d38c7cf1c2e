// Quad precision scalar + forward-mode dual numbers used by every reference model.
#pragma once
#include <array>
#include <cmath>
#include <cstddef>
#include <quadmath.h>
#include <string>

namespace ref
{
using Q = __float128;

inline const Q PI = M_PIq;
inline Q qsin(Q x) { return sinq(x); }
inline Q qcos(Q x) { return cosq(x); }

// value helpers (so that the same template works on Q and Dual)
inline Q val(Q x) { return x; }
inline Q Sqrt(Q x) { return sqrtq(x); }
inline Q Sin(Q x) { return sinq(x); }
inline Q Cos(Q x) { return cosq(x); }
inline Q Tan(Q x) { return tanq(x); }
inline Q Exp(Q x) { return expq(x); }
inline Q Log(Q x) { return logq(x); }
inline Q Atan2(Q y, Q x) { return atan2q(y, x); }
inline Q Abs(Q x) { return fabsq(x); }

template <int N>
struct Dual {
    Q v{};
    std::array<Q, N> d{};
    Dual() = default;
    Dual(Q x) : v(x) {}
    Dual(double x) : v(x) {}
    Dual(int x) : v(x) {}
    static Dual var(Q x, int i)
    {
        Dual r(x);
        r.d[i] = 1;
        return r;
    }
};
template <int N>
inline Q val(const Dual<N> &x)
{
    return x.v;
}
template <int N>
inline Dual<N> chain(const Dual<N> &x, Q f, Q df)
{
    Dual<N> r(f);
    for (int i = 0; i < N; ++i) r.d[i] = df * x.d[i];
    return r;
}
template <int N>
inline Dual<N> operator+(const Dual<N> &a, const Dual<N> &b)
{
    Dual<N> r(a.v + b.v);
    for (int i = 0; i < N; ++i) r.d[i] = a.d[i] + b.d[i];
    return r;
}
template <int N>
inline Dual<N> operator-(const Dual<N> &a, const Dual<N> &b)
{
    Dual<N> r(a.v - b.v);
    for (int i = 0; i < N; ++i) r.d[i] = a.d[i] - b.d[i];
    return r;
}
template <int N>
inline Dual<N> operator-(const Dual<N> &a)
{
    Dual<N> r(-a.v);
    for (int i = 0; i < N; ++i) r.d[i] = -a.d[i];
    return r;
}
template <int N>
inline Dual<N> operator*(const Dual<N> &a, const Dual<N> &b)
{
    Dual<N> r(a.v * b.v);
    for (int i = 0; i < N; ++i) r.d[i] = a.d[i] * b.v + a.v * b.d[i];
    return r;
}
template <int N>
inline Dual<N> operator/(const Dual<N> &a, const Dual<N> &b)
{
    Q inv = Q(1) / b.v;
    Q q = a.v * inv;
    Dual<N> r(q);
    for (int i = 0; i < N; ++i) r.d[i] = (a.d[i] - q * b.d[i]) * inv;
    return r;
}
#define REF_MIX(op)                                                                                                    \
    template <int N>                                                                                                   \
    inline Dual<N> operator op(const Dual<N> &a, Q b)                                                                  \
    {                                                                                                                  \
        return a op Dual<N>(b);                                                                                        \
    }                                                                                                                  \
    template <int N>                                                                                                   \
    inline Dual<N> operator op(Q a, const Dual<N> &b)                                                                  \
    {                                                                                                                  \
        return Dual<N>(a) op b;                                                                                        \
    }
REF_MIX(+)
REF_MIX(-)
REF_MIX(*)
REF_MIX(/)
#undef REF_MIX
template <int N>
inline Dual<N> Sqrt(const Dual<N> &x)
{
    Q s = sqrtq(x.v);
    return chain(x, s, Q(1) / (2 * s));
}
template <int N>
inline Dual<N> Sin(const Dual<N> &x)
{
    return chain(x, sinq(x.v), cosq(x.v));
}
template <int N>
inline Dual<N> Cos(const Dual<N> &x)
{
    return chain(x, cosq(x.v), -sinq(x.v));
}
template <int N>
inline Dual<N> Tan(const Dual<N> &x)
{
    Q t = tanq(x.v);
    return chain(x, t, 1 + t * t);
}
template <int N>
inline Dual<N> Exp(const Dual<N> &x)
{
    Q e = expq(x.v);
    return chain(x, e, e);
}
template <int N>
inline Dual<N> Atan2(const Dual<N> &y, const Dual<N> &x)
{
    Dual<N> r(atan2q(y.v, x.v));
    Q n = x.v * x.v + y.v * y.v;
    for (int i = 0; i < N; ++i) r.d[i] = (x.v * y.d[i] - y.v * x.d[i]) / n;
    return r;
}
template <int N>
inline Dual<N> Abs(const Dual<N> &x)
{
    return x.v < 0 ? -x : x;
}

// ---------------------------------------------------------------- Stumpff functions c0..c5
inline void stumpff(Q z, std::array<Q, 6> &c)
{
    if (fabsq(z) < 1) {
        // series for c4, c5, then recurrences downwards
        Q c4 = 0, c5 = 0, t4 = Q(1) / 24, t5 = Q(1) / 120;
        for (int k = 0; k < 30; ++k) {
            c4 += t4;
            c5 += t5;
            t4 *= -z / (Q(2 * k + 5) * Q(2 * k + 6));
            t5 *= -z / (Q(2 * k + 6) * Q(2 * k + 7));
            if (fabsq(t4) < Q(1e-40) && fabsq(t5) < Q(1e-40)) break;
        }
        c[5] = c5;
        c[4] = c4;
        c[3] = Q(1) / 6 - z * c5;
        c[2] = Q(1) / 2 - z * c4;
        c[1] = 1 - z * c[3];
        c[0] = 1 - z * c[2];
    } else if (z > 0) {
        Q s = sqrtq(z);
        c[0] = cosq(s);
        c[1] = sinq(s) / s;
        c[2] = (1 - c[0]) / z;
        c[3] = (1 - c[1]) / z;
        c[4] = (Q(1) / 2 - c[2]) / z;
        c[5] = (Q(1) / 6 - c[3]) / z;
    } else {
        Q s = sqrtq(-z);
        c[0] = coshq(s);
        c[1] = sinhq(s) / s;
        c[2] = (1 - c[0]) / z;
        c[3] = (1 - c[1]) / z;
        c[4] = (Q(1) / 2 - c[2]) / z;
        c[5] = (Q(1) / 6 - c[3]) / z;
    }
}
// dc_n/dz = (n c_{n+2} - c_{n+1}) / 2
template <typename T>
struct Stump;
template <>
struct Stump<Q> {
    static void get(const Q &z, Q &c0, Q &c1, Q &c2, Q &c3)
    {
        std::array<Q, 6> c;
        stumpff(z, c);
        c0 = c[0];
        c1 = c[1];
        c2 = c[2];
        c3 = c[3];
    }
};
template <int N>
struct Stump<Dual<N>> {
    static void get(const Dual<N> &z, Dual<N> &c0, Dual<N> &c1, Dual<N> &c2, Dual<N> &c3)
    {
        std::array<Q, 6> c;
        stumpff(z.v, c);
        c0 = chain(z, c[0], -c[1] / 2);
        c1 = chain(z, c[1], (c[3] - c[2]) / 2);
        c2 = chain(z, c[2], (2 * c[4] - c[3]) / 2);
        c3 = chain(z, c[3], (3 * c[5] - c[4]) / 2);
    }
};

template <typename T>
using V3 = std::array<T, 3>;
template <typename T>
using S6 = std::array<T, 6>;

template <typename T>
inline T dot3(const V3<T> &a, const V3<T> &b)
{
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
template <typename T>
inline V3<T> cross3(const V3<T> &a, const V3<T> &b)
{
    return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}

// Solve the universal Kepler equation for chi (value only). Monotone: dF/dchi = r > 0.
inline Q solve_chi(Q r0, Q sig0 /* r.v/sqrt(mu) */, Q alpha, Q smu_t)
{
    if (smu_t == 0) return 0;
    auto F = [&](Q x, Q &df) {
        std::array<Q, 6> c;
        Q z = alpha * x * x;
        stumpff(z, c);
        df = r0 * c[0] + sig0 * x * c[1] + x * x * c[2];
        return r0 * x * c[1] + sig0 * x * x * c[2] + x * x * x * c[3] - smu_t;
    };
    Q lo, hi, x;
    if (alpha > 0) {
        // chi = sqrt(a) dE;  dE in [dM - 2(e+eps), dM + 2(e+eps)] with some slack
        Q sa = 1 / sqrtq(alpha);
        Q m = smu_t * alpha; // sqrt(a) * dM
        lo = m - sa * Q(2.1);
        hi = m + sa * Q(2.1);
        x = m;
    } else {
        Q s = smu_t > 0 ? 1 : -1;
        Q step = Q(1e-3) * sqrtq(r0);
        if (alpha < 0 && step > Q(1e-3) / sqrtq(-alpha)) step = Q(1e-3) / sqrtq(-alpha);
        Q prev = 0, cur = s * step, df;
        // keep hyperbolic arguments sane while doubling
        for (int i = 0; i < 400; ++i) {
            Q f = F(cur, df);
            if (f * s >= 0) break;
            prev = cur;
            cur *= Q(1.5);
        }
        lo = s > 0 ? prev : cur;
        hi = s > 0 ? cur : prev;
        x = (lo + hi) / 2;
    }
    for (int it = 0; it < 400; ++it) {
        Q df, f = F(x, df);
        if (f > 0)
            hi = x;
        else
            lo = x;
        Q nx = (df > 0) ? x - f / df : (lo + hi) / 2;
        if (!(nx > lo && nx < hi)) nx = (lo + hi) / 2;
        Q dx = fabsq(nx - x);
        x = nx;
        if (dx <= fabsq(x) * Q(3e-33) || hi - lo <= fabsq(x) * Q(1e-33)) break;
    }
    return x;
}

template <typename T>
struct FlowOut {
    S6<T> y{};
    Q F = 0, G = 0, Ft = 0, Gt = 0, chi = 0, alpha = 0;
};

// Exact two-body flow. T = Q or Dual<N>.
template <typename T>
inline FlowOut<T> flow(const S6<T> &x, const T &t, const T &mu)
{
    V3<T> r{x[0], x[1], x[2]}, v{x[3], x[4], x[5]};
    T R0 = Sqrt(dot3(r, r)), smu = Sqrt(mu);
    T V2 = dot3(v, v);
    T alpha = T(Q(2)) / R0 - V2 / mu;
    T sig0 = dot3(r, v) / smu;
    Q chi0 = solve_chi(val(R0), val(sig0), val(alpha), val(smu) * val(t));
    T chi(chi0);
    // one Newton step in T propagates derivatives (value is already converged)
    T c0, c1, c2, c3;
    {
        T z = alpha * chi * chi;
        Stump<T>::get(z, c0, c1, c2, c3);
        T f = R0 * chi * c1 + sig0 * chi * chi * c2 + chi * chi * chi * c3 - smu * t;
        Q df = val(R0) * val(c0) + val(sig0) * chi0 * val(c1) + chi0 * chi0 * val(c2);
        chi = chi - f / T(df);
    }
    T z = alpha * chi * chi;
    Stump<T>::get(z, c0, c1, c2, c3);
    T Rf = R0 * c0 + sig0 * chi * c1 + chi * chi * c2;
    T F = T(Q(1)) - chi * chi * c2 / R0;
    T G = t - chi * chi * chi * c3 / smu;
    T Ft = -(smu * chi * c1) / (Rf * R0);
    T Gt = T(Q(1)) - chi * chi * c2 / Rf;
    FlowOut<T> o;
    for (int i = 0; i < 3; ++i) {
        o.y[i] = F * r[i] + G * v[i];
        o.y[i + 3] = Ft * r[i] + Gt * v[i];
    }
    o.F = val(F);
    o.G = val(G);
    o.Ft = val(Ft);
    o.Gt = val(Gt);
    o.chi = chi0;
    o.alpha = val(alpha);
    return o;
}

inline std::string qs(Q x, int prec = 20)
{
    char b[64];
    quadmath_snprintf(b, sizeof b, ("%." + std::to_string(prec) + "Qg").c_str(), x);
    return b;
}
} // namespace ref
