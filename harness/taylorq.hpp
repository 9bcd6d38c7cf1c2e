// Reference integrators in quad precision (Taylor series of high order with hand-written recurrences, any scalar type):
// point mass field with constant thrust and mass flow (Stark), circular restricted three-body problem.
#pragma once
#include "quad.hpp"
#include <stdexcept>
#include <vector>

namespace ref
{
constexpr int TORD = 34;

template <typename S>
using Ser = std::array<S, TORD + 1>;

template <typename S>
inline S conv(const Ser<S> &a, const Ser<S> &b, int n)
{
    S s = a[0] * b[n];
    for (int k = 1; k <= n; ++k) s = s + a[k] * b[n - k];
    return s;
}
// w = q^(-3/2)
template <typename S>
inline void pow32(const Ser<S> &q, Ser<S> &w, int n)
{
    if (n == 0) {
        w[0] = S(Q(1)) / (q[0] * Sqrt(q[0]));
        return;
    }
    S s = q[n] * w[0] * Q(-1.5 * n);
    for (int k = 1; k < n; ++k) s = s + q[n - k] * w[k] * Q(-1.5 * n + .5 * k);
    w[n] = s / (q[0] * Q(n));
}
template <typename S>
inline S horner(const Ser<S> &c, Q h)
{
    S s = c[TORD];
    for (int k = TORD; k-- > 0;) s = s * h + c[k];
    return s;
}
struct Stats {
    int steps = 0;
    Q min_dist = HUGE_VALQ;
};
template <typename S, std::size_t N, typename F>
inline void taylor_flow(std::array<S, N> &x, Q t, F &&series, Stats *st = nullptr)
{
    Q rem = t;
    for (int it = 0; rem != 0; ++it) {
        if (it > 100000) throw std::runtime_error("reference integrator: too many steps");
        static thread_local std::array<Ser<S>, N> c;
        for (std::size_t i = 0; i < N; ++i) c[i][0] = x[i];
        series(c);
        // the position block rules the step
        Q m = 0, a = 0, b = 0;
        for (int i = 0; i < 3; ++i) {
            m += val(c[i][0]) * val(c[i][0]);
            a += val(c[i][TORD]) * val(c[i][TORD]);
            b += val(c[i][TORD - 1]) * val(c[i][TORD - 1]);
        }
        Q h = fabsq(rem);
        if (a > 0) h = fminq(h, powq(m / a, Q(.5) / TORD) * Q(.12));
        if (b > 0) h = fminq(h, powq(m / b, Q(.5) / (TORD - 1)) * Q(.12));
        if (rem < 0) h = -h;
        for (std::size_t i = 0; i < N; ++i) x[i] = horner(c[i], h);
        rem = fabsq(h) >= fabsq(rem) ? Q(0) : rem - h;
        if (st) {
            st->steps++;
            st->min_dist = fminq(st->min_dist, sqrtq(m));
        }
    }
}
// y = (r, v, m), thrust vector u (inertial, constant), mass flow -|u|/veff.
template <typename S>
inline void stark_flow(std::array<S, 7> &y, const std::array<S, 3> &u, Q t, S mu, S veff, Stats *st = nullptr)
{
    S un = Q(0);
    if (val(u[0]) != 0 || val(u[1]) != 0 || val(u[2]) != 0) un = Sqrt(dot3(u, u));
    const S k = un / veff;
    taylor_flow(
        y, t,
        [&](std::array<Ser<S>, 7> &c) {
            static thread_local Ser<S> q, w, im;
            for (int n = 0; n < TORD; ++n) {
                q[n] = conv(c[0], c[0], n) + conv(c[1], c[1], n) + conv(c[2], c[2], n);
                pow32(q, w, n);
                im[n] = n == 0 ? S(Q(1)) / c[6][0] : im[n - 1] * k / c[6][0];
                for (int i = 0; i < 3; ++i) {
                    c[i][n + 1] = c[i + 3][n] / S(Q(n + 1));
                    c[i + 3][n + 1] = (u[i] * im[n] - mu * conv(w, c[i], n)) / S(Q(n + 1));
                }
                c[6][n + 1] = n == 0 ? -k : S(Q(0));
            }
        },
        st);
}
template <typename S>
inline std::array<S, 7> stark_rhs(const std::array<S, 7> &y, const std::array<S, 3> &u, S mu, S veff)
{
    S un = Q(0);
    if (val(u[0]) != 0 || val(u[1]) != 0 || val(u[2]) != 0) un = Sqrt(dot3(u, u));
    const S q = y[0] * y[0] + y[1] * y[1] + y[2] * y[2], w = S(Q(1)) / (q * Sqrt(q));
    std::array<S, 7> r;
    for (int i = 0; i < 3; ++i) {
        r[i] = y[i + 3];
        r[i + 3] = u[i] / y[6] - mu * w * y[i];
    }
    r[6] = -(un / veff);
    return r;
}
// Rotating frame, primaries at (-mu, 0, 0) with mass 1 - mu and (1 - mu, 0, 0) with mass mu, unit angular velocity.
template <typename S>
inline void cr3bp_flow(std::array<S, 6> &y, Q t, S mu, Stats *st = nullptr)
{
    taylor_flow(
        y, t,
        [&](std::array<Ser<S>, 6> &c) {
            static thread_local Ser<S> a, b, q1, q2, w1, w2;
            for (int n = 0; n < TORD; ++n) {
                a[n] = n == 0 ? c[0][0] + mu : c[0][n];
                b[n] = n == 0 ? c[0][0] + mu - S(Q(1)) : c[0][n];
                const S yz = conv(c[1], c[1], n) + conv(c[2], c[2], n);
                q1[n] = conv(a, a, n) + yz;
                q2[n] = conv(b, b, n) + yz;
                pow32(q1, w1, n);
                pow32(q2, w2, n);
                const S m1 = S(Q(1)) - mu, d = S(Q(n + 1));
                const S ax = c[4][n] * Q(2) + c[0][n] - m1 * conv(w1, a, n) - mu * conv(w2, b, n);
                const S ay = c[1][n] - c[3][n] * Q(2) - m1 * conv(w1, c[1], n) - mu * conv(w2, c[1], n);
                const S az = -(m1 * conv(w1, c[2], n)) - mu * conv(w2, c[2], n);
                for (int i = 0; i < 3; ++i) c[i][n + 1] = c[i + 3][n] / d;
                c[3][n + 1] = ax / d;
                c[4][n + 1] = ay / d;
                c[5][n + 1] = az / d;
            }
        },
        st);
}
template <typename S>
inline std::array<S, 6> cr3bp_rhs(const std::array<S, 6> &y, S mu)
{
    const S a = y[0] + mu, b = y[0] + mu - S(Q(1)), yz = y[1] * y[1] + y[2] * y[2];
    const S q1 = a * a + yz, q2 = b * b + yz;
    const S w1 = (S(Q(1)) - mu) / (q1 * Sqrt(q1)), w2 = mu / (q2 * Sqrt(q2));
    return {y[3], y[4], y[5], y[4] * Q(2) + y[0] - w1 * a - w2 * b, y[1] - y[3] * Q(2) - w1 * y[1] - w2 * y[1], -(w1 * y[2]) - w2 * y[2]};
}
inline Q jacobi(const std::array<Q, 6> &y, Q mu)
{
    const Q a = y[0] + mu, b = y[0] + mu - 1, yz = y[1] * y[1] + y[2] * y[2];
    return y[0] * y[0] + y[1] * y[1] + 2 * (1 - mu) / sqrtq(a * a + yz) + 2 * mu / sqrtq(b * b + yz) - y[3] * y[3] - y[4] * y[4] - y[5] * y[5];
}
} // namespace ref
