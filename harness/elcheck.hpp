// Compare reported orbital elements with the exact ones (shared by the planet harnesses).
#pragma once
#include "elements.hpp"

namespace el
{
using A6 = std::array<double, 6>;
// type 0..3 = KEP_F, KEP_M, MEQ, MEQ_R
inline const char *ty_name(int t)
{
    static const char *n[] = {"KEP_F", "KEP_M", "MEQ", "MEQ_R"};
    return n[t];
}
inline Rep ty_rep(int t) { return t < 2 ? KEP : t == 2 ? EQ : EQR; }

// mean anomaly of an ellipse from the true anomaly, with its partial derivatives (quad)
inline Q mean_of(Q f, Q e, Q *df = nullptr, Q *de = nullptr)
{
    Q s = sqrtq(1 - e * e), cf = cosq(f), sf = sinq(f), d = 1 + e * cf;
    Q E = atan2q(s * sf, e + cf);
    if (df) *df = s * s * s / (d * d);
    if (de) *de = -sf * s * (2 + e * cf) / (d * d);
    return E - e * sinq(E);
}
// reference elements of type t of the orbit whose exact Cartesian state is computed from `x` (Cartesian, double)
inline OpRef ref_elements(int t, const A6 &cart, double mu, double K)
{
    OpRef R = reference(t < 2 ? IC2PAR : t == 2 ? IC2EQ : IC2EQR, cart, mu, K);
    if (t == 1 && R.defined) {
        Q df, de, e = R.y[1];
        if (e >= 1) {
            R.defined = false;
            return R;
        }
        R.y[5] = mean_of(R.y[5], e, &df, &de);
        R.tol[5] = std::fabs(dd(df)) * R.tol[5] + std::fabs(dd(de)) * R.tol[1] + 8 * K * EPS;
        // f2m itself goes through half angle formulas, ill conditioned near apoapsis of eccentric ellipses
        R.tol[5] += K * EPS / std::sqrt(dd(1 - e));
    }
    return R;
}
inline bool match(chk::Case &c, const std::string &tag, int t, const A6 &y, const OpRef &R, const std::string &what)
{
    Rep to = ty_rep(t);
    bool ok = true;
    auto desc = [&] { return what; };
    if (c.verbose) {
        std::printf(" %s %s %s\n  got %s\n  exact", tag.c_str(), ty_name(t), what.c_str(), chk::v2s(y).c_str());
        for (auto q : R.y) std::printf(" %s", ref::qs(q).c_str());
        std::printf("\n");
    }
    for (int k = 0; k < 6; ++k) {
        double lim = k == 0 ? 1e-2 * std::fabs(dd(R.y[0])) : (to != KEP && (k == 3 || k == 4)) ? 1e-2 * (1 + std::fabs(dd(R.y[3])) + std::fabs(dd(R.y[4]))) : 1e-2;
        if (!(R.tol[k] < lim)) {
            c.skip("ill_conditioned_component");
            continue;
        }
        double err = is_angle(to, k) ? std::fabs(dd(wrapq(Q(y[k]) - R.y[k]))) : std::fabs(dd(Q(y[k]) - R.y[k]));
        if (!std::isfinite(y[k])) err = NAN;
        ok &= c.within((tag + "_" + ty_name(t) + "_" + std::to_string(k)).c_str(), err, R.tol[k], desc);
    }
    return ok;
}
// exact flow of an exact (quad) initial state with its tolerance; the initial state carries relative errors of `rel`
struct FlowRef {
    std::array<Q, 6> y;
    double tr, tv;
};
inline FlowRef flow_ref(const std::array<Q, 6> &s0, double dt_tol_rel, Q dt, double mu, double K)
{
    RV s = unflat({dd(s0[0]), dd(s0[1]), dd(s0[2]), dd(s0[3]), dd(s0[4]), dd(s0[5])});
    auto o8 = flow8(s, dd(dt), mu);
    auto cond = flow_cond(o8, s, dd(dt), mu);
    ref::S6<Q> x;
    for (int k = 0; k < 6; ++k) x[static_cast<size_t>(k)] = s0[static_cast<size_t>(k)];
    auto o = ref::flow<Q>(x, dt, Q(mu));
    FlowRef F;
    for (size_t k = 0; k < 6; ++k) F.y[k] = o.y[k];
    (void)dt_tol_rel;
    F.tr = K * EPS * cond[0];
    F.tv = K * EPS * cond[1];
    return F;
}
} // namespace el
