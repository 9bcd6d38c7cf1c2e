// P23: fly-bys: full product grids of relative velocities, turn angles, planets; reference in quad precision.
#include <kep3/core_astro/flyby.hpp>
#include <kep3/epoch.hpp>
#include <kep3/planet.hpp>
#include <kep3/udpla/keplerian.hpp>

#include "orbits.hpp"

using namespace orb;
using chk::Case;
using V3 = std::array<double, 3>;
using Q3 = std::array<Q, 3>;

namespace
{
Q dotq(const Q3 &a, const Q3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
Q3 crossq(const Q3 &a, const Q3 &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
Q3 toq(const V3 &a) { return {a[0], a[1], a[2]}; }
Q nrm(const Q3 &a) { return sqrtq(dotq(a, a)); }
Q angleq(const Q3 &a, const Q3 &b)
{
    auto x = crossq(a, b);
    return atan2q(nrm(x), dotq(a, b));
}
struct Con {
    Q eq, ineq, dv, alpha, dmax, Vi, Vo;
};
Con reference(const V3 &in, const V3 &out, double mu, double rs)
{
    Con c;
    auto i = toq(in), o = toq(out);
    Q Vi2 = dotq(i, i), Vo2 = dotq(o, o);
    c.Vi = sqrtq(Vi2);
    c.Vo = sqrtq(Vo2);
    c.eq = Vi2 - Vo2;
    c.alpha = angleq(i, o);
    c.dmax = 2 * asinq(1 / (1 + Q(rs) / Q(mu) * Vi2));
    c.ineq = c.alpha - c.dmax;
    if (c.ineq > 0) {
        Q s = sinq(c.ineq / 2);
        c.dv = sqrtq((c.Vi - c.Vo) * (c.Vi - c.Vo) + 4 * c.Vi * c.Vo * s * s);
    } else
        c.dv = fabsq(c.Vi - c.Vo);
    return c;
}
// rounding of an arc cosine (sine) evaluated at an argument with relative error `rel`, where the angle has sine (cosine) `s`
double ac(double s, double rel) { return std::min(rel / std::max(std::fabs(s), 1e-300), 2 * std::sqrt(rel)) + rel; }
double angle_tol(const Con &r, double mu, double rs)
{
    double K = 40 * EPS;
    double x = rs / mu * dd(r.Vi * r.Vi); // eccentricity - 1
    double sn = std::sqrt(x * (2 + x)) / (1 + x);
    return ac(std::sin(dd(r.alpha)), K) + 2 * (ac(sn, K) + 0) + K;
}
} // namespace

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool th = run.thorough();
    struct Sys {
        double mu, rs, v;
        const char *name;
    };
    const std::vector<Sys> sys{{398600441800000.0, 7015800., 7000., "earth"}, {1.26686534e17, 6.4e8, 9000., "jupiter"}, {2.2032e13, 2684000., 6000., "mercury"}, {1., 1., 1., "unit"}, {1e-3, 2., 0.05, "weak"}, {4.9e3, 1800., 1.5, "moon-km"}};
    // directions of the incoming velocity, speeds relative to the scale, ratio of the outgoing speed
    std::vector<V3> dirs{{1, 0, 0}, {0, 0, -1}, {0.6, -0.64, 0.48}, {-0.1, 0.7, -0.7}, {1, 1, 1}, {-3, 2, 6}, {1e-9, 1, 0}};
    std::vector<double> sp{1e-3, 0.1, 0.5, 1., 2., 7.}, ratio{1., 1. + 1e-15, 1 - 1e-9, 0.999, 1.01, 0.5, 3.}, rsf{1., 0.2, 0., 5.};
    std::vector<double> al;
    for (int k = 0; k <= (th ? 96 : 32); ++k) al.push_back(M_PI * k / (th ? 96 : 32));
    al.insert(al.end(), {1e-9, 1e-5, M_PI - 1e-9, M_PI - 1e-5});
    std::vector<double> near{0., 1e-14, -1e-14, 1e-12, -1e-12, 1e-9, -1e-9, 1e-6, -1e-6, 1e-3, -1e-3}; // around the limit turn
    if (th) {
        sp.insert(sp.end(), {1e-2, 0.3, 1.5, 4., 30.});
        ratio.insert(ratio.end(), {1 - 1e-15, 1 + 1e-6, 1e-3, 50.});
    }
    auto build = [&](const V3 &d, double s, double a, double r, double az) {
        // outgoing direction: d rotated by angle a towards a perpendicular at azimuth az
        Q3 i = toq(d);
        Q n = nrm(i);
        for (auto &x : i) x /= n;
        Q3 p = fabsq(i[0]) < Q(0.9) ? Q3{1, 0, 0} : Q3{0, 1, 0};
        auto u = crossq(i, p);
        Q nu = nrm(u);
        for (auto &x : u) x /= nu;
        auto w = crossq(i, u);
        std::pair<V3, V3> o;
        for (size_t k = 0; k < 3; ++k) {
            o.first[k] = dd(i[k] * s);
            o.second[k] = dd((i[k] * cosq(a) + (u[k] * cosq(az) + w[k] * sinq(az)) * sinq(a)) * s * r);
        }
        return o;
    };
    auto one = [&](Case &c, const Sys &S, double rs, const V3 &in, const V3 &out, const kep3::planet *pl) {
        c.trans();
        c.eval();
        c.trace();
        c.state(chk::mixd(chk::mixd(chk::mixd(chk::mixd(23, in[0] + in[1]), out[0]), out[2]), rs));
        std::string what = std::string(S.name) + " rs=" + chk::d2s(rs) + " in=" + chk::v2s(in) + " out=" + chk::v2s(out);
        auto desc = [&] { return what; };
        auto R = reference(in, out, S.mu, rs);
        auto i0 = in, o0 = out;
        auto g = kep3::fb_con(in, out, S.mu, rs);
        double dv = kep3::fb_dv(in, out, S.mu, rs);
        if (in != i0 || out != o0) c.fail("arguments_modified|" + what, "");
        if (pl) {
            auto g2 = kep3::fb_con(in, out, *pl);
            double dv2 = kep3::fb_dv(in, out, *pl);
            if (std::memcmp(&g, &g2, sizeof g) != 0 || std::memcmp(&dv, &dv2, 8) != 0) c.fail("planet_overload|" + what, chk::d2s(g2.second) + " " + chk::d2s(dv2));
        }
        double Vi = dd(R.Vi), Vo = dd(R.Vo);
        double at = angle_tol(R, S.mu, rs);
        c.within("equality", std::fabs(dd(Q(g.first) - R.eq)), 20 * EPS * (Vi * Vi + Vo * Vo), desc);
        c.within("turn", std::fabs(dd(Q(g.second) - R.ineq)), at, desc);
        // the cost is Lipschitz in the turn angle
        double lip = std::sqrt(Vi * Vo), dvq = dd(R.dv);
        double slope = lip * std::min(1., (2 * lip * (std::fabs(dd(R.ineq)) + at)) / std::max(dvq, 1e-300));
        double tol = 20 * EPS * (Vi + Vo) + slope * at * 1.5;
        c.within("cost", std::fabs(dd(Q(dv) - R.dv)), tol, desc);
        if (!(dv >= 0)) c.fail("cost_negative|" + what, chk::d2s(dv));
    };
    const std::uint64_t ns = sys.size();
    auto planet_of = [](const Sys &S, double rs) {
        return kep3::planet(kep3::udpla::keplerian(kep3::epoch(0), {{{1., 0., 0.}, {0., 1., 0.}}}, 1., "p", {S.mu, rs / 2, rs}));
    };
    run.section("constraints", ns * dirs.size() * sp.size() * rsf.size(), [&](std::uint64_t ci, Case &c) {
        auto &S = sys[ci % ns];
        std::uint64_t r = ci / ns;
        auto &d = dirs[r % dirs.size()];
        r /= dirs.size();
        double s = sp[r % sp.size()] * S.v, rs = rsf[r / sp.size()] * S.rs;
        auto pl = planet_of(S, rs);
        bool first = true;
        for (double q : ratio)
            for (double az : {0., 1., 2.5, 4.})
                for (double a : al) {
                    auto [in, out] = build(d, s, a, q, az);
                    if (first) c.sample(std::string(S.name) + " in=" + chk::v2s(in) + " out=" + chk::v2s(out));
                    one(c, S, rs, in, out, first || az == 1. ? &pl : nullptr);
                    first = false;
                }
        // around the limiting turn
        double dmax = 2 * std::asin(1 / (1 + rs / S.mu * s * s));
        for (double q : ratio)
            for (double az : {0.3, 3.9})
                for (double e : near) {
                    double a = dmax + e;
                    if (a < 0 || a > M_PI) continue;
                    auto [in, out] = build(d, s, a, q, az);
                    one(c, S, rs, in, out, nullptr);
                }
        // exactly parallel and antiparallel vectors (bitwise multiples)
        for (double q : {1., 2., 0.5, 3., 0.1, -1., -2., -0.7, 1.1, 7e3}) {
            auto in = build(d, s, 0., 1., 0.).first;
            V3 out{in[0] * q, in[1] * q, in[2] * q};
            one(c, S, rs, in, out, &pl);
        }
    });
    // fly-by and constraints together
    std::vector<double> rp{0.1, 0.5, 0.999999, 1., 1.000001, 1.5, 3., 10., 200.}, be;
    for (int k = -8; k <= 16; ++k) be.push_back(k * M_PI / 8);
    be.insert(be.end(), {0.3, 1.1, 2.9, -0.0001});
    std::vector<V3> vp{{0, 1, 0}, {25000.243, 1., 0.}, {-0.3, 0.2, 0.9}, {3, -2, 1}, {1e-3, 0, 30}};
    std::vector<V3> vrel = dirs;
    run.section("flyby", ns * vrel.size() * sp.size() * vp.size(), [&](std::uint64_t ci, Case &c) {
        auto &S = sys[ci % ns];
        std::uint64_t r = ci / ns;
        auto &d = vrel[r % vrel.size()];
        r /= vrel.size();
        double s = sp[r % sp.size()] * S.v;
        V3 p = vp[r / sp.size()];
        double pn = norm3(p), pscale = S.v * 4 / pn;
        for (auto &x : p) x *= pscale;
        double dn = norm3(d);
        V3 vin;
        for (size_t k = 0; k < 3; ++k) vin[k] = p[k] + d[k] / dn * s;
        // the inputs are the doubles vin and p
        Q3 rel;
        for (size_t k = 0; k < 3; ++k) rel[k] = Q(vin[k]) - Q(p[k]);
        V3 reld{dd(rel[0]), dd(rel[1]), dd(rel[2])};
        Q Vi = nrm(rel);
        Q3 b1;
        for (size_t k = 0; k < 3; ++k) b1[k] = rel[k] / Vi;
        auto b2 = crossq(b1, toq(p));
        Q n2 = nrm(b2), sinp = n2 / nrm(toq(p));
        if (sinp < 1e-7) {
            c.skip("plane_undefined"); // incoming relative velocity parallel to the planet's
            return;
        }
        for (auto &x : b2) x /= n2;
        auto b3 = crossq(b1, b2);
        for (double f : rp)
            for (double beta : be) {
                double R = f * S.rs;
                std::string what = std::string(S.name) + " v_in=" + chk::v2s(vin) + " v_pla=" + chk::v2s(p) + " rp=" + chk::d2s(R) + " beta=" + chk::d2s(beta);
                auto desc = [&] { return what; };
                c.trans();
                c.eval();
                c.trace();
                c.state(chk::mixd(chk::mixd(chk::mixd(chk::mixd(24, vin[0] + p[1]), vin[2]), R), beta));
                Q x = Q(R) / Q(S.mu) * Vi * Vi;
                Q delta = 2 * asinq(1 / (1 + x));
                auto out = kep3::fb_vout(vin, p, R, beta, S.mu);
                double sn = std::sqrt(dd(x * (2 + x))) / (1 + dd(x));
                double at = 2 * ac(sn, 40 * EPS) + 40 * EPS;
                double vabs = norm3(vin) + norm3(p), V = dd(Vi);
                double axis = 40 * EPS * (1 + 1 / dd(sinp));
                double err = 0;
                for (size_t k = 0; k < 3; ++k) {
                    Q w = Q(p[k]) + Vi * (cosq(delta) * b1[k] + sinq(delta) * (cosq(beta) * b2[k] + sinq(beta) * b3[k]));
                    err += std::pow(dd(Q(out[k]) - w), 2);
                }
                c.within("outgoing", std::sqrt(err), V * (at + axis) + 20 * EPS * vabs, desc);
                // consistency, through the public functions only
                V3 ro{out[0] - p[0], out[1] - p[1], out[2] - p[2]};
                double rin = 40 * EPS * (1 + vabs / V); // relative error of the reconstructed relative velocity
                double Vo = norm3(ro);
                c.within("speed_kept", std::fabs(Vo - V), V * (rin + axis * axis), desc);
                for (double sf : {0.1, 0.5, 0.999, 1., 1.001, 2., 20.}) {
                    double rs = sf * S.rs;
                    auto g = kep3::fb_con(reld, ro, S.mu, rs);
                    double dv = kep3::fb_dv(reld, ro, S.mu, rs);
                    Q dmax = 2 * asinq(1 / (1 + Q(rs) / Q(S.mu) * Vi * Vi));
                    double diff = dd(delta - dmax); // > 0: infeasible
                    double xs = rs / S.mu * V * V, sns = std::sqrt(xs * (2 + xs)) / (1 + xs);
                    double tol = at + axis + rin + ac(std::sin(dd(delta)), 40 * EPS + rin + at) + 2 * ac(sns, 40 * EPS);
                    c.within("flyby_equality", std::fabs(g.first), 4 * V * V * (rin + axis * axis), desc);
                    c.within("flyby_turn", std::fabs(g.second - diff), tol, desc);
                    if (std::fabs(diff) > 2 * tol && (g.second <= 0) != (rs <= R)) c.fail("feasibility|" + what, "safe radius " + chk::d2s(rs) + " turn constraint " + chk::d2s(g.second));
                    double want = diff > 0 ? 2 * V * std::sin(diff / 2) : 0.;
                    c.within("flyby_cost", std::fabs(dv - want), V * (4 * tol + 4 * rin), desc);
                    c.trans();
                }
            }
    });
    // the cost is the distance from the set of outgoing velocities an unpowered fly-by can reach: brute force over (rp, beta)
    std::vector<double> brs{1., 0.3, 3.};
    run.section("reachable_set", ns * 4 * brs.size(), [&](std::uint64_t ci, Case &c) {
        auto &S = sys[ci % ns];
        std::uint64_t r = ci / ns;
        auto &d = dirs[r % 4];
        double rs = brs[r / 4] * S.rs, s = S.v * 0.8;
        const int nb = th ? 96 : 48, nr = th ? 64 : 32;
        V3 p{0.3 * S.v, 4 * S.v, -0.7 * S.v};
        double dn = norm3(d);
        V3 vin;
        for (size_t k = 0; k < 3; ++k) vin[k] = p[k] + d[k] / dn * s;
        V3 rel{vin[0] - p[0], vin[1] - p[1], vin[2] - p[2]};
        std::vector<V3> set{rel}; // infinitely far: no turn
        double dmax = 2 * std::asin(1 / (1 + rs / S.mu * s * s));
        for (int i = 0; i < nr; ++i) {
            double delta = dmax * (1 - static_cast<double>(i) / nr);
            double e = 1 / std::sin(delta / 2), rpv = (e - 1) * S.mu / (s * s);
            if (i == 0) rpv = rs;
            for (int b = 0; b < nb; ++b) {
                auto o = kep3::fb_vout(vin, p, rpv, 2 * M_PI * b / nb, S.mu);
                set.push_back({o[0] - p[0], o[1] - p[1], o[2] - p[2]});
            }
        }
        double mesh = s * (dmax / nr + 2 * M_PI / nb * std::sin(std::min(dmax, M_PI / 2)));
        for (double q : {1., 0.6, 1.7})
            for (double az : {0., 1.3, 2.9, 4.4})
                for (double a : {0., 0.2, 0.6, 1., 1.7, 2.6, 3.1}) {
                    auto [in, out] = build(d, s, a, q, az);
                    double dv = kep3::fb_dv(rel, out, S.mu, rs), best = HUGE_VAL;
                    for (auto &w : set) best = std::min(best, std::sqrt(std::pow(out[0] - w[0], 2) + std::pow(out[1] - w[1], 2) + std::pow(out[2] - w[2], 2)));
                    c.trans(set.size());
                    c.eval();
                    c.trace();
                    std::string what = std::string(S.name) + " rs=" + chk::d2s(rs) + " in=" + chk::v2s(rel) + " out=" + chk::v2s(out);
                    c.state(chk::mixd(chk::mixd(chk::mixd(25, out[0]), out[1]), dv));
                    if (!(dv <= best + 1e-6 * s)) c.fail("cost_above_reachable|" + what, "cost " + chk::d2s(dv) + " but a fly-by comes as close as " + chk::d2s(best));
                    if (!(dv >= best - mesh)) c.fail("cost_below_reachable|" + what, "cost " + chk::d2s(dv) + " but no fly-by comes closer than " + chk::d2s(best) + " mesh " + chk::d2s(mesh));
                }
    });
    return run.go();
}
