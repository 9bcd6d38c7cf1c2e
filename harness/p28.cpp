// P28: Stark and three-body dynamics, their variations, and the Stark problem object.
#include "orbits.hpp"
#include "taylorq.hpp"

#include <sstream>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>

#include <kep3/stark_problem.hpp>
#include <kep3/ta/cr3bp.hpp>
#include <kep3/ta/stark.hpp>

using namespace orb;
using chk::Case;
using kep3::stark_problem;
using TA = heyoka::taylor_adaptive<double>;
template <int N>
using D = ref::Dual<N>;

namespace
{
template <typename S, std::size_t N>
std::array<Q, N> values(const std::array<S, N> &x)
{
    std::array<Q, N> r;
    for (std::size_t i = 0; i < N; ++i) r[i] = ref::val(x[i]);
    return r;
}
double blk(const std::array<double, 7> &x, int b)
{
    return b == 2 ? std::fabs(x[6]) : std::sqrt(x[3 * b] * x[3 * b] + x[3 * b + 1] * x[3 * b + 1] + x[3 * b + 2] * x[3 * b + 2]);
}

// ------------------------------------------------------------------------------------------------ equations of motion
struct RhsGrid {
    std::vector<double> pos, mass, mu, veff, th;
    std::vector<std::array<double, 3>> vel;
};
const RhsGrid &grid(bool T)
{
    static const RhsGrid q{{-2., -.5, .3, 1.7}, {.5, 1000.}, {1., .37}, {1., 30.}, {-1., 0., 2.}, {{0, 0, 0}, {.1, -1., .3}, {2., 0., -.7}}};
    static const RhsGrid t{{-2., -.5, 0., .3, 1.7, 30.}, {.5, 1., 1000.}, {1., .37, 1e3}, {1., 30., 3e4}, {-1., -1e-3, 0., 2.}, {{0, 0, 0}, {.1, -1., .3}, {2., 0., -.7}, {-3., -2., 1.}}};
    return T ? t : q;
}
// every term of the right-hand side that is added up, to scale the rounding errors
std::array<double, 7> stark_terms(const std::array<double, 7> &y, const std::array<double, 3> &u, double mu, double veff)
{
    const double r = std::sqrt(y[0] * y[0] + y[1] * y[1] + y[2] * y[2]), w = mu / (r * r * r);
    std::array<double, 7> s{};
    for (int i = 0; i < 3; ++i) {
        s[i] = std::fabs(y[i + 3]);
        s[i + 3] = std::fabs(u[i] / y[6]) + std::fabs(w * y[i]);
    }
    s[6] = std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]) / veff;
    return s;
}

// ------------------------------------------------------------------------------------------------ trajectories
struct Tr {
    std::array<double, 7> y;
    std::array<double, 3> u;
    double mu, veff, tof, period;
    std::string text;
};
const std::vector<double> &eccs(bool T)
{
    static const std::vector<double> q{0., .3, .8, 1.5, 3.}, t{0., .1, .3, .6, .8, .9, 1., 1.1, 1.5, 3., 10.};
    return T ? t : q;
}
const std::vector<double> &anoms(bool T)
{
    static const std::vector<double> q{0., 1.2, -1.}, t{0., .5, 1.2, 1.8, -.3, -1., -1.6};
    return T ? t : q;
}
const std::vector<double> &times(bool T)
{
    static const std::vector<double> q{0., 1e-3, 1., -1., 6.283185307179586, -9.}, t{0., 1e-6, 1e-3, .2, 1., -1., -.2, 3., 6.283185307179586, -6.283185307179586, -9., 17., 30.};
    return T ? t : q;
}
struct Thr {
    double acc; // in units of the local gravity scale
    std::array<double, 3> dir;
    double loss; // fraction of the mass spent in the longest flight
};
const std::vector<Thr> &thrusts(bool T)
{
    static const std::vector<Thr> q{{0., {1, 0, 0}, 0.}, {1e-4, {1, 0, 0}, .01}, {1e-2, {0, -1, 0}, .2}, {1e-2, {.3, .5, -.8}, .3}, {.2, {-.6, .2, .77}, .1}};
    static const std::vector<Thr> t{{0., {1, 0, 0}, 0.},        {1e-8, {0, 0, 1}, 1e-3}, {1e-4, {1, 0, 0}, .01},    {1e-2, {0, -1, 0}, .2},
                                    {1e-2, {.3, .5, -.8}, .3}, {1e-2, {0, 0, 1}, .6},   {.2, {-.6, .2, .77}, .1}, {1., {.9, .2, .1}, .2}};
    return T ? t : q;
}
const std::vector<Units> &un()
{
    static const std::vector<Units> u{units()[0], units()[1], units()[2], units()[5]};
    return u;
}
std::uint64_t ntr(bool T)
{
    return un().size() * eccs(T).size() * anoms(T).size() * times(T).size() * thrusts(T).size() * 2;
}
Tr traj(std::uint64_t k, bool T)
{
    Tr t;
    const auto take = [&](std::uint64_t n) {
        const auto r = k % n;
        k /= n;
        return r;
    };
    const auto &U = un()[take(un().size())];
    const double e = eccs(T)[take(eccs(T).size())];
    const double f = anoms(T)[take(anoms(T).size())];
    const double tm = times(T)[take(times(T).size())];
    const auto &th = thrusts(T)[take(thrusts(T).size())];
    const double m = take(2) ? 1200. : 1.;
    const auto &o = orients()[(k + static_cast<std::uint64_t>(e * 10 + 7)) % orients().size()];
    const double a = e == 1 ? U.L : (e < 1 ? U.L : -U.L);
    RV s;
    if (e == 1)
        s = make(U.L / 2e-9, 1 - 1e-9, o.i, o.W, o.w, f, U.mu); // pericentre U.L / 2
    else
        s = make(a, e, o.i, o.W, o.w, f, U.mu);
    const double tu = std::sqrt(U.L / U.mu) * U.L, g = U.mu / U.L / U.L;
    for (int i = 0; i < 6; ++i) t.y[i] = s[i / 3][i % 3];
    t.y[6] = m;
    for (int i = 0; i < 3; ++i) t.u[i] = th.acc * g * m * th.dir[i];
    const double un_ = std::sqrt(t.u[0] * t.u[0] + t.u[1] * t.u[1] + t.u[2] * t.u[2]);
    t.mu = U.mu;
    t.veff = th.acc > 0 ? un_ * 30 * tu / (th.loss * m) : 30 * U.L / tu;
    t.tof = tm * tu;
    t.period = tu;
    t.text = std::string(U.name) + " e=" + chk::d2s(e) + " f=" + chk::d2s(f) + " t=" + chk::d2s(tm) + " acc=" + chk::d2s(th.acc) + " m=" + chk::d2s(m);
    return t;
}
// reference final state with derivatives (10 columns: state, thrust) and the error a backward stable integration may make
struct RefTr {
    std::array<D<10>, 7> y;
    std::array<double, 3> err{}; // per block, for a relative perturbation EPS of each block and each step
    int steps = 0;
    double closest = 0;
};
RefTr reference(const Tr &t)
{
    RefTr r;
    std::array<D<10>, 3> u;
    for (int i = 0; i < 7; ++i) r.y[i] = D<10>::var(t.y[i], i);
    const bool zero = t.u[0] == 0 && t.u[1] == 0 && t.u[2] == 0;
    for (int i = 0; i < 3; ++i) u[i] = zero ? D<10>(t.u[i]) : D<10>::var(t.u[i], 7 + i);
    ref::Stats st;
    ref::stark_flow(r.y, u, Q(t.tof), D<10>(t.mu), D<10>(t.veff), &st);
    r.steps = st.steps;
    r.closest = dd(st.min_dist);
    for (int b = 0; b < 3; ++b) {
        const int i0 = 3 * b, i1 = b == 2 ? 7 : i0 + 3;
        double s = 0, n = 0;
        for (int c = 0; c < 3; ++c) {
            const int j0 = 3 * c, j1 = c == 2 ? 7 : j0 + 3;
            double fro = 0;
            for (int i = i0; i < i1; ++i)
                for (int j = j0; j < j1; ++j) fro += std::pow(dd(r.y[i].d[j]), 2);
            s += std::sqrt(fro) * blk(t.y, c);
        }
        for (int i = i0; i < i1; ++i) n += std::pow(dd(r.y[i].v), 2);
        // an error in time
        std::array<Q, 3> uq{t.u[0], t.u[1], t.u[2]};
        auto f = ref::stark_rhs<Q>(values(r.y), uq, Q(t.mu), Q(t.veff));
        double ft = 0;
        for (int i = i0; i < i1; ++i) ft += std::pow(dd(f[i]), 2);
        r.err[b] = EPS * (s + std::sqrt(n) + std::sqrt(ft) * std::fabs(t.tof));
    }
    return r;
}
std::uint64_t bits(double x)
{
    std::uint64_t b;
    std::memcpy(&b, &x, 8);
    return x != x ? 0x7ff8000000000000ull : b;
}

// ------------------------------------------------------------------------------------------------ histories
// One Stark problem (and a copy of it) driven through words of operations; the model is (mu, veff) of each.
struct HModel {
    int mu = 0, veff = 0;
};
const double MUS[] = {1., .7}, VEFFS[] = {2., 5.}, TOLS[] = {1e-16, 1e-9};
const std::array<double, 7> YA{1., .1, -.2, .05, .9, .2, 3.}, YB{-.4, 1.3, .1, -.8, -.1, .3, 2.};
using Var = std::tuple<std::array<double, 7>, std::array<double, 49>, std::array<double, 21>>;
std::string ask(stark_problem &s, int q)
{
    std::ostringstream o;
    const auto put = [&](const auto &v) {
        for (double x : v) o << std::hex << bits(x) << ",";
    };
    try {
        switch (q) {
            case 0:
                put(s.propagate(YA, {.1, -.2, .05}, 1.3));
                break;
            case 1:
                put(s.propagate(YB, {0, 0, 0}, -2.));
                break;
            case 2: {
                const auto [a, b, c] = s.propagate_var(YB, {.1, .2, -.1}, .8);
                put(a);
                put(b);
                put(c);
                break;
            }
            case 3: { // not differentiable there: rejected
                const auto [a, b, c] = s.propagate_var(YA, {0, 0, 0}, .8);
                put(a);
                put(b);
                put(c);
                break;
            }
            case 4: // the mass is spent: cannot reach the final time, or no mass at all
                put(s.propagate({1., 0, 0, 0, 1., 0, 0.}, {.1, 0, 0}, 1.));
                break;
            case 5: {
                const auto [a, b, c] = s.propagate_var({1., 0, 0, 0, 1., 0, 0.}, {.1, 0, 0}, 1.);
                put(a);
                break;
            }
            case 6:
                put(s.propagate({0., 0, 0, 0, 0, 0, 1.}, {.1, 0, 0}, 1.));
                break;
            default: {
                o << std::hex << bits(s.get_mu()) << "," << bits(s.get_veff()) << "," << bits(s.get_tol()) << ",";
                const auto a = s.get_ta(), b = s.get_ta_var();
                o << bits(a.get_pars()[0]) << "," << bits(a.get_pars()[1]) << "," << bits(b.get_pars()[0]) << "," << bits(b.get_pars()[1]) << "," << s;
            }
        }
    } catch (const std::domain_error &) {
        o << "domain_error";
    }
    return o.str();
}
constexpr int NASK = 8;
} // namespace

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool T = run.thorough();

    // --- the equations themselves, evaluated through the integrators handed out
    {
        const auto &g = grid(T);
        const auto np = g.pos.size();
        run.section("stark_equations", np * np * np, [&, np](std::uint64_t k, Case &c) {
            auto ta = kep3::ta::get_ta_stark(.1);
            auto tv = kep3::ta::get_ta_stark_var(.1);
            auto td = TA{kep3::ta::stark_dyn(), std::vector<double>(7, 1.), heyoka::kw::tol = .1};
            const double x = g.pos[k % np], y = g.pos[k / np % np], z = g.pos[k / np / np];
            std::uint64_t h = k;
            for (const auto &v : g.vel)
                for (double m : g.mass)
                    for (double mu : g.mu)
                        for (double ve : g.veff)
                            for (double ux : g.th)
                                for (double uy : g.th)
                                    for (double uz : g.th) {
                                        const std::array<double, 7> s{x, y, z, v[0], v[1], v[2], m};
                                        const std::array<double, 3> u{ux, uy, uz};
                                        std::array<D<10>, 7> q;
                                        std::array<D<10>, 3> uq;
                                        const bool zero = ux == 0 && uy == 0 && uz == 0;
                                        for (int i = 0; i < 7; ++i) q[i] = D<10>::var(s[i], i);
                                        for (int i = 0; i < 3; ++i) uq[i] = zero ? D<10>(u[i]) : D<10>::var(u[i], 7 + i);
                                        const auto r = ref::stark_rhs<D<10>>(q, uq, D<10>(mu), D<10>(ve));
                                        const auto sc = stark_terms(s, u, mu, ve);
                                        const auto what = [&] { return "state " + chk::v2s(s) + " thrust " + chk::v2s(u) + " mu " + chk::d2s(mu) + " veff " + chk::d2s(ve); };
                                        for (TA *p : {&ta, &td}) {
                                            std::copy(s.begin(), s.end(), p->get_state_data());
                                            const double P[5] = {mu, ve, ux, uy, uz};
                                            std::copy(P, P + 5, p->get_pars_data());
                                            const auto f = p->shim_rhs();
                                            for (int i = 0; i < 7; ++i)
                                                if (!c.within("stark_equations", std::fabs(dd(Q(f[i]) - r[i].v)), 64 * EPS * sc[i] + 1e-300, what)) return;
                                            c.eval();
                                            c.trace();
                                        }
                                        h = chk::mixd(chk::mixd(chk::mixd(h, ux + 3 * uy + 9 * uz), m + mu), ve + v[0]);
                                        c.state(h);
                                        c.trans();
                                        if (zero) continue;
                                        // variations: dPhi/dt = A Phi + [0 | B] for Phi = a fixed full matrix
                                        std::copy(s.begin(), s.end(), tv.get_state_data());
                                        for (int i = 0; i < 70; ++i) tv.get_state_data()[7 + i] = .3 + .1 * ((i * 37) % 11) - .07 * (i % 5);
                                        const double P[5] = {mu, ve, ux, uy, uz};
                                        std::copy(P, P + 5, tv.get_pars_data());
                                        const auto f = tv.shim_rhs();
                                        for (int i = 0; i < 7; ++i) {
                                            if (!c.within("stark_equations_in_variational", std::fabs(dd(Q(f[i]) - r[i].v)), 64 * EPS * sc[i] + 1e-300, what)) return;
                                            for (int j = 0; j < 10; ++j) {
                                                Q e = j >= 7 ? r[i].d[j] : Q(0);
                                                double sum = std::fabs(dd(e)), gr = 0;
                                                for (int l = 0; l < 7; ++l) {
                                                    e += r[i].d[l] * Q(tv.get_state()[7 + 10 * l + j]);
                                                    sum += std::fabs(dd(r[i].d[l]) * tv.get_state()[7 + 10 * l + j]);
                                                }
                                                if (i >= 3 && i < 6) { // the gravity gradient is a difference of two terms
                                                    const double rr = std::sqrt(x * x + y * y + z * z);
                                                    for (int l = 0; l < 3; ++l) gr += std::fabs(tv.get_state()[7 + 10 * l + j]);
                                                    gr *= mu / (rr * rr * rr);
                                                }
                                                if (!c.within("stark_variations", std::fabs(dd(Q(f[7 + 10 * i + j]) - e)), 64 * EPS * (sum + 4 * gr) + 1e-300, what)) return;
                                            }
                                        }
                                        c.eval();
                                    }
        });
    }
    {
        static const std::vector<double> P = T ? std::vector<double>{-2., -.9, -.3, .2, .7, 1.1, 3.} : std::vector<double>{-1.5, -.3, .2, .7, 1.1};
        static const std::vector<double> M = T ? std::vector<double>{0., 1e-6, .01215, .1, .3, .5, .9} : std::vector<double>{0., .01215, .3, .5};
        const auto np = P.size();
        run.section("cr3bp_equations", np * np * np, [=](std::uint64_t k, Case &c) {
            auto ta = kep3::ta::get_ta_cr3bp(.1);
            auto tv = kep3::ta::get_ta_cr3bp_var(.1);
            auto td = TA{kep3::ta::cr3bp_dyn(), std::vector<double>(6, 1.), heyoka::kw::tol = .1};
            for (double mu : M)
                for (double vx : {-.5, 0., 1.2})
                    for (double vy : {-2., .3})
                        for (double vz : {.1, -1.})
                            for (double shift : {0., 1e-3}) {
                                const std::array<double, 6> s{P[k % np] + shift, P[k / np % np], P[k / np / np], vx, vy, vz};
                                std::array<D<6>, 6> q;
                                for (int i = 0; i < 6; ++i) q[i] = D<6>::var(s[i], i);
                                const auto r = ref::cr3bp_rhs<D<6>>(q, D<6>(mu));
                                const double r1 = std::sqrt(std::pow(s[0] + mu, 2) + s[1] * s[1] + s[2] * s[2]), r2 = std::sqrt(std::pow(s[0] + mu - 1, 2) + s[1] * s[1] + s[2] * s[2]);
                                const auto what = [&] { return "state " + chk::v2s(s) + " mu " + chk::d2s(mu); };
                                const double acc = 2 * std::fabs(vx) + 2 * std::fabs(vy) + std::fabs(s[0]) + std::fabs(s[1]) + (1 - mu) / (r1 * r1) * (1 + 1 / r1) + mu / (r2 * r2) * (1 + 1 / r2);
                                for (TA *p : {&ta, &td}) {
                                    std::copy(s.begin(), s.end(), p->get_state_data());
                                    *p->get_pars_data() = mu;
                                    const auto f = p->shim_rhs();
                                    for (int i = 0; i < 6; ++i)
                                        if (!c.within("cr3bp_equations", std::fabs(dd(Q(f[i]) - r[i].v)), 64 * EPS * (i < 3 ? std::fabs(s[i + 3]) : acc) + 1e-300, what)) return;
                                    c.eval();
                                    c.trace();
                                }
                                c.state(chk::mixd(chk::mixd(k, mu + 10 * vx), vy + 10 * vz + 100 * shift));
                                c.trans();
                                std::copy(s.begin(), s.end(), tv.get_state_data());
                                for (int i = 0; i < 36; ++i) tv.get_state_data()[6 + i] = .3 + .1 * ((i * 37) % 11) - .07 * (i % 5);
                                *tv.get_pars_data() = mu;
                                const auto f = tv.shim_rhs();
                                const double g1 = (1 - mu) / (r1 * r1 * r1) * (1 + 1 / r1) + mu / (r2 * r2 * r2) * (1 + 1 / r2);
                                for (int i = 0; i < 6; ++i) {
                                    if (!c.within("cr3bp_equations_in_variational", std::fabs(dd(Q(f[i]) - r[i].v)), 64 * EPS * (i < 3 ? std::fabs(s[i + 3]) : acc) + 1e-300, what)) return;
                                    for (int j = 0; j < 6; ++j) {
                                        Q e = 0;
                                        double sum = 0;
                                        for (int l = 0; l < 6; ++l) {
                                            e += r[i].d[l] * Q(tv.get_state()[6 + 6 * l + j]);
                                            sum += std::fabs(tv.get_state()[6 + 6 * l + j]) * (l < 3 && i >= 3 ? 1 + 4 * g1 : 2.);
                                        }
                                        if (!c.within("cr3bp_variations", std::fabs(dd(Q(f[6 + 6 * i + j]) - e)), 64 * EPS * sum, what)) return;
                                    }
                                }
                                c.eval();
                            }
        });
    }

    // --- the Stark problem along trajectories
    run.section(
        "stark_flow", ntr(T),
        [&](std::uint64_t k, Case &c) {
            const auto t = traj(k, T);
            const bool zero = t.u[0] == 0 && t.u[1] == 0 && t.u[2] == 0;
            const auto R = reference(t);
            c.state(chk::mix(k, 1));
            // the error of every step grows as a perturbation of the state there does: bounded with the closest approach
            const double r0 = blk(t.y, 0), close = std::max(1., r0 / R.closest);
            for (double tol : {1e-16, 1e-10}) {
                stark_problem s(t.mu, t.veff, tol);
                const double K = 40 * (R.steps + 1) * close * std::max(1., tol / EPS * std::max(1., T ? 30. : 30.));
                const auto what = [&] { return t.text + " tol=" + chk::d2s(tol); };
                const auto y = s.propagate(t.y, t.u, t.tof);
                c.trans();
                c.trace();
                c.eval();
                for (int b = 0; b < 3; ++b) {
                    double d = 0;
                    for (int i = 3 * b; i < (b == 2 ? 7 : 3 * b + 3); ++i) d += std::pow(dd(Q(y[i]) - R.y[i].v), 2);
                    c.within(tol < 1e-15 ? "stark_flow" : "stark_flow_loose", std::sqrt(d), K * R.err[b], what);
                }
                if (c.want_sample) c.sample(what() + " closest " + chk::d2s(R.closest) + " ref steps " + std::to_string(R.steps));
                if (tol > 1e-15) continue;
                if (zero) {
                    bool thrown = false;
                    try {
                        (void)s.propagate_var(t.y, t.u, t.tof);
                    } catch (const std::domain_error &) {
                        thrown = true;
                    }
                    if (!thrown && t.tof != 0) c.fail("variations-not-rejected-without-thrust|" + what(), "the mass flow is not differentiable there");
                    continue;
                }
                const auto [yv, dx, du] = s.propagate_var(t.y, t.u, t.tof);
                c.trans();
                c.trace();
                c.eval();
                for (int b = 0; b < 3; ++b) {
                    const int i0 = 3 * b, i1 = b == 2 ? 7 : i0 + 3;
                    double d = 0;
                    for (int i = i0; i < i1; ++i) d += std::pow(dd(Q(yv[i]) - R.y[i].v), 2);
                    c.within("stark_flow_in_variational", std::sqrt(d), K * R.err[b], what);
                    // derivatives: blocks (row block x column block), scaled by the size of the inputs
                    for (int q = 0; q < 4; ++q) {
                        const int j0 = q == 3 ? 7 : 3 * q, j1 = q == 2 ? 7 : j0 + 3;
                        double e = 0;
                        const double un_ = std::sqrt(t.u[0] * t.u[0] + t.u[1] * t.u[1] + t.u[2] * t.u[2]);
                        const double in = q == 3 ? un_ : blk(t.y, q);
                        for (int i = i0; i < i1; ++i)
                            for (int j = j0; j < j1; ++j) {
                                const double got = j < 7 ? dx[7 * i + j] : du[3 * i + j - 7];
                                e += std::pow(dd(Q(got) - R.y[i].d[j]), 2);
                            }
                        // second-order sensitivity: bounded through the growth of the first-order one
                        const double grow = 1 + (R.err[0] / EPS / std::max(r0, 1e-300) + R.err[1] / EPS / std::max(blk(t.y, 1), 1e-300));
                        c.within("stark_derivatives", std::sqrt(e) * in, K * R.err[b] * grow, what);
                    }
                }
            }
        });

    // --- the three-body problem along trajectories
    {
        static const std::vector<std::array<double, 6>> S{{1.01238082345234, -.0423523523454, .22634376321, -.1232623614, .123462698209365, .123667064622},
                                                          {.5, .8, .1, .05, -.1, .02},
                                                          {.83, 0, .05, 0, .18, 0},
                                                          {-1.2, .3, -.1, .1, .6, 0},
                                                          {.3, -.4, 0, .9, .7, .3},
                                                          {1.155, 0, 0, 0, -.05, 0},
                                                          {.48, .86, 0, 0, 0, 0},
                                                          {-3., 1., .5, .4, 2.2, .1}};
        static const std::vector<double> M{0., 1e-4, .01215058560962404, .1, .3, .5};
        static const std::vector<double> TT = T ? std::vector<double>{0., .01, -.01, .3, -.3, 1., -1., 2.5, -2.5, 5., -5., 8., 12.} : std::vector<double>{0., .3, -.3, 1., -1., 2.5, 5., -5.};
        run.section("cr3bp_flow", S.size() * M.size() * TT.size(), [&](std::uint64_t k, Case &c) {
            const auto &s = S[k % S.size()];
            const double mu = M[k / S.size() % M.size()], t = TT[k / S.size() / M.size()];
            std::array<D<6>, 6> y;
            for (int i = 0; i < 6; ++i) y[i] = D<6>::var(s[i], i);
            ref::Stats st;
            ref::cr3bp_flow(y, Q(t), D<6>(mu), &st);
            const auto what = [&] { return "state " + chk::v2s(s) + " mu " + chk::d2s(mu) + " t " + chk::d2s(t); };
            std::array<Q, 6> q0;
            for (int i = 0; i < 6; ++i) q0[i] = s[i];
            double fro = 0, ns = 0;
            for (int i = 0; i < 6; ++i) {
                ns += s[i] * s[i];
                for (int j = 0; j < 6; ++j) fro += std::pow(dd(y[i].d[j]), 2);
            }
            const double err = EPS * (std::sqrt(fro) + 1) * (std::sqrt(ns) + 1) * (st.steps + 1);
            c.state(chk::mix(k, 2));
            if (std::fabs(dd(ref::jacobi(values(y), mu) - ref::jacobi(q0, mu))) > 1e-20 * std::sqrt(fro)) c.fail("reference-lost-the-jacobi-constant|" + what(), "internal");
            for (double tol : {1e-16, 1e-10}) {
                auto ta = kep3::ta::get_ta_cr3bp(tol);
                auto tv = kep3::ta::get_ta_cr3bp_var(tol);
                const double K = 200 * std::max(1., tol / EPS * 30);
                ta.set_time(0.);
                std::copy(s.begin(), s.end(), ta.get_state_data());
                *ta.get_pars_data() = mu;
                auto o = ta.propagate_until(t);
                c.trans();
                c.trace();
                c.eval();
                double d = 0;
                for (int i = 0; i < 6; ++i) d += std::pow(dd(Q(ta.get_state()[i]) - y[i].v), 2);
                c.within("cr3bp_flow", std::get<0>(o) == heyoka::taylor_outcome::time_limit ? std::sqrt(d) : HUGE_VAL, K * err, what);
                const auto phi0 = tv.get_state(); // as handed out: the initial conditions of the variations
                tv.set_time(0.);
                std::copy(s.begin(), s.end(), tv.get_state_data());
                *tv.get_pars_data() = mu;
                auto ov = tv.propagate_until(t);
                d = 0;
                double e = 0;
                for (int i = 0; i < 6; ++i) {
                    d += std::pow(dd(Q(tv.get_state()[i]) - y[i].v), 2);
                    for (int j = 0; j < 6; ++j) e += std::pow(dd(Q(tv.get_state()[6 + 6 * i + j]) - y[i].d[j]), 2);
                }
                c.within("cr3bp_flow_in_variational", std::get<0>(ov) == heyoka::taylor_outcome::time_limit ? std::sqrt(d) : HUGE_VAL, K * err, what);
                // the step control compares errors with the largest entry, variations included; second-order sensitivity: as the
                // first-order one and with the closest approach to a primary
                const double ns2 = 1 + std::sqrt(fro);
                c.within(tol < 1e-15 ? "cr3bp_derivatives" : "cr3bp_derivatives_loose", std::sqrt(e), 30 * K * err * ns2 * ns2 * std::max(1., 1 / dd(st.min_dist)), what);
                c.eval();
            }
        });
    }

    // --- histories of one object: results and getters depend on mu, veff, tol only
    {
        // letters: 0..7 the questions, then set_mu x2, set_veff x2, copy, save and load, move
        const int A = NASK + 7, L = T ? 6 : 4;
        std::uint64_t n = 1;
        for (int k = 0; k < L; ++k) n *= static_cast<std::uint64_t>(A);
        static std::vector<std::string> fresh; // [tol][mu][veff][question]
        for (double tol : TOLS)
            for (double mu : MUS)
                for (double ve : VEFFS)
                    for (int q = 0; q < NASK; ++q) {
                        stark_problem s(mu, ve, tol);
                        fresh.push_back(ask(s, q));
                    }
        run.section("histories", static_cast<std::uint64_t>(2) * A * A, [=](std::uint64_t k, Case &c) {
            const int ti = static_cast<int>(k % 2);
            // depth-first over all words starting with two given letters
            struct Node {
                stark_problem s;
                HModel m;
            };
            const int first[2] = {static_cast<int>(k / 2 % A), static_cast<int>(k / 2 / A)};
            std::string word;
            std::function<bool(const Node &, int)> go = [&](const Node &nd, int depth) {
                if (depth == L) return true;
                for (int a = depth < 2 ? first[depth] : 0; a < (depth < 2 ? first[depth] + 1 : A); ++a) {
                    Node x = nd;
                    const auto len = word.size();
                    word += (a < 10 ? "" : "1") + std::to_string(a % 10) + " ";
                    c.trans();
                    c.trace();
                    if (a < NASK) {
                        const auto got = ask(x.s, a);
                        c.eval();
                        if (got != fresh[((ti * 2 + x.m.mu) * 2 + x.m.veff) * NASK + a]) {
                            c.fail("result-depends-on-history|tol" + std::to_string(ti) + " " + word, got);
                            return false;
                        }
                    } else if (a < NASK + 2) {
                        x.m.mu = a - NASK;
                        x.s.set_mu(MUS[x.m.mu]);
                    } else if (a < NASK + 4) {
                        x.m.veff = a - NASK - 2;
                        x.s.set_veff(VEFFS[x.m.veff]);
                    } else if (a == NASK + 4) {
                        stark_problem y(9., 9., 1e-4);
                        y = x.s;
                        x.s.set_mu(55.); // the copy must not notice
                        (void)ask(x.s, 0);
                        x.s = y;
                    } else if (a == NASK + 5) {
                        std::stringstream ss;
                        {
                            boost::archive::binary_oarchive ar(ss);
                            ar << x.s;
                        }
                        stark_problem y(9., 9., 1e-4);
                        {
                            boost::archive::binary_iarchive ar(ss);
                            ar >> y;
                        }
                        x.s = y;
                    } else {
                        stark_problem y(std::move(x.s));
                        x.s = std::move(y);
                    }
                    c.state(chk::mix(chk::mix(static_cast<std::uint64_t>(ti), x.m.mu * 2 + x.m.veff), chk::mix(static_cast<std::uint64_t>(a), 77)));
                    if (!go(x, depth + 1)) return false;
                    word.resize(len);
                }
                return true;
            };
            go(Node{stark_problem(MUS[0], VEFFS[0], TOLS[ti]), {}}, 0);
            // every question at the end of a history is the last letter of a longer one; the prototypes are not touched
        }, 600);
        run.section("prototypes_untouched", 1, [=](std::uint64_t, Case &c) {
            for (double tol : TOLS) {
                const auto &a = kep3::ta::get_ta_stark(tol);
                const auto &b = kep3::ta::get_ta_stark_var(tol);
                c.eval(2);
                if (a.get_time() != 0 || a.get_state() != std::vector<double>(7, 1.)) c.fail("prototype-changed|plain", chk::v2s(a.get_state()));
                if (b.get_time() != 0 || std::vector<double>(b.get_state().begin(), b.get_state().begin() + 7) != std::vector<double>(7, 1.)) c.fail("prototype-changed|variational", chk::v2s(b.get_state()));
            }
        });
    }
    return run.go();
}
