// P05: group laws of the state transition matrix over histories; Reynolds formula == Lagrange formula == exact.
#include <optional>

#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/core_astro/stm.hpp>

#include "stmref.hpp"

using namespace orb;
using chk::Case;
namespace
{
using M6 = std::array<Q, 36>;
using B4 = std::array<double, 4>; // block norms rr rv vr vv
M6 mul(const M6 &A, const M6 &B)
{
    M6 C{};
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j)
            for (int k = 0; k < 6; ++k) C[i * 6 + j] += A[i * 6 + k] * B[k * 6 + j];
    return C;
}
M6 absm(M6 A)
{
    for (auto &x : A) x = fabsq(x);
    return A;
}
B4 bmul(const B4 &a, const B4 &b) { return {a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3]}; }
M6 toq(const std::array<double, 36> &a)
{
    M6 r;
    for (int k = 0; k < 36; ++k) r[k] = a[k];
    return r;
}
bool invert(M6 A, M6 &R)
{
    R = M6{};
    for (int i = 0; i < 6; ++i) R[i * 7] = 1;
    for (int c = 0; c < 6; ++c) {
        int p = c;
        for (int i = c; i < 6; ++i)
            if (fabsq(A[i * 6 + c]) > fabsq(A[p * 6 + c])) p = i;
        if (A[p * 6 + c] == 0) return false;
        for (int j = 0; j < 6; ++j) {
            std::swap(A[p * 6 + j], A[c * 6 + j]);
            std::swap(R[p * 6 + j], R[c * 6 + j]);
        }
        Q d = A[c * 7];
        for (int j = 0; j < 6; ++j) {
            A[c * 6 + j] /= d;
            R[c * 6 + j] /= d;
        }
        for (int i = 0; i < 6; ++i)
            if (i != c) {
                Q f = A[i * 6 + c];
                if (f == 0) continue;
                for (int j = 0; j < 6; ++j) {
                    A[i * 6 + j] -= f * A[c * 6 + j];
                    R[i * 6 + j] -= f * R[c * 6 + j];
                }
            }
    }
    return true;
}
// Reynolds' fundamental matrix (model of the published representation), quad
M6 fundamental(const ref::V3<Q> &r0, const ref::V3<Q> &v0, const ref::V3<Q> &r, const ref::V3<Q> &v, Q t, Q mu)
{
    auto skew = [](const ref::V3<Q> &a) { return std::array<std::array<Q, 3>, 3>{{{0, -a[2], a[1]}, {a[2], 0, -a[0]}, {-a[1], a[0], 0}}}; };
    auto sr = skew(r), sv = skew(v), sh = skew(ref::cross3(r, v));
    Q R0 = sqrtq(ref::dot3(r0, r0)), R = sqrtq(ref::dot3(r, r)), R3 = R * R * R;
    Q B[3][2];
    for (int i = 0; i < 3; ++i) {
        B[i][0] = r0[i] / sqrtq(mu * R0);
        B[i][1] = v0[i] * R0 / mu;
    }
    M6 Y{};
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) {
            Y[i * 6 + j] = sr[i][j];
            Y[(i + 3) * 6 + j] = sv[i][j];
        }
        for (int b = 0; b < 2; ++b) {
            Q t1 = 0, t2 = 0;
            for (int j = 0; j < 3; ++j) {
                Q a1 = sh[i][j], a2 = 0;
                for (int k = 0; k < 3; ++k) {
                    a1 += sr[i][k] * sv[k][j];
                    a2 += mu / R3 * sr[i][k] * sr[k][j] - sv[i][k] * sv[k][j];
                }
                t1 -= a1 * B[j][b];
                t2 += a2 * B[j][b];
            }
            Y[i * 6 + 3 + b] = t1;
            Y[(i + 3) * 6 + 3 + b] = t2;
        }
        Y[i * 6 + 5] = -r[i] + Q(1.5) * v[i] * t;
        Y[(i + 3) * 6 + 5] = v[i] / 2 - Q(1.5) * mu / R3 * r[i] * t;
    }
    return Y;
}
double symplectic_defect(const M6 &M, int blk)
{
    // (M^T Om M - Om), block rr/rv/vr/vv
    Q s = 0;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            int a = (blk / 2) * 3 + i, b = (blk % 2) * 3 + j;
            Q x = 0;
            for (int k = 0; k < 3; ++k) x += M[k * 6 + a] * M[(k + 3) * 6 + b] - M[(k + 3) * 6 + a] * M[k * 6 + b];
            if (blk == 1 && i == j) x -= 1;
            if (blk == 2 && i == j) x += 1;
            s += x * x;
        }
    return dd(sqrtq(s));
}
} // namespace

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool th = run.thorough();
    std::vector<double> es{0., 1e-6, 0.1, 0.5, 0.85, 0.97, 1.03, 1.3, 3., 10.};
    std::vector<double> fr{0., 0.35, -0.6, 0.9};
    if (th) {
        es.insert(es.end(), {0.02, 0.3, 0.7, 0.92, 0.99, 1.01, 1.1, 2., 30.});
        fr.insert(fr.end(), {0.15, -0.35, 0.75, -0.9, 1.});
    }
    const int depth = th ? 4 : 3;
    const double K = 1000;
    struct Cfg {
        int u, o;
        double e, f;
    };
    std::vector<Cfg> cfg;
    int rot = 0;
    for (int u = 0; u < static_cast<int>(units().size()); ++u)
        for (double e : es)
            for (double x : fr) {
                if (e > 1 && x == 1.) continue;
                cfg.push_back({u, rot++ % 5, e, e < 1 ? x * M_PI : x * std::acos(-1 / e)});
            }
    run.section("histories", cfg.size(), [&](std::uint64_t i, Case &c) {
        auto g = cfg[i];
        auto &un = units()[static_cast<size_t>(g.u)];
        auto &orn = orients()[static_cast<size_t>(g.o)];
        double mu = un.mu;
        const RV s0 = make(g.e < 1 ? un.L : -un.L, g.e, orn.i, orn.W, orn.w, g.f, mu);
        std::string ob = std::string(un.name) + " e=" + chk::d2s(g.e) + " f=" + chk::d2s(g.f) + " o=" + std::to_string(g.o);
        c.sample(ob + " rv=" + chk::rv2s(s0) + " histories of length " + std::to_string(depth));
        double sc = std::sqrt(un.L * un.L * un.L / mu) * (g.e < 1 ? 2 * M_PI : 1);
        std::vector<double> dts = g.e < 1 ? std::vector<double>{0., 0.07 * sc, -0.07 * sc, 0.44 * sc, -0.44 * sc, 1.3 * sc}
                                          : std::vector<double>{0., 0.2 * sc, -0.2 * sc, 2.5 * sc, -2.5 * sc, 0.9 * sc};
        std::string path;
        M6 I{};
        for (int k = 0; k < 6; ++k) I[k * 7] = 1;
        auto rec = [&](auto &&self, const RV &s, const M6 &PL, const M6 &PR, const B4 &EL, const B4 &ER, bool rey, Q T, double Er, double Ev, int d) -> void {
            if (d == depth) {
                c.trace();
                return;
            }
            for (size_t k = 0; k < dts.size(); ++k) {
                path.push_back(static_cast<char>('a' + k));
                double dt = dts[k];
                auto desc = [&] { return ob + " steps=" + path; };
                c.trans();
                c.eval();
                try {
                    auto L = kep3::propagate_lagrangian(s, dt, mu, true);
                    auto Y = kep3::propagate_stm_reynolds(s, dt, mu, true);
                    auto S = kep3::stm_reynolds(s, L.first, dt, mu);
                    c.state(chk::mixd(chk::mixd(chk::mixd(chk::mix(5, i), L.first[0][0]), L.first[1][1]), dt));
                    auto R = stm_reference(s, dt, mu);
                    auto o8 = flow8(s, dt, mu);
                    auto fc = flow_cond(o8, s, dt, mu);
                    double R0 = norm3(s[0]), V0 = norm3(s[1]);
                    // Reynolds: accuracy of Y(t) inv(Y0)
                    ref::V3<Q> r0{s[0][0], s[0][1], s[0][2]}, v0{s[1][0], s[1][1], s[1][2]};
                    ref::V3<Q> r1{o8.y[0].v, o8.y[1].v, o8.y[2].v}, v1{o8.y[3].v, o8.y[4].v, o8.y[5].v};
                    auto Y1 = fundamental(r0, v0, r1, v1, dt, mu), Y0 = fundamental(r0, v0, r0, v0, 0, mu);
                    M6 Yi;
                    B4 cr{};
                    bool reg = invert(Y0, Yi);
                    if (reg) {
                        auto A = mul(mul(absm(Y1), absm(Yi)), mul(absm(Y0), absm(Yi)));
                        cr = block_norms(A);
                        double Rf = std::sqrt(dd(ref::dot3(r1, r1))), Vf = std::sqrt(dd(ref::dot3(v1, v1)));
                        // the final state enters Y with its own error
                        double amp = 1 + 4 * (fc[0] / Rf + fc[1] / Vf);
                        for (int b = 0; b < 4; ++b) cr[b] = cr[b] * amp + R.cond[b];
                    }
                    bool okl = compare_stm(c, "lagrange_step", *L.second, R, K, desc);
                    // relative error of the state at the start of this step
                    double rel = Er / R0 + Ev / V0;
                    B4 tl, tr;
                    for (int b = 0; b < 4; ++b) {
                        tl[b] = K * EPS * R.cond[b] + 2 * rel * R.cond[b];
                        tr[b] = 500 * EPS * cr[b] + 2 * rel * R.cond[b];
                    }
                    bool rey2 = rey && reg;
                    for (int b = 0; b < 4; ++b)
                        if (tr[b] > 1e-2 * R.nrm[b] && tr[b] > 1e-2 * (b == 1 ? R0 / V0 : b == 2 ? V0 / R0 : 1.)) rey2 = false;
                    if (rey2) {
                        for (int b = 0; b < 4; ++b) c.count(tr[b] < 1e-9 * R.nrm[b] ? "reynolds_tol_below_1e-9" : tr[b] < 1e-6 * R.nrm[b] ? "reynolds_tol_1e-9_1e-6" : "reynolds_tol_above_1e-6");
                        M6 E1 = toq(*Y.second), E2 = toq(S);
                        for (int m = 0; m < 36; ++m) {
                            E1[m] -= R.J[m];
                            E2[m] -= R.J[m];
                        }
                        auto n1 = block_norms(E1), n2 = block_norms(E2);
                        for (int b = 0; b < 4; ++b) {
                            okl &= c.within("reynolds_step", n1[b], tr[b], desc);
                            okl &= c.within("reynolds_direct", n2[b], tr[b], desc);
                        }
                    } else
                        c.skip("reynolds_ill_conditioned");
                    if (dt == 0.) { // identity
                        for (int m = 0; m < 36; ++m) {
                            double lim = m % 7 == 0 ? 1. : 0.;
                            int b = (m / 18) * 2 + (m % 6) / 3;
                            c.within("identity", std::fabs((*L.second)[m] - lim), K * EPS * R.cond[b], desc);
                        }
                    }
                    // product along the history vs the exact matrix of the whole arc
                    M6 nPL = mul(toq(*L.second), PL), nPR = rey2 ? mul(toq(*Y.second), PR) : PR;
                    auto JP = block_norms(PL);
                    B4 nEL = bmul(R.nrm, EL), t1 = bmul(tl, JP), t3 = bmul(tl, EL), nER = bmul(R.nrm, ER), t2 = bmul(tr, JP), t4 = bmul(tr, ER);
                    for (int b = 0; b < 4; ++b) {
                        nEL[b] += t1[b] + t3[b];
                        nER[b] += t2[b] + t4[b];
                    }
                    Q nT = T + Q(dt);
                    ref::S6<Q> x0;
                    for (int m = 0; m < 6; ++m) x0[m] = s0[m / 3][m % 3];
                    auto tot = flow6(x0, nT, mu);
                    M6 JT;
                    for (int a = 0; a < 6; ++a)
                        for (int b = 0; b < 6; ++b) JT[a * 6 + b] = tot.y[a].d[b];
                    M6 D1 = nPL, D2 = nPR;
                    for (int m = 0; m < 36; ++m) {
                        D1[m] -= JT[m];
                        D2[m] -= JT[m];
                    }
                    auto e1 = block_norms(D1), e2 = block_norms(D2), nt = block_norms(JT);
                    bool deep = true;
                    double un4[4] = {1, R0 / V0, V0 / R0, 1};
                    for (int b = 0; b < 4; ++b) {
                        if (nEL[b] > 1e-2 * (nt[b] + un4[b])) {
                            deep = false;
                            continue;
                        }
                        okl &= c.within("product_lagrange", e1[b], nEL[b], desc);
                        if (rey2 && nER[b] < 1e-2 * (nt[b] + un4[b])) okl &= c.within("product_reynolds", e2[b], nER[b], desc);
                        // symplectic: |M^T Om M - Om| <= 2 |M| E + E^2, with blocks transposed
                        B4 Mt = {nt[0], nt[2], nt[1], nt[3]}, om = {nEL[2], nEL[3], nEL[0], nEL[1]};
                        auto se = bmul(Mt, om);
                        B4 Et = {nEL[0], nEL[2], nEL[1], nEL[3]}, om2 = {nt[2] + nEL[2], nt[3] + nEL[3], nt[0] + nEL[0], nt[1] + nEL[1]};
                        auto se2 = bmul(Et, om2);
                        okl &= c.within("symplectic", symplectic_defect(nPL, b), se[b] + se2[b], desc);
                    }
                    // state error for the next step
                    double nEr = R.nrm[0] * Er + R.nrm[1] * Ev + 100 * EPS * fc[0], nEv = R.nrm[2] * Er + R.nrm[3] * Ev + 100 * EPS * fc[1];
                    if (!deep) c.skip("ill_conditioned_history");
                    if (okl && deep) self(self, L.first, nPL, nPR, nEL, nER, rey2, nT, nEr, nEv, d + 1);
                } catch (const std::exception &ex) {
                    c.fail("raises|" + ob + " steps=" + path, ex.what());
                }
                path.pop_back();
            }
        };
        rec(rec, s0, I, I, B4{}, B4{}, true, Q(0), 0., 0., 0);
    });
    return run.go();
}
