// P15: mismatch constraints of the impulsive low-thrust leg.  P16: their gradients.  Selected with -DPROP=15|16.
// The reference leg is flown in quad precision; derivatives follow from the exact segment Jacobians by the chain rule.
#include <kep3/leg/sims_flanagan.hpp>

#include "hfleg.hpp"
#include "orbits.hpp"

using namespace orb;
using chk::Case;
using Leg = kep3::leg::sims_flanagan;

namespace
{
const Q G0 = 9.80665; // the double nearest to it, as in the code's constant
struct Prm {
    double tof, tmax, isp, mu;
    unsigned n;
};
// A point of the leg flown so far. Columns of J: 7 initial state and mass, 3 n throttles, time of flight.
struct Node {
    std::array<Q, 6> x{};
    Q m = 0;
    std::vector<Q> J;                      // 7 x P
    std::vector<std::array<double, 3>> T;  // tolerance of the blocks (r, v, m) of every column
    std::array<double, 2> err{};           // forward error (position, velocity) of the value
    double merr = 0;
    bool bad = false; // too close to a parabola or ill conditioned for the gradients to be judged
};
struct Model {
    Prm p;
    size_t P;
    double K = 200; // multiples of EPS admitted by every elementary step
    explicit Model(const Prm &q) : p(q), P(7 + 3 * q.n + 1) {}
    Q &J(Node &d, size_t i, size_t j) const { return d.J[i * P + j]; }
    Node root(const RV &s, double m) const
    {
        Node d;
        for (int k = 0; k < 6; ++k) d.x[k] = s[k / 3][k % 3];
        d.m = m;
        d.J.assign(7 * P, Q(0));
        d.T.assign(P, {0, 0, 0});
        for (size_t k = 0; k < 7; ++k) J(d, k, k) = 1;
        return d;
    }
    // coast for frac * tof / n (frac = +-1/2, +-1)
    Node coast(const Node &a, double frac) const
    {
        Node d = a;
        RV s;
        for (int k = 0; k < 6; ++k) s[k / 3][k % 3] = dd(a.x[k]);
        ref::S6<D8> y;
        Q t = Q(p.tof) * frac / Q(p.n);
        for (int k = 0; k < 6; ++k) y[k] = D8::var(a.x[k], k);
        auto o = ref::flow<D8>(y, D8::var(t, 6), D8::var(Q(p.mu), 7));
        auto cond = flow_cond(o, s, dd(t), p.mu);
        double bn[2][2] = {{0, 0}, {0, 0}}, R0 = norm3(s[0]), nr[2] = {0, 0}, nt[2] = {0, 0};
        for (int i = 0; i < 6; ++i) {
            for (int j = 0; j < 6; ++j) bn[i / 3][j / 3] += std::pow(dd(o.y[i].d[j]), 2);
            nr[i / 3] += std::pow(dd(o.y[i].v), 2);
            nt[i / 3] += std::pow(dd(o.y[i].d[6]), 2);
        }
        for (auto &r : bn)
            for (auto &v : r) v = std::sqrt(v);
        for (int b = 0; b < 2; ++b) nr[b] = std::sqrt(nr[b]), nt[b] = std::sqrt(nt[b]);
        double rel = std::max(cond[0] / nr[0], cond[1] / nr[1]), ra = std::fabs(R0 * dd(o.alpha));
        double rs = std::min(R0, nr[0]);
        double dlt = K * EPS * (rel + 10 / std::min(1., ra) + R0 / rs + nr[0] / rs) * 100;
        if (ra < 1e-3 || dlt > 1e-6 || !(dlt == dlt)) d.bad = true;
        for (int i = 0; i < 6; ++i) d.x[i] = o.y[i].v;
        for (size_t j = 0; j < P; ++j) {
            Q c[6];
            for (int i = 0; i < 6; ++i) {
                c[i] = 0;
                for (size_t k = 0; k < 6; ++k) c[i] += o.y[i].d[k] * a.J[k * P + j];
                if (j == P - 1) c[i] += o.y[i].d[6] * Q(frac) / Q(p.n);
            }
            double jr = 0, jv = 0;
            for (size_t k = 0; k < 3; ++k) {
                jr += std::pow(dd(a.J[k * P + j]), 2);
                jv += std::pow(dd(a.J[(k + 3) * P + j]), 2);
            }
            jr = std::sqrt(jr);
            jv = std::sqrt(jv);
            for (int b = 0; b < 2; ++b)
                d.T[j][static_cast<size_t>(b)] = bn[b][0] * (a.T[j][0] + dlt * jr) + bn[b][1] * (a.T[j][1] + dlt * jv) + (j == P - 1 ? dlt * nt[b] * std::fabs(frac) / p.n : 0.);
            for (size_t i = 0; i < 6; ++i) d.J[i * P + j] = c[i];
        }
        for (int b = 0; b < 2; ++b) d.err[static_cast<size_t>(b)] = bn[b][0] * a.err[0] + bn[b][1] * a.err[1] + K * EPS * cond[static_cast<size_t>(b)];
        return d;
    }
    // impulse of segment k; dir = +1 forward, -1 backward
    Node impulse(const Node &a, const std::array<double, 3> &u, size_t k, int dir) const
    {
        Node d = a;
        Q c = Q(p.tmax) * p.tof / Q(p.n), un2 = 0;
        for (double q : u) un2 += Q(q) * q;
        Q un = sqrtq(un2), veff = Q(p.isp) * G0;
        Q q = c / a.m;              // dv = q u
        Q ex = expq(-Q(dir) * q * un / veff);
        d.m = a.m * ex;
        double nu = dd(un);
        for (size_t j = 0; j < P; ++j) {
            Q dc = j == P - 1 ? Q(p.tmax) / Q(p.n) : Q(0);
            Q dm = a.J[6 * P + j];
            Q dq = dc / a.m - q / a.m * dm, dun = 0;
            size_t col = j >= 7 && j < P - 1 ? j - 7 : SIZE_MAX;
            bool own = col != SIZE_MAX && col / 3 == k;
            if (own && un != 0) dun = Q(u[col % 3]) / un;
            for (size_t i = 0; i < 3; ++i) {
                Q du = own && col % 3 == i ? Q(1) : Q(0);
                d.J[(3 + i) * P + j] += Q(dir) * (dq * Q(u[i]) + q * du);
            }
            Q dqu = dq * un + q * dun;
            d.J[6 * P + j] = ex * dm - Q(dir) * d.m / veff * dqu;
            double sc = std::fabs(dd(dc / a.m)) + std::fabs(dd(q / a.m * dm)), so = own ? dd(q) : 0.;
            double tq = dd(q / a.m) * a.T[j][2];
            d.T[j][1] += tq * nu + K * EPS * (sc * nu + so);
            d.T[j][2] = (a.T[j][2] + K * EPS * std::fabs(dd(dm))) * dd(ex) + dd(d.m / veff) * (tq * nu + K * EPS * (sc * nu + so)) + K * EPS * std::fabs(dd(d.J[6 * P + j]));
        }
        for (size_t i = 0; i < 3; ++i) d.x[3 + i] += Q(dir) * q * Q(u[i]);
        double dv = dd(q) * nu;
        d.err[1] += 8 * EPS * (dv + std::sqrt(std::pow(dd(d.x[3]), 2) + std::pow(dd(d.x[4]), 2) + std::pow(dd(d.x[5]), 2))) + dv * a.merr / dd(a.m);
        d.merr = a.merr * dd(ex) * (1 + dv / dd(veff)) + 16 * EPS * dd(d.m) * (1 + dv / dd(veff));
        return d;
    }
};

const std::vector<std::array<double, 3>> letters{{0.3, -0.4, 0.5}, {0, 0, 0}, {0., 0., -1.}, {-0.9, 0.6, 0.52}, {1e-8, -2e-8, 0.}, {0.2, 0.1, 0.}};
using Word = std::vector<int>;
struct Tree {
    std::map<Word, Node> ends; // complete half legs
};
// all half legs over `nl` letters of length k; first/last segment indices give the throttle columns
void grow(const Model &M, const Node &at, Word &w, size_t len, int nl, int dir, size_t first, std::map<Word, Node> &out, const Word *only = nullptr)
{
    for (int l = 0; l < nl; ++l) {
        if (only && (*only)[w.size()] != l) continue;
        size_t k = dir > 0 ? first + w.size() : first - w.size();
        Node d = M.impulse(at, letters[static_cast<size_t>(l)], k, dir);
        w.push_back(l);
        if (w.size() == len)
            out.emplace(w, M.coast(d, dir * 0.5));
        else
            grow(M, M.coast(d, dir * 1.), w, len, nl, dir, first, out, only);
        w.pop_back();
    }
}
std::map<Word, Node> half(const Model &M, const RV &s, double m, size_t len, int nl, int dir, const Word *only = nullptr)
{
    std::map<Word, Node> out;
    Node r = M.root(s, m);
    if (len == 0) {
        out.emplace(Word{}, r);
        return out;
    }
    Word w;
    grow(M, M.coast(r, dir * 0.5), w, len, nl, dir, dir > 0 ? 0 : M.p.n - 1, out, only);
    return out;
}
double cut_for(unsigned n, unsigned nf)
{
    // a cut whose floor(n cut) is nf, away from the boundary except at the ends
    if (nf == n) return 1.;
    if (nf == 0) return 0.3 / n;
    return (nf + 0.37) / n;
}
void judge(Case &c, const Model &M, const Leg &l, const Node &f, const Node &b, const Word &wf, const Word &wb, const std::string &what)
{
    const size_t n = M.p.n, P = M.P;
    (void)n;
    (void)P;
    (void)wf;
    (void)wb;
    c.trace();
    c.eval();
#if PROP == 15
    auto mc = l.compute_mismatch_constraints();
    double e[3] = {0, 0, 0};
    for (size_t i = 0; i < 7; ++i) {
        Q w = i < 6 ? f.x[i] - b.x[i] : f.m - b.m;
        double q = dd(Q(mc[i]) - w);
        if (!(q == q)) q = HUGE_VAL;
        e[i / 3] += q * q;
        if (c.verbose) std::printf("   mismatch[%zu] %.17g exact %s\n", i, mc[i], ref::qs(w).c_str());
    }
    for (int k = 0; k < 3; ++k) e[k] = std::sqrt(e[k]);
    double nx[2] = {0, 0};
    for (size_t i = 0; i < 6; ++i) nx[i / 3] += std::pow(dd(f.x[i]), 2) + std::pow(dd(b.x[i]), 2);
    c.within("mismatch_r", e[0], f.err[0] + b.err[0] + 4 * EPS * std::sqrt(nx[0]), [&] { return what; });
    c.within("mismatch_v", e[1], f.err[1] + b.err[1] + 4 * EPS * std::sqrt(nx[1]), [&] { return what; });
    c.within("mismatch_m", e[2], f.merr + b.merr + 4 * EPS * dd(f.m + b.m), [&] { return what; });
#else
    auto [gs, gf, gu] = l.compute_mc_grad();
    if (f.bad || b.bad) {
        c.skip("close_to_parabola_or_ill_conditioned");
        return;
    }
    if (gu.size() != 7 * (3 * n + 1)) {
        c.fail("size_of_gradient|" + what, std::to_string(gu.size()));
        return;
    }
    auto col = [&](const char *name, size_t j, int which, auto &&get) {
        // which: 1 forward only, 2 backward only, 3 both
        double e[3] = {0, 0, 0}, t[3] = {0, 0, 0};
        for (size_t i = 0; i < 7; ++i) {
            Q w = (which & 1 ? f.J[i * P + j] : Q(0)) - (which & 2 ? b.J[i * P + j] : Q(0));
            double q = dd(Q(get(i)) - w);
            if (!(q == q)) q = HUGE_VAL;
            e[i / 3] += q * q;
            if (c.verbose && std::fabs(q) > 1e-7 * std::fabs(dd(w))) std::printf("   %s row %zu column %zu: impl %.17g exact %s\n", name, i, j, static_cast<double>(get(i)), ref::qs(w).c_str());
        }
        for (size_t k = 0; k < 3; ++k) {
            double s = 0;
            for (size_t i = 3 * k; i < std::min<size_t>(7, 3 * k + 3); ++i) s += (which & 1 ? std::fabs(dd(f.J[i * P + j])) : 0) + (which & 2 ? std::fabs(dd(b.J[i * P + j])) : 0);
            t[k] = (which & 1 ? f.T[j][k] : 0) + (which & 2 ? b.T[j][k] : 0) + 8 * EPS * s;
        }
        static const char *bn[3] = {"_r", "_v", "_m"};
        for (int k = 0; k < 3; ++k) c.within((std::string(name) + bn[k]).c_str(), std::sqrt(e[k]), t[k], [&] { return what + " column " + std::to_string(j); });
    };
    for (size_t j = 0; j < 7; ++j) col("grad_start", j, 1, [&](size_t i) { return gs[i * 7 + j]; });
    for (size_t j = 0; j < 7; ++j) col("grad_end", j, 2, [&](size_t i) { return gf[i * 7 + j]; });
    for (size_t s = 0; s < n; ++s) {
        int letter = s < wf.size() ? wf[s] : wb[n - 1 - s];
        auto &u = letters[static_cast<size_t>(letter)];
        if (u[0] == 0 && u[1] == 0 && u[2] == 0) continue; // the mass is not differentiable there
        for (size_t q = 0; q < 3; ++q) {
            size_t j = 7 + 3 * s + q;
            col("grad_throttle", j, s < wf.size() ? 1 : 2, [&](size_t i) { return gu[i * (3 * n + 1) + 3 * s + q]; });
        }
    }
    col("grad_tof", P - 1, 3, [&](size_t i) { return gu[i * (3 * n + 1) + 3 * n]; });
#endif
}
struct Scene {
    RV s, f;
    double ms, mf;
    Prm p;
    std::string name;
};
// scenes: departure orbit, unrelated arrival orbit, parameters
Scene scene(std::uint64_t i, bool th)
{
    static const std::vector<double> es{0., 0.02, 0.4, 0.85, 1.3, 3.}, fs{0.2, 2.1, 4.4};
    static const std::vector<double> ths{0.02, 0.25, 0.9, 0., 3.3};
    (void)th;
    Scene S;
    size_t ie = i % es.size();
    i /= es.size();
    size_t iF = i % fs.size();
    i /= fs.size();
    size_t it = i % ths.size();
    i /= ths.size();
    size_t ip = i % 4;
    i /= 4;
    size_t iu = (i + ie + iF * 2 + it + ip) % units().size();
    auto &U = units()[iu];
    double e = es[ie], e2 = es[(ie + 2 * it + ip + 1) % es.size()], a = e < 1 ? U.L : -U.L, a2 = (e2 < 1 ? 1.4 : -1.4) * U.L;
    auto &o = orients()[(ie + it + iF) % orients().size()];
    auto &o2 = orients()[(ie + it + iF * 3 + ip + 1) % orients().size()];
    double lim = e > 1 ? std::acos(-1 / e) : 10, f = e > 1 ? (iF - 1.) * 0.7 * lim + 0.1 : fs[iF];
    double lim2 = e2 > 1 ? std::acos(-1 / e2) : 10, f2 = e2 > 1 ? 0.4 * lim2 : fs[(iF + 1) % 3] + 0.3;
    S.s = make(a, e, o.i, o.W, o.w, f, U.mu);
    S.f = make(a2, e2, o2.i, o2.W, o2.w, f2, U.mu);
    S.p.mu = U.mu;
    S.p.tof = ths[it] * 2 * M_PI * std::sqrt(U.L * U.L * U.L / U.mu);
    double V = std::sqrt(U.mu / U.L);
    static const double dvs[4] = {0.1, 0.6, 0., 0.02}, isps[4] = {2., 0.8, 5., 0.05}, mass[4] = {1500., 1., 0.3, 20000.};
    S.ms = mass[ip];
    S.mf = mass[ip] * 0.9;
    // thrust such that the total velocity change is a fraction of the orbital velocity (also for tof = 0)
    S.p.tmax = dvs[ip] * V * S.ms / std::max(S.p.tof, 0.1 * std::sqrt(U.L * U.L * U.L / U.mu));
    S.p.isp = isps[ip] * V / 9.80665;
    S.name = "e=" + chk::d2s(e) + " f=" + chk::d2s(f) + " e2=" + chk::d2s(e2) + " units=" + U.name + " tof/period=" + chk::d2s(ths[it]) + " dv/v=" + chk::d2s(dvs[ip]) + " isp/v=" + chk::d2s(isps[ip]);
    return S;
}
constexpr std::uint64_t NSC = 6 * 3 * 5 * 4;
std::vector<double> throttles(const Word &wf, const Word &wb)
{
    std::vector<double> t;
    for (int l : wf) t.insert(t.end(), letters[static_cast<size_t>(l)].begin(), letters[static_cast<size_t>(l)].end());
    for (size_t k = wb.size(); k-- > 0;) t.insert(t.end(), letters[static_cast<size_t>(wb[k])].begin(), letters[static_cast<size_t>(wb[k])].end());
    return t;
}
std::string wstr(const Word &wf, const Word &wb)
{
    std::string s = "word=";
    for (int l : wf) s += static_cast<char>('a' + l);
    s += '|';
    for (size_t k = wb.size(); k-- > 0;) s += static_cast<char>('a' + wb[k]);
    return s;
}
} // namespace

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool th = run.thorough();
    // ---- 1. every split and every throttle word of short legs
    const std::uint64_t nrot = th ? 6 : 1, step = 1;
    run.section("words", NSC * nrot / step, [&](std::uint64_t i0, Case &c) {
        std::uint64_t i = i0 * step + (i0 / 2) % step;
        Scene S = scene(i, th);
        unsigned nmax = th ? 4 : 3;
        for (unsigned n = 1; n <= nmax; ++n) {
            int nl = n <= 2 ? 6 : n == 3 ? (th ? 6 : 4) : 4;
            Model M(S.p);
            M.p.n = n;
            M.P = 7 + 3 * n + 1;
            for (unsigned nf = 0; nf <= n; ++nf) {
                auto F = half(M, S.s, S.ms, nf, nl, 1), B = half(M, S.f, S.mf, n - nf, nl, -1);
                double cut = cut_for(n, nf);
                for (auto &[wf, f] : F)
                    for (auto &[wb, b] : B) {
                        c.trans(n);
                        c.state(chk::mixd(chk::mix(chk::mix(i, n * 16 + nf), std::hash<std::string>{}(wstr(wf, wb))), cut));
                        Leg l(S.s, S.ms, throttles(wf, wb), S.f, S.mf, S.p.tof, S.p.tmax, S.p.isp, S.p.mu, cut);
                        judge(c, M, l, f, b, wf, wb, S.name + " n=" + std::to_string(n) + " nf=" + std::to_string(nf) + " " + wstr(wf, wb));
                    }
            }
        }
    });
    // ---- 2. long legs with every split, through every way of setting the cut
    const std::vector<unsigned> longs = th ? std::vector<unsigned>{4, 5, 6, 7, 10, 20, 30} : std::vector<unsigned>{4, 5, 7, 10};
    run.section("splits", NSC / (th ? 2 : 8), [&](std::uint64_t i0, Case &c) {
        std::uint64_t i = i0 * (th ? 2 : 8) + (i0 / 3) % (th ? 2 : 8);
        Scene S = scene(i, th);
        for (unsigned n : longs) {
            Model M(S.p);
            M.p.n = n;
            M.P = 7 + 3 * n + 1;
            for (int pat = 0; pat < 2; ++pat) {
                Word w;
                for (unsigned k = 0; k < n; ++k) w.push_back(static_cast<int>(pat ? (k * k + i) % 6 : (k * 2 + 3 * (k / 2)) % 6));
                unsigned st = n > 7 ? n / 5 : 1;
                for (unsigned nf = 0; nf <= n; nf += st) {
                    Word wf(w.begin(), w.begin() + nf), wb(w.rbegin(), w.rbegin() + (n - nf));
                    auto F = half(M, S.s, S.ms, nf, 6, 1, &wf), B = half(M, S.f, S.mf, n - nf, 6, -1, &wb);
                    Leg l;
                    double cut = cut_for(n, nf);
                    if (pat) {
                        l.set(S.s, S.ms, throttles(wf, wb), S.f, S.mf, S.p.tof, S.p.tmax, S.p.isp, S.p.mu, cut);
                    } else
                        l = Leg(S.s, S.ms, throttles(wf, wb), S.f, S.mf, S.p.tof, S.p.tmax, S.p.isp, S.p.mu, cut);
                    c.trans(n);
                    c.state(chk::mixd(chk::mix(chk::mix(i, n * 64 + nf), static_cast<unsigned>(pat)), cut));
                    judge(c, M, l, F.begin()->second, B.begin()->second, wf, wb, S.name + " n=" + std::to_string(n) + " nf=" + std::to_string(nf) + " " + wstr(wf, wb));
                }
            }
        }
    });
    // ---- 3. legs flown forward: zero mismatch for every cut (and the gradients there)
    run.section("flown", NSC / (th ? 1 : 6), [&](std::uint64_t i0, Case &c) {
        std::uint64_t i = i0 * (th ? 1 : 6) + (i0 / 3) % (th ? 1 : 6);
        Scene S = scene(i, th);
        for (unsigned n = 1; n <= (th ? 5u : 4u); ++n) {
            Model M(S.p);
            M.p.n = n;
            M.P = 7 + 3 * n + 1;
            int nl = n <= 2 ? 6 : n == 3 ? 3 : 2;
            auto F = half(M, S.s, S.ms, n, nl, 1);
            for (auto &[w, end] : F) {
                if ((std::hash<std::string>{}(wstr(w, {})) + i) % (n >= 3 ? 3 : 1)) continue;
                RV xf;
                for (int k = 0; k < 6; ++k) xf[k / 3][k % 3] = dd(end.x[k]);
                double mf = dd(end.m);
                for (unsigned nf = 0; nf <= n; ++nf) {
                    Word wf(w.begin(), w.begin() + nf), wb(w.rbegin(), w.rbegin() + (n - nf));
                    auto A = half(M, S.s, S.ms, nf, 6, 1, &wf), B = half(M, xf, mf, n - nf, 6, -1, &wb);
                    Leg l(S.s, S.ms, throttles(wf, wb), xf, mf, S.p.tof, S.p.tmax, S.p.isp, S.p.mu, nf == n ? 1. : (nf + 0.01) / n);
                    c.trans(n);
                    c.state(chk::mix(chk::mix(i, n * 64 + nf), std::hash<std::string>{}(wstr(w, {}))));
                    judge(c, M, l, A.begin()->second, B.begin()->second, wf, wb, S.name + " flown n=" + std::to_string(n) + " nf=" + std::to_string(nf) + " " + wstr(wf, wb));
                }
            }
        }
    });
    // ---- 4. the same of the continuous-thrust leg
#if PROP == 15
    hf::physics(run, th, hf::MISMATCH, th ? 1 : 4);
#else
    hf::physics(run, th, hf::GRADIENTS, th ? 1 : 6);
#endif
    return run.go();
}
