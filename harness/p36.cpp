// P36: what an object prints about itself is its state. Every object of bounded families and every history of settings
// is printed, the report is read back label by label and compared with the model of the object.
#include <cctype>
#include <sstream>

#include <fmt/format.h>

#include <kep3/core_astro/convert_anomalies.hpp>
#include <kep3/epoch.hpp>
#include <kep3/lambert_problem.hpp>
#include <kep3/leg/sims_flanagan.hpp>
#include <kep3/planet.hpp>
#include <kep3/stark_problem.hpp>
#include <kep3/udpla/jpl_lp.hpp>
#include <kep3/udpla/keplerian.hpp>

#include "common.hpp"
#include "hfleg.hpp"

using chk::Case;
using RV = std::array<std::array<double, 3>, 2>;
using V3 = std::array<double, 3>;
using A6 = std::array<double, 6>;

namespace
{
template <typename T>
std::string report(const T &x)
{
    std::ostringstream o;
    o << x;
    return o.str();
}
std::string low(std::string s)
{
    for (char &ch : s) ch = static_cast<char>(std::tolower(static_cast<unsigned char>(ch)));
    return s;
}
// All numbers of a text, in order.
std::vector<double> nums(const std::string &t)
{
    std::vector<double> o;
    for (size_t i = 0; i < t.size();) {
        const char *p = t.c_str() + i;
        bool start = std::isdigit(static_cast<unsigned char>(*p)) || ((*p == '-' || *p == '+' || *p == '.') && (std::isdigit(static_cast<unsigned char>(p[1])) || p[1] == '.'))
                     || low(std::string(p, std::min<size_t>(3, t.size() - i))) == "nan" || low(std::string(p, std::min<size_t>(3, t.size() - i))) == "inf" || low(std::string(p, std::min<size_t>(4, t.size() - i))) == "-inf" || low(std::string(p, std::min<size_t>(4, t.size() - i))) == "-nan";
        bool inword = i > 0 && (std::isalnum(static_cast<unsigned char>(t[i - 1])) || t[i - 1] == '_');
        char *e = nullptr;
        if (start && !inword) {
            double v = std::strtod(p, &e);
            if (e != p) {
                o.push_back(v);
                i += static_cast<size_t>(e - p);
                continue;
            }
        }
        ++i;
    }
    return o;
}
std::vector<std::string> lines(const std::string &r)
{
    std::vector<std::string> o;
    std::istringstream s(r);
    for (std::string l; std::getline(s, l);) o.push_back(l);
    return o;
}
// The text after the label, on the only line that begins with it.
bool after(const std::string &r, const std::string &label, std::string &out)
{
    int n = 0;
    for (auto l : lines(r)) {
        auto b = l.find_first_not_of(" \t");
        if (b == std::string::npos) continue;
        l = l.substr(b);
        if (low(l.substr(0, label.size())) != low(label)) continue;
        auto rest = l.substr(label.size());
        auto q = rest.find_first_not_of(" \t");
        if (q == std::string::npos || (rest[q] != ':' && rest[q] != '=')) continue;
        out = rest.substr(q + 1);
        ++n;
    }
    return n == 1;
}
bool eq(const std::vector<double> &a, const std::vector<double> &b, double tol)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) {
        if (std::isnan(a[i]) && std::isnan(b[i])) continue;
        if (a[i] == b[i]) continue;
        if (!(std::fabs(a[i] - b[i]) <= tol * std::fabs(b[i]))) return false;
    }
    return true;
}
struct Rep {
    Case &c;
    std::string kind, text;
    void is(const std::string &label, const std::vector<double> &want, double tol = 1e-15)
    {
        std::string v;
        c.eval();
        if (!after(text, label, v)) {
            c.fail(kind + "-no-line|" + label, text);
            return;
        }
        if (!eq(nums(v), want, tol)) c.fail(kind + "|" + label, "printed '" + v + "' but it is " + chk::v2s(want));
    }
    void is(const std::string &label, double want, double tol = 1e-15) { is(label, std::vector<double>{want}, tol); }
    void states(const std::string &label, const RV &s) { is(label, {s[0][0], s[0][1], s[0][2], s[1][0], s[1][1], s[1][2]}); }
};
// Printing is repeatable, does not depend on the way it is asked for, and changes nothing.
template <typename T>
std::string same_ways(Case &c, const std::string &kind, const T &x)
{
    auto a = report(x), b = report(x), f = fmt::format("{}", x);
    T y(x);
    if (a != b) c.fail(kind + "-twice", a + "\n" + b);
    if (a != f) c.fail(kind + "-format", a + "\n" + f);
    if (report(y) != a) c.fail(kind + "-copy", a + "\n" + report(y));
    c.trans(4);
    return a;
}

// ------------------------------------------------------------------------------------------------ legs
// what a leg is set to, and the way it is changed: one setting at a time, to another value of the same alphabet
using hf::Set;
constexpr int NSET = 10; // without the tolerance
template <typename L>
L make(const Set &s)
{
    using namespace hf;
    return L(rvs[s.k[RVS]], mss[s.k[MS]], thrs[s.k[THR]], rvf[s.k[RVF]], mfs[s.k[MF]], tofs[s.k[TOF]], tms[s.k[TMAX]], isps[s.k[ISP]], mus[s.k[MU]], cuts[s.k[CUT]]);
}
template <typename L>
void change(L &l, int f, int v)
{
    using namespace hf;
    switch (f) {
        case RVS: l.set_rvs(rvs[v]); break;
        case MS: l.set_ms(mss[v]); break;
        case THR: l.set_throttles(thrs[v]); break;
        case RVF: l.set_rvf(rvf[v]); break;
        case MF: l.set_mf(mfs[v]); break;
        case TOF: l.set_tof(tofs[v]); break;
        case TMAX: l.set_max_thrust(tms[v]); break;
        case ISP: l.set_isp(isps[v]); break;
        case MU: l.set_mu(mus[v]); break;
        case CUT: l.set_cut(cuts[v]); break;
        default: break;
    }
}
template <typename L>
void check_leg(Case &c, const std::string &kind, const L &l, const Set &s, bool ways)
{
    using namespace hf;
    Rep r{c, kind, ways ? same_ways(c, kind, l) : report(l)};
    const auto &th = thrs[s.k[THR]];
    auto n = static_cast<unsigned>(th.size() / 3);
    auto nf = static_cast<unsigned>(std::floor(n * cuts[s.k[CUT]]));
    r.is("Number of segments", n);
    r.is("Number of fwd segments", nf);
    r.is("Number of bck segments", n - nf);
    r.is("Maximum thrust", tms[s.k[TMAX]]);
    r.is("Central body gravitational parameter", mus[s.k[MU]]);
    r.is("Specific impulse", isps[s.k[ISP]]);
    r.is("Time of flight", tofs[s.k[TOF]]);
    r.is("Initial mass", mss[s.k[MS]]);
    r.is("Final mass", mfs[s.k[MF]]);
    r.states("State at departure", rvs[s.k[RVS]]);
    r.states("State at arrival", rvf[s.k[RVF]]);
    r.is("Throttles values", th);
    std::vector<double> tc;
    for (unsigned i = 0; i < n; ++i) tc.push_back(th[3 * i] * th[3 * i] + th[3 * i + 1] * th[3 * i + 1] + th[3 * i + 2] * th[3 * i + 2] - 1.);
    r.is("Throttle constraints", tc, 1e-12);
    if constexpr (std::is_same_v<L, kep3::leg::sims_flanagan>) {
        auto m = make<L>(s).compute_mismatch_constraints();
        // relative to the size of the states: the mismatch is a difference
        std::string v;
        if (!after(r.text, "Mismatch constraints", v)) {
            c.fail(kind + "-no-line|mismatch", r.text);
        } else {
            auto g = nums(v);
            bool ok = g.size() == 7;
            for (size_t i = 0; ok && i < 7; ++i) ok = std::fabs(g[i] - m[i]) <= 1e-11 * (1 + std::fabs(m[i]));
            if (!ok) c.fail(kind + "|mismatch", v + " but it is " + chk::v2s(m));
        }
    }
    c.trans();
    c.trace();
}
Set decode(std::uint64_t i, int fields)
{
    Set s;
    for (int f = 0; f < fields; ++f) {
        s.k[static_cast<size_t>(f)] = static_cast<int>(i % static_cast<std::uint64_t>(hf::sizes[static_cast<size_t>(f)]));
        i /= static_cast<std::uint64_t>(hf::sizes[static_cast<size_t>(f)]);
    }
    return s;
}
template <typename L>
void leg_case(Case &c, const std::string &kind, std::uint64_t i, bool deep)
{
    Set s = decode(i, NSET);
    std::uint64_t h = 36;
    for (int k : s.k) h = chk::mix(h, static_cast<std::uint64_t>(k));
    c.state(h);
    L l = make<L>(s);
    check_leg(c, kind, l, s, true);
    // all words of one (two) changes, printed after each
    for (int f = 0; f < NSET; ++f)
        for (int v = 0; v < hf::sizes[static_cast<size_t>(f)]; ++v) {
            if (v == s.k[static_cast<size_t>(f)]) continue;
            Set t = s;
            t.k[static_cast<size_t>(f)] = v;
            L x(l);
            change(x, f, v);
            check_leg(c, kind + "-changed", x, t, false);
            if (!deep) continue;
            for (int g = 0; g < NSET; ++g) {
                if (g == f) continue;
                int w = (s.k[static_cast<size_t>(g)] + 1) % hf::sizes[static_cast<size_t>(g)];
                Set u = t;
                u.k[static_cast<size_t>(g)] = w;
                L y(x);
                change(y, g, w);
                check_leg(c, kind + "-changed", y, u, false);
            }
        }
    c.sample(kind + ": " + report(l).substr(0, 300));
}

// ------------------------------------------------------------------------------------------------ planets
struct PData {
    double mu = -1, self = -1, rad = -1, safe = -1;
    std::string name, extra;
};
template <unsigned M>
struct body {
    PData d;
    RV eph(double) const { return {{{1., 0., 0.}, {0., 1., 0.}}}; }
    double get_mu_central_body() const requires((M & 1u) != 0) { return d.mu; }
    double get_mu_self() const requires((M & 2u) != 0) { return d.self; }
    double get_radius() const requires((M & 4u) != 0) { return d.rad; }
    double get_safe_radius() const requires((M & 8u) != 0) { return d.safe; }
    std::string get_name() const requires((M & 16u) != 0) { return d.name; }
    std::string get_extra_info() const requires((M & 32u) != 0) { return d.extra; }
    template <typename A>
    void serialize(A &, unsigned)
    {
    }
};
template <unsigned M>
void planet_one(Case &c)
{
    const std::vector<std::array<double, 4>> vals{{1.5, 2.5, 3.5, 4.5}, {1.32712440018e20, 3.986004418e14, 6378137., 6978137.1}, {1e-300, 0., 0.1 + 0.2, 1e300}, {-1., -2., 7., -0.25}};
    const std::vector<std::string> names{"n", "Earth 2 (K)", ""}, extras{"", "one line", "line 1\nline 2: 3\n"};
    for (const auto &v : vals)
        for (const auto &nm : names)
            for (const auto &ex : extras) {
                PData d{v[0], v[1], v[2], v[3], nm, ex};
                kep3::planet p{body<M>{d}};
                Rep r{c, "planet", same_ways(c, "planet", p)};
                c.state(chk::mixd(chk::mixd(chk::mix(M, nm.size() * 100 + ex.size()), v[0]), v[1]));
                c.trace();
                std::string who;
                std::string wn = (M & 16u) != 0 ? nm : p.get_name();
                if (!after(r.text, "Planet name", who) || who != " " + wn) c.fail("planet|name", r.text);
                if (!after(r.text, "C++ class name", who) || who.find("body") == std::string::npos) c.fail("planet|class", r.text);
                r.is("mu central body (-1 if not defined)", (M & 1u) != 0 ? d.mu : -1.);
                r.is("mu body (-1 if not defined)", (M & 2u) != 0 ? d.self : -1.);
                r.is("radius body (-1 if not defined)", (M & 4u) != 0 ? d.rad : -1.);
                r.is("safe body radius (-1 if not defined)", (M & 8u) != 0 ? d.safe : -1.);
                bool shown = r.text.find("Extra info") != std::string::npos, want = (M & 32u) != 0 && !ex.empty();
                if (shown != want || (want && r.text.find(ex) == std::string::npos)) c.fail("planet|extra", r.text);
            }
}
template <unsigned... M>
void planets(std::uint64_t i, Case &c, std::integer_sequence<unsigned, M...>)
{
    using F = void (*)(Case &);
    static const F fs[] = {&planet_one<M>...};
    fs[i](c);
}

} // namespace

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool deep = run.thorough();
    // ---- legs
    std::uint64_t all = 1;
    for (int f = 0; f < NSET; ++f) all *= static_cast<std::uint64_t>(hf::sizes[static_cast<size_t>(f)]);
    const std::uint64_t step = deep ? 1 : 2;
    run.section("impulsive-leg", all / step, [=](std::uint64_t i, Case &c) { leg_case<kep3::leg::sims_flanagan>(c, "leg", i * step, deep); });
    const std::uint64_t hstep = deep ? 3 : 5;
    run.section("continuous-leg", all / hstep, [=](std::uint64_t i, Case &c) { leg_case<kep3::leg::sims_flanagan_hf>(c, "hf-leg", i * hstep, false); });

    // ---- Lambert problems: the report is the only access to the chord, the semiperimeter and lambda
    const std::vector<V3> R0{{1., 0.1, -0.1}, {-0.7, 1.3, 0.4}, {0.2, -0.9, 0.05}, {1e-3, 2., 0.7}}, R1{{1.2, 0.9, 0.1}, {-1.4, 0.3, -0.2}, {-0.4, -0.8, 0.3}, {3., -0.2, 0.9}, {-0.95, -0.2, 0.11}};
    const std::vector<double> TF{0.3, 1.7, 6., 21.3, 60.}, MU{1., 0.83, 1.32712440018e20};
    const unsigned NR = deep ? 9 : 6;
    run.section("lambert", R0.size() * R1.size() * TF.size() * MU.size() * 2, [=](std::uint64_t i, Case &c) {
        const auto ia = i % R0.size(), ib = i / R0.size() % R1.size(), it = i / R0.size() / R1.size() % TF.size(), im = i / R0.size() / R1.size() / TF.size() % MU.size();
        const bool cw = i / R0.size() / R1.size() / TF.size() / MU.size() == 1;
        const double L = im == 2 ? 1.495978707e11 : 1., mu = MU[im], T = TF[it] * (im == 2 ? std::sqrt(L * L * L / mu) : 1.);
        V3 a = R0[ia], b = R1[ib];
        for (auto &x : a) x *= L;
        for (auto &x : b) x *= L;
        for (unsigned nr = 0; nr < NR; ++nr) {
            kep3::lambert_problem p(a, b, T, mu, cw, nr);
            c.state(chk::mix(chk::mix(36, i), nr));
            c.trace();
            Rep r{c, "lambert", same_ways(c, "lambert", p)};
            const auto N = p.get_Nmax();
            if (!r.text.empty()) {
                r.is("mu", mu, 1e-15);
                r.is("r1", {a[0], a[1], a[2]});
                r.is("r2", {b[0], b[1], b[2]});
                r.is("Time of flight", T);
                auto nrm = [](const V3 &x) { return std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); };
                const double ch = nrm({b[0] - a[0], b[1] - a[1], b[2] - a[2]}), s = (ch + nrm(a) + nrm(b)) / 2;
                r.is("chord", ch, 1e-13);
                r.is("semiperimeter", s, 1e-14);
                r.is("non dimensional time of flight", T * std::sqrt(2 * mu / s / s / s), 1e-13);
                r.is("Maximum number of revolutions", N);
                std::string v;
                const bool prograde = (a[0] * b[1] - a[1] * b[0] >= 0) != cw; // the short way round
                if (after(r.text, "lambda", v) && nums(v).size() == 1) {
                    const double la = nums(v)[0];
                    if (std::fabs(la * la - (1 - ch / s)) > 1e-13 || (la < 0) == prograde) c.fail("lambert|lambda", v);
                } else
                    c.fail("lambert-no-line|lambda", r.text);
                // the solutions
                auto ls = lines(r.text);
                std::vector<std::pair<std::string, std::string>> sol;
                for (size_t k = 0; k + 1 < ls.size(); ++k)
                    if (low(ls[k]).find("revs") != std::string::npos && low(ls[k]).find("iters") != std::string::npos) sol.emplace_back(ls[k], ls[k + 1]);
                if (sol.size() != 2 * N + 1 || sol.size() != p.get_v0().size()) {
                    c.fail("lambert|solutions", r.text);
                    continue;
                }
                for (size_t k = 0; k < sol.size(); ++k) {
                    // a quantity is named right before its value
                    auto named = [&](const std::string &t, const std::string &nm, size_t from = 0) {
                        for (size_t q = from; (q = t.find(nm, q)) != std::string::npos; ++q) {
                            auto e = t.find_first_not_of(" \t", q + nm.size());
                            if ((q == 0 || t[q - 1] == ' ' || t[q - 1] == '\t') && e != std::string::npos && (t[e] == ':' || t[e] == '=')) return std::pair<bool, std::string>(true, t.substr(e + 1));
                        }
                        return std::pair<bool, std::string>(false, "");
                    };
                    const auto &[l1, l2] = sol[k];
                    c.eval();
                    const double x = p.get_x()[k], sma = s / 2 / (1 - x * x);
                    auto n = nums(l1);
                    if (n.empty() || n[0] != static_cast<double>((k + 1) / 2)) c.fail("lambert|revolutions", l1);
                    if (k > 0 && (low(l1).find(k % 2 ? "left" : "right") == std::string::npos || low(l1).find(k % 2 ? "right" : "left") != std::string::npos)) c.fail("lambert|branch", l1);
                    auto val = [&](const std::string &t, const std::string &nm, const std::vector<double> &want, double tol) {
                        auto [ok, rest] = named(t, nm);
                        auto g = nums(rest);
                        if (!ok || g.size() < want.size()) {
                            c.fail("lambert-not-named|" + nm, t);
                            return;
                        }
                        g.resize(want.size());
                        if (!eq(g, want, tol)) c.fail("lambert-solution|" + nm, t + " but it is " + chk::v2s(want));
                        if (named(t, nm, t.size() - rest.size()).first) c.fail("lambert-named-twice|" + nm, t);
                    };
                    val(l1, "Iters", {static_cast<double>(p.get_iters()[k])}, 0.);
                    val(l1, "x", {x}, 1e-15);
                    val(l1, "a", {sma}, 1e-13 + 1e-15 / std::fabs(1 - x * x));
                    const auto &v0 = p.get_v0()[k], &v1 = p.get_v1()[k];
                    val(l2, "v1", {v0[0], v0[1], v0[2]}, 1e-15);
                    val(l2, "v2", {v1[0], v1[1], v1[2]}, 1e-15);
                    // and the semi major axis is that of the orbit
                    const double en = 2 / nrm(a) - (v0[0] * v0[0] + v0[1] * v0[1] + v0[2] * v0[2]) / mu;
                    auto g = nums(named(l1, "a").second);
                    if (!g.empty() && std::fabs(1 / g[0] - en) > 1e-6 * (2 / nrm(a) + std::fabs(en))) c.fail("lambert|semi-major-axis", l1);
                }
            }
        }
    });

    // ---- Stark problems: words of changes
    const std::vector<double> SM{1., 0.7, 1.32712440018e20}, SV{1., 29419.95, 0.1 + 0.2}, ST{1e-16, 1e-9};
    run.section("stark", SM.size() * SV.size() * ST.size(), [=](std::uint64_t i, Case &c) {
        const double tol = ST[i % ST.size()];
        auto look = [&](const kep3::stark_problem &p, double mu, double ve) {
            Rep r{c, "stark", same_ways(c, "stark", p)};
            c.trace();
            c.state(chk::mixd(chk::mixd(chk::mixd(36, tol), mu), ve));
            r.is("mu central body", mu);
            r.is("propulsion veff (Isp g0)", ve);
            r.is("tolerance requested", tol);
        };
        const double mu = SM[i / ST.size() % SM.size()], ve = SV[i / ST.size() / SM.size()];
        kep3::stark_problem p(mu, ve, tol);
        look(p, mu, ve);
        for (int w = 0; w < 36; ++w) {
            kep3::stark_problem q(p);
            double m = mu, e = ve;
            for (int k : {w % 6, w / 6}) {
                if (k < 3) q.set_mu(m = SM[static_cast<size_t>(k)]);
                else q.set_veff(e = SV[static_cast<size_t>(k - 3)]);
                c.trans();
                look(q, m, e);
            }
            look(p, mu, ve);
        }
    });

    // ---- planets
    run.section("planet", 64, [](std::uint64_t i, Case &c) { planets(i, c, std::make_integer_sequence<unsigned, 64>{}); });

    // ---- Keplerian bodies
    const std::vector<double> ECC{0., 0.1, 0.7, 0.99, 1.3, 4.}, INC{0.2, 1.4, 2.9}, ANG{0.3, 2., 4.4}, FF{-0.9, 0.4, 1.2}, EP{0., -1234.5678, 9876.54321};
    const double AUm = 149597870700.;
    run.section("keplerian", ECC.size() * INC.size() * ANG.size() * FF.size() * EP.size(), [=](std::uint64_t i, Case &c) {
        const double e = ECC[i % ECC.size()], inc = INC[i / ECC.size() % INC.size()], om = ANG[i / ECC.size() / INC.size() % ANG.size()];
        const double f = FF[i / ECC.size() / INC.size() / ANG.size() % FF.size()], t = EP[i / ECC.size() / INC.size() / ANG.size() / FF.size()];
        for (double q : {1., 1.1 * AUm}) {
            const double mu = q == 1. ? 1. : 1.32712440018e20, w = 6.1 - om;
            const A6 el{e < 1 ? q : -q, e, inc, om, w, f};
            const kep3::epoch ep(t);
            kep3::udpla::keplerian k1(ep, el, mu, "body");
            kep3::udpla::keplerian k2(ep, k1.eph(ep.mjd2000()), mu, "body");
            for (const auto *b : {&k1, &k2}) {
                c.trace();
                c.state(chk::mixd(chk::mixd(chk::mixd(chk::mixd(36, e + 10 * inc), om), f), t + q));
                Rep r{c, "keplerian", same_ways(c, "keplerian", *b)};
                if (r.text.find(b->get_extra_info()) == std::string::npos) c.fail("keplerian-report-vs-info", r.text);
                const auto g = b->elements(ep.mjd2000());
                // directly constructed: the elements given (angles modulo a turn); from a state: those of elements()
                auto deg = [&](const char *lab, double rad) {
                    std::string v;
                    if (!after(r.text, lab, v) || nums(v).size() != 1) {
                        c.fail(std::string("keplerian-no-line|") + lab, r.text);
                        return;
                    }
                    if (std::isnan(rad) && std::isnan(nums(v)[0])) return; // circular: no such angle from a state
                    double d = std::fmod(std::fabs(nums(v)[0] - rad * 180. / 3.14159265358979323846), 360.);
                    d = std::min(d, 360. - d);
                    if (!(d <= (b == &k1 ? 1e-11 : 1e-9))) c.fail(std::string("keplerian|") + lab, v + " but it is " + std::to_string(rad) + " rad");
                };
                const A6 &x = b == &k1 ? el : g;
                r.is("Semi major axis", x[0], 1e-14);
                r.is("Semi major axis (AU)", x[0] / AUm, 1e-14);
                r.is("Eccentricity", x[1], 1e-14);
                deg("Inclination (deg.)", x[2]);
                deg("Big Omega (deg.)", x[3]);
                deg("Small omega (deg.)", x[4]);
                deg("True anomly (deg.)", x[5]);
                if (e < 1) {
                    const double E = 2 * std::atan(std::sqrt((1 - x[1]) / (1 + x[1])) * std::tan(x[5] / 2));
                    deg("Mean anomly (deg.)", E - x[1] * std::sin(E));
                }
                r.is("Elements reference epoch (MJD2000)", ep.mjd2000());
                std::string v;
                if (!after(r.text, "Elements reference epoch (UTC)", v) || v != " " + ep.as_utc_string()) c.fail("keplerian|utc", v);
                const auto s = b->eph(ep.mjd2000());
                for (int k = 0; k < 2; ++k) {
                    const char *lab = k ? "v at ref." : "r at ref.";
                    if (!after(r.text, lab, v) || nums(v).size() != 3) {
                        c.fail(std::string("keplerian-no-line|") + lab, r.text);
                        continue;
                    }
                    auto n = nums(v);
                    double d = 0, m = 0;
                    for (size_t j = 0; j < 3; ++j) {
                        d = std::max(d, std::fabs(n[j] - s[static_cast<size_t>(k)][j]));
                        m = std::max(m, std::fabs(s[static_cast<size_t>(k)][j]));
                    }
                    if (!(d <= 1e-12 * m)) c.fail(std::string("keplerian|") + lab, v + " but it is " + chk::v2s(s[static_cast<size_t>(k)]));
                }
                // the planet that holds it repeats all of it
                kep3::planet p{*b};
                if (report(p).find(b->get_extra_info()) == std::string::npos) c.fail("keplerian-in-planet", report(p));
            }
        }
    });

    // ---- low-precision planets
    const std::vector<std::string> JN{"mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune"};
    run.section("jpl_lp", JN.size() * 3, [=](std::uint64_t i, Case &c) {
        std::string n = JN[i / 3];
        if (i % 3 == 1) n[0] = static_cast<char>(std::toupper(n[0]));
        if (i % 3 == 2)
            for (auto &ch : n) ch = static_cast<char>(std::toupper(ch));
        kep3::udpla::jpl_lp b(n);
        c.trace();
        c.state(chk::mix(36, i));
        Rep r{c, "jpl_lp", same_ways(c, "jpl_lp", b)};
        const auto x = b.elements(0.);
        const auto s = b.eph(0.);
        const double D = 180. / 3.14159265358979323846;
        r.is("Semi major axis (AU)", x[0] / AUm, 1e-13);
        r.is("Eccentricity", x[1], 1e-13);
        r.is("Inclination (deg.)", x[2] * D, 1e-12);
        r.is("Big Omega (deg.)", x[3] * D, 1e-12);
        r.is("Small omega (deg.)", x[4] * D, 1e-12);
        r.is("True anomly (deg.)", x[5] * D, 1e-12);
        const double E = 2 * std::atan(std::sqrt((1 - x[1]) / (1 + x[1])) * std::tan(x[5] / 2));
        std::string v;
        if (!after(r.text, "Mean anomly (deg.)", v) || nums(v).size() != 1) c.fail("jpl_lp-no-line|mean", r.text);
        else {
            double d = std::fmod(std::fabs(nums(v)[0] - (E - x[1] * std::sin(E)) * D), 360.);
            if (std::min(d, 360. - d) > 1e-11) c.fail("jpl_lp|Mean anomaly", v);
        }
        r.is("Elements reference epoch (MJD2000)", 0.);
        if (!after(r.text, "Elements reference epoch (date)", v) || v != " " + kep3::epoch(0.).as_utc_string()) c.fail("jpl_lp|date", v);
        r.is("r at ref.", {s[0][0], s[0][1], s[0][2]}, 1e-12);
        r.is("v at ref.", {s[1][0], s[1][1], s[1][2]}, 1e-12);
        if (r.text.find(b.get_extra_info()) == std::string::npos) c.fail("jpl_lp-report-vs-info", r.text);
        kep3::planet p{b};
        if (report(p).find(b.get_extra_info()) == std::string::npos || report(p).find(b.get_name()) == std::string::npos) c.fail("jpl_lp-in-planet", report(p));
    });
    return run.go();
}
