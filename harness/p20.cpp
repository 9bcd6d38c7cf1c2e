// P20: the planet type erasure: every subset of optional methods (2^9 body types), derived quantities over orbits, and all
// histories of copies / moves / assignments / in-place modification over two planet variables.
#include <kep3/epoch.hpp>
#include <kep3/exceptions.hpp>
#include <kep3/planet.hpp>

#include "elcheck.hpp"

using namespace el;
using chk::Case;
using kep3::planet;

namespace
{
// what a body answers; shared between the body and the model
struct Data {
    RV s{{{1., 0., 0.}, {0., 1., 0.}}}; // state at mjd2000 = 0 (the "orbit" seen by derived quantities)
    double mu = 1., id = 0.;
};
RV eph_of(const Data &d, double t)
{
    RV s = d.s;
    // moves (not physically): scalar and vectorised answers for different dates differ
    for (auto &k : s[0]) k *= 1. + t * 0.001953125;
    s[1][0] += 0.;
    return s;
}
double mu_self_of(const Data &d) { return 10. + d.id; }
double radius_of(const Data &d) { return 20. + d.id; }
double safe_of(const Data &d) { return 30. + d.id; }
std::string name_of(const Data &d) { return "name-" + std::to_string(static_cast<int>(d.id)); }
std::string extra_of(const Data &d) { return "extra-" + std::to_string(static_cast<int>(d.id)); }
std::vector<double> ephv_of(const Data &d, const std::vector<double> &t)
{
    std::vector<double> o;
    for (double x : t)
        for (int k = 0; k < 6; ++k) o.push_back(1000. + d.id + x + k);
    return o;
}
double period_of(const Data &d, double t) { return 40. + d.id + t; }
std::array<double, 6> elements_of(const Data &d, double t, kep3::elements_type ty)
{
    return {d.id, t, static_cast<double>(static_cast<int>(ty)), 1., 2., 3.};
}
enum : unsigned { MU = 1, SELF = 2, RAD = 4, SAFE = 8, NAME = 16, EXTRA = 32, EPHV = 64, PER = 128, ELEM = 256 };

template <unsigned M>
struct body {
    Data d;
    RV eph(double t) const { return eph_of(d, t); }
    double get_mu_central_body() const
        requires((M & MU) != 0)
    {
        return d.mu;
    }
    double get_mu_self() const
        requires((M & SELF) != 0)
    {
        return mu_self_of(d);
    }
    double get_radius() const
        requires((M & RAD) != 0)
    {
        return radius_of(d);
    }
    double get_safe_radius() const
        requires((M & SAFE) != 0)
    {
        return safe_of(d);
    }
    std::string get_name() const
        requires((M & NAME) != 0)
    {
        return name_of(d);
    }
    std::string get_extra_info() const
        requires((M & EXTRA) != 0)
    {
        return extra_of(d);
    }
    std::vector<double> eph_v(const std::vector<double> &t) const
        requires((M & EPHV) != 0)
    {
        return ephv_of(d, t);
    }
    double period(double t) const
        requires((M & PER) != 0)
    {
        return period_of(d, t);
    }
    std::array<double, 6> elements(double t, kep3::elements_type ty) const
        requires((M & ELEM) != 0)
    {
        return elements_of(d, t, ty);
    }

private:
    friend class boost::serialization::access;
    template <typename Archive>
    void serialize(Archive &, unsigned)
    {
    }
};
constexpr kep3::elements_type TY[4] = {kep3::elements_type::KEP_F, kep3::elements_type::KEP_M, kep3::elements_type::MEQ, kep3::elements_type::MEQ_R};

using Maker = planet (*)(const Data &);
using Typer = std::string (*)();
struct Entry {
    Maker make;
    Typer type;
    Data *(*get)(planet &);
};
template <unsigned M>
planet mk(const Data &d)
{
    body<M> b;
    b.d = d;
    return planet(b);
}
template <unsigned M>
std::string ty()
{
    return boost::core::demangle(typeid(body<M>).name());
}
template <unsigned M>
Data *gt(planet &p)
{
    auto *b = p.template extract<body<M>>();
    return b ? &b->d : nullptr;
}
template <unsigned... I>
std::array<Entry, sizeof...(I)> table(std::integer_sequence<unsigned, I...>)
{
    return {Entry{&mk<I>, &ty<I>, &gt<I>}...};
}
const auto &entries()
{
    static const auto t = table(std::make_integer_sequence<unsigned, 512>{});
    return t;
}
bool same(const RV &a, const RV &b) { return std::memcmp(&a, &b, sizeof a) == 0; }
bool same(const std::vector<double> &a, const std::vector<double> &b) { return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * 8) == 0); }
template <typename F>
std::string thrown(F &&f) // "" no exception, "ni" not_implemented_error, "logic", "other"
{
    try {
        f();
    } catch (const kep3::not_implemented_error &) {
        return "ni";
    } catch (const std::logic_error &) {
        return "logic";
    } catch (...) {
        return "other";
    }
    return "";
}

// Observes a planet completely and compares it with the model (mask, data). Derived quantities are only checked for the
// kind of answer here (section "derived" checks their values).
void observe(Case &c, const planet &p, unsigned m, const Data &d, const std::string &what)
{
    c.eval();
    auto bad = [&](const char *k, const std::string &msg) { c.fail(std::string(k) + "|" + what, msg); };
    auto num = [&](const char *k, double got, double want) {
        if (!(got == want)) bad(k, "got " + chk::d2s(got) + " want " + chk::d2s(want));
    };
    try {
        num("mu_central_body", p.get_mu_central_body(), m & MU ? d.mu : -1.);
        num("mu_self", p.get_mu_self(), m & SELF ? mu_self_of(d) : -1.);
        num("radius", p.get_radius(), m & RAD ? radius_of(d) : -1.);
        num("safe_radius", p.get_safe_radius(), m & SAFE ? safe_of(d) : -1.);
        auto n = p.get_name();
        if (n != (m & NAME ? name_of(d) : entries()[m].type())) bad("name", n);
        auto x = p.get_extra_info();
        if (x != (m & EXTRA ? extra_of(d) : "")) bad("extra_info", x);
        for (double t : {0., 1., -7.25, 8000.5}) {
            auto e = p.eph(t);
            if (!same(e, eph_of(d, t))) bad("eph", chk::rv2s(e));
            if (!same(p.eph(kep3::epoch(t)), p.eph(kep3::epoch(t).mjd2000()))) bad("eph_epoch", chk::d2s(t));
        }
        for (const auto &l : {std::vector<double>{}, {0.}, {3.}, {1., 0.}, {0., 0.}, {5., -2., 7.5}, {4., 3., 2., 1.}, {1., 2., 3., 4., 5., 6., 7., 8., 9.}}) {
            std::vector<double> want;
            if (m & EPHV) want = ephv_of(d, l);
            else
                for (double t : l) {
                    auto e = eph_of(d, t);
                    want.insert(want.end(), {e[0][0], e[0][1], e[0][2], e[1][0], e[1][1], e[1][2]});
                }
            auto got = p.eph_v(l);
            if (!same(got, want)) bad("eph_v", "list " + chk::v2s(l) + " got " + chk::v2s(got));
        }
    } catch (const std::exception &ex) {
        bad("raises", ex.what());
    }
    for (double t : {0., 2.5}) {
        if (m & PER) {
            double g = 0;
            auto th = thrown([&] {
                g = p.period(t);
                num("period_epoch", p.period(kep3::epoch(t)), period_of(d, t));
                num("period_default", p.period(), period_of(d, 0.));
            });
            if (th != "") bad("period_raises", th);
            num("period", g, period_of(d, t));
        } else {
            auto th = thrown([&] { (void)p.period(t); });
            if (th != (m & MU ? "" : "ni")) bad("period_kind", "raised: " + th);
            auto th2 = thrown([&] { (void)p.period(kep3::epoch(t)); });
            if (th2 != th) bad("period_kind_epoch", "raised: " + th2);
            if (m & MU) {
                double a = p.period(t), b = p.period(kep3::epoch(t));
                if (std::memcmp(&a, &b, 8) != 0) bad("period_epoch", chk::d2s(a) + " " + chk::d2s(b));
            }
        }
        for (int ti = 0; ti < 4; ++ti) {
            std::array<double, 6> g{}, ge{};
            auto th = thrown([&] { g = p.elements(t, TY[ti]); });
            auto th2 = thrown([&] { ge = p.elements(kep3::epoch(t), TY[ti]); });
            if (th != th2) bad("elements_kind_epoch", th + " / " + th2);
            if (std::memcmp(&g, &ge, sizeof g) != 0) bad("elements_epoch", chk::v2s(g) + chk::v2s(ge));
            if (m & ELEM) {
                if (th != "" || g != elements_of(d, t, TY[ti])) bad("elements", th + chk::v2s(g));
            } else if (m & MU) {
                bool hyp = false;
                {
                    auto e = eph_of(d, t);
                    double R = norm3(e[0]), V = norm3(e[1]);
                    hyp = V * V / 2 > d.mu / R;
                }
                if (th != (ti == 1 && hyp ? "logic" : "")) bad("elements_kind", std::string(ty_name(ti)) + " raised: " + th);
            } else if (th != "ni")
                bad("elements_kind", std::string(ty_name(ti)) + " raised: " + th);
        }
        if ((m & (ELEM | MU)) != 0) {
            std::array<double, 6> a{}, b{};
            auto t1 = thrown([&] { a = p.elements(t); }), t2 = thrown([&] { b = p.elements(t, kep3::elements_type::KEP_F); });
            if (t1 != t2 || std::memcmp(&a, &b, sizeof a) != 0) bad("elements_default", chk::v2s(a) + chk::v2s(b));
        }
    }
}
std::vector<Data> datas()
{
    std::vector<Data> v(4);
    v[0].s = make(0.4, 0.3, 0.5, 1., 2., 0.7, 1.); // a < 1
    v[0].id = 1;
    v[1].s = make(1.5e11, 0.1, 1.2, 3., 5., 4., 1.3e20);
    v[1].mu = 1.3e20;
    v[1].id = 2;
    v[2].s = make(-2., 1.4, 2., 0.3, 0.2, 0.5, 1.);
    v[2].id = 3;
    v[3].s = {{{1., 0., 0.}, {0., 1., 0.}}}; // circular, equatorial
    v[3].id = 4;
    return v;
}
} // namespace

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool th = run.thorough();
    auto D = datas();
    // 1. every subset of optional methods
    run.section("subsets", 512, [&](std::uint64_t i, Case &c) {
        for (size_t k = 0; k < D.size(); ++k) {
            auto p = entries()[i].make(D[k]);
            observe(c, p, static_cast<unsigned>(i), D[k], "mask=" + std::to_string(i) + " body=" + std::to_string(k));
            c.state(chk::mix(i, k));
            c.trans(40);
            c.trace();
        }
    });
    // default constructed planet
    run.section("default", 1, [&](std::uint64_t, Case &c) {
        planet p;
        c.eval();
        auto want = RV{{{1., 0., 0.}, {0., 1., 0.}}};
        if (!same(p.eph(12.), want) || p.get_mu_central_body() != -1 || p.get_mu_self() != -1 || p.get_radius() != -1 || p.get_safe_radius() != -1 || p.get_extra_info() != "")
            c.fail("default|planet()", "unexpected answers");
        if (thrown([&] { (void)p.period(); }) != "ni" || thrown([&] { (void)p.elements(); }) != "ni") c.fail("default_kind|planet()", "no not_implemented_error");
        if (p.eph_v(std::vector<double>{1., 2.}) != std::vector<double>{1., 0., 0., 0., 1., 0., 1., 0., 0., 0., 1., 0.}) c.fail("default_eph_v|planet()", "");
        c.state(1);
        c.trans();
    });
    // 2. histories of value semantics over two variables
    const int depth = th ? 6 : 5;
    const std::vector<unsigned> masks{0u, 511u, 1u, MU | SELF | NAME, 0x1F0u, SELF | RAD | EPHV};
    struct V {
        unsigned m;
        Data d;
    };
    // operations: 0 a=b 1 b=a 2 a=copy(a) 3 swap via moves 4 a=move(copy of b) 5 modify a in place 6 modify b in place 7 a:=new body X 8 b:=new body Y
    // 9: a = a (self assignment)
    const int nops = 10;
    std::uint64_t nh = 1;
    for (int k = 0; k < depth; ++k) nh *= nops;
    std::uint64_t roots = masks.size() * masks.size();
    run.section("values", roots * 100, [&](std::uint64_t ci, Case &c) {
        unsigned ma = masks[ci / 100 / masks.size()], mb = masks[ci / 100 % masks.size()];
        std::uint64_t per = nh / 100;
        for (std::uint64_t h = 0; h < per; ++h) {
            std::uint64_t w = (ci % 100) * per + h;
            V va{ma, D[0]}, vb{mb, D[1]};
            planet a = entries()[ma].make(D[0]), b = entries()[mb].make(D[1]);
            std::string word;
            for (int k = 0; k < depth; ++k) {
                int op = static_cast<int>(w % nops);
                w /= nops;
                word += static_cast<char>('0' + op);
                switch (op) {
                    case 0: a = b; va = vb; break;
                    case 1: b = a; vb = va; break;
                    case 2: { planet t(a); a = t; } break;
                    case 3: { planet t(std::move(a)); a = std::move(b); b = std::move(t); std::swap(va, vb); } break;
                    case 4: { planet t(b); a = std::move(t); va = vb; } break;
                    case 5: if (auto *x = entries()[va.m].get(a)) { x->id += 1; va.d.id += 1; } else c.fail("extract|" + word, "null"); break;
                    case 6: if (auto *x = entries()[vb.m].get(b)) { x->id += 2; vb.d.id += 2; } else c.fail("extract|" + word, "null"); break;
                    case 7: va = {511u - ma, D[2]}; a = entries()[va.m].make(va.d); break;
                    case 8: vb = {mb ^ 21u, D[3]}; b = entries()[vb.m].make(vb.d); break;
                    case 9: { planet &r = a; a = r; } break;
                }
                c.trans();
            }
            // extraction with the wrong type gives nothing
            if (entries()[va.m ^ 1u].get(a) != nullptr) c.fail("extract_wrong|" + word, "not null");
            auto quick = [&](const planet &p, const V &v, const char *n) {
                bool ok = p.get_mu_self() == (v.m & SELF ? mu_self_of(v.d) : -1.) && p.get_mu_central_body() == (v.m & MU ? v.d.mu : -1.)
                          && p.get_name() == (v.m & NAME ? name_of(v.d) : entries()[v.m].type()) && same(p.eph(3.), eph_of(v.d, 3.));
                if (!ok) c.fail(std::string("value_") + n + "|" + word, "roots " + std::to_string(ma) + "," + std::to_string(mb));
            };
            quick(a, va, "a");
            quick(b, vb, "b");
            c.eval();
            c.trace();
            c.state(chk::mix(chk::mix(va.m, vb.m), static_cast<std::uint64_t>(va.d.id * 100 + vb.d.id)));
            if (h % 97 == 0) {
                observe(c, a, va.m, va.d, "a after " + word + " roots " + std::to_string(ma) + "," + std::to_string(mb));
                observe(c, b, vb.m, vb.d, "b after " + word);
            }
        }
    });
    // every list of dates up to a length over an alphabet with repetitions and nearly equal dates
    const std::vector<unsigned> lm{0, MU, EPHV, MU | SELF | RAD, 511, 511 & ~static_cast<unsigned>(EPHV), PER, ELEM | MU};
    const std::vector<double> da{0., 1., std::nextafter(1., 2.), 1. + 1e-9, 1. + 1e-6, -7.25, 8000.5};
    run.section("date_lists", lm.size() * 2, [&](std::uint64_t li, Case &c) {
        const unsigned m = lm[li / 2];
        Data d;
        d.id = 3;
        d.s = {{{1.5, 0.25, -0.5}, {0.125, 0.75, 0.0625}}};
        auto p = entries()[m].make(d);
        const size_t maxlen = th ? 6 : 5;
        if (li % 2) p = planet(p); // through a copy
        std::vector<size_t> id;
        auto rec = [&](auto &&self) -> void {
            std::vector<double> l, want;
            for (auto q : id) l.push_back(da[q]);
            if (m & EPHV) want = ephv_of(d, l);
            else
                for (double t : l) {
                    auto e = eph_of(d, t);
                    want.insert(want.end(), {e[0][0], e[0][1], e[0][2], e[1][0], e[1][1], e[1][2]});
                }
            c.trans();
            c.eval();
            auto h = chk::mix(2020, m);
            for (auto q : id) h = chk::mix(h, q);
            c.state(h);
            std::vector<double> got;
            auto k = thrown([&] { got = p.eph_v(l); });
            if (k != "" || !same(got, want)) c.fail("eph_v_list|mask=" + std::to_string(m) + " list=" + chk::v2s(l), k != "" ? "raised " + k : chk::v2s(got));
            if (id.size() == maxlen) {
                c.trace();
                return;
            }
            for (size_t q = 0; q < da.size(); ++q) {
                id.push_back(q);
                self(self);
                id.pop_back();
            }
        };
        rec(rec);
    });
    // 3. derived period and elements over orbits
    std::vector<double> es{0., 1e-8, 1e-3, 0.1, 0.6, 0.95, 0.999, 1.001, 1.05, 1.6, 5., 40.}, is{0., 1e-7, 0.3, M_PI / 2, 2.4, M_PI - 1e-7, M_PI}, Ws{0., 0.7, 2.4, 4.5}, ws{0., 1.2, 3.3, 5.9}, fs{0., 0.3, -0.3, 0.7, -0.7, 0.97};
    if (th) {
        es.insert(es.end(), {1e-5, 0.02, 0.3, 0.8, 0.99, 1.01, 1.2, 2.});
        is.insert(is.end(), {1e-3, 0.8, 1.2, 2., 2.9});
        Ws.insert(Ws.end(), {M_PI / 2, M_PI, 5.9});
        fs.insert(fs.end(), {0.1, -0.1, 0.5, -0.5, -0.97});
    }
    // sizes: the length unit times these, so that semi-major axes fall on both sides of 1 in every unit system
    std::vector<double> scale{1., 1e-3, 40.};
    run.section("derived", units().size() * es.size() * scale.size(), [&](std::uint64_t ci, Case &c) {
        auto &un = units()[ci % units().size()];
        double e = es[ci / units().size() % es.size()], sc = scale[ci / units().size() / es.size()];
        double a = un.L * sc * (e < 1 ? 1 : -1);
        for (double inc : is)
            for (double W : Ws)
                for (double w : ws)
                    for (double x : fs) {
                        double f = e < 1 ? x * M_PI : x * std::acos(-1 / e);
                        Data d;
                        d.s = make(a, e, inc, W, w, f, un.mu);
                        d.mu = un.mu;
                        auto p = entries()[MU].make(d);
                        std::string what = std::string(un.name) + " a=" + chk::d2s(a) + " e=" + chk::d2s(e) + " i=" + chk::d2s(inc) + " W=" + chk::d2s(W) + " w=" + chk::d2s(w) + " f=" + chk::d2s(f);
                        c.state(chk::mixd(chk::mixd(chk::mixd(chk::mixd(20, d.s[0][0]), d.s[0][1]), d.s[1][0]), d.s[1][2]));
                        auto fl = flat(d.s);
                        E6<Q> sq;
                        for (size_t k = 0; k < 6; ++k) sq[k] = fl[k];
                        auto b = basics<Q>(sq, Q(un.mu));
                        double R0 = norm3(d.s[0]), V0 = norm3(d.s[1]);
                        double erel = EPS * (V0 * V0 / un.mu + 2 / R0) / std::fabs(dd(b.alpha)); // relative error of the energy
                        c.trans(5);
                        c.eval();
                        double T = 0;
                        auto k = thrown([&] { T = p.period(0.); });
                        if (k != "") c.fail("derived_period_raises|" + what, k);
                        else if (b.alpha > 0) {
                            Q Tq = 2 * ref::PI / sqrtq(b.alpha * b.alpha * b.alpha * Q(un.mu));
                            c.within("derived_period", std::fabs(dd(Q(T) - Tq)), dd(Tq) * 30 * (erel + EPS), [&] { return what; });
                        } else if (!std::isnan(T))
                            c.fail("derived_period_hyperbola|" + what, chk::d2s(T));
                        for (int ti = 0; ti < 4; ++ti) {
                            A6 y{};
                            auto kk = thrown([&] { y = p.elements(0., TY[ti]); });
                            if (ti == 1 && b.alpha < 0) {
                                if (kk != "logic") c.fail("derived_mean_anomaly_of_hyperbola|" + what, "raised: " + kk);
                                continue;
                            }
                            if (kk != "") {
                                c.fail(std::string("derived_elements_raise_") + ty_name(ti) + "|" + what, kk);
                                continue;
                            }
                            if (ti < 2 && !(e >= 1e-3 && std::sin(inc) > 1e-4)) {
                                c.skip("singular_elements");
                                continue;
                            }
                            auto R = ref_elements(ti, fl, un.mu, 300);
                            if (!R.defined) {
                                c.skip("undefined_representation");
                                continue;
                            }
                            match(c, "derived", ti, y, R, what);
                            c.trace();
                        }
                    }
    });
    return run.go();
}
