// P26: serialization. Every object of bounded families x every target object x archive kinds; all words of
// save/load/change operations over two variables; several objects in one archive.
#include "common.hpp"
#include "ops.hpp"
#include "hfleg.hpp"

#include <kep3/udpla/vsop2013.hpp>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>

using chk::Case;
using ops::A6;
using ops::printed;
using ops::RV;
using ops::Sink;
using ops::V3;
using Leg = kep3::leg::sims_flanagan;
using Lam = kep3::lambert_problem;
using Kep = kep3::udpla::keplerian;
using Jpl = kep3::udpla::jpl_lp;
using kep3::epoch;
using kep3::planet;

// a user body with data of its own
struct spiral {
    double m_a = 1, m_w = 2;
    std::string m_name = "spiral";
    std::vector<double> m_extra{1., 2.};
    [[nodiscard]] RV eph(double t) const { return {{{m_a * std::cos(m_w * t), m_a * std::sin(m_w * t), m_extra.at(0) * t}, {-m_w, m_w * 2, m_extra.back()}}}; }
    [[nodiscard]] std::string get_name() const { return m_name; }
    [[nodiscard]] double get_mu_self() const { return m_w * 7; }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar & m_a & m_w & m_name & m_extra;
    }
};
TANUKI_S11N_WRAP_EXPORT(spiral, kep3::detail::planet_iface)
struct bare {
    double m_k = 3;
    [[nodiscard]] RV eph(double t) const { return {{{m_k, t, 0}, {0, 1, m_k * t}}}; }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar & m_k;
    }
};
TANUKI_S11N_WRAP_EXPORT(bare, kep3::detail::planet_iface)

namespace
{
template <typename F>
void tryput(Sink &s, F &&f)
{
    try {
        s.put(f());
    } catch (const std::exception &e) {
        s.put(std::string("exception ") + typeid(e).name());
    }
}
// everything observable about an object
Sink observe(const Leg &l)
{
    Sink s;
    s.put(l);
    tryput(s, [&] { return l.compute_mismatch_constraints(); });
    tryput(s, [&] { return l.compute_throttle_constraints(); });
    tryput(s, [&] { return l.compute_mc_grad(); });
    tryput(s, [&] { return l.compute_tc_grad(); });
    s.put(printed(l));
    return s;
}
Sink observe(const Lam &l)
{
    Sink s;
    s.put(l);
    s.put(printed(l));
    return s;
}
Sink observe(const epoch &e)
{
    Sink s;
    s.put(e);
    s.put(e.jd());
    s.put(e.mjd2000());
    tryput(s, [&] { return e.as_utc_string(); });
    return s;
}
template <typename B>
void observe_body(Sink &s, const B &b)
{
    tryput(s, [&] { return b.get_name(); });
    tryput(s, [&] { return b.get_mu_central_body(); });
    tryput(s, [&] { return b.get_mu_self(); });
    tryput(s, [&] { return b.get_radius(); });
    tryput(s, [&] { return b.get_safe_radius(); });
    tryput(s, [&] { return b.get_extra_info(); });
    for (double d : {-8000.5, 0., 123.25, 7000.125}) tryput(s, [&] { return b.eph(d); });
    for (auto t : {kep3::elements_type::KEP_F, kep3::elements_type::KEP_M, kep3::elements_type::MEQ, kep3::elements_type::MEQ_R})
        tryput(s, [&] { return b.elements(55.5, t); });
}
Sink observe(const Kep &k)
{
    Sink s;
    observe_body(s, k);
    tryput(s, [&] { return k.period(3.); });
    s.put(k.get_ref_epoch());
    s.put(printed(k));
    return s;
}
Sink observe(const Jpl &k)
{
    Sink s;
    observe_body(s, k);
    s.put(printed(k));
    return s;
}
Sink observe(const planet &p)
{
    Sink s;
    observe_body(s, p);
    tryput(s, [&] { return p.period(3.); });
    tryput(s, [&] { return p.eph_v(std::vector<double>{1., -2.5}); });
    s.put(printed(p));
    planet q = p;
    s.put(q.extract<Kep>() != nullptr);
    s.put(q.extract<Jpl>() != nullptr);
    s.put(q.extract<spiral>() != nullptr);
    s.put(q.extract<bare>() != nullptr);
    if (auto *k = q.extract<Kep>()) s.put(observe(*k).w);
    return s;
}

constexpr const char *AR[2] = {"binary", "text"};
template <typename T>
std::string save(const T &x, int ar)
{
    std::stringstream ss;
    if (ar == 0) {
        boost::archive::binary_oarchive o(ss);
        o << x;
    } else if constexpr (!std::is_same_v<T, planet>) { // the type erasure of planet supports binary archives only
        boost::archive::text_oarchive o(ss);
        o << x;
    }
    return ss.str();
}
template <typename T>
void load(T &x, const std::string &s, int ar)
{
    std::stringstream ss(s);
    if (ar == 0) {
        boost::archive::binary_iarchive i(ss);
        i >> x;
    } else if constexpr (!std::is_same_v<T, planet>) {
        boost::archive::text_iarchive i(ss);
        i >> x;
    }
}
// source x into a copy of target y, then once more from there into a copy of z
template <typename T>
void round_trip(Case &c, const std::string &what, const T &x, const T &y, const T &z, int ar)
{
    const auto before = observe(x).w;
    const auto key = what + "|" + AR[ar];
    T t = y, u = z;
    const T dup = x; // saving goes through an object whose address is not reused
    try {
        const auto bytes = save(dup, ar);
        if (observe(dup).w != before) c.fail("saving-alters|" + key, "the saved object changed");
        load(t, bytes, ar);
        if (observe(t).w != before) c.fail("loaded-differs|" + key, "the loaded object differs from the saved one");
        load(u, save(t, ar), ar);
        if (observe(u).w != before) c.fail("reloaded-differs|" + key, "after saving and loading twice the object differs");
        load(t, save(x, ar), ar); // same target again
        if (observe(t).w != before) c.fail("loaded-differs-again|" + key, "loading twice into the same object differs");
    } catch (const std::exception &e) {
        c.fail("exception|" + key, e.what());
    }
    c.trans(6);
    c.trace();
    c.eval(4);
    std::uint64_t h = 5;
    for (auto w : before) h = chk::mix(h, w);
    c.state(h);
}

// ---- families --------------------------------------------------------------------------------------------------------
std::vector<double> word(unsigned k)
{
    std::vector<double> w;
    const unsigned n[] = {1, 2, 5, 12};
    for (unsigned i = 0; i < 3 * n[k]; ++i) w.push_back(((i * 37 + k) % 11 - 5.) / 9.);
    return w;
}
Leg make_leg(std::uint64_t i) // two values (four for throttles and cut) of each setting
{
    auto bit = [&](unsigned n) {
        const auto v = i % n;
        i /= n;
        return static_cast<unsigned>(v);
    };
    const unsigned t = bit(4), q = bit(4), a = bit(2), b = bit(2), d = bit(2), e = bit(2), f = bit(2), g = bit(2), h = bit(2), j = bit(2);
    const double cuts[] = {0., 0.3, 0.5, 1.};
    return Leg({{{1., 0.1, a ? -0.1 : 0.4}, {0.02, 1., 0.1}}}, b ? 1. : 1300.25, word(t), {{{0.1, d ? 1.2 : 0.7, -0.1}, {-0.9, 0.05, 0.1}}}, e ? 0.9 : 1100.1,
               f ? 0. : 1.7, g ? 0.12 : 0., h ? 2.1 : 3000., j ? 1.1 : 0.8, cuts[q]);
}
constexpr std::uint64_t NLEG = 16 * 256;
constexpr unsigned NSET = 12;
void set_leg(Leg &l, unsigned k)
{
    switch (k) {
        case 0: l.set_tof(2.9); break;
        case 1: l.set_ms(77.5); break;
        case 2: l.set_mf(66.25); break;
        case 3: l.set_max_thrust(0.7); break;
        case 4: l.set_isp(2222.); break;
        case 5: l.set_mu(1.9); break;
        case 6: l.set_cut(0.7); break;
        case 7: l.set_throttles(word(2)); break;
        case 8: l.set_throttles(word(0)); break;
        case 9: l.set_rvs({{{0.7, 0.6, 0.5}, {0.4, 0.9, 0.3}}}); break;
        case 10: l.set_rvf({{{0.2, 0.9, 0.1}, {-1.1, 0.2, 0.2}}}); break;
        default:
            try {
                l.set_throttles(std::vector<double>{1.});
            } catch (const std::exception &) {
            }
    }
}
Lam make_lam(std::uint64_t i)
{
    const V3 r1s[] = {{-0.3, 1.4, 0.2}, {-1.2, -0.4, 0.1}, {0.9, 0.5, -0.3}, {2., -1., 0.5}};
    const double tofs[] = {0.9, 4.5, 11.3, 41.7}, mus[] = {1., 1.7};
    const unsigned ms[] = {0, 1, 2, 9};
    const auto a = i % 4, b = i / 4 % 4, d = i / 16 % 2, e = i / 32 % 2, f = i / 64 % 4;
    return Lam({1., 0.2, 0.1}, r1s[a], tofs[b], mus[d], e != 0, ms[f]);
}
constexpr std::uint64_t NLAM = 256;
Kep make_kep(std::uint64_t i)
{
    const std::array<double, 3> add[] = {{0.3, 0.01, 0.02}, {-1, -1, -1}, {5., 6., 6.}};
    const auto a = i % 3, d = i / 3;
    const std::string nm = a == 0 ? "alpha" : a == 1 ? "" : "a longer name, with blanks\nand a new line";
    switch (d) {
        case 0: return Kep(epoch(123.5), RV{{{1.1, 0.2, -0.3}, {0.1, 0.9, 0.2}}}, 1.2, nm, add[a]);
        case 1: return Kep(epoch(-17.25), RV{{{1.1, 0.2, -0.3}, {0.1, 1.9, 0.2}}}, 1.2, nm, add[a]);
        case 2: return Kep(epoch(0.), RV{{{1., 0., 0.}, {0., 1., 0.}}}, 1., nm, add[a]);
        case 3: return Kep(epoch(9.), A6{1.7, 0.4, 0.9, 2.2, 3.3, 1.1}, 0.8, nm, add[a], kep3::elements_type::KEP_F);
        case 4: return Kep(epoch(9.), A6{1.7, 0.4, 0.9, 2.2, 3.3, 1.1}, 0.8, nm, add[a], kep3::elements_type::KEP_M);
        case 5: return Kep(epoch(9.), A6{1.4, 0.2, -0.3, 0.4, 0.1, 1.2}, 0.8, nm, add[a], kep3::elements_type::MEQ);
        case 6: return Kep(epoch(9.), A6{1.4, 0.2, -0.3, 0.4, 0.1, 1.2}, 0.8, nm, add[a], kep3::elements_type::MEQ_R);
        default: return Kep(epoch(9.), A6{-1.7, 1.4, 0.9, 2.2, 3.3, 0.3}, 0.8, nm, add[a], kep3::elements_type::KEP_F);
    }
}
constexpr std::uint64_t NKEP = 24;
bool kep_finite(std::uint64_t i) { return i / 3 != 1 && i / 3 != 7 && i / 3 != 2; } // text archives cannot hold NaN
constexpr const char *JPN[8] = {"mercury", "Venus", "EARTH", "mars", "jupiter", "saturn", "uranus", "neptune"};
planet make_planet(std::uint64_t i)
{
    if (i == 0) return planet{};
    if (i == 1) return planet{bare{}};
    if (i == 2) return planet{bare{-8.5}};
    if (i == 3) return planet{spiral{}};
    if (i == 4) return planet{spiral{2.5, 0.1, "other", {4., 5., 6., 7.}}};
    if (i < 13) return planet{Jpl(JPN[i - 5])};
    return planet{make_kep(i - 13)};
}
constexpr std::uint64_t NPL = 13 + NKEP;
epoch make_epoch(std::uint64_t i)
{
    const std::int64_t us[] = {0, 1, -1, 946684800000000, 946684799999999, 123456789012345678, -123456789012345678, std::numeric_limits<std::int64_t>::max(),
                               std::numeric_limits<std::int64_t>::min() + 1, 86400000000, -86400000001, 4294967296, -4294967297, 1709210096789012};
    if (i < 14) return epoch(kep3::time_point{kep3::microseconds{us[i]}});
    i -= 14;
    const std::int64_t base = std::int64_t{1} << (i / 2);
    return epoch(kep3::time_point{kep3::microseconds{i % 2 ? -base - 3 : base + 3}});
}
constexpr std::uint64_t NEP = 14 + 124;

// ---- words of operations over two variables ---------------------------------------------------------------------------
template <typename T, typename Mut>
void words(Case &c, const std::string &what, const T &a0, const T &b0, unsigned depth, unsigned first, unsigned nmut, Mut &&mut)
{
    // operations: 0..nmut-1 change variable 0; then: save 0/load 1 (binary, text), save 1/load 0 (binary, text), change 1, copy 0 to 1
    const unsigned nops = nmut + 6;
    auto kind = [](unsigned k) { return std::is_same_v<T, planet> ? 0 : static_cast<int>(k); };
    struct St {
        T real[2], model[2]; // the model moves values by plain copy
    };
    std::function<void(const St &, unsigned, const std::string &)> rec = [&](const St &s, unsigned d, const std::string &h) {
        for (unsigned o = 0; o < nops; ++o) {
            if (d == depth && o != first) continue;
            St t = s;
            try {
                if (o < nmut) {
                    mut(t.real[0], o);
                    mut(t.model[0], o);
                } else
                    switch (o - nmut) {
                        case 0:
                        case 1:
                            load(t.real[1], save(t.real[0], kind(o - nmut)), kind(o - nmut));
                            t.model[1] = t.model[0];
                            break;
                        case 2:
                        case 3:
                            load(t.real[0], save(t.real[1], kind(o - nmut - 2)), kind(o - nmut - 2));
                            t.model[0] = t.model[1];
                            break;
                        case 4:
                            mut(t.real[1], (d * 5 + 1) % nmut);
                            mut(t.model[1], (d * 5 + 1) % nmut);
                            break;
                        default:
                            t.real[1] = t.real[0];
                            t.model[1] = t.model[0];
                    }
            } catch (const std::exception &e) {
                c.fail("exception-in-word|" + what + "|" + h, e.what());
                continue;
            }
            const auto hh = h + " " + std::to_string(o);
            c.trans();
            for (int k = 0; k < 2; ++k) {
                c.eval();
                if (observe(t.real[k]).w != observe(t.model[k]).w) {
                    c.fail("history|" + what + "|" + hh, "variable " + std::to_string(k) + " differs from an object that was never serialized");
                    return;
                }
            }
            if (d > 1) rec(t, d - 1, hh);
            else c.trace();
        }
    };
    rec(St{{a0, b0}, {a0, b0}}, depth, "");
}
} // namespace

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool T = run.thorough();
    run.section("legs", NLEG, [&](std::uint64_t i, Case &c) {
        const auto x = make_leg(i);
        std::vector<Leg> tg{Leg{}, make_leg(NLEG - 1 - i), make_leg((i * 31 + 7) % NLEG)};
        if (T)
            for (std::uint64_t k = 0; k < 16; ++k) tg.push_back(make_leg(k + 16 * (i % 256)));
        for (int ar = 0; ar < 2; ++ar)
            for (std::size_t k = 0; k < tg.size(); ++k) {
                round_trip(c, "leg " + std::to_string(i) + " into " + std::to_string(k), x, tg[k], tg[(k + 1) % tg.size()], ar);
                // later changes act on the loaded object as on the original
                Leg l = tg[k], o = x;
                load(l, save(x, ar), ar);
                for (unsigned m = 0; m < NSET; ++m) {
                    set_leg(l, m);
                    set_leg(o, m);
                    c.trans(2);
                    c.eval();
                    if (observe(l).w != observe(o).w) {
                        c.fail("diverges-later|leg " + std::to_string(i) + "|" + AR[ar], "setter " + std::to_string(m) + " acts differently on the loaded leg");
                        break;
                    }
                }
            }
    });
    run.section("leg_words", 2 * (NSET + 6), [&](std::uint64_t i, Case &c) {
        words<Leg>(c, "legs", i % 2 ? Leg{} : make_leg(77), i % 2 ? make_leg(3001) : Leg{}, T ? 4 : 3, static_cast<unsigned>(i / 2), NSET, set_leg);
    }, 800);
    run.section("lambert", NLAM, [&](std::uint64_t i, Case &c) {
        const auto x = make_lam(i);
        std::vector<std::uint64_t> tg{0, 255, 1};
        for (std::uint64_t k = 0; k < (T ? NLAM : 16); ++k) tg.push_back((k * 37 + i) % NLAM);
        for (int ar = 0; ar < 2; ++ar) {
            round_trip(c, "lambert " + std::to_string(i) + " into default", x, Lam{}, make_lam(255 - i), ar);
            for (auto k : tg) round_trip(c, "lambert " + std::to_string(i) + " into " + std::to_string(k), x, make_lam(k), Lam{}, ar);
        }
    });
    run.section("epochs", NEP, [&](std::uint64_t i, Case &c) {
        for (int ar = 0; ar < 2; ++ar)
            for (std::uint64_t k = 0; k < NEP; ++k) round_trip(c, "epoch " + std::to_string(i) + " into " + std::to_string(k), make_epoch(i), make_epoch(k), epoch{}, ar);
    });
    run.section("keplerian", NKEP, [&](std::uint64_t i, Case &c) {
        for (int ar = 0; ar < (kep_finite(i) ? 2 : 1); ++ar)
            for (std::uint64_t k = 0; k <= NKEP; ++k)
                round_trip(c, "keplerian " + std::to_string(i) + " into " + std::to_string(k), make_kep(i), k == NKEP ? Kep{} : make_kep(k), Kep{}, ar);
    });
    run.section("jpl_lp", 8, [&](std::uint64_t i, Case &c) {
        for (int ar = 0; ar < 2; ++ar)
            for (std::uint64_t k = 0; k < 8; ++k) round_trip(c, std::string("jpl_lp ") + JPN[i] + " into " + JPN[k], Jpl(JPN[i]), Jpl(JPN[k]), Jpl{}, ar);
    });
    run.section("planets", NPL, [&](std::uint64_t i, Case &c) {
        for (std::uint64_t k = 0; k < NPL; ++k)
            round_trip(c, "planet " + std::to_string(i) + " into " + std::to_string(k), make_planet(i), make_planet(k), make_planet(NPL - 1 - k), 0);
    });
    run.section("planet_words", 4 * 13, [&](std::uint64_t i, Case &c) {
        const std::uint64_t K[7] = {0, 2, 4, 8, 13, 23, 26};
        words<planet>(c, "planets", make_planet(K[i % 4]), make_planet(K[6 - i % 4]), T ? 5 : 4, static_cast<unsigned>(i / 4), 7, [&](planet &p, unsigned k) { p = make_planet(K[k]); });
    }, 800);
    run.section("sequences", T ? 4096 : 512, [&](std::uint64_t i, Case &c) { // several objects, all kinds, in one archive
        const auto e = make_epoch(i % 14);
        const auto l = make_leg((i * 13) % NLEG);
        const auto m = make_lam((i * 5) % NLAM);
        const auto k = make_kep((i * 3) % NKEP);
        const Jpl j(JPN[i % 8]);
        const std::vector<planet> ps{make_planet(i % NPL), make_planet((i / 3) % NPL), make_planet(i % NPL)};
        const int nar = kep_finite((i * 3) % NKEP) ? 2 : 1;
        for (int ar = 0; ar < nar; ++ar) {
            std::stringstream ss;
            auto put = [&](auto &&o) {
                if constexpr (std::is_same_v<std::decay_t<decltype(o)>, boost::archive::binary_oarchive>) o << ps;
                o << l << e << k << m << j << l << e;
            };
            epoch e1, e2;
            Leg l1, l2 = make_leg(9);
            Lam m1;
            Kep k1;
            Jpl j1;
            std::vector<planet> p1{make_planet(4)};
            auto get = [&](auto &&a) {
                if constexpr (std::is_same_v<std::decay_t<decltype(a)>, boost::archive::binary_iarchive>) a >> p1;
                a >> l1 >> e1 >> k1 >> m1 >> j1 >> l2 >> e2;
            };
            try {
                if (ar == 0) {
                    put(boost::archive::binary_oarchive(ss));
                    get(boost::archive::binary_iarchive(ss));
                } else {
                    put(boost::archive::text_oarchive(ss));
                    get(boost::archive::text_iarchive(ss));
                }
            } catch (const std::exception &x) {
                c.fail("exception|sequence " + std::to_string(i) + "|" + AR[ar], x.what());
                continue;
            }
            bool ok = observe(l1).w == observe(l).w && observe(l2).w == observe(l).w && observe(e1).w == observe(e).w && observe(e2).w == observe(e).w
                      && observe(m1).w == observe(m).w && observe(k1).w == observe(k).w && observe(j1).w == observe(j).w && p1.size() == (ar == 0 ? 3u : 1u);
            for (std::size_t q = 0; ok && ar == 0 && q < 3; ++q) ok = observe(p1[q]).w == observe(ps[q]).w;
            if (!ok) c.fail("loaded-differs|sequence " + std::to_string(i) + "|" + AR[ar], "an object of the sequence differs");
            c.trans(16);
            c.trace();
            c.eval(10);
        }
    });
    // ---- the continuous-thrust leg
    hf::archives(run);
    // ---- VSOP2013 bodies (binary archives only), alone and inside planets, into fresh and used ones
    run.section("vsop2013", 9 * 3, [](std::uint64_t i, Case &c) {
        using kep3::udpla::vsop2013;
        static const char *N[9] = {"mercury", "venus", "earth_moon", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto"};
        const auto make = [](std::uint64_t k) { return vsop2013(N[k % 9], std::array{1e-5, .02, .5}[k / 9 % 3]); };
        const auto obs = [](const auto &b) {
            Sink s;
            for (double d : {0., 12.5, -3e4, 7.25}) s.put(b.eph(d));
            s.put(b.get_name());
            return s.w;
        };
        const auto a = make(i);
        const auto want = obs(a);
        for (std::uint64_t t = 0; t < 27; ++t)
            for (int kind = 0; kind < 3; ++kind) { // alone, in a planet, twice around
                std::stringstream ss;
                std::vector<std::uint64_t> got;
                if (kind == 1) {
                    const planet p(a);
                    planet q(make(t));
                    {
                        boost::archive::binary_oarchive ar(ss);
                        ar << p;
                    }
                    boost::archive::binary_iarchive ar(ss);
                    ar >> q;
                    got = obs(q);
                    const planet r(q);
                    if (obs(r) != want) got.clear();
                } else {
                    auto b = make(t);
                    {
                        boost::archive::binary_oarchive ar(ss);
                        ar << a;
                    }
                    {
                        boost::archive::binary_iarchive ar(ss);
                        ar >> b;
                    }
                    if (kind == 2) {
                        std::stringstream s2;
                        {
                            boost::archive::binary_oarchive ar(s2);
                            ar << b;
                        }
                        vsop2013 d;
                        boost::archive::binary_iarchive ar(s2);
                        ar >> d;
                        b = d;
                    }
                    got = obs(b);
                    const auto e = b;
                    if (obs(e) != want) got.clear();
                }
                c.trans();
                c.trace();
                c.eval();
                c.state(chk::mix(i, t * 3 + static_cast<unsigned>(kind)));
                if (got != want || obs(a) != want) c.fail("loaded-differs|" + a.get_name() + " into " + make(t).get_name() + " kind " + std::to_string(kind), "");
            }
    });
    return run.go();
}
