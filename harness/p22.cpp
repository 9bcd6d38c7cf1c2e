// P22: low precision JPL planets: every planet x every date of a grid over the whole validity range, element types, names,
// and rejected dates and names, against an independent implementation of the published model (quad precision).
#include <kep3/epoch.hpp>
#include <kep3/planet.hpp>
#include <kep3/udpla/jpl_lp.hpp>

#include "elcheck.hpp"

using namespace el;
using chk::Case;
using kep3::udpla::jpl_lp;

namespace
{
constexpr kep3::elements_type TY[4] = {kep3::elements_type::KEP_F, kep3::elements_type::KEP_M, kep3::elements_type::MEQ, kep3::elements_type::MEQ_R};
const char *names[8] = {"mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune"};
// https://ssd.jpl.nasa.gov/planets/approx_pos.html, table 1 (1800 AD - 2050 AD): a [au], e, I, L, long.peri., long.node. [deg] and rates per century
const double tab[8][12] = {
    {0.38709927, 0.20563593, 7.00497902, 252.25032350, 77.45779628, 48.33076593, 0.00000037, 0.00001906, -0.00594749, 149472.67411175, 0.16047689, -0.12534081},
    {0.72333566, 0.00677672, 3.39467605, 181.97909950, 131.60246718, 76.67984255, 0.00000390, -0.00004107, -0.00078890, 58517.81538729, 0.00268329, -0.27769418},
    {1.00000261, 0.01671123, -0.00001531, 100.46457166, 102.93768193, 0.0, 0.00000562, -0.00004392, -0.01294668, 35999.37244981, 0.32327364, 0.0},
    {1.52371034, 0.09339410, 1.84969142, -4.55343205, -23.94362959, 49.55953891, 0.00001847, 0.00007882, -0.00813131, 19140.30268499, 0.44441088, -0.29257343},
    {5.20288700, 0.04838624, 1.30439695, 34.39644051, 14.72847983, 100.47390909, -0.00011607, -0.00013253, -0.00183714, 3034.74612775, 0.21252668, 0.20469106},
    {9.53667594, 0.05386179, 2.48599187, 49.95424423, 92.59887831, 113.66242448, -0.00125060, -0.00050991, 0.00193609, 1222.49362201, -0.41897216, -0.28867794},
    {19.18916464, 0.04725744, 0.77263783, 313.23810451, 170.95427630, 74.01692503, -0.00196176, -0.00004397, -0.00242939, 428.48202785, 0.40805281, 0.04240589},
    {30.06992276, 0.00859048, 1.77004347, -55.12002969, 44.96476227, 131.78422574, 0.00026291, 0.00005105, 0.00035372, 218.45945325, -0.32241464, -0.00508664}};
// gravitational parameter [m^3/s^2] and mean radius [m] of the planets (checked to 2 %: sources differ)
const double phys[8][2] = {{2.2032e13, 2.4397e6}, {3.24859e14, 6.0518e6}, {3.986004418e14, 6.371e6}, {4.282837e13, 3.3895e6},
                           {1.26686534e17, 7.0e7}, {3.7931187e16, 5.9e7}, {5.793939e15, 2.5362e7}, {6.836529e15, 2.4622e7}};
const Q AUq = 149597870700.0Q, MUS = 1.32712440041279419e20Q;

struct Model {
    E6<Q> kep; // a e i W w M (radians, metres)
    Q f;
};
Model model(int p, Q mjd2000)
{
    Q T = (mjd2000 - Q(0.5)) / 36525, x[6];
    for (int k = 0; k < 6; ++k) { // the table entries are decimal numbers
        x[k] = Q(tab[p][k]) + Q(tab[p][k + 6]) * T;
    }
    Q d = ref::PI / 180;
    Model m;
    m.kep = {x[0] * AUq, x[1], x[2] * d, x[5] * d, (x[4] - x[5]) * d, (x[3] - x[4]) * d};
    Q M = wrapq(m.kep[5]), e = x[1], E = M;
    for (int k = 0; k < 100; ++k) {
        Q n = E - (E - e * sinq(E) - M) / (1 - e * cosq(E));
        if (fabsq(n - E) < Q(1e-32)) break;
        E = n;
    }
    m.f = 2 * atan2q(sqrtq(1 + e) * sinq(E / 2), sqrtq(1 - e) * cosq(E / 2));
    return m;
}
template <typename F>
std::string thrown(F &&f)
{
    try {
        f();
    } catch (const std::exception &) {
        return "std";
    } catch (...) {
        return "other";
    }
    return "";
}
// cooked: the comparison at one date
void at(Case &c, const jpl_lp &b, const kep3::planet &pl, int p, double date)
{
    auto what = std::string(names[p]) + " mjd2000=" + chk::d2s(date);
    auto desc = [&] { return what; };
    c.trans();
    c.eval();
    c.state(chk::mixd(chk::mix(22, static_cast<unsigned>(p)), date));
    auto m = model(p, Q(date));
    // rounding: the angles are differences of degrees up to |L|
    double T = std::fabs((date - 0.5) / 36525.);
    double dM = 20 * EPS * (std::fabs(tab[p][3]) + std::fabs(tab[p][9]) * T + std::fabs(tab[p][4]) + 2 * 180) * M_PI / 180 + 60 * EPS;
    double e = dd(m.kep[1]), a = dd(m.kep[0]);
    double df = dM * (1 + e) * (1 + e) / std::pow(1 - e * e, 1.5) + 60 * EPS;
    E6<Q> kf = m.kep;
    kf[5] = m.f;
    auto s = kep2ic<Q>(kf, MUS);
    RV g;
    auto k = thrown([&] { g = b.eph(date); });
    if (k != "") {
        c.fail("eph_raises|" + what, k);
        return;
    }
    double R = 0, V = 0, er = 0, ev = 0;
    for (size_t i = 0; i < 3; ++i) {
        R += dd(s[i] * s[i]);
        V += dd(s[i + 3] * s[i + 3]);
        er += std::pow(dd(Q(g[0][i]) - s[i]), 2);
        ev += std::pow(dd(Q(g[1][i]) - s[i + 3]), 2);
    }
    R = std::sqrt(R);
    V = std::sqrt(V);
    // every angle contributes at most R * error
    double tol = 4 * df + 200 * EPS;
    c.within("position", std::sqrt(er), 2 * a * tol, desc);
    c.within("velocity", std::sqrt(ev), 4 * V * tol, desc);
    auto gp = pl.eph(date);
    if (std::memcmp(&g, &gp, sizeof g) != 0) c.fail("planet_differs|" + what, "");
    auto gv = pl.eph_v(std::vector<double>{date});
    if (std::memcmp(gv.data(), &g, sizeof g) != 0) c.fail("eph_v|" + what, "");
    for (int t = 0; t < 4; ++t) {
        A6 y{};
        auto kk = thrown([&] { y = b.elements(date, TY[t]); });
        if (kk != "") {
            c.fail(std::string("elements_raise_") + ty_name(t) + "|" + what, kk);
            continue;
        }
        E6<Q> w = t == 0 ? kf : t == 1 ? m.kep : kep2eqn<Q>(kf, t == 2 ? 1 : -1);
        double hk = t >= 2 ? std::max({1., std::fabs(dd(w[3])), std::fabs(dd(w[4]))}) : 1.;
        for (int j = 0; j < 6; ++j) {
            double sc = j == 0 ? std::fabs(dd(w[0])) * 100 * EPS
                        : (t < 2 && j == 1) ? 50 * EPS
                        : (t >= 2 && (j == 3 || j == 4)) ? hk * hk * 100 * EPS * (t == 3 ? 4 : 1) + hk * 40 * EPS
                                            : 3 * tol;
            double err = is_angle(ty_rep(t), j) ? std::fabs(dd(wrapq(Q(y[static_cast<size_t>(j)]) - w[static_cast<size_t>(j)]))) : std::fabs(dd(Q(y[static_cast<size_t>(j)]) - w[static_cast<size_t>(j)]));
            if (t == 3 && (j == 3 || j == 4)) { // cot(i/2): relative error of i
                if (hk > 1e6) continue;
            }
            c.within((std::string("elements_") + ty_name(t) + "_" + std::to_string(j)).c_str(), err, sc, desc);
        }
        c.trace();
    }
    A6 y{}, z{};
    if (thrown([&] { y = pl.elements(date); z = b.elements(date); }) != "" || std::memcmp(&y, &z, sizeof y) != 0) c.fail("planet_elements|" + what, "");
}
} // namespace

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool th = run.thorough();
    const double lo = -73048., hi = 18263.;
    // the whole range in steps of one day (quick) or one hour
    const int per = th ? 24 : 1, step = 1;
    const std::uint64_t blocks = 1427; // of 64 days
    run.section("range", 8 * blocks, [&](std::uint64_t i, Case &c) {
        int p = static_cast<int>(i % 8);
        jpl_lp b(names[p]);
        kep3::planet pl(b);
        for (int k = 0; k < 64 * per; k += step) {
            double date = lo + static_cast<double>(i / 8) * 64 + static_cast<double>(k) / per + (th ? 0.01 : 0.3);
            if (date >= hi) break;
            at(c, b, pl, p, date);
        }
    });
    run.section("limits", 8, [&](std::uint64_t i, Case &c) {
        int p = static_cast<int>(i);
        jpl_lp b(names[p]);
        kep3::planet pl(b);
        double x = std::nextafter(lo, 0.), z = std::nextafter(hi, 0.);
        for (int k = 0; k < 2000; ++k) {
            at(c, b, pl, p, x);
            at(c, b, pl, p, z);
            x = std::nextafter(x, 0.);
            z = std::nextafter(z, 0.);
        }
        for (double d : {0., -0., 0.5, 1e-300, 0.49999999999, 18262.999, -73047.999}) at(c, b, pl, p, d);
        std::vector<double> out{lo - 1, hi + 1, -1e5, 1e5, 1e9, -1e9, 1e300, -1e300, HUGE_VAL, -HUGE_VAL};
        double u = lo, v = hi;
        for (int k = 0; k < 2000; ++k) {
            out.push_back(u);
            out.push_back(v);
            u = std::nextafter(u, -1e9);
            v = std::nextafter(v, 1e9);
        }
        for (double d : out) {
            c.trans();
            c.eval();
            c.state(chk::mixd(chk::mix(23, i), d));
            auto what = std::string(names[p]) + " mjd2000=" + chk::d2s(d);
            if (thrown([&] { (void)b.eph(d); }) != "std") c.fail("date_accepted_eph|" + what, "");
            if (thrown([&] { (void)pl.eph(d); }) != "std") c.fail("date_accepted_planet_eph|" + what, "");
            for (auto t : TY)
                if (thrown([&] { (void)b.elements(d, t); }) != "std") c.fail("date_accepted_elements|" + what, "");
        }
        if (thrown([&] { (void)b.elements(0., kep3::elements_type::POSVEL); }) != "std") c.fail("posvel|" + std::string(names[p]), "not rejected");
        // physical properties
        auto near2 = [&](const char *n, double got, double want, double r) {
            if (!(std::fabs(got / want - 1) < r)) c.fail(std::string(n) + "|" + names[p], chk::d2s(got));
        };
        near2("mu_self", b.get_mu_self(), phys[p][0], 0.002);
        near2("radius", b.get_radius(), phys[p][1], 0.03);
        near2("mu_central_body", b.get_mu_central_body(), dd(MUS), 1e-12);
        if (!(b.get_safe_radius() >= b.get_radius() && b.get_safe_radius() < 20 * b.get_radius())) c.fail(std::string("safe_radius|") + names[p], chk::d2s(b.get_safe_radius()));
        if (pl.get_mu_self() != b.get_mu_self() || pl.get_radius() != b.get_radius() || pl.get_safe_radius() != b.get_safe_radius() || pl.get_mu_central_body() != b.get_mu_central_body() || pl.get_name() != b.get_name())
            c.fail(std::string("planet_getters|") + names[p], "");
        if (b.get_name().find(names[p]) == std::string::npos) c.fail(std::string("name|") + names[p], b.get_name());
        // default derived period (the osculating orbit)
        double P = pl.period(0.), want = 2 * M_PI * std::sqrt(std::pow(dd(model(p, 0).kep[0]), 3) / dd(MUS));
        near2("period", P, want, 1e-12);
    });
    // names: every capitalisation of every name, and every wrong name next to one
    run.section("names", 8, [&](std::uint64_t i, Case &c) {
        std::string n = names[i];
        auto want = jpl_lp(n).eph(1234.5);
        auto wname = jpl_lp(n).get_name();
        for (unsigned m = 0; m < (1u << n.size()); ++m) {
            std::string s = n;
            for (size_t k = 0; k < n.size(); ++k)
                if (m >> k & 1) s[k] = static_cast<char>(std::toupper(s[k]));
            c.trans();
            c.eval();
            c.state(chk::mix(chk::mix(24, i), m));
            if (thrown([&] {
                    jpl_lp b(s);
                    if (b.eph(1234.5) != want || b.get_name() != wname) c.fail("capitalisation|" + s, "another body");
                }) != "")
                c.fail("capitalisation_rejected|" + s, "");
        }
        std::vector<std::string> wrong{"", "pluto", "Pluto", "moon", "sun", "ceres", "earth-moon", "emb", n + " ", " " + n, n + "s", n + n, n + "\n", n + std::string(1, '\0'), std::string(1, '\0') + n};
        for (size_t k = 0; k < n.size(); ++k) {
            wrong.push_back(n.substr(0, k) + n.substr(k + 1)); // one letter missing
            wrong.push_back(n.substr(0, k));
            for (char ch = 'a'; ch <= 'z'; ++ch)
                if (ch != n[k]) {
                    auto s = n;
                    s[k] = ch;
                    wrong.push_back(s);
                }
        }
        for (auto &s : wrong) {
            c.trans();
            c.eval();
            if (thrown([&] { jpl_lp b(s); }) != "std") c.fail("name_accepted|" + s, "");
        }
    });
    run.section("default", 1, [&](std::uint64_t, Case &c) {
        c.trans();
        c.eval();
        if (jpl_lp().eph(77.) != jpl_lp("earth").eph(77.)) c.fail("default|jpl_lp()", "is not the earth");
    });
    return run.go();
}
