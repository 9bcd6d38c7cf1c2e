// Direct access to the C++ library, used as the oracle for the Python bindings: the same compiled sources, no bindings.
#include <array>
#include <cmath>
#include <map>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

#include <kep3/core_astro/constants.hpp>
#include <kep3/core_astro/convert_anomalies.hpp>
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/core_astro/flyby.hpp>
#include <kep3/core_astro/ic2eq2ic.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/epoch.hpp>
#include <kep3/lambert_problem.hpp>
#include <kep3/leg/sims_flanagan.hpp>
#include <kep3/leg/sims_flanagan_hf.hpp>
#include <kep3/planet.hpp>
#include <kep3/stark_problem.hpp>
#include <kep3/udpla/jpl_lp.hpp>
#include <kep3/udpla/keplerian.hpp>
#include <kep3/udpla/vsop2013.hpp>

using V = std::vector<double>;
using A3 = std::array<double, 3>;
using A6 = std::array<double, 6>;
using RV = std::array<A3, 2>;

struct In {
    const double *p;
    const double *e;
    double d()
    {
        if (p >= e) throw std::out_of_range("capi: short input");
        return *p++;
    }
    template <std::size_t N>
    std::array<double, N> a()
    {
        std::array<double, N> r;
        for (auto &x : r) x = d();
        return r;
    }
    RV rv()
    {
        RV r;
        r[0] = a<3>();
        r[1] = a<3>();
        return r;
    }
    V v()
    {
        V r(static_cast<std::size_t>(d()));
        for (auto &x : r) x = d();
        return r;
    }
    std::string s()
    {
        std::string r(static_cast<std::size_t>(d()), ' ');
        for (auto &x : r) x = static_cast<char>(d());
        return r;
    }
    // A planet: kind 0 jpl(name), 1 keplerian elements, 2 keplerian posvel, 3 null, 4 vsop(name, thresh)
    kep3::planet pl()
    {
        switch (static_cast<int>(d())) {
            case 0:
                return kep3::planet{kep3::udpla::jpl_lp(s())};
            case 1: {
                kep3::epoch ep(d());
                auto el = a<6>();
                double mu = d();
                auto nm = s();
                auto ap = a<3>();
                auto ty = static_cast<kep3::elements_type>(static_cast<int>(d()));
                return kep3::planet{kep3::udpla::keplerian(ep, el, mu, nm, ap, ty)};
            }
            case 2: {
                kep3::epoch ep(d());
                auto pv = rv();
                double mu = d();
                auto nm = s();
                auto ap = a<3>();
                return kep3::planet{kep3::udpla::keplerian(ep, pv, mu, nm, ap)};
            }
            case 4: {
                auto nm = s();
                return kep3::planet{kep3::udpla::vsop2013(nm, d())};
            }
            default:
                return kep3::planet{};
        }
    }
    template <typename L>
    L leg()
    {
        auto rvs = rv();
        double ms = d();
        auto th = v();
        auto rvf = rv();
        double mf = d(), tof = d(), mt = d(), isp = d(), mu = d(), cut = d();
        return L(rvs, ms, th, rvf, mf, tof, mt, isp, mu, cut);
    }
};
static void put(V &o, double x) { o.push_back(x); }
template <std::size_t N>
static void put(V &o, const std::array<double, N> &x) { o.insert(o.end(), x.begin(), x.end()); }
static void put(V &o, const V &x) { o.insert(o.end(), x.begin(), x.end()); }
static void put(V &o, const RV &x)
{
    put(o, x[0]);
    put(o, x[1]);
}
static void put(V &o, const std::string &s)
{
    for (char c : s) o.push_back(static_cast<unsigned char>(c));
}

template <typename L>
static void leg_all(In &i, V &o)
{
    auto l = i.leg<L>();
    put(o, static_cast<double>(l.get_nseg()));
    put(o, static_cast<double>(l.get_nseg_fwd()));
    put(o, static_cast<double>(l.get_nseg_bck()));
    put(o, l.get_rvs());
    put(o, l.get_ms());
    put(o, l.get_throttles());
    put(o, l.get_rvf());
    put(o, l.get_mf());
    put(o, l.get_tof());
    put(o, l.get_max_thrust());
    put(o, l.get_isp());
    put(o, l.get_mu());
    put(o, l.get_cut());
    put(o, l.compute_mismatch_constraints());
    put(o, l.compute_throttle_constraints());
    put(o, l.compute_tc_grad());
    auto g = l.compute_mc_grad();
    put(o, std::get<0>(g));
    put(o, std::get<1>(g));
    put(o, std::get<2>(g));
}

static const std::map<std::string, std::function<void(In &, V &)>> &table()
{
    static std::map<std::string, std::function<void(In &, V &)>> t;
    if (!t.empty()) return t;
#define AN(n)                                                                                                          \
    t[#n] = [](In &i, V &o) {                                                                                          \
        double a = i.d(), b = i.d();                                                                                   \
        put(o, kep3::n(a, b));                                                                                         \
    };
    AN(m2e) AN(e2m) AN(m2f) AN(f2m) AN(e2f) AN(f2e) AN(n2h) AN(h2n) AN(n2f) AN(f2n) AN(h2f) AN(f2h) AN(zeta2f) AN(f2zeta)
#undef AN
    t["ic2par"] = [](In &i, V &o) {
        auto a = i.rv();
        put(o, kep3::ic2par(a, i.d()));
    };
    t["par2ic"] = [](In &i, V &o) {
        auto a = i.a<6>();
        put(o, kep3::par2ic(a, i.d()));
    };
    t["ic2eq"] = [](In &i, V &o) {
        auto a = i.rv();
        double mu = i.d();
        put(o, kep3::ic2eq(a, mu, i.d() != 0));
    };
    t["eq2ic"] = [](In &i, V &o) {
        auto a = i.a<6>();
        double mu = i.d();
        put(o, kep3::eq2ic(a, mu, i.d() != 0));
    };
    t["par2eq"] = [](In &i, V &o) {
        auto a = i.a<6>();
        put(o, kep3::par2eq(a, i.d() != 0));
    };
    t["eq2par"] = [](In &i, V &o) {
        auto a = i.a<6>();
        put(o, kep3::eq2par(a, i.d() != 0));
    };
    t["prop"] = [](In &i, V &o) {
        auto rv = i.rv();
        double dt = i.d(), mu = i.d();
        bool st = i.d() != 0;
        auto r = kep3::propagate_lagrangian(rv, dt, mu, st);
        put(o, r.first);
        if (r.second) put(o, *r.second);
    };
    t["lambert"] = [](In &i, V &o) {
        auto r0 = i.a<3>();
        auto r1 = i.a<3>();
        double tof = i.d(), mu = i.d();
        bool cw = i.d() != 0;
        auto mr = static_cast<unsigned>(i.d());
        kep3::lambert_problem l(r0, r1, tof, mu, cw, mr);
        put(o, static_cast<double>(l.get_Nmax()));
        put(o, l.get_r0());
        put(o, l.get_r1());
        put(o, l.get_tof());
        put(o, l.get_mu());
        for (auto &v : l.get_v0()) put(o, v);
        for (auto &v : l.get_v1()) put(o, v);
        put(o, l.get_x());
        for (auto n : l.get_iters()) put(o, static_cast<double>(n));
    };
    t["fb_con"] = [](In &i, V &o) {
        auto a = i.a<3>();
        auto b = i.a<3>();
        double mu = i.d();
        auto r = kep3::fb_con(a, b, mu, i.d());
        put(o, r.first);
        put(o, r.second);
    };
    t["fb_dv"] = [](In &i, V &o) {
        auto a = i.a<3>();
        auto b = i.a<3>();
        double mu = i.d();
        put(o, kep3::fb_dv(a, b, mu, i.d()));
    };
    t["fb_con_pl"] = [](In &i, V &o) {
        auto a = i.a<3>();
        auto b = i.a<3>();
        auto r = kep3::fb_con(a, b, i.pl());
        put(o, r.first);
        put(o, r.second);
    };
    t["fb_dv_pl"] = [](In &i, V &o) {
        auto a = i.a<3>();
        auto b = i.a<3>();
        put(o, kep3::fb_dv(a, b, i.pl()));
    };
    t["fb_vout"] = [](In &i, V &o) {
        auto a = i.a<3>();
        auto b = i.a<3>();
        double rp = i.d(), beta = i.d();
        put(o, kep3::fb_vout(a, b, rp, beta, i.d()));
    };
    auto ep = [](V &o, const kep3::epoch &e) {
        put(o, e.mjd2000());
        put(o, e.mjd());
        put(o, e.jd());
    };
    t["epoch"] = [ep](In &i, V &o) {
        double w = i.d();
        ep(o, kep3::epoch(w, static_cast<kep3::epoch::julian_type>(static_cast<int>(i.d()))));
    };
    t["epoch_ymd"] = [ep](In &i, V &o) {
        auto a = i.a<7>();
        ep(o, kep3::epoch(static_cast<int>(a[0]), static_cast<unsigned>(a[1]), static_cast<unsigned>(a[2]), static_cast<int>(a[3]),
                          static_cast<int>(a[4]), static_cast<int>(a[5]), 0, static_cast<int>(a[6])));
    };
    t["epoch_str"] = [ep](In &i, V &o) { ep(o, kep3::epoch(i.s())); };
    t["epoch_repr"] = [](In &i, V &o) {
        std::ostringstream s;
        double w = i.d();
        s << kep3::epoch(w, static_cast<kep3::epoch::julian_type>(static_cast<int>(i.d())));
        put(o, s.str());
    };
    t["eph"] = [](In &i, V &o) {
        auto p = i.pl();
        put(o, p.eph(i.d()));
    };
    t["eph_ep"] = [](In &i, V &o) {
        auto p = i.pl();
        put(o, p.eph(kep3::epoch(i.d())));
    };
    t["eph_v"] = [](In &i, V &o) {
        auto p = i.pl();
        put(o, p.eph_v(i.v()));
    };
    t["period"] = [](In &i, V &o) {
        auto p = i.pl();
        put(o, p.period(i.d()));
    };
    t["period_ep"] = [](In &i, V &o) {
        auto p = i.pl();
        put(o, p.period(kep3::epoch(i.d())));
    };
    t["elements"] = [](In &i, V &o) {
        auto p = i.pl();
        double w = i.d();
        put(o, p.elements(w, static_cast<kep3::elements_type>(static_cast<int>(i.d()))));
    };
    t["elements_ep"] = [](In &i, V &o) {
        auto p = i.pl();
        kep3::epoch w(i.d());
        put(o, p.elements(w, static_cast<kep3::elements_type>(static_cast<int>(i.d()))));
    };
    t["pl_num"] = [](In &i, V &o) {
        auto p = i.pl();
        put(o, p.get_mu_central_body());
        put(o, p.get_mu_self());
        put(o, p.get_radius());
        put(o, p.get_safe_radius());
    };
    t["pl_name"] = [](In &i, V &o) { put(o, i.pl().get_name()); };
    t["pl_info"] = [](In &i, V &o) { put(o, i.pl().get_extra_info()); };
    t["pl_repr"] = [](In &i, V &o) {
        std::ostringstream s;
        s << i.pl();
        put(o, s.str());
    };
    t["sf"] = leg_all<kep3::leg::sims_flanagan>;
    t["hf"] = leg_all<kep3::leg::sims_flanagan_hf>;
    t["hf_hist"] = [](In &i, V &o) {
        auto l = i.leg<kep3::leg::sims_flanagan_hf>();
        for (auto &v : l.get_state_history(static_cast<unsigned>(i.d()))) put(o, v);
    };
    t["hf_more"] = [](In &i, V &o) {
        auto l = i.leg<kep3::leg::sims_flanagan_hf>();
        put(o, l.get_rvms());
        put(o, l.get_rvmf());
        put(o, l.get_tol());
    };
    t["stark"] = [](In &i, V &o) {
        double mu = i.d(), ve = i.d(), tol = i.d();
        kep3::stark_problem s(mu, ve, tol);
        auto x = i.a<7>();
        auto u = i.a<3>();
        put(o, s.propagate(x, u, i.d()));
    };
    t["stark_var"] = [](In &i, V &o) {
        double mu = i.d(), ve = i.d(), tol = i.d();
        kep3::stark_problem s(mu, ve, tol);
        auto x = i.a<7>();
        auto u = i.a<3>();
        auto r = s.propagate_var(x, u, i.d());
        put(o, std::get<0>(r));
        put(o, std::get<1>(r));
        put(o, std::get<2>(r));
    };
    return t;
}

// Returns the number of values written, -1 if the library threw, -2 if the name is unknown or the buffer too small.
extern "C" __attribute__((visibility("default"))) long capi(const char *name, const double *in, long n, double *out, long max)
{
    auto it = table().find(name);
    if (it == table().end()) return -2;
    V o;
    try {
        In i{in, in + n};
        it->second(i, o);
    } catch (const std::exception &) {
        return -1;
    }
    if (static_cast<long>(o.size()) > max) return -2;
    std::copy(o.begin(), o.end(), out);
    return static_cast<long>(o.size());
}
