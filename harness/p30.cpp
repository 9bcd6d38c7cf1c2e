// P30: VSOP2013 bodies. Evaluations over names, thresholds and dates; all words of operations on two bodies and a planet;
// two or three threads creating and asking bodies under the controlled scheduler.
#include "explore.hpp"
#include "quad.hpp"

#include <functional>
#include <map>
#include <optional>
#include <set>
#include <sstream>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>

#include <heyoka/llvm_state.hpp>
#include <heyoka/model/vsop2013.hpp>

#include <kep3/planet.hpp>
#include <kep3/udpla/vsop2013.hpp>

using chk::Case;
using ref::Q;
using kep3::planet;
using V = kep3::udpla::vsop2013;
using RV = std::array<std::array<double, 3>, 2>;

namespace
{
const char *NAMES[9] = {"mercury", "venus", "earth_moon", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto"};
const std::vector<double> &thresholds()
{
    static const std::vector<double> t{1e-5, 0., 1e-9, 1e-3, .02, .5, 1.2, 3., 1e300, 5e-324, -0., 1e-5 * (1 + 4e-16), 1.37e-2};
    return t;
}
// the truncated solution
struct Truth {
    double v[6], err[6];
};
Truth truth(unsigned pl, double th, double date)
{
    Truth r{};
    const Q t = (Q(date) - Q(1) / 2) / Q(365250);
    for (unsigned c = 0; c < 6; ++c) {
        Q s = 0;
        double e = 0;
        for (unsigned j = 0; j < heyoka::shim::vsop_terms; ++j) {
            const auto k = heyoka::shim::vsop(pl + 1, c, j);
            if (std::fabs(k.amp) < th) continue;
            s += Q(k.amp) * cosq(Q(k.phase) + Q(k.freq) * t);
            e += k.amp * (8 + 8 * std::fabs(k.freq * static_cast<double>(t)) + 4 * k.phase);
        }
        const double unit = c < 3 ? kep3::AU : kep3::AU / kep3::DAY2SEC;
        r.v[c] = static_cast<double>(s * Q(unit));
        r.err[c] = e * unit * 2.3e-16;
    }
    return r;
}
bool right(const RV &x, unsigned pl, double th, double date, double slack = 1)
{
    const auto w = truth(pl, th, date);
    for (unsigned c = 0; c < 6; ++c)
        if (!(std::fabs(x[c / 3][c % 3] - w.v[c]) <= slack * w.err[c])) return false;
    return true;
}
std::string lower(std::string s)
{
    for (auto &c : s) c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
    return s;
}

// ---- words over two bodies and a planet
struct Content { // what a variable holds; pl < 0: moved from
    int pl = 0;
    double th = 1e-5;
};
struct Vars {
    std::optional<V> a, b;
    planet p;
    Content ca, cb, cp;
    bool p_is = false;
};
struct Step {
    std::string name;
    std::function<void(Vars &)> f;
};
std::vector<Step> steps()
{
    std::vector<Step> s;
    for (int pl : {4, 1, 2})
        for (double th : {1e-5, .5}) {
            if (pl == 2 && th == .5) continue;
            s.push_back({std::string("a=") + NAMES[pl] + "/" + chk::d2s(th), [=](Vars &v) {
                             v.a = V(NAMES[pl], th);
                             v.ca = {pl, th};
                         }});
        }
    s.push_back({"b=default", [](Vars &v) {
                     v.b = V();
                     v.cb = {};
                 }});
    s.push_back({"b=a", [](Vars &v) {
                     if (v.ca.pl < 0) return;
                     *v.b = *v.a;
                     v.cb = v.ca;
                 }});
    s.push_back({"b=copy of a", [](Vars &v) {
                     if (v.ca.pl < 0) return;
                     V q(*v.a);
                     v.b.reset();
                     v.b.emplace(q);
                     v.cb = v.ca;
                 }});
    s.push_back({"a=a", [](Vars &v) {
                     if (v.ca.pl < 0) return;
                     const auto &r = *v.a;
                     *v.a = r;
                 }});
    s.push_back({"b=move a", [](Vars &v) {
                     *v.b = std::move(*v.a);
                     v.cb = v.ca;
                     v.ca.pl = -1;
                 }});
    s.push_back({"swap", [](Vars &v) {
                     std::swap(*v.a, *v.b);
                     std::swap(v.ca, v.cb);
                 }});
    s.push_back({"p=planet(a)", [](Vars &v) {
                     if (v.ca.pl < 0) return;
                     v.p = planet(*v.a);
                     v.cp = v.ca;
                     v.p_is = true;
                 }});
    s.push_back({"p=planet(move b)", [](Vars &v) {
                     if (v.cb.pl < 0) return;
                     v.p = planet(std::move(*v.b));
                     v.cp = v.cb;
                     v.cb.pl = -1;
                     v.p_is = true;
                 }});
    s.push_back({"p=copy of p", [](Vars &v) {
                     planet q(v.p);
                     v.p = planet();
                     v.p = q;
                 }});
    s.push_back({"archive a to b", [](Vars &v) {
                     if (v.ca.pl < 0) return;
                     std::stringstream ss;
                     {
                         boost::archive::binary_oarchive ar(ss);
                         ar << *v.a;
                     }
                     boost::archive::binary_iarchive ar(ss);
                     ar >> *v.b;
                     v.cb = v.ca;
                 }});
    s.push_back({"archive p to p", [](Vars &v) {
                     if (!v.p_is) return;
                     std::stringstream ss;
                     {
                         boost::archive::binary_oarchive ar(ss);
                         ar << v.p;
                     }
                     v.p = planet();
                     boost::archive::binary_iarchive ar(ss);
                     ar >> v.p;
                 }});
    s.push_back({"rejected name", [](Vars &v) {
                     try {
                         *v.b = V("vulcan", .5);
                         v.cb = {-2, 0};
                     } catch (const std::invalid_argument &) {
                     }
                 }});
    s.push_back({"rejected threshold", [](Vars &v) {
                     try {
                         *v.a = V("jupiter", -.5);
                         v.ca = {-2, 0};
                     } catch (const std::invalid_argument &) {
                     }
                 }});
    return s;
}
std::string check(const Vars &v, std::set<std::pair<int, double>> &keys)
{
    const auto body = [&](const char *n, const auto &x, const Content &c) -> std::string {
        if (c.pl == -1) return "";
        if (c.pl < -1) return std::string(n) + ": an invalid body was created";
        keys.insert({c.pl, c.th});
        for (double d : {0., -7123.25})
            if (!right(x.eph(d), static_cast<unsigned>(c.pl), c.th, d)) return std::string(n) + ": ephemerides of another body, threshold or date";
        if (x.get_name().find(NAMES[c.pl]) == std::string::npos) return std::string(n) + ": name " + x.get_name();
        return "";
    };
    auto s = body("a", *v.a, v.ca);
    if (s.empty()) s = body("b", *v.b, v.cb);
    if (s.empty() && v.p_is) s = body("p", v.p, v.cp);
    return s;
}

// ---- threads
struct Let { // kind 0: create and ask, 1: ask a shared body, 2: copy a shared body and ask, 3: rejected
    int kind, pl;
    double th;
    [[nodiscard]] std::string name() const { return (kind == 0 ? "create " : kind == 1 ? "ask shared " : kind == 2 ? "copy shared " : "rejected ") + std::string(NAMES[pl]) + "/" + chk::d2s(th); }
};
using Word = std::vector<Let>;
bool answer(const Let &l, const V *shared, int shared_pl, double shared_th)
{
    try {
        if (l.kind == 0) {
            V v(NAMES[l.pl], l.th);
            return right(v.eph(321.5), static_cast<unsigned>(l.pl), l.th, 321.5) && right(v.eph(-1e4), static_cast<unsigned>(l.pl), l.th, -1e4) && v.get_name().find(NAMES[l.pl]) != std::string::npos;
        }
        if (l.kind == 1) return right(shared->eph(77.), static_cast<unsigned>(shared_pl), shared_th, 77.) && right(shared->eph(-78.), static_cast<unsigned>(shared_pl), shared_th, -78.);
        if (l.kind == 2) {
            V v(*shared);
            return right(v.eph(77.), static_cast<unsigned>(shared_pl), shared_th, 77.);
        }
    } catch (const std::exception &) {
        return false;
    }
    try {
        V v(NAMES[l.pl], -1.);
    } catch (const std::invalid_argument &) {
        return true;
    } catch (...) {
    }
    return false;
}
struct Area {
    sched::Result r;
    char msg[300];
};
void concurrent(Case &c, Area *area, const std::vector<Word> &w, int warm, int bound, std::uint64_t cap)
{
    std::string key;
    for (auto &x : w) {
        key += key.empty() ? "" : " | ";
        for (auto &l : x) key += (&l == &x[0] ? "" : ", ") + l.name();
    }
    key += " (" + std::to_string(warm) + " compiled before)";
    explore::Explorer e{c, w.size(), area->r, bound, cap, {}};
    e.run_one = [&](const sched::Plan &p) {
        area->msg[0] = 0;
        const auto x = explore::in_child(
            [&] {
                const int spl = 6;
                const double sth = .02;
                std::set<std::pair<int, double>> keys;
                std::optional<V> shared;
                bool use = false;
                for (auto &x : w)
                    for (auto &l : x) {
                        use = use || l.kind == 1 || l.kind == 2;
                        if (l.kind == 0) keys.insert({l.pl, l.th});
                    }
                if (use) {
                    shared.emplace(NAMES[spl], sth);
                    keys.insert({spl, sth});
                }
                if (warm) {
                    V v("venus", 1e-5);
                    keys.insert({1, 1e-5});
                }
                if (warm > 1) {
                    V v("mars", 1e-5);
                    keys.insert({3, 1e-5});
                }
                std::vector<std::array<int, 4>> ok(w.size(), {1, 1, 1, 1});
                std::vector<std::function<void()>> b;
                for (std::size_t t = 0; t < w.size(); ++t)
                    b.push_back([&, t] {
                        for (std::size_t i = 0; i < w[t].size(); ++i) ok[t][i] = answer(w[t][i], shared ? &*shared : nullptr, spl, sth);
                    });
                sched::run(b, p, area->r);
                if (area->r.deadlock) _exit(9);
                std::string s;
                if (area->r.nrace) s = "data-race: " + std::string(area->r.race[0].w1 ? "write" : "read") + " and " + (area->r.race[0].w2 ? "write" : "read");
                for (std::size_t t = 0; t < w.size(); ++t)
                    for (std::size_t i = 0; i < w[t].size(); ++i)
                        if (!ok[t][i] && s.empty()) s = "wrong-answer: thread " + std::to_string(t) + " " + w[t][i].name();
                if (s.empty())
                    for (auto &k : keys) { // all of them are there and right afterwards
                        V v(NAMES[k.first], k.second);
                        if (!right(v.eph(5.), static_cast<unsigned>(k.first), k.second, 5.)) s = std::string("wrong-afterwards: ") + NAMES[k.first];
                    }
                if (s.empty() && heyoka::shim::n_compiled != keys.size()) s = "not-compiled-once: " + std::to_string(heyoka::shim::n_compiled) + " compilations for " + std::to_string(keys.size()) + " bodies";
                std::strncpy(area->msg, s.c_str(), sizeof area->msg - 1);
            },
            30);
        if (x == explore::HANG) {
            c.count("schedules_not_completed");
            return true;
        }
        if (x != explore::OK) {
            c.fail((x == explore::CRASH ? "crash|" : "deadlock|") + key, explore::plan_text(p));
            return false;
        }
        if (area->msg[0]) {
            const std::string s = area->msg;
            c.fail(s.substr(0, s.find(':')) + "|" + key, s + "; schedule " + explore::plan_text(p));
            return false;
        }
        return true;
    };
    e.all();
    if (c.want_sample) c.sample(key + ": " + std::to_string(e.runs) + " schedules, " + std::to_string(area->r.points) + " scheduling points, " + std::to_string(area->r.accesses) + " accesses");
}
} // namespace

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool T = run.thorough();
    // ---- all words of operations, each from an empty cache (in a process of its own)
    static const auto S = steps();
    const int L = T ? 5 : 4;
    const auto ns = S.size();
    run.section(
        "words", ns * ns,
        [=](std::uint64_t k, Case &c) {
            auto *area = explore::shared_area<Area>();
            const auto x = explore::in_child(
                [&] {
                    // one process for the words with these two first operations: the first word from an empty cache, the others
                    // with what the former ones left there
                    std::vector<std::size_t> idx(static_cast<std::size_t>(L), 0);
                    idx[0] = k / ns;
                    idx[1] = k % ns;
                    std::set<std::pair<int, double>> keys;
                    for (;;) {
                        Vars v;
                        v.a.emplace("saturn", .02);
                        v.b.emplace();
                        v.ca = {5, .02};
                        v.cb = {};
                        keys.insert({5, .02});
                        keys.insert({0, 1e-5});
                        std::string h, bad;
                        for (auto i : idx) {
                            h += (h.empty() ? "" : "; ") + S[i].name;
                            try {
                                S[i].f(v);
                                bad = check(v, keys);
                                if (v.ca.pl >= 0) keys.insert({v.ca.pl, v.ca.th});
                            } catch (const std::exception &e) {
                                bad = std::string("exception: ") + e.what();
                            }
                            if (!bad.empty()) break;
                        }
                        if (bad.empty() && heyoka::shim::n_compiled > keys.size()) bad = "not-compiled-once: " + std::to_string(heyoka::shim::n_compiled);
                        if (!bad.empty()) {
                            std::snprintf(area->msg, sizeof area->msg, "%s|%s", bad.c_str(), h.c_str());
                            break;
                        }
                        area->r.points++;
                        std::size_t q = static_cast<std::size_t>(L) - 1;
                        while (q >= 2 && ++idx[q] == ns) idx[q--] = 0;
                        if (q < 2) break;
                    }
                },
                300);
            const auto n = area->r.points;
            c.trans(n * static_cast<std::uint64_t>(L));
            c.trace(n);
            c.eval(n);
            for (std::uint64_t i = 0; i < n; ++i) c.state(chk::mix(k, i));
            if (x != explore::OK) c.fail("crash|words beginning with " + S[k / ns].name + "; " + S[k % ns].name, "");
            else if (area->msg[0]) {
                const std::string s = area->msg;
                c.fail("wrong-body|" + s.substr(s.find('|') + 1), s);
            }
            munmap(area, sizeof(Area));
        },
        400);
    // ---- thresholds next to the amplitude of a term, created one after another in one process, upwards and downwards
    run.section(
        "near_thresholds", 9 * 6 * 2,
        [&](std::uint64_t k, Case &c) {
            const auto pl = static_cast<unsigned>(k / 12), co = static_cast<unsigned>(k / 2 % 6);
            auto *area = explore::shared_area<Area>();
            area->msg[0] = 0;
            area->r.points = 0;
            const auto x = explore::in_child(
                [&] {
                    std::vector<double> th;
                    for (unsigned j = 0; j < heyoka::shim::vsop_terms; ++j) {
                        const double a = heyoka::shim::vsop(pl + 1, co, j).amp;
                        for (double q : {0., 2.3e-16, 1e-12, 1e-10, 3e-8, 1e-6, 1e-4})
                            for (int g : {-1, 1}) th.push_back(a * (1 + g * q));
                        for (double q : {1e-15, 1e-12, 1e-10})
                            for (int g : {-1, 1}) th.push_back(std::max(0., a + g * q));
                    }
                    std::sort(th.begin(), th.end());
                    th.erase(std::unique(th.begin(), th.end()), th.end());
                    if (k % 2) std::reverse(th.begin(), th.end());
                    for (double t : th) {
                        area->r.points++;
                        if (!right(V(NAMES[pl], t).eph(777.), pl, t, 777.)) {
                            std::snprintf(area->msg, sizeof area->msg, "%s threshold %.17g %s", NAMES[pl], t, k % 2 ? "downwards" : "upwards");
                            return;
                        }
                    }
                },
                300);
            const auto n = area->r.points;
            c.trans(n);
            c.trace(n);
            c.eval(n);
            for (std::uint64_t i = 0; i < n; ++i) c.state(chk::mix(k, i));
            const std::string s = area->msg;
            if (!s.empty()) c.fail("wrong-threshold|" + s, s);
            else if (x != explore::OK) c.fail(std::string("crash|near thresholds of ") + NAMES[pl], "");
            munmap(area, sizeof(Area));
        },
        400);
    // ---- threads
    const auto t0 = std::chrono::steady_clock::now();
    const auto late = [&](Case &c, double s) {
        if (T || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < s) return false;
        c.count("cases_left_out_for_lack_of_time");
        return true;
    };
    std::vector<Let> A{{0, 1, 1e-5}, {0, 3, 1e-5}, {0, 1, .5}, {1, 6, .02}, {2, 6, .02}, {3, 1, 0}};
    std::vector<Word> W;
    for (auto &l : A) W.push_back({l});
    for (auto &l : A)
        for (auto &m : A)
            if (l.kind == 0 || m.kind == 0) W.push_back({l, m});
    const auto nw = W.size();
    run.section(
        "pairs", nw * (nw + 1) / 2 * 3,
        [&](std::uint64_t k, Case &c) {
            if (late(c, 400)) return;
            std::uint64_t i = 0, r = k / 3;
            while (r >= nw - i) r -= nw - i, ++i;
            auto *a = explore::shared_area<Area>();
            const bool single = W[i].size() == 1 && W[i + r].size() == 1;
            concurrent(c, a, {W[i], W[i + r]}, static_cast<int>(k % 3), T ? (single ? 3 : 2) : (single ? 2 : 1), T ? 30000 : 3000);
            munmap(a, sizeof(Area));
        },
        800);
    const std::uint64_t na = A.size(), triples = na * (na + 1) * (na + 2) / 6;
    run.section(
        "triples", triples * 3,
        [&](std::uint64_t k, Case &c) {
            if (late(c, 550)) return;
            std::uint64_t q = k / 3;
            std::vector<Word> w;
            for (std::size_t x = 0; x < na && w.empty(); ++x)
                for (std::size_t y = x; y < na && w.empty(); ++y)
                    for (std::size_t z = y; z < na; ++z)
                        if (q-- == 0) {
                            w = {{A[x]}, {A[y]}, {A[z]}};
                            break;
                        }
            auto *a = explore::shared_area<Area>();
            concurrent(c, a, w, static_cast<int>(k % 3), T ? 2 : 1, T ? 30000 : 1000);
            munmap(a, sizeof(Area));
        },
        800);
    // The following use the library in this process: the sections before fork from it untouched.
    // ---- every body at many dates, directly and through planet
    const auto nth = thresholds().size();
    run.section("ephemerides", 9 * nth, [&](std::uint64_t k, Case &c) {
        const auto pl = static_cast<unsigned>(k % 9);
        const double th = thresholds()[k / 9];
        const auto key = [&](double d) { return std::string(NAMES[pl]) + " threshold " + chk::d2s(th) + " date " + chk::d2s(d); };
        try {
            const V v(NAMES[pl], th);
            const planet p(v);
            const auto nm = v.get_name();
            if (nm.find(NAMES[pl]) == std::string::npos || p.get_name() != nm) c.fail("name|" + key(0), nm);
            std::vector<double> dates{0., -0., .5, 1e-9, -1e-9, .4999999999, 123., 365250.5, -365249.5};
            for (int i = 0; i < (T ? 20000 : 2000); ++i) {
                dates.push_back(.5 + (i % 2 ? -1 : 1) * std::ldexp(1 + (i * 37 % 101) / 101., i % 60 - 40));
                dates.push_back(-36525. + i * 36.525 * (T ? .1 : 1) + .125);
            }
            c.state(chk::mix(k, 1));
            for (double d : dates) {
                const auto x = v.eph(d), y = p.eph(d);
                c.trans(2);
                c.eval();
                c.trace();
                const auto w = truth(pl, th, d);
                for (unsigned i = 0; i < 6; ++i) c.within("ephemerides", std::fabs(x[i / 3][i % 3] - w.v[i]), w.err[i], [&] { return key(d) + " entry " + std::to_string(i); });
                if (x != y) c.fail("planet-differs|" + key(d), "");
            }
            const auto ev = p.eph_v(std::vector<double>{1., -2., 1.});
            for (int i = 0; i < 3; ++i) {
                const auto x = v.eph(i == 1 ? -2. : 1.);
                for (std::size_t j = 0; j < 6; ++j)
                    if (ev[static_cast<std::size_t>(6 * i) + j] != x[j / 3][j % 3]) c.fail("eph_v|" + key(i), "");
            }
        } catch (const std::exception &e) {
            c.fail("rejected|" + key(0), e.what());
        }
    });
    // ---- names: all capitalisations (or all of the first letters), all strings one edit away
    run.section("names", 9, [&](std::uint64_t k, Case &c) {
        const std::string n = NAMES[k];
        for (unsigned m = 0; m < (1u << std::min<std::size_t>(n.size(), 8)); ++m) {
            auto s = n;
            for (std::size_t i = 0; i < s.size(); ++i)
                if (m >> (i % 8) & 1) s[i] = static_cast<char>(std::toupper(static_cast<unsigned char>(s[i])));
            c.trans();
            c.eval();
            c.trace();
            c.state(chk::mix(k, m));
            try {
                if (!right(V(s, .02).eph(9.), static_cast<unsigned>(k), .02, 9.)) c.fail("wrong-body|" + s, "");
            } catch (const std::exception &e) {
                c.fail("name-rejected|" + s, e.what());
            }
        }
        std::set<std::string> bad{"", " ", "earth", "moon", "sun", "goofy", "earth-moon", "earthmoon", std::string(n) + '\0', n + n};
        for (std::size_t i = 0; i <= n.size(); ++i) {
            for (char ch : std::string("abcdefghijklmnopqrstuvwxyz_ 0")) {
                auto s = n;
                s.insert(i, 1, ch);
                bad.insert(s);
                if (i < n.size()) {
                    s = n;
                    s[i] = ch;
                    bad.insert(s);
                }
            }
            if (i < n.size()) {
                auto s = n;
                s.erase(i, 1);
                bad.insert(s);
            }
        }
        for (auto &s : bad) {
            if (std::any_of(std::begin(NAMES), std::end(NAMES), [&](auto &x) { return s == x; })) continue;
            c.trans();
            c.eval();
            c.trace();
            bool threw = false;
            try {
                V v(s);
            } catch (const std::invalid_argument &) {
                threw = true;
            }
            if (!threw) c.fail("invalid-name-accepted|" + s, "");
        }
        for (double th : {-1., -5e-324, -1e-9, -1e300, std::nan(""), HUGE_VAL, -HUGE_VAL}) {
            bool threw = false;
            c.trans();
            c.eval();
            c.trace();
            try {
                V v(n, th);
            } catch (const std::invalid_argument &) {
                threw = true;
            }
            if (!threw) c.fail("invalid-threshold-accepted|" + n + " " + chk::d2s(th), "");
        }
    });
    return run.go();
}
