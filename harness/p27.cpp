// P27: the caches of integrators. Sequential histories of requests, and two or three real threads making requests under
// the controlled scheduler, from empty and warm caches.
#include "explore.hpp"

#include <functional>
#include <map>
#include <set>

#include <kep3/leg/sims_flanagan_hf.hpp>
#include <kep3/stark_problem.hpp>
#include <kep3/ta/cr3bp.hpp>
#include <kep3/ta/stark.hpp>

using chk::Case;
using TA = heyoka::taylor_adaptive<double>;

namespace
{
constexpr int NK = 4;
const char *KN[NK] = {"stark", "stark_var", "cr3bp", "cr3bp_var"};
const std::vector<double> &tols()
{
    static const std::vector<double> t{1e-9, 1e-4, 1e-16, -1.};
    return t;
}
const TA &get(int kind, double tol)
{
    switch (kind) {
        case 0:
            return kep3::ta::get_ta_stark(tol);
        case 1:
            return kep3::ta::get_ta_stark_var(tol);
        case 2:
            return kep3::ta::get_ta_cr3bp(tol);
        default:
            return kep3::ta::get_ta_cr3bp_var(tol);
    }
}
std::size_t dim(int kind)
{
    switch (kind) {
        case 0:
            return kep3::ta::get_ta_stark_cache_dim();
        case 1:
            return kep3::ta::get_ta_stark_var_cache_dim();
        case 2:
            return kep3::ta::get_ta_cr3bp_cache_dim();
        default:
            return kep3::ta::get_ta_cr3bp_var_cache_dim();
    }
}
std::uint64_t digest(const std::vector<double> &v)
{
    std::uint64_t h = v.size();
    for (double x : v) h = chk::mixd(h, x);
    return h;
}
// all there is to see of an integrator, a propagation of a copy included
std::uint64_t look(const TA &ta, bool fly)
{
    std::uint64_t h = digest(ta.get_state());
    h = chk::mix(h, digest(ta.get_pars()));
    h = chk::mixd(chk::mixd(h, ta.get_tol()), ta.get_time());
    if (fly) {
        TA c(ta);
        for (std::size_t i = 0; i < c.get_pars().size(); ++i) c.get_pars_data()[i] = .3 + .1 * static_cast<double>(i);
        (void)c.propagate_until(.05);
        h = chk::mix(h, digest(c.get_state()));
    }
    return h;
}
// a request: kind 0..3 get, 4..7 size of cache (kind - 4), 8 Stark problem, 9 high-fidelity leg
struct Let {
    int kind, tol;
    std::string name() const
    {
        if (kind < NK) return std::string("get ") + KN[kind] + " " + chk::d2s(tols()[static_cast<std::size_t>(tol)]);
        if (kind < 2 * NK) return std::string("size ") + KN[kind - NK];
        return std::string(kind == 8 ? "stark_problem " : "leg ") + chk::d2s(tols()[static_cast<std::size_t>(tol)]);
    }
};
using Word = std::vector<Let>;
std::string text(const Word &w)
{
    std::string s;
    for (auto &l : w) s += (s.empty() ? "" : ", ") + l.name();
    return s;
}
struct Ans {
    std::uint64_t value = 0; // digest, or size
    const TA *at = nullptr;
    bool threw = false;
};
constexpr int MAXW = 3;
struct Answers {
    Ans a[MAXW];
    int n = 0;
};
void answer(const Let &l, Ans &r, bool fly)
{
    const double tol = tols()[static_cast<std::size_t>(l.tol)];
    try {
        if (l.kind < NK) {
            const TA &t = get(l.kind, tol);
            r.at = &t;
            r.value = look(t, fly);
        } else if (l.kind < 2 * NK) {
            r.value = dim(l.kind - NK);
        } else if (l.kind == 8) {
            kep3::stark_problem s(1.1, 2.3, tol);
            const auto y = s.propagate({1., .1, -.2, .05, .9, .2, 3.}, {.1, -.2, .05}, .1);
            r.value = digest({y.begin(), y.end()});
        } else {
            kep3::leg::sims_flanagan_hf s({1., .1, -.2, .05, .9, .2, 3.}, {.1, .2, .3}, {1., .2, -.2, .05, .9, .2, 2.}, .1, .3, 1., 1.1, .5, tol);
            const auto y = s.compute_mismatch_constraints();
            r.value = digest({y.begin(), y.end()});
        }
    } catch (const std::invalid_argument &) {
        r.threw = true;
    } catch (const std::domain_error &) {
        r.threw = true;
    }
}
std::map<std::pair<int, int>, Ans> g_ref[2]; // made alone, [fly]

// the model: the set of tolerances in each cache
using Model = std::array<std::set<int>, NK>;
void model_step(const Let &l, Model &m)
{
    if (l.tol == 3) return; // rejected
    if (l.kind < NK) m[static_cast<std::size_t>(l.kind)].insert(l.tol);
    if (l.kind >= 2 * NK) m[0].insert(l.tol), m[1].insert(l.tol);
}
// can the sizes reported be those of some order of the requests?
bool explains(const std::vector<Word> &w, const std::vector<Answers> &a, const Model &m, std::array<int, 3> pos)
{
    bool end = true;
    for (std::size_t t = 0; t < w.size(); ++t) {
        if (pos[t] == static_cast<int>(w[t].size())) continue;
        end = false;
        const auto i = static_cast<std::size_t>(pos[t]);
        const auto &l = w[t][i];
        if (l.kind >= NK && l.kind < 2 * NK && a[t].a[i].value != m[static_cast<std::size_t>(l.kind - NK)].size()) continue;
        Model n = m;
        model_step(l, n);
        auto q = pos;
        q[t]++;
        if (explains(w, a, n, q)) return true;
        // a leg or Stark problem makes two requests
        if (l.kind >= 2 * NK && l.tol != 3) {
            // the plain cache first, the other later: only matters to sizes asked in between
            for (std::size_t first : {0u, 1u}) {
                Model h = m;
                h[first].insert(l.tol);
                for (std::size_t t2 = 0; t2 < w.size(); ++t2)
                    if (t2 != t && pos[t2] < static_cast<int>(w[t2].size())) {
                        const auto i2 = static_cast<std::size_t>(pos[t2]);
                        const auto &l2 = w[t2][i2];
                        if (l2.kind >= NK && l2.kind < 2 * NK && a[t2].a[i2].value == h[static_cast<std::size_t>(l2.kind - NK)].size()) {
                            auto q2 = q;
                            q2[t2]++;
                            Model n2 = h;
                            model_step(l, n2);
                            if (explains(w, a, n2, q2)) return true;
                        }
                    }
            }
        }
    }
    return end;
}
// judged after all requests were answered
std::string judge(const std::vector<Word> &w, const std::vector<Answers> &a, const Model &warm, const std::map<std::pair<int, int>, const TA *> &before, bool fly)
{
    Model fin = warm;
    std::map<std::pair<int, int>, const TA *> at = before;
    for (std::size_t t = 0; t < w.size(); ++t)
        for (std::size_t i = 0; i < w[t].size(); ++i) {
            const auto &l = w[t][i];
            const auto &r = a[t].a[i];
            model_step(l, fin);
            if (l.kind >= NK && l.kind < 2 * NK) continue;
            const auto &ref = g_ref[fly].at({l.kind, l.tol});
            if (r.threw != ref.threw) return std::string(r.threw ? "valid" : "invalid") + "-tolerance-" + (r.threw ? "rejected" : "accepted") + ": " + l.name();
            if (r.threw) continue;
            if (r.value != ref.value) return "not-the-integrator-asked-for: " + l.name();
            if (l.kind < NK) {
                const auto x = at.emplace(std::pair{l.kind, l.tol}, r.at);
                if (x.first->second != r.at) return "another-prototype-for-the-same-tolerance: " + l.name();
            }
        }
    if (!explains(w, a, warm, {0, 0, 0})) return "sizes-of-no-order-of-the-requests";
    for (int k = 0; k < NK; ++k)
        if (dim(k) != fin[static_cast<std::size_t>(k)].size()) return std::string("final-size: ") + KN[k] + " " + std::to_string(dim(k)) + " instead of " + std::to_string(fin[static_cast<std::size_t>(k)].size());
    for (auto &x : at) {
        const TA &t = get(x.first.first, tols()[static_cast<std::size_t>(x.first.second)]);
        if (&t != x.second) return std::string("the-prototype-moved: ") + KN[x.first.first];
        if (look(t, fly) != g_ref[fly].at(x.first).value) return std::string("the-prototype-changed: ") + KN[x.first.first];
    }
    std::map<std::tuple<unsigned, bool, double>, int> built;
    for (unsigned i = 0; i < std::min(heyoka::shim::n_built, 256u); ++i) {
        const auto &b = heyoka::shim::built_log[i];
        if (b.n0 > 1 && ++built[{b.n0, b.variational, b.tol}] > 1) return "built-twice: " + std::to_string(b.n0) + (b.variational ? " variational " : " plain ") + chk::d2s(b.tol);
    }
    return "";
}
struct Area {
    sched::Result r;
    char msg[300];
};
// the warm caches: 0 empty, 1 the first tolerance everywhere, 2 the first two
std::map<std::pair<int, int>, const TA *> warm_up(int n, Model &m, const std::set<int> &kinds)
{
    std::map<std::pair<int, int>, const TA *> r;
    for (int k : kinds)
        for (int t = 0; t < n; ++t) {
            r[{k, t}] = &get(k, tols()[static_cast<std::size_t>(t)]);
            m[static_cast<std::size_t>(k)].insert(t);
        }
    return r;
}
std::set<int> touched(const std::vector<Word> &w)
{
    std::set<int> s;
    for (auto &x : w)
        for (auto &l : x) {
            if (l.kind >= 2 * NK) s.insert(0), s.insert(1);
            else s.insert(l.kind % NK);
        }
    return s;
}
void concurrent(Case &c, Area *area, const std::vector<Word> &w, int warm, int bound, std::uint64_t cap)
{
    std::string key;
    for (auto &x : w) key += (key.empty() ? "" : " | ") + text(x);
    key += " (" + std::to_string(warm) + " tolerances cached)";
    explore::Explorer e{c, w.size(), area->r, bound, cap, {}};
    e.run_one = [&](const sched::Plan &p) {
        area->msg[0] = 0;
        const auto x = explore::in_child(
            [&] {
                Model m;
                const auto before = warm_up(warm, m, touched(w));
                std::vector<Answers> a(w.size());
                std::vector<std::function<void()>> b;
                for (std::size_t t = 0; t < w.size(); ++t)
                    b.push_back([&, t] {
                        for (std::size_t i = 0; i < w[t].size(); ++i) answer(w[t][i], a[t].a[i], false);
                    });
                sched::run(b, p, area->r);
                if (area->r.deadlock) _exit(9);
                std::string s;
                if (area->r.nrace)
                    s = "data-race: " + std::string(area->r.race[0].w1 ? "write" : "read") + " and " + (area->r.race[0].w2 ? "write" : "read");
                else
                    s = judge(w, a, m, before, false);
                std::strncpy(area->msg, s.c_str(), sizeof area->msg - 1);
            },
            30);
        if (x == explore::HANG) {
            c.count("schedules_not_completed");
            return true;
        }
        if (x != explore::OK) {
            c.fail((x == explore::CRASH ? "crash|" : "deadlock|") + key, explore::plan_text(p));
            return false;
        }
        if (area->msg[0]) {
            const std::string s = area->msg;
            c.fail(s.substr(0, s.find(':')) + "|" + key, s + "; schedule " + explore::plan_text(p));
            return false;
        }
        return true;
    };
    e.all();
    if (c.want_sample) c.sample(key + ": " + std::to_string(e.runs) + " schedules, " + std::to_string(area->r.points) + " scheduling points, " + std::to_string(area->r.accesses) + " accesses");
}
} // namespace

int main(int argc, char **argv)
{
    chk::Run run(argc, argv);
    const bool T = run.thorough();
    {
        struct R {
            Ans a[2];
        };
        auto *a = explore::shared_area<R>();
        for (int k = 0; k < 10; ++k) {
            if (k >= NK && k < 2 * NK) continue;
            for (int t = 0; t < 4; ++t) {
                *a = R{};
                if (explore::in_child(
                        [&] {
                            for (int f = 0; f < 2; ++f) answer({k, t}, a->a[f], f);
                        },
                        30)
                    != explore::OK)
                    run.info["alone"] = "\"crash\"";
                for (int f = 0; f < 2; ++f) g_ref[f][{k, t}] = a->a[f];
            }
        }
        munmap(a, sizeof(R));
    }
    run.section("alone", 1, [&](std::uint64_t, Case &c) {
        // every request made first in a process gives an integrator of its kind, with its tolerance
        for (int k = 0; k < NK; ++k)
            for (int t = 0; t < 4; ++t) {
                c.eval();
                const auto &r = g_ref[1].at({k, t});
                if (r.threw != (t == 3) || (!r.threw && !r.at)) c.fail(std::string("request-alone|") + KN[k] + " " + chk::d2s(tols()[static_cast<std::size_t>(t)]), "no answer");
                if (t == 3 || r.threw) continue;
                auto *bad = explore::shared_area<int>();
                const auto e = explore::in_child(
                    [&] {
                        const TA &x = get(k, tols()[static_cast<std::size_t>(t)]);
                        const std::size_t n0 = k < 2 ? 7 : 6, want = n0 + (k == 1 ? 70 : k == 3 ? 36 : 0);
                        *bad = x.get_tol() != tols()[static_cast<std::size_t>(t)] || x.get_state().size() != want || x.get_time() != 0;
                    },
                    30);
                if (e != explore::OK || *bad) c.fail(std::string("not-the-integrator-asked-for|") + KN[k] + " " + chk::d2s(tols()[static_cast<std::size_t>(t)]), "tolerance, size or time");
                munmap(bad, sizeof(int));
            }
    });

    // --- histories of one thread: all words of requests; copies are changed in between, many other tolerances requested
    {
        std::vector<Let> A;
        for (int k = 0; k < NK; ++k) {
            for (int t = 0; t < 4; ++t) A.push_back({k, t});
            A.push_back({NK + k, 0});
        }
        A.push_back({8, 0});
        A.push_back({9, 1});
        static const auto letters = A;
        const int L = T ? 5 : 3;
        const auto n = letters.size();
        run.section(
            "histories", n * n,
            [=](std::uint64_t k, Case &c) {
                auto *area = explore::shared_area<Area>();
                // each word in its own process
                std::vector<std::size_t> idx(static_cast<std::size_t>(L), 0);
                idx[0] = k / n;
                idx[1] = k % n;
                for (;;) {
                    Word w;
                    for (auto i : idx) w.push_back(letters[i]);
                    c.trans(static_cast<std::uint64_t>(L));
                    c.trace();
                    c.eval();
                    std::uint64_t h = 11;
                    for (auto i : idx) h = chk::mix(h, i);
                    c.state(h);
                    area->msg[0] = 0;
                    const auto x = explore::in_child(
                        [&] {
                            std::vector<std::pair<Let, Ans>> log;
                            Model m;
                            std::string bad;
                            std::map<std::pair<int, int>, const TA *> at;
                            for (std::size_t i = 0; i < w.size() && bad.empty(); ++i) {
                                Ans r;
                                answer(w[i], r, false);
                                model_step(w[i], m);
                                if (w[i].kind >= NK && w[i].kind < 2 * NK) {
                                    if (r.value != m[static_cast<std::size_t>(w[i].kind - NK)].size()) bad = "size-of-cache: " + w[i].name() + " is " + std::to_string(r.value);
                                    continue;
                                }
                                const auto &ref = g_ref[0].at({w[i].kind, w[i].tol});
                                if (r.threw != ref.threw || (!r.threw && r.value != ref.value)) bad = "not-the-integrator-asked-for: " + w[i].name();
                                if (r.at) {
                                    if (!at.emplace(std::pair{w[i].kind, w[i].tol}, r.at).second && at[{w[i].kind, w[i].tol}] != r.at) bad = "the-prototype-moved: " + w[i].name();
                                    TA copy(*r.at); // changing a copy does not reach the prototype
                                    copy.set_time(5.);
                                    copy.get_state_data()[0] = -3.;
                                    if (!copy.get_pars().empty()) copy.get_pars_data()[0] = 77.;
                                    (void)copy.propagate_until(5.01);
                                }
                            }
                            if (bad.empty()) {
                                std::vector<Answers> a;
                                bad = judge({}, a, m, at, false);
                            }
                            if (bad.empty() && idx[0] < idx[1]) { // many more tolerances: the first prototypes stay where and what they are
                                for (int t = 0; t < 40; ++t)
                                    for (int q : {0, 2}) (void)get(q, 1e-3 / (t + 2.5));
                                for (auto &y : at)
                                    if (&get(y.first.first, tols()[static_cast<std::size_t>(y.first.second)]) != y.second || look(*y.second, true) != g_ref[1].at(y.first).value) bad = "the-prototype-moved: after many requests";
                                for (int t = 0; t < 40; ++t)
                                    if (get(0, 1e-3 / (t + 2.5)).get_tol() != 1e-3 / (t + 2.5)) bad = "not-the-integrator-asked-for: one of many tolerances";
                                for (double x : {std::nextafter(1e-9, 0.), std::nextafter(1e-9, 1.), 1.0000001e-9, 1.01e-4}) // very close tolerances are different ones
                                    for (int q = 0; q < NK; ++q) {
                                        const auto before = dim(q);
                                        if (get(q, x).get_tol() != x) bad = "not-the-integrator-asked-for: a close tolerance";
                                        if (dim(q) != before + 1) bad = "size-of-cache: a close tolerance";
                                    }
                                if (dim(0) != m[0].size() + 44 || dim(2) != m[2].size() + 44) bad = "size-of-cache: after many requests";
                            }
                            std::strncpy(area->msg, bad.c_str(), sizeof area->msg - 1);
                        },
                        30);
                    if (x != explore::OK) c.fail("crash|" + text(w), "");
                    else if (area->msg[0]) {
                        const std::string s = area->msg;
                        c.fail(s.substr(0, s.find(':')) + "|" + text(w), s);
                    }
                    int q = L - 1;
                    while (q >= 2 && ++idx[static_cast<std::size_t>(q)] == n) idx[static_cast<std::size_t>(q--)] = 0;
                    if (q < 2) break;
                }
                munmap(area, sizeof(Area));
            },
            800);
    }

    const auto t0 = std::chrono::steady_clock::now();
    const auto late = [&](Case &c, double s) {
        if (T || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < s) return false;
        c.count("cases_left_out_for_lack_of_time");
        return true;
    };
    // --- two threads: every pair of requests
    std::vector<Let> A;
    for (int k = 0; k < NK; ++k) {
        A.push_back({k, 0});
        A.push_back({k, 1});
        A.push_back({k, 3});
        A.push_back({NK + k, 0});
    }
    A.push_back({8, 0});
    A.push_back({8, 1});
    A.push_back({9, 0});
    const auto n = A.size();
    run.section(
        "pairs_of_requests", n * (n + 1) / 2 * 3,
        [&](std::uint64_t k, Case &c) {
            if (late(c, 300)) return;
            const int warm = static_cast<int>(k % 3);
            std::uint64_t i = 0, r = k / 3;
            while (r >= n - i) r -= n - i, ++i;
            auto *a = explore::shared_area<Area>();
            const bool objects = A[i].kind >= 2 * NK || A[i + r].kind >= 2 * NK; // make two requests and more
            concurrent(c, a, {{A[i]}, {A[i + r]}}, warm, T ? 3 : objects ? 1 : 2, T ? 60000 : 3000);
            munmap(a, sizeof(Area));
        },
        800);
    // --- two threads: words of two requests to one cache
    std::vector<Word> W;
    for (int x = 0; x < 4; ++x)
        for (int y = 0; y < 4; ++y) {
            const auto L = [](int z) { return z < 2 ? Let{0, z} : z == 2 ? Let{0, 3} : Let{NK, 0}; };
            W.push_back({L(x), L(y)});
        }
    const auto nw = W.size();
    run.section(
        "pairs_of_words", nw * (nw + 1) / 2 * 2 * NK,
        [&](std::uint64_t k, Case &c) {
            if (late(c, 450)) return;
            const int kind = static_cast<int>(k % NK), warm = static_cast<int>(k / NK % 2);
            std::uint64_t i = 0, r = k / NK / 2;
            while (r >= nw - i) r -= nw - i, ++i;
            auto w1 = W[i], w2 = W[i + r];
            for (auto *w : {&w1, &w2})
                for (auto &l : *w) l.kind += kind;
            auto *a = explore::shared_area<Area>();
            concurrent(c, a, {w1, w2}, warm, T ? 3 : 1, T ? 60000 : 3000);
            munmap(a, sizeof(Area));
        },
        800);
    // --- three threads: one request each to one cache, or problem objects
    std::vector<Let> B{{0, 0}, {0, 1}, {0, 3}, {NK, 0}};
    const std::uint64_t nb = 4, triples = nb * (nb + 1) * (nb + 2) / 6;
    run.section(
        "triples", triples * NK * 2,
        [&](std::uint64_t k, Case &c) {
            if (late(c, 600)) return;
            const int kind = static_cast<int>(k % NK), warm = static_cast<int>(k / NK % 2);
            std::uint64_t q = k / NK / 2;
            std::vector<Word> w;
            for (std::size_t x = 0; x < nb && w.empty(); ++x)
                for (std::size_t y = x; y < nb && w.empty(); ++y)
                    for (std::size_t z = y; z < nb; ++z)
                        if (q-- == 0) {
                            for (auto i : {x, y, z}) {
                                auto l = B[i];
                                l.kind += kind;
                                w.push_back({l});
                            }
                            break;
                        }
            auto *a = explore::shared_area<Area>();
            concurrent(c, a, w, warm, T ? 2 : 1, T ? 60000 : 3000);
            munmap(a, sizeof(Area));
        },
        800);
    return run.go();
}
