// Stand-in for the part of heyoka that kep3 uses (heyoka is not installed): symbolic expressions, first-order
// variational systems and an adaptive Taylor integrator with heyoka's interface, ordering of the variational state and
// error control. Interpreted instead of compiled; plain double precision, time in extended precision.
#ifndef HEYOKA_SHIM_HPP
#define HEYOKA_SHIM_HPP

#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

#include <boost/serialization/access.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/string.hpp>

namespace heyoka
{
enum class taylor_outcome : std::int64_t { success = -4294967297, step_limit, time_limit, err_nf_state, cb_stop };

namespace detail
{
enum class op : std::uint8_t { num, par, var, add, sub, mul, div, neg, pow, sqrt, select, eq, cos };
struct node {
    op o = op::num;
    double v = 0;      // number, exponent of pow
    unsigned idx = 0;  // parameter
    std::string name;  // variable
    std::vector<std::shared_ptr<const node>> a;
};
using ptr = std::shared_ptr<const node>;
} // namespace detail

class expression
{
public:
    detail::ptr p;
    expression() : expression(0.) {}
    expression(double x) // NOLINT
    {
        auto n = std::make_shared<detail::node>();
        n->v = x;
        p = std::move(n);
    }
    explicit expression(std::string s)
    {
        auto n = std::make_shared<detail::node>();
        n->o = detail::op::var;
        n->name = std::move(s);
        p = std::move(n);
    }
    explicit expression(detail::ptr q) : p(std::move(q)) {}
    [[nodiscard]] bool is(double x) const
    {
        return p->o == detail::op::num && p->v == x;
    }
};

namespace detail
{
inline expression make(op o, std::vector<ptr> a, double v = 0)
{
    auto n = std::make_shared<node>();
    n->o = o;
    n->v = v;
    n->a = std::move(a);
    return expression(ptr(std::move(n)));
}
inline bool num(const expression &e)
{
    return e.p->o == op::num;
}
struct par_maker {
    expression operator[](unsigned i) const
    {
        auto n = std::make_shared<node>();
        n->o = op::par;
        n->idx = i;
        return expression(ptr(std::move(n)));
    }
};
} // namespace detail

inline constexpr detail::par_maker par{};

inline expression operator+(const expression &a, const expression &b)
{
    if (detail::num(a) && detail::num(b)) return a.p->v + b.p->v;
    if (a.is(0)) return b;
    if (b.is(0)) return a;
    return detail::make(detail::op::add, {a.p, b.p});
}
inline expression operator-(const expression &a)
{
    if (detail::num(a)) return -a.p->v;
    return detail::make(detail::op::neg, {a.p});
}
inline expression operator-(const expression &a, const expression &b)
{
    if (detail::num(a) && detail::num(b)) return a.p->v - b.p->v;
    if (a.is(0)) return -b;
    if (b.is(0)) return a;
    return detail::make(detail::op::sub, {a.p, b.p});
}
inline expression operator*(const expression &a, const expression &b)
{
    if (detail::num(a) && detail::num(b)) return a.p->v * b.p->v;
    if (a.is(0) || b.is(0)) return 0.;
    if (a.is(1)) return b;
    if (b.is(1)) return a;
    return detail::make(detail::op::mul, {a.p, b.p});
}
inline expression operator/(const expression &a, const expression &b)
{
    if (detail::num(a) && detail::num(b)) return a.p->v / b.p->v;
    if (b.is(1)) return a;
    if (a.is(0)) return 0.;
    return detail::make(detail::op::div, {a.p, b.p});
}
inline expression operator+(const expression &a)
{
    return a;
}
inline expression &operator+=(expression &a, const expression &b)
{
    return a = a + b;
}
inline expression &operator-=(expression &a, const expression &b)
{
    return a = a - b;
}
inline expression &operator*=(expression &a, const expression &b)
{
    return a = a * b;
}
inline expression &operator/=(expression &a, const expression &b)
{
    return a = a / b;
}
inline expression sqrt(const expression &a)
{
    return detail::make(detail::op::sqrt, {a.p});
}
inline expression cos(const expression &a) // compiled functions only (llvm_state.hpp)
{
    return detail::make(detail::op::cos, {a.p});
}
inline expression pow(const expression &a, double e)
{
    if (e == 0) return 1.;
    if (e == 1) return a;
    if (e == .5) return sqrt(a);
    return detail::make(detail::op::pow, {a.p}, e);
}
inline expression pow(const expression &a, const expression &e)
{
    if (!detail::num(e)) throw std::invalid_argument("heyoka stand-in: only constant exponents");
    return pow(a, e.p->v);
}
inline expression square(const expression &a)
{
    return pow(a, 2.);
}
inline expression sum(const std::vector<expression> &v)
{
    expression r = 0.;
    for (const auto &e : v) r = r + e;
    return r;
}
inline expression eq(const expression &a, const expression &b)
{
    return detail::make(detail::op::eq, {a.p, b.p});
}
inline expression select(const expression &c, const expression &t, const expression &f)
{
    return detail::make(detail::op::select, {c.p, t.p, f.p});
}

template <typename... S>
auto make_vars(const S &...s)
{
    if constexpr (sizeof...(S) == 1)
        return expression(std::string(s...));
    else
        return std::array<expression, sizeof...(S)>{expression(std::string(s))...};
}

namespace detail
{
struct prime_wrapper {
    expression v;
    std::pair<expression, expression> operator=(const expression &e) && // NOLINT
    {
        return {v, e};
    }
};
} // namespace detail
inline detail::prime_wrapper prime(const expression &v)
{
    if (v.p->o != detail::op::var) throw std::invalid_argument("prime() needs a variable");
    return {v};
}

// Symbolic first derivatives.
namespace detail
{
inline expression diff(const ptr &e, const node &x, std::map<const node *, expression> &memo)
{
    if (auto it = memo.find(e.get()); it != memo.end()) return it->second;
    const auto A = [&](std::size_t i) { return expression(e->a[i]); };
    const auto D = [&](std::size_t i) { return diff(e->a[i], x, memo); };
    expression r = 0.;
    switch (e->o) {
        case op::num:
        case op::eq:
            break;
        case op::cos:
            throw std::invalid_argument("heyoka stand-in: no derivative of cos");
        case op::par:
            r = x.o == op::par && x.idx == e->idx ? 1. : 0.;
            break;
        case op::var:
            r = x.o == op::var && x.name == e->name ? 1. : 0.;
            break;
        case op::add:
            r = D(0) + D(1);
            break;
        case op::sub:
            r = D(0) - D(1);
            break;
        case op::neg:
            r = -D(0);
            break;
        case op::mul:
            r = D(0) * A(1) + A(0) * D(1);
            break;
        case op::div:
            r = (D(0) - expression(e) * D(1)) / A(1);
            break;
        case op::pow:
            r = expression(e->v) * pow(A(0), e->v - 1) * D(0);
            break;
        case op::sqrt:
            r = D(0) / (expression(2.) * expression(e));
            break;
        case op::select: // as in heyoka: the branch not taken is multiplied by zero
            r = select(A(0), 1., 0.) * D(1) + select(A(0), 0., 1.) * D(2);
            break;
    }
    memo.emplace(e.get(), r);
    return r;
}
} // namespace detail
inline expression diff(const expression &e, const expression &x)
{
    std::map<const detail::node *, expression> memo;
    return detail::diff(e.p, *x.p, memo);
}

namespace shim // for the checks only: building touches fresh memory only, a scheduler need not look
{
extern "C" __attribute__((weak)) void heyoka_shim_quiet(int on);
struct quiet {
    quiet()
    {
        if (heyoka_shim_quiet) heyoka_shim_quiet(1);
    }
    ~quiet()
    {
        if (heyoka_shim_quiet) heyoka_shim_quiet(0);
    }
};
} // namespace shim

enum class var_args : unsigned { vars = 1, params = 2, time = 4, all = 7 };

class var_ode_sys
{
public:
    std::vector<std::pair<expression, expression>> sys;
    std::vector<expression> vargs;
    std::size_t n0 = 0;
    unsigned order = 1;

    explicit var_ode_sys(const std::vector<std::pair<expression, expression>> &s, const std::vector<expression> &args, unsigned ord = 1)
        : vargs(args), n0(s.size()), order(ord)
    {
        const shim::quiet q;
        if (ord != 1) throw std::invalid_argument("heyoka stand-in: only first order variations");
        sys = s;
        std::vector<std::vector<expression>> phi(n0);
        for (std::size_t i = 0; i < n0; ++i)
            for (std::size_t j = 0; j < args.size(); ++j) phi[i].emplace_back("\xe2\x88\x82" + std::to_string(i) + "_" + std::to_string(j));
        for (std::size_t i = 0; i < n0; ++i) {
            std::vector<expression> J;
            for (std::size_t k = 0; k < n0; ++k) J.push_back(diff(s[i].second, s[k].first));
            for (std::size_t j = 0; j < args.size(); ++j) {
                expression r = args[j].p->o == detail::op::par ? diff(s[i].second, args[j]) : expression(0.);
                for (std::size_t k = 0; k < n0; ++k) r = r + J[k] * phi[k][j];
                sys.emplace_back(phi[i][j], r);
            }
        }
    }
};

namespace kw
{
namespace shim
{
struct tol_a {
    double x;
};
struct pars_a {
    std::vector<double> x;
};
struct time_a {
    double x;
};
template <int I>
struct ignored_a {
};
struct tol_t {
    constexpr tol_a operator=(double x) const // NOLINT
    {
        return {x};
    }
};
struct time_t_ {
    constexpr time_a operator=(double x) const // NOLINT
    {
        return {x};
    }
};
struct pars_t {
    pars_a operator=(std::initializer_list<double> x) const // NOLINT
    {
        return {std::vector<double>(x)};
    }
    pars_a operator=(std::vector<double> x) const // NOLINT
    {
        return {std::move(x)};
    }
};
template <int I>
struct ignored_t {
    template <typename T>
    constexpr ignored_a<I> operator=(const T &) const // NOLINT
    {
        return {};
    }
};
} // namespace shim
inline constexpr shim::tol_t tol{};
inline constexpr shim::pars_t pars{};
inline constexpr shim::time_t_ time{};
inline constexpr shim::ignored_t<0> compact_mode{};
inline constexpr shim::ignored_t<1> high_accuracy{};
inline constexpr shim::ignored_t<2> parallel_mode{};
inline constexpr shim::ignored_t<3> opt_level{};
inline constexpr shim::ignored_t<4> fast_math{};
} // namespace kw

namespace shim // for the checks only: integrators built (not copied) in this process
{
struct built {
    std::uint32_t n0;
    bool variational;
    double tol;
};
inline std::uint32_t n_built = 0;
inline built built_log[256];
__attribute__((noinline, no_sanitize("thread"))) inline void note_build(std::uint32_t n0, bool variational, double tol)
{
    const auto n = __atomic_fetch_add(&n_built, 1u, __ATOMIC_RELAXED);
    if (n < 256) built_log[n] = {n0, variational, tol};
}
} // namespace shim

template <typename T>
class taylor_adaptive
{
    static_assert(std::is_same_v<T, double>);
    using op = detail::op;
    struct ins { // one instruction of the Taylor decomposition
        op o = op::num;
        bool constant = false;
        double v = 0;
        unsigned idx = 0, a = 0, b = 0, c = 0;
        template <class Ar>
        void serialize(Ar &ar, unsigned)
        {
            ar & o;
            ar & constant;
            ar & v;
            ar & idx;
            ar & a;
            ar & b;
            ar & c;
        }
    };
    std::vector<ins> tape;
    std::vector<unsigned> rhs; // instruction holding the right-hand side of each state variable
    std::vector<double> state, m_pars, vargs_dummy;
    long double t = 0;
    double m_tol = 0;
    std::uint32_t order = 0, n0 = 0, nvargs = 0;
    std::vector<std::string> vargs_names;
    bool variational = false;
    std::vector<double> tc; // Taylor coefficients of the last step, [instruction][order + 1]

    friend class boost::serialization::access;
    template <class Ar>
    void serialize(Ar &ar, unsigned)
    {
        double hi = static_cast<double>(t), lo = static_cast<double>(t - hi);
        ar & tape;
        ar & rhs;
        ar & state;
        ar & m_pars;
        ar & hi;
        ar & lo;
        ar & m_tol;
        ar & order;
        ar & n0;
        ar & nvargs;
        ar & vargs_names;
        ar & variational;
        t = static_cast<long double>(hi) + lo;
    }

    struct builder {
        taylor_adaptive &ta;
        std::map<std::string, unsigned> vars;
        std::map<const detail::node *, unsigned> memo;
        std::map<std::tuple<op, double, unsigned, unsigned, unsigned, unsigned>, unsigned> cse;
        std::uint32_t npars = 0;

        unsigned emit(ins i)
        {
            const auto key = std::make_tuple(i.o, i.v, i.idx, i.a, i.b, i.c);
            if (auto it = cse.find(key); it != cse.end()) return it->second;
            ta.tape.push_back(i);
            const auto r = static_cast<unsigned>(ta.tape.size() - 1);
            cse.emplace(key, r);
            return r;
        }
        unsigned mul(unsigned a, unsigned b)
        {
            ins i;
            i.o = op::mul;
            i.a = std::min(a, b);
            i.b = std::max(a, b);
            i.constant = ta.tape[a].constant && ta.tape[b].constant;
            return emit(i);
        }
        unsigned add(const detail::ptr &e)
        {
            if (auto it = memo.find(e.get()); it != memo.end()) return it->second;
            ins i;
            i.o = e->o;
            unsigned r = 0;
            if (e->o == op::num) {
                i.v = e->v;
                i.constant = true;
                r = emit(i);
            } else if (e->o == op::par) {
                i.idx = e->idx;
                i.constant = true;
                npars = std::max(npars, e->idx + 1);
                r = emit(i);
            } else if (e->o == op::var) {
                r = vars.at(e->name);
            } else {
                unsigned q[3] = {0, 0, 0};
                bool c = true;
                for (std::size_t k = 0; k < e->a.size(); ++k) {
                    q[k] = add(e->a[k]);
                    c = c && ta.tape[q[k]].constant;
                }
                if (e->o == op::pow && e->v == std::floor(e->v) && e->v > 1 && e->v <= 8) { // products, safe at zero
                    r = q[0];
                    for (int k = 1; k < static_cast<int>(e->v); ++k) r = mul(r, q[0]);
                } else if (e->o == op::mul) {
                    r = mul(q[0], q[1]);
                } else {
                    i.v = e->o == op::sqrt ? .5 : e->v;
                    i.a = q[0];
                    i.b = q[1];
                    i.c = q[2];
                    i.constant = c;
                    r = emit(i);
                }
            }
            memo.emplace(e.get(), r);
            return r;
        }
    };

    void build(const std::vector<std::pair<expression, expression>> &sys, std::vector<double> st)
    {
        const shim::quiet quiet;
        if (sys.empty()) throw std::invalid_argument("empty system");
        builder b{*this, {}, {}, {}, 0};
        for (const auto &x : sys) {
            if (x.first.p->o != op::var) throw std::invalid_argument("the left-hand side must be a variable");
            ins i;
            i.o = op::var;
            tape.push_back(i);
            if (!b.vars.emplace(x.first.p->name, static_cast<unsigned>(tape.size() - 1)).second) throw std::invalid_argument("a variable appears twice");
        }
        for (const auto &x : sys) rhs.push_back(b.add(x.second.p));
        if (st.size() == n0 && variational) { // initial conditions of the variations
            for (std::size_t i = 0; i < n0; ++i)
                for (std::size_t j = 0; j < nvargs; ++j) st.push_back(vargs_names[j] == sys[i].first.p->name ? 1. : 0.);
        }
        if (st.size() != sys.size()) throw std::invalid_argument("inconsistent size of the state vector");
        state = std::move(st);
        if (m_pars.size() > b.npars) throw std::invalid_argument("too many parameters");
        m_pars.resize(b.npars, 0.);
        if (!std::isfinite(m_tol) || m_tol < 0) throw std::invalid_argument("the tolerance must be finite and not negative");
        if (m_tol == 0) m_tol = std::numeric_limits<double>::epsilon();
        const double o = std::ceil(-std::log(m_tol) / 2 + 1);
        order = static_cast<std::uint32_t>(std::max(2., o));
        for (double x : state)
            if (!std::isfinite(x)) throw std::invalid_argument("a non-finite value in the initial state");
        shim::note_build(n0, variational, m_tol);
    }
    void kwarg(kw::shim::tol_a x)
    {
        m_tol = x.x;
    }
    void kwarg(kw::shim::time_a x)
    {
        t = x.x;
    }
    void kwarg(kw::shim::pars_a x)
    {
        m_pars = std::move(x.x);
    }
    template <int I>
    void kwarg(kw::shim::ignored_a<I>)
    {
    }

    // Coefficients of all instructions at the current state.
    void taylor()
    {
        const std::size_t N = order + 1u, M = tape.size();
        tc.assign(M * N, 0.);
        const auto C = [&](std::size_t i) { return tc.data() + i * N; };
        for (std::size_t i = 0; i < state.size(); ++i) C(i)[0] = state[i];
        for (std::size_t n = 0; n < N; ++n) {
            for (std::size_t i = state.size(); i < M; ++i) {
                const ins &x = tape[i];
                double *c = C(i);
                if (x.constant && n > 0) continue;
                const double *a = C(x.a), *b = C(x.b);
                switch (x.o) {
                    case op::num:
                        c[0] = x.v;
                        break;
                    case op::par:
                        c[0] = m_pars[x.idx];
                        break;
                    case op::var:
                        break;
                    case op::add:
                        c[n] = a[n] + b[n];
                        break;
                    case op::sub:
                        c[n] = a[n] - b[n];
                        break;
                    case op::neg:
                        c[n] = -a[n];
                        break;
                    case op::mul: {
                        if (tape[x.a].constant) {
                            c[n] = a[0] * b[n];
                            break;
                        }
                        if (tape[x.b].constant) {
                            c[n] = a[n] * b[0];
                            break;
                        }
                        double s = 0;
                        for (std::size_t k = 0; k <= n; ++k) s += a[k] * b[n - k];
                        c[n] = s;
                        break;
                    }
                    case op::div: {
                        double s = a[n];
                        if (!tape[x.b].constant)
                            for (std::size_t k = 1; k <= n; ++k) s -= b[k] * c[n - k];
                        c[n] = s / b[0];
                        break;
                    }
                    case op::pow:
                    case op::sqrt:
                        if (n == 0) {
                            c[0] = x.o == op::sqrt ? std::sqrt(a[0]) : std::pow(a[0], x.v);
                        } else {
                            double s = 0;
                            const auto dn = static_cast<double>(n);
                            for (std::size_t k = 0; k < n; ++k) s += (dn * x.v - static_cast<double>(k) * (x.v + 1)) * a[n - k] * c[k];
                            c[n] = s / (dn * a[0]);
                        }
                        break;
                    case op::select:
                        c[n] = a[0] != 0 ? b[n] : C(x.c)[n];
                        break;
                    case op::eq:
                        c[n] = n == 0 && a[0] == b[0] ? 1. : 0.;
                        break;
                }
            }
            if (n + 1 < N)
                for (std::size_t i = 0; i < state.size(); ++i) C(i)[n + 1] = C(rhs[i])[n] / static_cast<double>(n + 1);
        }
    }
    double eval(std::size_t i, double h) const
    {
        const double *c = tc.data() + i * (order + 1u);
        double s = c[order], comp = 0; // compensated Horner's scheme on the small terms
        for (std::size_t k = order; k-- > 0;) {
            const double p = s * h + comp * h;
            const double nw = c[k] + p;
            comp = p - (nw - c[k]);
            s = nw;
        }
        return s;
    }
    [[nodiscard]] double step_size() const
    {
        double ms = 0, m0 = 0, m1 = 0;
        for (std::size_t i = 0; i < state.size(); ++i) {
            const double *c = tc.data() + i * (order + 1u);
            ms = std::max(ms, std::abs(c[0]));
            m0 = std::max(m0, std::abs(c[order]));
            m1 = std::max(m1, std::abs(c[order - 1]));
            if (std::isnan(c[order]) || std::isnan(c[order - 1])) return std::numeric_limits<double>::quiet_NaN();
        }
        const double nr = ms <= 1 ? 1. : ms;
        const double rho = std::min(std::pow(nr / m0, 1. / order), std::pow(nr / m1, 1. / (order - 1)));
        return rho * std::exp(-.7 / (order - 1)) / (2.718281828459045 * 2.718281828459045);
    }
    [[nodiscard]] bool finite() const
    {
        return std::all_of(state.begin(), state.end(), [](double x) { return std::isfinite(x); });
    }

public:
    taylor_adaptive()
    {
        const auto x = make_vars("x");
        m_tol = 1e-1;
        n0 = 1;
        build({prime(x) = expression(0.)}, {0.});
    }
    template <typename... K>
    explicit taylor_adaptive(const std::vector<std::pair<expression, expression>> &sys, std::vector<double> st, K &&...k)
    {
        n0 = static_cast<std::uint32_t>(sys.size());
        (kwarg(std::forward<K>(k)), ...);
        build(sys, std::move(st));
    }
    template <typename... K>
    explicit taylor_adaptive(const var_ode_sys &sys, std::vector<double> st, K &&...k)
    {
        n0 = static_cast<std::uint32_t>(sys.n0);
        variational = true;
        nvargs = static_cast<std::uint32_t>(sys.vargs.size());
        for (const auto &a : sys.vargs) vargs_names.push_back(a.p->o == op::par ? "par[" + std::to_string(a.p->idx) + "]" : a.p->name);
        (kwarg(std::forward<K>(k)), ...);
        build(sys.sys, std::move(st));
    }

    [[nodiscard]] const std::vector<double> &get_state() const
    {
        return state;
    }
    [[nodiscard]] const double *get_state_data() const
    {
        return state.data();
    }
    double *get_state_data()
    {
        return state.data();
    }
    [[nodiscard]] const std::vector<double> &get_pars() const
    {
        return m_pars;
    }
    [[nodiscard]] const double *get_pars_data() const
    {
        return m_pars.data();
    }
    double *get_pars_data()
    {
        return m_pars.data();
    }
    [[nodiscard]] double get_time() const
    {
        return static_cast<double>(t);
    }
    void set_time(double x)
    {
        t = x;
    }
    [[nodiscard]] double get_tol() const
    {
        return m_tol;
    }
    [[nodiscard]] std::uint32_t get_order() const
    {
        return order;
    }
    [[nodiscard]] std::uint32_t get_dim() const
    {
        return static_cast<std::uint32_t>(state.size());
    }
    [[nodiscard]] std::uint32_t get_n_orig_sv() const
    {
        return n0;
    }
    [[nodiscard]] bool is_variational() const
    {
        return variational;
    }
    [[nodiscard]] std::uint32_t get_vorder() const
    {
        return variational ? 1 : 0;
    }
    [[nodiscard]] const std::vector<std::string> &get_vargs() const
    {
        if (!variational) throw std::invalid_argument("not variational");
        return vargs_names;
    }

private:
    template <typename F>
    std::tuple<taylor_outcome, double, double, std::size_t> advance(double target, F &&each_step)
    {
        double hmin = std::numeric_limits<double>::infinity(), hmax = 0;
        std::size_t n = 0;
        if (!finite() || !std::isfinite(static_cast<double>(t))) return {taylor_outcome::err_nf_state, hmin, hmax, n};
        while (true) {
            const long double rem = target - t;
            if (rem == 0) return {taylor_outcome::time_limit, hmin, hmax, n};
            taylor();
            double h = step_size();
            if (std::isnan(h)) return {taylor_outcome::err_nf_state, hmin, hmax, n};
            const bool last = h >= std::abs(rem);
            h = last ? static_cast<double>(rem) : (rem < 0 ? -h : h);
            if (n >= 1000000 || (!last && t + h == t)) return {taylor_outcome::step_limit, hmin, hmax, n};
            each_step(t, h);
            std::vector<double> s(state.size());
            for (std::size_t i = 0; i < s.size(); ++i) s[i] = eval(i, h);
            state = std::move(s);
            t = last ? static_cast<long double>(target) : t + h;
            ++n;
            if (!finite()) return {taylor_outcome::err_nf_state, hmin, hmax, n};
            hmin = std::min(hmin, std::abs(h));
            hmax = std::max(hmax, std::abs(h));
            if (last) return {taylor_outcome::time_limit, hmin, hmax, n};
        }
    }

public:
    struct no_output {
    };
    struct no_callback {
    };
    std::tuple<taylor_outcome, double, double, std::size_t, no_output, no_callback> propagate_until(double target)
    {
        if (!std::isfinite(target)) throw std::invalid_argument("a non-finite time was passed to propagate_until()");
        auto [o, a, b, n] = advance(target, [](long double, double) {});
        return {o, a, b, n, {}, {}};
    }
    std::tuple<taylor_outcome, double, double, std::size_t, no_output, no_callback> propagate_for(double dt)
    {
        return propagate_until(static_cast<double>(t + dt));
    }
    std::tuple<taylor_outcome, double, double, std::size_t, no_callback, std::vector<double>> propagate_grid(const std::vector<double> &grid)
    {
        if (grid.empty()) throw std::invalid_argument("empty time grid");
        for (double x : grid)
            if (!std::isfinite(x)) throw std::invalid_argument("a non-finite time in the grid");
        const bool fwd = grid.size() < 2 || grid[1] > grid[0];
        for (std::size_t i = 1; i < grid.size(); ++i)
            if (!(fwd ? grid[i] > grid[i - 1] : grid[i] < grid[i - 1])) throw std::invalid_argument("a non-monotonic time grid");
        std::vector<double> out;
        auto r0 = advance(grid[0], [](long double, double) {});
        if (std::get<0>(r0) != taylor_outcome::time_limit) return {std::get<0>(r0), 0., 0., 0, {}, out};
        out.insert(out.end(), state.begin(), state.end());
        std::size_t next = 1;
        auto [o, a, b, n] = advance(grid.back(), [&](long double t0, double h) {
            while (next + 1 < grid.size() && (fwd ? grid[next] < t0 + h : grid[next] > t0 + h)) {
                for (std::size_t i = 0; i < state.size(); ++i) out.push_back(eval(i, static_cast<double>(grid[next] - t0)));
                ++next;
            }
        });
        if (o == taylor_outcome::time_limit && grid.size() > 1) { // points met exactly by a step, and the last one
            while (next < grid.size()) {
                out.insert(out.end(), state.begin(), state.end());
                ++next;
            }
        }
        return {o, a, b, n, {}, std::move(out)};
    }
    // Right-hand side of the system at the current state (not part of heyoka's interface).
    std::vector<double> shim_rhs()
    {
        taylor();
        std::vector<double> r;
        for (auto i : rhs) r.push_back(tc[static_cast<std::size_t>(i) * (order + 1u)]);
        return r;
    }
};
} // namespace heyoka

#endif
