// Stand-in for heyoka (not installed), see detail/shim.hpp: compiled functions of one variable, interpreted.
#ifndef HEYOKA_SHIM_LLVM_STATE_HPP
#define HEYOKA_SHIM_LLVM_STATE_HPP
#include <cstdint>
#include <map>

#include <boost/serialization/map.hpp>
#include <boost/serialization/split_member.hpp>

#include <heyoka/detail/shim.hpp>

namespace heyoka
{
namespace detail
{
// A function from doubles to doubles as a list of instructions.
struct tape_ins {
    op o = op::num;
    double v = 0;
    unsigned a = 0, b = 0;
    template <class Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar & o;
        ar & v;
        ar & a;
        ar & b;
    }
};
struct tape_fn {
    std::vector<tape_ins> t;
    std::vector<unsigned> out;
    template <class Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar & t;
        ar & out;
    }
    void operator()(double *o, const double *in) const
    {
        std::vector<double> x(t.size());
        for (std::size_t i = 0; i < t.size(); ++i) {
            const auto &n = t[i];
            switch (n.o) {
                case op::num:
                    x[i] = n.v;
                    break;
                case op::var:
                    x[i] = in[n.a];
                    break;
                case op::add:
                    x[i] = x[n.a] + x[n.b];
                    break;
                case op::sub:
                    x[i] = x[n.a] - x[n.b];
                    break;
                case op::mul:
                    x[i] = x[n.a] * x[n.b];
                    break;
                case op::div:
                    x[i] = x[n.a] / x[n.b];
                    break;
                case op::neg:
                    x[i] = -x[n.a];
                    break;
                case op::sqrt:
                    x[i] = std::sqrt(x[n.a]);
                    break;
                case op::pow:
                    x[i] = std::pow(x[n.a], n.v);
                    break;
                case op::cos:
                    x[i] = std::cos(x[n.a]);
                    break;
                default:
                    x[i] = std::numeric_limits<double>::quiet_NaN();
            }
        }
        for (std::size_t i = 0; i < out.size(); ++i) o[i] = x[out[i]];
    }
};
struct tape_builder {
    tape_fn &f;
    const std::vector<expression> &vars;
    std::map<const node *, unsigned> memo;
    unsigned add(const ptr &e)
    {
        if (auto it = memo.find(e.get()); it != memo.end()) return it->second;
        tape_ins i;
        i.o = e->o;
        i.v = e->v;
        if (e->o == op::var) {
            std::size_t k = 0;
            while (k < vars.size() && vars[k].p->name != e->name) ++k;
            if (k == vars.size()) throw std::invalid_argument("an unknown variable in a compiled function: " + e->name);
            i.a = static_cast<unsigned>(k);
        } else if (e->o == op::par || e->o == op::select || e->o == op::eq) {
            throw std::invalid_argument("heyoka stand-in: not supported in compiled functions");
        } else {
            if (!e->a.empty()) i.a = add(e->a[0]);
            if (e->a.size() > 1) i.b = add(e->a[1]);
        }
        f.t.push_back(i);
        return memo[e.get()] = static_cast<unsigned>(f.t.size() - 1);
    }
};

// Plain function pointers for functions made at run time: a pool of trampolines, each bound to one function. As with
// compiled code, the pointer is valid as long as the llvm_state it was looked up in (not a copy of it) lives.
struct slot {
    const tape_fn *f = nullptr;
};
inline constexpr int n_slots = 2048;
inline slot slots[n_slots];
inline std::uint32_t next_slot = 0;
using cfunc_ptr = void (*)(double *, const double *, const double *, const double *) noexcept;
template <int I>
void trampoline(double *o, const double *in, const double *, const double *) noexcept
{
    const shim::quiet q;
    if (const tape_fn *f = slots[I].f) (*f)(o, in);
    else
        for (int k = 0; k < 6; ++k) o[k] = std::numeric_limits<double>::quiet_NaN(); // the code was unloaded
}
template <int... I>
constexpr std::array<cfunc_ptr, sizeof...(I)> make_trampolines(std::integer_sequence<int, I...>)
{
    return {&trampoline<I>...};
}
inline constexpr auto trampolines = make_trampolines(std::make_integer_sequence<int, n_slots>{});
__attribute__((noinline, no_sanitize("thread"))) inline int take_slot(const tape_fn *f)
{
    for (int tries = 0; tries < n_slots; ++tries) { // not the one freed last: stale pointers shall be noticed
        const int i = static_cast<int>(__atomic_fetch_add(&next_slot, 1u, __ATOMIC_RELAXED) % n_slots);
        const tape_fn *none = nullptr;
        if (__atomic_compare_exchange_n(&slots[i].f, &none, f, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return i;
    }
    throw std::runtime_error("heyoka stand-in: too many compiled functions");
}
__attribute__((noinline, no_sanitize("thread"))) inline void free_slot(int i)
{
    __atomic_store_n(&slots[i].f, static_cast<const tape_fn *>(nullptr), __ATOMIC_SEQ_CST);
}
} // namespace detail

namespace shim // for the checks only: functions compiled (not copied) in this process
{
inline std::uint32_t n_compiled = 0;
__attribute__((noinline, no_sanitize("thread"))) inline void note_compiled()
{
    __atomic_fetch_add(&n_compiled, 1u, __ATOMIC_RELAXED);
}
} // namespace shim

class llvm_state
{
    struct code {
        detail::tape_fn f;
        int slot = -1;
        ~code()
        {
            if (slot >= 0) detail::free_slot(slot);
        }
    };
    std::map<std::string, std::unique_ptr<code>> m_code;
    bool m_compiled = false;

    void bind()
    {
        for (auto &[n, c] : m_code) c->slot = detail::take_slot(&c->f);
        m_compiled = true;
    }
    friend class boost::serialization::access;
    template <class Ar>
    void save(Ar &ar, unsigned) const
    {
        std::map<std::string, detail::tape_fn> m;
        for (auto &[n, c] : m_code) m[n] = c->f;
        ar << m;
        ar << m_compiled;
    }
    template <class Ar>
    void load(Ar &ar, unsigned)
    {
        std::map<std::string, detail::tape_fn> m;
        bool c = false;
        ar >> m;
        ar >> c;
        llvm_state s;
        for (auto &[n, f] : m) s.add(n, f);
        if (c) s.bind();
        *this = std::move(s);
    }
    BOOST_SERIALIZATION_SPLIT_MEMBER()

public:
    llvm_state() = default;
    llvm_state(const llvm_state &o)
    {
        const shim::quiet q;
        for (auto &[n, c] : o.m_code) add(n, c->f);
        if (o.m_compiled) bind();
    }
    llvm_state(llvm_state &&o) noexcept : m_code(std::move(o.m_code)), m_compiled(o.m_compiled) {}
    llvm_state &operator=(const llvm_state &o)
    {
        if (this != &o) *this = llvm_state(o);
        return *this;
    }
    llvm_state &operator=(llvm_state &&o) noexcept
    {
        const shim::quiet q;
        m_code = std::move(o.m_code);
        m_compiled = o.m_compiled;
        return *this;
    }
    ~llvm_state()
    {
        const shim::quiet q;
        m_code.clear();
    }
    void add(const std::string &n, detail::tape_fn f)
    {
        if (m_compiled) throw std::invalid_argument("a function cannot be added after compilation");
        auto c = std::make_unique<code>();
        c->f = std::move(f);
        if (!m_code.emplace(n, std::move(c)).second) throw std::invalid_argument("a function with this name exists already");
    }
    void compile()
    {
        const shim::quiet q;
        if (m_compiled) throw std::invalid_argument("compiled already");
        bind();
        shim::note_compiled();
    }
    [[nodiscard]] std::uintptr_t jit_lookup(const std::string &n) const
    {
        const shim::quiet q;
        if (!m_compiled) throw std::invalid_argument("not compiled yet");
        const auto it = m_code.find(n);
        if (it == m_code.end()) throw std::invalid_argument("no such function");
        return reinterpret_cast<std::uintptr_t>(detail::trampolines[static_cast<std::size_t>(it->second->slot)]);
    }
};

template <typename T, typename... KW>
void add_cfunc(llvm_state &s, const std::string &name, const std::vector<expression> &fn, const std::vector<expression> &vars, const KW &...)
{
    static_assert(std::is_same_v<T, double>);
    const shim::quiet q;
    detail::tape_fn f;
    detail::tape_builder b{f, vars, {}};
    for (const auto &e : fn) f.out.push_back(b.add(e.p));
    s.add(name, std::move(f));
}
} // namespace heyoka
#endif
