// Stand-in for heyoka (not installed), see detail/shim.hpp. The tables of VSOP2013 are not available offline: the series
// here are made up (one set of terms for each planet and coordinate, amplitudes over nine decades, so that every
// truncation threshold gives another function). What can be judged with them is the use kep3 makes of the model: which
// planet, which time, which threshold, which units.
#ifndef HEYOKA_SHIM_MODEL_VSOP2013_HPP
#define HEYOKA_SHIM_MODEL_VSOP2013_HPP
#include <array>

#include <heyoka/detail/shim.hpp>

namespace heyoka
{
namespace kw
{
namespace shim
{
struct time_expr_a {
    expression x;
};
struct thresh_a {
    double x;
};
struct time_expr_t {
    time_expr_a operator=(expression x) const // NOLINT
    {
        return {std::move(x)};
    }
};
struct thresh_t {
    thresh_a operator=(double x) const // NOLINT
    {
        return {x};
    }
};
} // namespace shim
inline constexpr shim::time_expr_t time_expr{};
inline constexpr shim::thresh_t thresh{};
} // namespace kw

namespace shim
{
struct vsop_term {
    double amp, freq, phase;
};
inline constexpr unsigned vsop_terms = 12;
inline vsop_term vsop(unsigned planet, unsigned coord, unsigned j)
{
    const double s = 1. + .37 * planet + .11 * coord;
    return {s * std::pow(10., -.75 * j), (3. + 17. * planet + 5. * coord) * (1 + 3. * j), .1 * planet + .7 * coord + 1.3 * j};
}
} // namespace shim

namespace model
{
namespace detail
{
struct vsop_args {
    expression time{std::string("t")};
    double thresh = 1e-9;
    void take(const kw::shim::time_expr_a &a)
    {
        time = a.x;
    }
    void take(const kw::shim::thresh_a &a)
    {
        thresh = a.x;
    }
};
} // namespace detail
template <typename... KW>
std::vector<expression> vsop2013_cartesian_icrf(std::uint32_t planet, const KW &...kw)
{
    const shim::quiet q;
    detail::vsop_args a;
    (a.take(kw), ...);
    if (planet < 1 || planet > 9) throw std::invalid_argument("no such planet");
    if (!std::isfinite(a.thresh) || a.thresh < 0) throw std::invalid_argument("invalid threshold");
    std::vector<expression> r;
    for (unsigned c = 0; c < 6; ++c) {
        expression e = 0.;
        for (unsigned j = 0; j < shim::vsop_terms; ++j) {
            const auto t = shim::vsop(planet, c, j);
            if (std::fabs(t.amp) < a.thresh) continue;
            e = e + expression(t.amp) * cos(expression(t.phase) + expression(t.freq) * a.time);
        }
        r.push_back(e);
    }
    return r;
}
template <typename... KW>
std::vector<expression> vsop2013_cartesian(std::uint32_t planet, const KW &...kw) // another frame
{
    auto r = vsop2013_cartesian_icrf(planet, kw...);
    std::swap(r[1], r[2]);
    std::swap(r[4], r[5]);
    return r;
}
inline std::array<double, 10> get_vsop2013_mus()
{
    return {2.9591220836841438e-04, 4.9125474514508118e-11, 7.2434524861627027e-10, 8.9970116036316091e-10, 9.5495351057792580e-11, 2.8253458420837780e-07, 8.4597151856806587e-08, 1.2920249167819693e-08, 1.5243589007842762e-08, 2.1886997654259696e-12};
}
} // namespace model
} // namespace heyoka
#endif
