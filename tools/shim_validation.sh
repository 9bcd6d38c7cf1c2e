#!/bin/bash
# Development aid (not run by the checks): compiles kep3's own tests of the parts that need heyoka's tanuki and integrators, and fmt >= 10,
# against the stand-ins of /verif/shim and runs them. All of them must pass. Usage: shim_validation.sh  (scratch dir removed)
set -e
REPO=${KEP3_REPO:-/repo}
V=$(cd "$(dirname "$0")/.." && pwd)
D=$(mktemp -d /tmp/shimval.XXXXXX)
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/inc"
python3 -c "import sys; sys.path.insert(0,'$V'); import run; run.REPO='$REPO'; run.gen_config('$D/inc')"
INC="-I$D/inc -I$V/shim -I$REPO/include"
F="-std=c++20 -O1 -w -DNDEBUG"
cd "$D"
g++ $F -c "$REPO/test/catch_main.cpp" -o main.o &
for s in planet udpla/keplerian udpla/jpl_lp core_astro/flyby epoch linalg core_astro/ic2par2ic core_astro/eq2par2eq core_astro/ic2eq2ic core_astro/propagate_lagrangian core_astro/stm ta/stark ta/cr3bp stark_problem leg/sims_flanagan_hf leg/sf_checks; do
    g++ $F $INC -c "$REPO/src/$s.cpp" -o "$(echo $s | tr / _).o" &
done
wait
# the high-fidelity leg's tests also use pagmo's numerical gradient and the VSOP2013 planets (both need missing libraries)
mkdir -p "$D/inc/pagmo/algorithms" "$D/inc/pagmo/utils" "$D/inc/kep3/udpla"
for h in algorithm algorithms/nlopt population problem; do echo > "$D/inc/pagmo/$h.hpp"; done
cat > "$D/inc/pagmo/utils/gradients_and_hessians.hpp" <<'H'
#pragma once
#include <cmath>
#include <vector>
namespace pagmo
{
template <typename F>
std::vector<double> estimate_gradient_h(F f, std::vector<double> x, double dx = 1e-2)
{
    const auto m = f(x).size(), n = x.size();
    std::vector<double> g(m * n);
    for (std::size_t j = 0; j < n; ++j) {
        const double h = std::max(std::fabs(x[j]), 1.) * dx, x0 = x[j];
        const auto D = [&](double k) {
            x[j] = x0 + k * h;
            auto a = f(x);
            x[j] = x0 - k * h;
            auto b = f(x);
            x[j] = x0;
            for (std::size_t i = 0; i < m; ++i) a[i] = (a[i] - b[i]) / (2. * k);
            return a;
        };
        const auto a = D(1), b = D(2), c = D(3);
        for (std::size_t i = 0; i < m; ++i) g[i * n + j] = (15 * a[i] - 6 * b[i] + c[i]) / (10 * h);
    }
    return g;
}
} // namespace pagmo
H
cat > "$D/inc/kep3/udpla/vsop2013.hpp" <<'H'
#pragma once
#include <kep3/udpla/jpl_lp.hpp>
namespace kep3::udpla
{
struct vsop2013 {
    jpl_lp p;
    vsop2013() = default;
    explicit vsop2013(const std::string &s, double) : p(s == "earth_moon" ? "earth" : s) {}
    std::array<std::array<double, 3>, 2> eph(double t) const
    {
        return p.eph(t);
    }
    template <class Ar>
    void serialize(Ar &, unsigned)
    {
    }
};
} // namespace kep3::udpla
H
for s in lambert_problem leg/sims_flanagan; do
    g++ $F $INC -c "$REPO/src/$s.cpp" -o "$(echo $s | tr / _).o"
done
rc=0
for t in ${ONLY:-planet udpla_keplerian udpla_jpl_lp flyby epoch ta_stark ta_cr3bp stark_problem leg_sims_flanagan_hf}; do
    g++ $F $INC -I"$REPO/test" -c "$REPO/test/${t}_test.cpp" -o "t_$t.x" && g++ "t_$t.x" ./*.o -o "T_$t" -lboost_serialization -lfmt -lopenblas
    "./T_$t" >out.txt 2>&1 || rc=1
    echo "$t: $(grep -a 'passed\|failed' out.txt | tail -1)"
    [ -n "$SHOW" ] && grep -a -A12 "FAILED" out.txt
done
exit $rc
