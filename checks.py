"""Registry of the checks (single source for run.py and tools/gen_manifest.py)."""
CHECKS = {}


def check(pid, harness, **kw):
    CHECKS[pid] = dict(harness=harness, **kw)


REFQ = "the reference model is evaluated in IEEE quad precision (__float128); its own error is negligible against the tolerance"
CONDNOTE = ("a result is accepted when it lies within a stated multiple of the first-order propagated rounding error "
            "(derivatives of the reference by automatic differentiation), so equally accurate reformulations stay quiet")
TANUKI = "heyoka's tanuki (type erasure) is not installed: /verif/shim/heyoka/detail/tanuki.hpp supplies the same interface; kep3's own planet/udpla/fly-by tests pass on it (tools/shim_validation.sh)"
FMT10 = "the installed fmt 9.1 is below the project's required fmt 10: /verif/shim/fmt/chrono.h supplies the formatter of time points that kep3 takes from fmt >= 10"
PL = ("planet.cpp",)
ALLPL = PL + ("udpla/keplerian.cpp", "udpla/jpl_lp.cpp", "core_astro/flyby.cpp")
HEYOKA = "heyoka is not installed: /verif/shim/heyoka supplies expressions, first-order variational systems and an adaptive Taylor integrator with the same interface; kep3's own Stark, three-body, Stark problem and high-fidelity leg tests pass on it (tools/shim_validation.sh)"
TASRC = ("ta/", "stark_problem.cpp")
HF = TASRC + ("leg/sims_flanagan_hf.cpp",)
check("P01", "p01.cpp",
      technique="explicit-state exploration: finite grid of orbits x transfer times, every transition executed on the real propagator and compared with the exact (quad) two-body model",
      note="Exhaustive over the stated grid of orbit classes, orientations, unit systems and times (forward/backward, up to 1e4..1e6 revolutions); between grid points nothing is claimed.",
      bounds="quick: 24 eccentricities (0..100, excluding exactly 1) x 17/15 anomalies x 6 unit systems, orientation rotating over 5; 40/23 times in both directions. thorough: 47 eccentricities x 36 anomalies x 6 x 5 x ~100 times. plus rectilinear orbits.",
      assumptions=[REFQ, CONDNOTE])
check("P02", "p02.cpp",
      technique="explicit-state exploration of all histories of propagation steps up to a depth, executed on the real propagator; model state = (initial orbit, exact elapsed time)",
      note="All step sequences over a step alphabet of both signs from every orbit of the alphabet; every reached state compared with the exact state at the total elapsed time and its invariants with the initial ones.",
      bounds="quick: 9 eccentricities x 4 anomalies x 6 unit systems, all step sequences of length <= 4 over the step alphabet (plus whole-period steps); thorough: 17 x 8 x 6, length <= 5.",
      assumptions=[REFQ, CONDNOTE])
check("P03", "p03.cpp",
      technique="explicit-state exploration: grid of orbits x times executed on all four propagators, and all time lists up to a length for the vectorised one, against the exact (quad) two-body model",
      note="Exhaustive over the grid; the element-based and Reynolds propagators are judged where their formulation is non-singular (the rule is stated in DESIGN.md).",
      bounds="quick: 17 eccentricities x 11 anomalies x 6 units, 32/23 times of either sign; thorough: 34 x 21 x 6 x 5 orientations, ~64/45 times; parabolas for the universal-variable propagator; lists of times of length 0..3.",
      assumptions=[REFQ, CONDNOTE])
check("P04", "p04.cpp",
      technique="explicit-state exploration: grid of orbits x times, each STM entry returned by the real code compared with the exact Jacobian (dual numbers in quad precision)",
      note="Exhaustive over the grid; the tolerance is a multiple of the rounding error of the entry's block estimated from second derivatives and cancellation.",
      bounds="quick: 13 eccentricities x 8 anomalies x 6 units x 24/18 times; thorough: 26 x 15 x 6 x 3 orientations x 52/32 times.",
      assumptions=[REFQ, CONDNOTE])
check("P05", "p05.cpp",
      technique="explicit-state exploration of all step histories up to a depth; at every transition both STM formulas of the real code are multiplied along the path and compared with the exact model and the group laws",
      note="All step sequences over the alphabet; both formulas; identity, symplecticity, cocycle and inverse laws.",
      bounds="quick: 10 eccentricities x 4 anomalies x 6 units, depth 3; thorough: 19 x 9 x 6, depth 4.",
      assumptions=[REFQ, CONDNOTE])
check("P06", "p06.cpp",
      technique="explicit-state exploration of all walks on the graph of anomaly conversions up to a depth, each edge executed on the real code and compared with the exact (quad) conversion",
      note="All walks from every (eccentricity, angle) of the alphabet.",
      bounds="quick: 24 elliptic and 17 hyperbolic eccentricities x 193 angles, walks of length <= 4; thorough: 84/77 eccentricities x 1489 angles, length <= 5; all wrong-conic eccentricities.",
      assumptions=[REFQ, CONDNOTE])
ELB = "quick: 12 eccentricities x 11 inclinations x 7 nodes x 8 arguments x 10 anomalies over 6 unit systems%s; thorough: 25 x 19 x 13 x 14 x 21 x 6."
check("P07", "p07.cpp", flags=["-DPROP=7"],
      technique="explicit-state exploration: full product grid of orbital elements, each conversion and round trip executed on the real code and compared with exact (quad) elements; full grid of inadmissible elements",
      note="Exhaustive over the product grid (every quadrant of every angle).",
      bounds=ELB % "", assumptions=[REFQ, CONDNOTE])
check("P08", "p07.cpp", flags=["-DPROP=8"],
      technique="explicit-state exploration: full product grid of orbits incl. circular/equatorial, each equinoctial conversion (both variants) and round trip executed on the real code and compared with exact (quad) elements",
      note="Exhaustive over the product grid, both variants.",
      bounds=ELB % " (four of them on alternate orbits)", assumptions=[REFQ, CONDNOTE])
check("P09", "p07.cpp", flags=["-DPROP=9"],
      technique="explicit-state exploration of all walks up to a depth on the graph of the 4 orbit representations, each edge executed on the real code; invariant: the physical state stays that of the initial orbit",
      note="All conversion chains from every orbit of the alphabet.",
      bounds="all chains up to the stated depth on the graph cart/kep/eq/eq-retrograde from every orbit of the alphabet (counts in evidence).", assumptions=[REFQ, CONDNOTE])
LAMB = "quick: 14 transfer angles (1e-3..6.25) x 7 radius ratios (0.01..60) x 6 units, orientation rotating over 6 (prograde, retrograde, near polar) x both directions x 42 times of flight (1e-6 x parabolic ... 50 revolutions, both sides of the minimum times, parabola, x=0), %s; thorough: 28 x 15 x 6 x 2 x 77 times up to 127 revolutions."
check("P10", "p10.cpp", flags=["-DPROP=10"],
      technique="explicit-state exploration: full product grid of boundary value problems solved by the real code; every returned solution is flown with the exact (quad) two-body model, revolutions and direction counted exactly",
      note="Exhaustive over the grid; additionally all floats in a window around the parabolic time of flight.",
      bounds=LAMB % "all revolutions up to 60 requested; 49 consecutive floats around each parabolic time",
      assumptions=[REFQ, CONDNOTE + "; scaled by the geometry's own conditioning (1/sin of the transfer angle and of the chord geometry)"])
check("P11", "p10.cpp", flags=["-DPROP=11"],
      technique="explicit-state exploration: full product grid of boundary value problems x requested revolutions; the returned solution list is compared item by item with the complete solution set of the reference model (bracketed quad solution of Lagrange's equation, exact minimum times)",
      note="Completeness is decided against a reference that solves every branch by bracketing; problems within 1e-9 (relative) of a minimum time are excluded.",
      bounds=LAMB % "revolutions requested M in {0,1,2,3,7,max}", assumptions=[REFQ, CONDNOTE])
check("P12", "p12.cpp",
      technique="explicit-state exploration of all words of symmetry generators up to a length applied to a grid of problems, each solved by the real code and compared with the transformed solutions; full product of valid and invalid arguments",
      note="All words over 9 generators (3 rotations about z, 3 mirrors, time reversal, 2 rescalings).",
      bounds="quick: 144 problems x 2 directions, words of length <= 4; thorough: 768 problems, length <= 5. Acceptance: 844 position pairs x 8 times x 8 parameters x 2 x 3.",
      assumptions=[REFQ, CONDNOTE])
check("P13", "p13.cpp", flags=["-DPROP=13"], shim=True, heavy=HF,
      technique="explicit-state exploration of the real sims_flanagan object: the whole graph of settings (every state x every operation) and all operation words up to a depth, each reached object compared with a freshly constructed one and with the model of its settings",
      note="Every setter (both throttle setters, the collective one), evaluation, printing and copies are operations of the transition system.",
      bounds="6400 setting states x 41 operations; quick: all words of length <= 3 over 41 operations from 2 roots (observed at every prefix); thorough: length <= 4; every number of segments up to 120 (thorough 400) with every cut next to a multiple of 1/n. Continuous-thrust leg: a fifth of 12800 settings (thorough: all) x 56 operations, words of 2 (3) operations, segment counts up to 40 (120).",
      assumptions=["two legs with the same settings are compared to 1e-11 of the result's norm, so evaluation order may change", HEYOKA, FMT10])
check("P14", "p13.cpp", flags=["-DPROP=14"], shim=True, heavy=HF,
      technique="explicit-state exploration: every invalid call of an alphabet of 120+ at every state of a set of reached legs, plus (invalid, invalid, valid) sequences, executed on the real code; the leg after a rejected call must equal the leg before",
      note="Covers constructors, each setter, the iterator setter and every subset of invalid arguments of the collective setter.",
      bounds="quick: 320 states, thorough: all 6400; NaN arguments are not judged. Continuous-thrust leg: 320 (1600) states x 400 invalid calls, 64800 constructions.",
      assumptions=[HEYOKA, FMT10])
check("P17", "p13.cpp", flags=["-DPROP=17"], shim=True, heavy=HF,
      technique="exhaustive enumeration of all throttle words over a 7-letter alphabet up to a length, reached through four call sequences, executed on the real code against the exact constraint and its exact gradient",
      note="All words, all four ways of setting throttles, four cuts.",
      bounds="quick: all words of length 1..5 (plus long periodic ones up to 33 segments); thorough: 1..6. Continuous-thrust leg: 1344 (thorough 57600) legs of 14 (24) segment shapes.",
      assumptions=[REFQ, HEYOKA, FMT10])
LEGB = ("all throttle words over up to 6 letters (zero, tiny, unit, over-unit, generic) x every forward/backward split, on %s scenes "
        "(6 eccentricities incl. hyperbolic x 3 anomalies x 5 times of flight incl. 0 x 4 thrust/isp/mass classes incl. no thrust, unit systems rotating); "
        "quick: words up to 3 segments, long legs of 4..10 segments with all splits; thorough: words up to 4 segments over all unit systems, legs up to 30 segments")
HFB = "; continuous-thrust leg: %s of the product of 14 segment shapes x 6 kinds of throttles x 4 times x 2 thrusts x 3 pairs of orbits x 4 unit systems (thorough: all of 24 x 6 x 10 x 5 x 6 x 4) against a Taylor integration in quad precision"
check("P15", "p15.cpp", flags=["-DPROP=15"], shim=True, heavy=HF,
      technique="explicit-state exploration: all throttle words and all splits flown through a tree of leg states in the reference model (quad), each complete leg executed on the real code and compared with the model's mismatch",
      note="Includes legs flown forward (arrival state equal to the model's end state), for which the mismatch must vanish for every cut.",
      bounds=LEGB % "360" + HFB % "a quarter", assumptions=[REFQ, CONDNOTE, HEYOKA, FMT10])
check("P16", "p15.cpp", flags=["-DPROP=16"], shim=True, heavy=HF,
      technique="explicit-state exploration: all throttle words and all splits flown through a tree of leg states carrying exact derivatives (chain rule over quad automatic differentiation), every gradient entry returned by the real code compared",
      note="Columns of a segment with exactly zero throttle (mass not differentiable) are not judged; all other entries must be right on such legs.",
      bounds=LEGB % "360" + HFB % "a sixth", assumptions=[REFQ, CONDNOTE, HEYOKA, FMT10])
check("P18", "p18.cpp", flags=["-DPROP=18"], shim=True,
      technique="exhaustive enumeration of the calendar: every day of years 0..9999, every second of special days, every microsecond of special seconds, month ends of all 65535 years, all crops and single-character corruptions of ISO strings, executed on the real code against an independent calendar model",
      note="Instants compared to the microsecond, Julian numbers to 4 ulp; construction from a Julian date to one microsecond plus the rounding of the double.",
      bounds="3.65 million days, 240 x 3600 seconds, 2 x 1e6 microseconds (1/37 of them in quick), 65535 years, 1200 x 1080 Julian values, 400 strings x 33 lengths x every digit position x every non-digit.",
      assumptions=[FMT10])
check("P19", "p18.cpp", flags=["-DPROP=19"], shim=True,
      technique="explicit-state exploration of all words of arithmetic operations up to a depth on real epochs, against a 64-bit integer model; difference and all comparison operators checked at every state",
      note="18 operations over every duration type (integral, floating, sub-microsecond units, years, helper functions), 8 starts.",
      bounds="quick: all words of length <= 5 (16 million transitions); thorough: length <= 6.",
      assumptions=["durations are multiples of a microsecond (finer ones are documented as not supported)"])
check("P20", "p20.cpp", shim=True, heavy=PL,
      technique="explicit-state exploration: all 2^9 subsets of optional methods (each a real type wrapped by the real planet class) x bodies x queries; all words of copies, moves, assignments, in-place changes over two planet variables up to a depth; full grid of orbits for the derived period and elements against exact (quad) ones",
      note="Every answer of every planet of the space is compared with the model (method set, data).",
      bounds="512 body types x 4 bodies (elliptic with a<1 and a>>1, hyperbolic, circular equatorial) x all queries; quick: all words of length 5 over 10 operations from 36 pairs of body types, 216 (unit system, eccentricity, size) x 7 inclinations x 4 x 4 x 6; thorough: words of length 6, 360 x 12 x 7 x 4 x 11.",
      assumptions=[REFQ, CONDNOTE, TANUKI, FMT10])
check("P21", "p21.cpp", shim=True, heavy=PL + ("udpla/keplerian.cpp",),
      technique="explicit-state exploration: full product grid of orbits x ways of construction x dates x element types queried, executed on the real body (directly and through planet) against the exact (quad) two-body model; full grid of admissible and inadmissible elements",
      note="Elements reported for singular orbits are judged by the state they denote.",
      bounds="quick: 12 eccentricities x 7 inclinations x 3 x 3 x 5 over 6 unit systems, 5 constructions, 4 dates, 4 element types, 3 reference epochs; thorough: 20 x 10 x 4 x 3 x 10, 8 dates; 6860 element vectors for the rejections.",
      assumptions=[REFQ, CONDNOTE, TANUKI, FMT10, "elements are those at the reference epoch, whatever date is asked (as the tests of the project require)"])
check("P22", "p22.cpp", shim=True, heavy=PL + ("udpla/jpl_lp.cpp",),
      technique="exhaustive enumeration of all planets x a dense grid of the whole validity range, 2000 consecutive floats on each side of both range limits, all capitalisations of the names and all names one edit away, executed on the real code against an independent (quad) implementation of the published model",
      note="Positions, velocities and all element types at every date.",
      bounds="quick: every day of 1800-2050 for 8 planets; thorough: every hour.",
      assumptions=[REFQ, CONDNOTE, TANUKI, FMT10])
check("P23", "p23.cpp", shim=True, heavy=PL + ("udpla/keplerian.cpp", "core_astro/flyby.cpp"),
      technique="exhaustive enumeration of full product grids of relative velocities, turns (incl. exactly parallel and at the limit), planets and pericentres, executed on the real functions against the exact (quad) geometry, against one another, and against a brute-force enumeration of the velocities an unpowered fly-by can reach",
      note="Overloads taking a planet must agree with the ones taking doubles.",
      bounds="quick: 6 planets x 7 directions x 6 speeds x 4 safe radii x (7 speed ratios x 4 azimuths x 37 turns + limits); fly-bys: 1260 encounters x 9 radii x 29 angles x 7 safe radii; thorough: 11 speeds, 11 ratios, 101 turns.",
      assumptions=[REFQ, CONDNOTE, TANUKI, FMT10, "an incoming relative velocity parallel to the planet's velocity defines no reference plane and is not judged"])
check("P24", "p24.cpp", shim=True, heavy=ALLPL + HF + ("udpla/vsop2013.cpp",),
      technique="explicit-state exploration of process images: every node of the tree of call histories is a forked process, every edge a call of the alphabet executed on it, each result compared bit for bit with the same call in a fresh process; the static and thread-local data of every node are hashed as its state",
      note="262 calls over every computation (arguments varied one at a time, rejected calls, noise that fills stack, heap and floating point flags). On the unchanged tree all nodes of these have one and the same image, so the exploration is closed for histories of any length as far as static data are concerned.",
      bounds="all histories of 2 calls over 262, all of 3 calls within a family (thorough: all of 3 calls), 150 (3000) repetitions of each call followed by every other, every rotation of the alphabet in both directions; 100 calls that integrate numerically or use compiled functions (Stark problem, continuous-thrust leg, integrators of the caches, VSOP2013 bodies): all histories of 2, an eighth (thorough: all) of 3, repetitions, rotations, and each with a ninth (all) of the other alphabet in both orders.",
      assumptions=[TANUKI, HEYOKA, FMT10, "all NaN results are identified with one another"])
check("P26", "p26.cpp", shim=True, heavy=ALLPL + HF + ("udpla/vsop2013.cpp",),
      technique="exhaustive enumeration of source objects x target objects x archive kinds on the real serialization code, and explicit-state exploration of all words of save/load/change/copy operations over two variables against the same words with plain copies",
      note="Every observable (getters, all computations, printing) of the loaded object is compared bit for bit with the original, twice around; setters applied after loading must act alike; several objects in one archive.",
      bounds="4096 legs x 3 targets (thorough 19), 256 Lambert problems x 19 (259) targets, 138^2 epochs, 25 x 24 keplerian bodies, 8 x 8 jpl_lp, 37^2 planets, 64 continuous-thrust legs x 4, 27 VSOP2013 bodies x 27 targets x 3, words of length 3 over 18 operations (legs) and 4 over 13 (planets), thorough 4 and 5.",
      assumptions=[TANUKI, HEYOKA, FMT10, "planets are saved to binary archives only (what tanuki supports); objects holding NaN are not saved to text archives (boost cannot read NaN back)"])
check("P25", "p25.cpp", shim=True, heavy=ALLPL + HF + ("udpla/vsop2013.cpp",), flags=["-fsanitize=thread"], src_flags=["-fsanitize=thread"], extra=["sched.cpp"],
      extra_flags=["-fno-sanitize=thread", "-fno-threadsafe-statics", "-fno-builtin"], ldflags=["-ldl", "-rdynamic"],
      technique="stateless model checking of the real code: calls of a pair (triple) of threads run under a controlled scheduler that owns every memory access (compiler instrumentation with an own runtime), lock, static guard and libc static buffer; systematic exploration of all schedules up to a preemption bound, pruned only by independence (no memory written in common and no lock in common: all interleavings are equivalent to the one executed)",
      note="Every result is compared bit for bit with that of the call alone; a crash or a deadlock is a violation too. Race-free but order-dependent code is found as well as racy code; benign races are not reported.",
      bounds="255 calls over every computation; all 32640 pairs, each with warm static data and as the first calls of the process; dependent pairs: all schedules of up to 2 (thorough 3) preemptions at the accesses to common memory and at locks, at most 4000 (60000) schedules a pair (the evidence tells how many were cut); triples within the dependent calls with 1 (2) preemptions; all 4465 pairs of 94 calls that integrate numerically or use compiled functions, from warm caches, on own and shared objects, 1 (2) preemptions.",
      assumptions=[TANUKI, HEYOKA, FMT10, "sequentially consistent interleavings of the instrumented accesses (kep3 and the headers it instantiates; boost, BLAS and libstdc++ binaries are atomic except for their locks, allocation and libc static buffers)"])
check("P28", "p28.cpp", shim=True, heavy=TASRC,
      technique="explicit-state exploration: full product grids of states, masses, thrusts and parameters on which the right-hand sides handed to the integrators (plain and variational) are evaluated, full product grids of trajectories executed on the real propagators against a Taylor integration in quad precision carrying exact derivatives, and all words of operations on a Stark problem against freshly constructed ones",
      note="The equations are judged entry by entry at rounding level, so a wrong term is seen wherever it is not identically zero on the grid; trajectories judge the Stark problem object and the integrators end to end.",
      bounds="quick: 64 positions x 3 velocities x 2 masses x 4 parameters x 27 thrusts; 125 positions x 4 mass parameters; 3600 Stark trajectories (5 eccentricities x 3 anomalies x 6 times x 5 thrusts x 2 masses x 4 unit systems) at two tolerances; 384 three-body trajectories; all words of length 4 over 15 operations at two tolerances (thorough: 11 x 7 x 13 x 8 and length 6).",
      assumptions=[REFQ, CONDNOTE, HEYOKA, FMT10, "without thrust the variational propagation is rejected with domain_error (existing tests require it)"])
check("P27", "p27.cpp", shim=True, heavy=HF, flags=["-fsanitize=thread"], src_flags=["-fsanitize=thread"], extra=["sched.cpp"],
      extra_flags=["-fno-sanitize=thread", "-fno-threadsafe-statics", "-fno-builtin"], ldflags=["-ldl", "-rdynamic"],
      technique="stateless model checking of the real code: two or three threads requesting integrators run under the controlled scheduler (every memory access, lock and guard instrumented), all schedules up to a preemption bound are executed and every execution is checked for happens-before races by vector clocks; explicit-state exploration of all words of requests of one thread",
      note="In every execution: no two unordered conflicting accesses, no deadlock, no crash; every request answered with the integrator a fresh process gives for that tolerance; one prototype per tolerance, built once, that neither moves nor changes; reported sizes those of some order of the requests.",
      bounds="all words of 3 (thorough 5) requests out of 22, half of them followed by 44 more tolerances, some of them adjacent floating-point numbers; all pairs of 19 requests and all pairs of 2-letter words per cache with 0, 1 or 2 tolerances cached: up to 2 preemptions for single requests, 1 for words and for problem objects (thorough 3); three threads with 1 (thorough 2).",
      assumptions=[HEYOKA, FMT10, "building an integrator touches memory of its own thread only and is one step of the schedule", "sequentially consistent interleavings of the accesses of kep3 and the headers it instantiates"])
check("P29", "p29.cpp", shim=True, heavy=HF,
      technique="explicit-state exploration: the graph of settings of a leg and all words of operations (every setter overload, collective setters, copies, archives, evaluations, excursions) up to a depth executed on the real class and compared with freshly constructed legs; every invalid call at every reached state; full product grid of legs against a Taylor integration in quad precision carrying exact derivatives",
      note="The model state is the vector of the eleven settings; each of its transitions is executed on the compiled leg and all getters and results (mismatch, constraints, gradients, state derivative, state history) are compared. The physics judges mismatch, all four gradient blocks, state derivative and history.",
      bounds="quick: 5120 states x 2 constructors x all 56 operations; all words of 3 operations from 4 starts; 320 states x 400 invalid calls, alone, in sequence and followed by valid calls; 64800 constructions; 2688 legs (14 segment shapes x 6 kinds of throttles x 4 times x 2 thrusts x 3 pairs of orbits x 4 unit systems, a third of the product); 79380 right-hand sides; every number of segments up to 40 with every cut next to a multiple of 1/n. thorough: all 12800 settings, words of 4 operations, 1600 states with invalid calls, 24 x 6 x 10 x 5 x 6 x 4 legs.",
      assumptions=[REFQ, HEYOKA, FMT10, "legs with a coasting segment have no throttle gradient (the variational equations of the mass flow are singular there; existing tests require the rejection); state histories of fewer than two points per segment and chromosomes of the wrong size are not judged"])
check("P30", "p30.cpp", shim=True, heavy=PL + ("udpla/vsop2013.cpp",), flags=["-fsanitize=thread"], src_flags=["-fsanitize=thread"], extra=["sched.cpp"],
      extra_flags=["-fno-sanitize=thread", "-fno-threadsafe-statics", "-fno-builtin"], ldflags=["-ldl", "-rdynamic"],
      technique="explicit-state exploration: full product of bodies x thresholds x dates and all names one edit away executed on the real body, all words of operations (creation, copies, moves, archives, planets, rejected calls) over three variables up to a depth; stateless model checking of two or three threads creating, copying and asking bodies under the controlled scheduler, all schedules up to a preemption bound, races detected by vector clocks",
      note="What is judged is the use made of the model (planet, time coordinate, threshold, units, frame, cache, life time of the compiled functions), on made-up series.",
      bounds="9 names x 13 thresholds x 4009 (thorough 40009) dates; up to 20 thresholds next to each of the 648 amplitudes of terms, upwards and downwards; all capitalisations and 600 wrong names each; all words of 4 (5) operations over 18; all pairs of 33 programs of one or two calls with 0, 1, 2 bodies compiled before, up to 2 (3) preemptions for single calls and 1 (2) for words, triples with 1 (2) preemptions.",
      assumptions=["heyoka and its VSOP2013 tables are not installed: /verif/shim/heyoka supplies compiled functions (interpreted, bound to function pointers that die with their llvm_state) and made-up series in place of the tables", TANUKI, FMT10])
PYB = "pybind11 is not installed: /verif/pyshim supplies its interface over the CPython and numpy C APIs (overload resolution, keyword and default arguments, casters, enums, pickling, arrays over capsules); pykep's real binding sources compile against it and kep3's own pykep unit tests pass on it"
check("P31", "p31.py", py=True,
      technique="explicit-state exploration: the full product of entry points x call forms x arguments, and all words of attribute writes, copies and pickles over the exposed objects, executed on the compiled Python module and compared with the C++ library called directly",
      note="Everything the module exposes, in every call form, is compared bit for bit (integrating objects: to the integrator's tolerance) with the same compiled library called without the bindings; arrays must own their memory.",
      bounds="14 constants; 14 anomaly functions x 10 (69) eccentricities x 11 (92) angles x 11 array shapes; 6 states x 6 times x 7 call forms; Lambert 4 x 3 x 2 x 2 x 3 x 4 forms; fly-bys 3 x 3 x 8 bodies; 45 planets x 5 copies x 4 dates x every method and call form; both legs: 4 constructor forms x all words of at most 2 (3) writes, copies and pickles.",
      assumptions=[PYB, HEYOKA, TANUKI, FMT10])
PYSUB = "pygmo, matplotlib, sgp4, spiceypy and heyoka's Python package are not installed: /verif/pyshim/stubs stands in for the few names pykep uses (axes that record every call; an analytic satellite and analytic bodies)"
check("P32", "p32.py", py=True,
      technique="explicit-state exploration of the real Python code: full products of sequences of bodies x encodings x options and, for each, grids of chromosomes through every conversion chain, against an independent transcription of the MGA problem; all words of two calls on one problem object",
      note="Fitness, arrival-side and departure-side impulses, trajectory, encodings and round trips of pykep.trajopt.mga, and every problem of the gym, are compared with an independent model built on the C++ library.",
      bounds="6 sequences of 2-6 bodies x 2 sets of durations x 3 departures x 3 encodings x launch allowance x single/multi objective x orbit insertion (quick: two thirds of the product); conversions of 1-6 (8) legs x 5 shapes x 3 departures x 3 scales; 3 gravity parameters x user-made bodies; the three Cassini instances; 16 constructor mistakes.",
      assumptions=[PYB, PYSUB, TANUKI, FMT10])
check("P33", "p33.py", py=True,
      technique="explicit-state exploration of the real Python code: full products of numbers of segments x cuts x bounds x states (or bodies) x chromosomes, against an independent model on the C++ leg (values, Jacobian, sparsity) and fourth-order differences of the fitness itself; all words of two calls on one problem object",
      note="Bounds, fitness, gradient, sparsity and equality/inequality counts of the direct low-thrust problems are compared with an independent model over the same leg.",
      bounds="4 (7) numbers of segments x 4 (7) cuts x 2 scalings x 4 settings x 2 call forms x 3 chromosomes, every Jacobian entry; all 100 words of two calls out of fitness, gradient, pretty, plot; 5 pairs of bodies for pl2pl.",
      assumptions=[PYB, PYSUB, TANUKI, FMT10])
check("P34", "p34.py", py=True,
      technique="explicit-state exploration: all subsets of the optional methods of a Python-defined planet, all words of copies with a write at every position, every raising or misbehaving method, all histories of kernel use, executed on the compiled module against a reference",
      note="Every Python planet answers exactly what its object answers, or the documented default; errors pass through unchanged; wrong answers are refused.",
      bounds="3 orbits x 512 subsets x absent/not callable x 4 (8) dates x 3 epoch forms x 5 element types; all words of copy/deepcopy of length up to 7 (11) with a write at each position; 10 methods x 8 exceptions; 55 wrong answers; TLE and SPICE bodies over dates, frames, observers; kernel histories of length up to 5 (11).",
      assumptions=[PYB, PYSUB, TANUKI, FMT10])
check("P35", "p35.py", py=True,
      technique="explicit-state exploration: full products of objects x options on axes that record every drawing call, each recorded curve compared point by point with a reference trajectory",
      note="Whatever is drawn is the trajectory of the object given: end points, every sampled point, units, arrows and markers, for all options.",
      bounds="Lambert 5 geometries x 3 times x direction x all solutions x 3 grids x 3 units; ballistic 6 states x 4 times x 4 grids; 7 bodies x ranges; all 256 subsets of the solar system; legs of 1-8 (12) segments x 5 cuts x 8 option sets x 2 resolutions x 2 units; direct problems x 8 option sets x 3 units.",
      assumptions=[PYB, PYSUB, HEYOKA, TANUKI, FMT10])
check("P36", "p36.cpp", shim=True, heavy=ALLPL + HF,
      technique="explicit-state exploration: full products of settings of every printable object and all words of one (thorough: two) changes on the real classes; each report is read back label by label and compared with the model of the object",
      note="Numbers are compared with the values of the model (not with the getters of the object); printing twice, through fmt, and after a copy gives the same text.",
      bounds="quick: half of 6400 settings of the impulsive leg and a fifth for the continuous-thrust leg, each with all 16 single changes; 600 Lambert problems x 6 limits of revolutions; 18 Stark problems x 36 words of two changes; 64 kinds of bodies x 36; 486 orbits x 2 constructions x 2 unit systems; 24 spellings of the low-precision planets. thorough: all settings, words of two changes (a third and single changes for the continuous-thrust leg), 9 limits of revolutions.",
      assumptions=[TANUKI, HEYOKA, FMT10, "the labels of the reports are those of the present version"])
