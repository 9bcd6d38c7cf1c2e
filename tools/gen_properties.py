#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PL = "src/core_astro/propagate_lagrangian.cpp"
STM = "src/core_astro/stm.cpp"
p("P01", "Two-body propagation returns the exact Kepler state",
  "For every initial position and velocity that is not on an (almost) exactly parabolic or collision orbit, every gravitational parameter and every time of flight of either sign, the propagated position and velocity returned by the default two-body propagator equal the exact solution of the two-body problem up to rounding error amplified by the problem's own conditioning. It answers for every such input: it never raises, never returns a non-finite number, and a zero time of flight returns the initial state.",
  ["inputs"], "all ellipses and hyperbolas (near circular to near parabolic, any orientation, any anomaly, any unit system) x all times of flight (negative, zero, tiny, around multiples of half a period, thousands of revolutions)",
  "The tests compare a few random states per orbit class with a second propagator of the same library, at a loose tolerance and away from apses, large revolution counts and extreme eccentricities; the claim is over all states and times.",
  [PL, "include/kep3/core_astro/kepler_equations.hpp", "include/kep3/core_astro/propagate_lagrangian.hpp"],
  [("elliptic and hyperbolic Kepler solve in anomaly differences", PL + ": propagate_lagrangian"), ("Lagrange coefficients", PL + ": F, G, Ft, Gt")])
p("P02", "Propagation histories compose, reverse and conserve the orbit",
  "Along every sequence of propagation steps, energy, angular momentum and eccentricity vector stay those of the initial state and the state reached depends only on the total elapsed time, not on how it was split or in which order or direction the steps were taken. In particular propagating forward and back returns to the start, and so does propagating an ellipse by a whole period.",
  ["histories"], "all sequences of propagation steps up to a depth over an alphabet of step lengths of both signs, from every orbit of an alphabet",
  "Tests apply single propagation calls; composition, reversal and conservation are statements about every history of calls.",
  [PL, "include/kep3/core_astro/kepler_equations.hpp"], [("propagation step", PL + ": propagate_lagrangian")])
p("P03", "Every two-body propagator answers alike",
  "The universal-variable, the element-based, the vectorised and the Reynolds two-body propagators return the same final state as the exact two-body solution on every orbit and time of flight on which their formulation is defined; the vectorised one returns, in order, exactly what the scalar one returns for each requested time (and the state transition matrix whenever and only when it is asked for).",
  ["inputs"], "all non-degenerate ellipses and hyperbolas x times of flight of either sign; for the vectorised form all lists of times up to a length, including empty and repeated times",
  "Tests sample a few random states near unit scale; nothing compares the variants over unit systems, revolution counts, negative times or list shapes.",
  [PL, STM, "include/kep3/core_astro/special_functions.hpp", "include/kep3/core_astro/kepler_equations.hpp"],
  [("universal variables", PL + ": propagate_lagrangian_u"), ("via orbital elements", PL + ": propagate_keplerian"), ("vectorised", PL + ": propagate_lagrangian_v"), ("Stumpff functions", "include/kep3/core_astro/special_functions.hpp")])
p("P04", "The state transition matrix is the derivative of the propagation",
  "Whenever the two-body propagator is asked for a state transition matrix, each of its 36 entries equals the partial derivative of the returned final state with respect to the initial state (row-major, position before velocity), up to rounding error amplified by conditioning. Asking for the matrix never changes the returned state.",
  ["inputs"], "all non-degenerate ellipses and hyperbolas, orientations, units and times of flight of either sign including zero and many revolutions",
  "Tests compare a few random matrices with finite differences or with the other formula at 1e-8..1e-13 around unit scale; sign, ordering or term errors confined to a class of orbits or times pass.",
  [STM, PL, "src/linalg.cpp", "include/kep3/linalg.hpp"], [("differentials of the Lagrange coefficients", STM + ": stm_lagrangian")])
p("P05", "State transition matrices obey the group laws and both formulas agree",
  "The transition matrix obtained from the Reynolds representation equals the one obtained from the Lagrange coefficients, is the identity for zero time and symplectic (hence of unit determinant), and along every sequence of propagation steps the product of the step matrices equals the matrix of the whole arc; stepping forward and back gives the identity.",
  ["histories", "inputs"], "all sequences of propagation steps up to a depth from every orbit of an alphabet, with both formulas at every step",
  "Tests check single matrices; the cocycle, inverse and symplectic laws quantify over all histories.",
  [STM, PL, "src/linalg.cpp", "include/kep3/linalg.hpp"], [("Reynolds fundamental matrix", STM + ": stm_reynolds, _compute_Y"), ("Lagrange based STM", STM + ": stm_lagrangian")])
ANO = "include/kep3/core_astro/convert_anomalies.hpp"
p("P06", "Anomaly conversions solve Kepler's equation and invert each other",
  "For every eccentricity of the stated conic and every angle, the conversions between mean, eccentric, true, hyperbolic and Gudermannian anomaly return the mathematically exact anomaly (as an angle, on the documented branch), so every pair of opposite conversions composes to the identity and every composite conversion equals the composition of its parts. An eccentricity of the wrong conic yields NaN, never a number.",
  ["inputs"], "all eccentricities in [0,1) or (1,inf) x all anomalies, including many revolutions, both signs, apses and near-asymptote values",
  "Tests check round trips of random samples against each other, so a consistent error in both directions, or an error confined to a corner of the (eccentricity, anomaly) plane, passes.",
  [ANO, "include/kep3/core_astro/kepler_equations.hpp"], [("Kepler solvers", ANO + ": m2e, n2h"), ("closed form conversions", ANO + ": e2f, f2e, h2f, f2h, zeta2f, f2zeta")])
IC = "src/core_astro/ic2par2ic.cpp"; EQ = "src/core_astro/ic2eq2ic.cpp"; EP = "src/core_astro/eq2par2eq.cpp"
p("P07", "Cartesian and Keplerian elements describe the same orbit",
  "Keplerian elements computed from a non-singular Cartesian state are the exact osculating elements (a<0 for hyperbolas, inclination in [0,pi], angles in [0,2pi]), and the Cartesian state computed from elements is the exact state they denote, so that converting back and forth in either order is the identity up to conditioning. Elements that denote no orbit (semi-major axis and eccentricity of different conics, or a hyperbolic true anomaly beyond the asymptote) are rejected with a domain error and all others are accepted.",
  ["inputs"], "all non-singular states and elements: every quadrant of every angle, prograde and retrograde inclinations, all eccentricities of both conics, any units",
  "Tests check hand-picked states in some quadrants and random round trips; half-plane and branch errors only show in particular combinations of quadrants.",
  [IC, "include/kep3/core_astro/ic2par2ic.hpp"], [("forward", IC + ": ic2par"), ("inverse", IC + ": par2ic")])
p("P08", "Cartesian and equinoctial elements describe the same orbit",
  "Modified equinoctial elements (direct or retrograde variant) computed from a Cartesian state are the exact ones (p, f, g, h, k, L), including for circular and equatorial orbits where Keplerian elements are singular, and the Cartesian state computed from such elements is the exact state they denote; the two conversions are inverse to each other in both variants for ellipses and hyperbolas.",
  ["inputs"], "all states and elements outside the variant's own singular inclination, both variants, both conics, circular, equatorial, polar and retrograde orbits, any units",
  "Tests check random round trips; they do not compare against an independent definition nor reach the switching of the longitude formula, exact equatorial or circular states.",
  [EQ, "include/kep3/core_astro/ic2eq2ic.hpp"], [("forward", EQ + ": ic2eq"), ("inverse", EQ + ": eq2ic")])
p("P09", "Any chain of element conversions ends on the same orbit",
  "Starting from any representation of an orbit (Cartesian, Keplerian, direct or retrograde equinoctial), every chain of conversions between representations that is defined on it leads to the same physical state, whatever the route; direct Keplerian-equinoctial conversions agree with going through Cartesian coordinates.",
  ["histories", "inputs"], "all conversion chains up to a depth on the graph of representations, from every orbit of an alphabet of non-singular orbits",
  "Tests round-trip one pair at a time, never triangles, so two conventions that agree pairwise but not globally pass.",
  [EP, IC, EQ], [("par2eq / eq2par", EP), ("ic2par / par2ic", IC), ("ic2eq / eq2ic", EQ)])
L = "src/lambert_problem.cpp"
p("P10", "Every Lambert solution joins the two positions in the given time",
  "For every pair of positions, time of flight, gravitational parameter and direction of motion accepted by the Lambert solver, each returned velocity pair is such that Kepler motion from the first position with the first velocity reaches the second position with the second velocity after exactly the time of flight, up to conditioning. The motion is counterclockwise seen from +z unless clockwise is requested, and solution number 2k-1 or 2k makes exactly k complete revolutions (solution 0 none).",
  ["inputs"], "all geometries (transfer angle in (0,2pi) excluding 0 and pi, any radius ratio, any orientation with a z component), times of flight from much shorter than parabolic to many revolutions, both directions, any units",
  "The tests propagate random instances at 1e-6..1e-13 for a few geometries; the series/closed-form switch regions, extreme times and large revolution counts are barely sampled.",
  [L, "include/kep3/lambert_problem.hpp"], [("time of flight in x and its regions", L + ": x2tof, x2tof2, hypergeometricF"), ("Householder iteration", L + ": householder, dTdx"), ("velocity reconstruction", L + ": constructor step 4")])
p("P11", "Lambert returns every solution, and only once",
  "For a requested maximum number of revolutions M, the solver reports N = min(M, the largest revolution number for which the boundary value problem is solvable), and returns exactly 2N+1 distinct solutions ordered 0, 1 left, 1 right, 2 left, 2 right, ..., the left branch being the one with the smaller value of the reported free parameter x; the reported x and velocity lists always have that length. Asking for more revolutions only appends solutions.",
  ["inputs"], "all geometries, directions and times of flight (on both sides of each minimum-time threshold) x all requested revolution counts",
  "Tests check only the count identity 2N+1 and residuals of what was returned; missing or duplicated solutions are invisible to them.",
  [L, "include/kep3/lambert_problem.hpp"], [("maximum number of revolutions (Halley on the minimum time)", L + ": constructor step 2.1"), ("left/right initial guesses", L + ": constructor step 3.2")])
p("P12", "Lambert solver respects symmetry, validates input and reports its problem",
  "A non-positive time of flight or gravitational parameter, or positions whose plane contains the z axis (so that direction is undefined), are rejected with a domain error; any other non-degenerate problem is accepted and the object reports back exactly the positions, time of flight and parameter it was given. Solutions transform with the problem: rotating about z, mirroring (with reversed direction), reversing time (exchanging the endpoints) or rescaling units changes them accordingly.",
  ["inputs"], "all problems of the P10/P11 alphabet, each composed with all short sequences of symmetry operations; all invalid argument combinations",
  "Symmetry relations tie different inputs to one another; tests look at inputs one at a time and check two throwing cases.",
  [L, "include/kep3/lambert_problem.hpp"], [("sanity checks and direction logic", L + ": constructor steps 0-1")])
SF = "src/leg/sims_flanagan.cpp"; SC = "src/leg/sf_checks.cpp"; SFH = "src/leg/sims_flanagan_hf.cpp"
p("P13", "A low-thrust leg depends only on its current settings, not on its history",
  "After any sequence of setter calls, a low-thrust (Sims-Flanagan) leg reports exactly the last values set, its segment counts satisfy segments = throttles/3, forward = floor(segments*cut), forward + backward = segments, and every quantity it computes equals that of a leg freshly constructed with those values. Computing or printing never changes the leg.",
  ["histories"], "all sequences up to a depth of constructors, setters (every overload), copies and evaluations over an alphabet of valid argument values, including changing the number of segments before or after the cut",
  "Tests set each field once and read it back; interactions between the cut, the throttles and cached segment counts over histories are not explored (and the leg tests are not part of the reliable suite).",
  [SF, "include/kep3/leg/sims_flanagan.hpp"], [("setters maintaining the segment counters", SF + ": set_throttles, set_cut, set")], [{"name":"segment counters","meaning":"nseg, nseg_fwd, nseg_bck derived from throttles and cut","where":"include/kep3/leg/sims_flanagan.hpp: m_nseg*"}])
p("P14", "A low-thrust leg rejects invalid settings and is unchanged by rejection",
  "Negative time of flight, thrust, specific impulse or gravitational parameter, a cut outside [0,1], and throttles that are empty or not a multiple of three are rejected with an exception by every way of setting them (construction, individual setters, collective setter, iterator pair), and valid values, including the boundary ones, are accepted. A rejected call leaves the leg exactly as it was.",
  ["histories", "fault_sequences"], "all sequences of valid and invalid setter calls up to a depth, for every setter and every class of invalid argument, alone and combined",
  "Tests check that some invalid constructor calls throw; they do not check the collective setter's validation nor the state after a failed call.",
  [SC, SF], [("validation", SC), ("collective setter", SF + ": set"), ("iterator setter", SF + ": set_throttles(it1,it2)")])
p("P15", "The low-thrust mismatch is that of the impulsive leg model",
  "The mismatch constraints equal the difference between the state obtained by flying the forward segments from the departure state (half-segment coasts around one impulse per segment of size thrust*duration/mass times the throttle, mass decreasing by the rocket equation) and the state obtained by flying the remaining segments backward from the arrival state; this holds for every number of segments and cut, including all-forward and all-backward legs. Flying a leg forward and using the resulting state as arrival state gives zero mismatch for every cut.",
  ["inputs", "configurations"], "all segment counts up to a bound, all forward/backward splits, throttle patterns (zero, unit, mixed, above one), elliptic and hyperbolic arcs, masses, thrust, Isp and units",
  "Tests compare a handful of hand-made legs; the claim is over every split, throttle pattern and orbit regime (and those tests are not in the reliable suite).",
  [SF, PL], [("forward/backward passes", SF + ": compute_mismatch_constraints")])
p("P16", "The low-thrust mismatch gradients are the derivatives of the mismatch",
  "The gradients returned for the mismatch constraints equal their partial derivatives with respect to the departure state and mass, the arrival state and mass (up to the documented sign convention), every throttle component and the time of flight, for every number of segments and every cut including none forward or none backward; they are finite whenever the mismatch is differentiable.",
  ["inputs", "configurations"], "all segment counts up to a bound, all splits, throttle patterns including zero throttles on some or all segments, orbit regimes, masses, thrust, Isp and units",
  "Tests compare some random legs with stored values or numerical differences to 1e-8; index, sign and per-segment errors for particular splits or throttle patterns pass.",
  [SF, STM, "include/kep3/linalg.hpp"], [("impulse chain rule", SF + ": gradients_multiple_impulses"), ("reversal for the backward half", SF + ": gradients_bck"), ("assembly", SF + ": compute_mc_grad")])
p("P17", "Throttle constraints and their gradient are exact for every leg",
  "The throttle constraints of a low-thrust leg are, segment by segment, the squared norm of that segment's throttle minus one, and their gradient is the block-diagonal matrix of twice the throttles (row-major, one row per segment), for every number of segments, cut and throttle values.",
  ["inputs", "configurations"], "all segment counts up to a bound and all throttle vectors over an alphabet, through every history of setters that leads to them",
  "Tests check one or two sizes.", [SF], [("constraints", SF + ": compute_throttle_constraints"), ("gradient", SF + ": compute_tc_grad")])
E = "src/epoch.cpp"; EH = "include/kep3/epoch.hpp"
p("P18", "Epochs denote the right instant in every calendar representation",
  "An epoch built from a civil date and time, from an ISO string (with trailing fields omitted) or from a Julian date in any of the three conventions denotes the same microsecond instant of the proleptic Gregorian calendar, reports the matching Julian day numbers, and prints as the ISO string that denotes it; printing and parsing back is the identity to the microsecond. Dates and strings that are malformed are rejected.",
  ["inputs"], "all civil days over several centuries with a set of times of day, all string lengths, all microsecond digits patterns, leap days, negative and fractional Julian dates, and the six Julian date conversion functions",
  "Tests construct a dozen epochs; calendar arithmetic is only settled by covering every day and every truncation.",
  [E, EH, "include/kep3/core_astro/convert_julian_dates.hpp"], [("civil date to instant", E + ": make_tp"), ("string parsing", E + ": epoch(const std::string&)"), ("Julian offsets", EH + ": jd, mjd, mjd2000")])
p("P19", "Epoch arithmetic is exact and order-compatible over any history",
  "Adding and subtracting durations to an epoch, in any order and through any of the operators, moves it by exactly their sum in microseconds; the difference of two epochs is the duration that separates them, and the six comparison operators form the total order given by that difference. No operation changes an operand it is not assigned to.",
  ["histories"], "all sequences of += -= + - with durations of both signs and several resolutions up to a depth, and all pairs of epochs reached",
  "Tests apply one or two operations.", [E, EH], [("operators", EH + ": operator+=, -=, +, -"), ("comparisons", E)])
PLN = "src/planet.cpp"; PLH = "include/kep3/planet.hpp"
p("P20", "The planet interface forwards what is provided and derives what is not",
  "A planet built from any user-defined body answers with that body's own ephemerides, name, gravity and radii, vectorised ephemerides, period and elements whenever the body provides them; what it does not provide is derived from the ephemerides (vectorised = the scalar ones in order; period and elements = those of the osculating orbit when a central body is known) or reported with the documented default or 'not implemented' error. Asking with an epoch equals asking with its MJD2000 value, and copies are independent and equal in behaviour.",
  ["configurations", "histories"], "all combinations of optional methods a user-defined body may provide x orbits (elliptic of any size, hyperbolic) x element types x queries, through copies, moves and assignments",
  "Tests define four bodies; the derived behaviours depend on which subset of optional methods exists and on the orbit.",
  [PLN, PLH], [("dispatch", PLH + ": planet_iface_impl"), ("derived elements and period", PLN + ": elements_from_posvel, period_from_energy")])
UK = "src/udpla/keplerian.cpp"
p("P21", "A Keplerian body moves on its orbit whatever way it is constructed",
  "A Keplerian body constructed from a position and velocity or from any of the supported element types denotes the same orbit: its ephemeris at any date is the exact two-body motion of that orbit from its reference epoch, its reported elements of every type denote that orbit, and its period is that of the orbit (NaN for a hyperbola). Elements that denote no orbit, or a mean anomaly asked of a hyperbola, are rejected.",
  ["inputs", "configurations"], "all orbits x element types of construction x element types of query x reference epochs x dates",
  "Tests build a few bodies near unit scale with zero angles.", [UK, "include/kep3/udpla/keplerian.hpp"], [("constructors", UK), ("ephemeris", UK + ": eph"), ("elements", UK + ": elements")])
UJ = "src/udpla/jpl_lp.cpp"
p("P22", "Low-precision planets follow the published JPL model over its whole range",
  "For each of the eight supported planets (names case-insensitive) and every date strictly between 1800 and 2050, position, velocity and elements are those of the published JPL approximate-position model; dates outside and unsupported names are rejected with an exception.",
  ["inputs"], "all eight planets x a grid of dates over 250 years including both range limits x element types x names",
  "Tests compare one or two dates per planet.", [UJ, "include/kep3/udpla/jpl_lp.hpp"], [("element tables and rates", UJ), ("validity range", UJ + ": _f_elements")])
FB = "src/core_astro/flyby.cpp"
p("P23", "Fly-by constraints, cost and outgoing velocity are mutually consistent",
  "The outgoing velocity of an unpowered fly-by keeps the relative speed and turns it by the angle of a hyperbola with the given pericentre about the planet, so checking it with the fly-by constraints gives equal speeds and a turn that is feasible exactly when the pericentre is not below the safe radius; the cost of a fly-by is zero exactly when both constraints are met and otherwise the norm of the smallest velocity change that repairs them.",
  ["inputs"], "all relative speeds, directions, pericentre radii, orientation angles, gravity parameters and safe radii, including feasible, infeasible and boundary turns",
  "Tests check a few numeric values.", [FB, "include/kep3/core_astro/flyby.hpp", "src/linalg.cpp"], [("constraints", FB + ": fb_con"), ("cost", FB + ": fb_dv"), ("outgoing velocity", FB + ": fb_vout")])
CORE = [PL, STM, IC, EQ, EP, L, SF]
p("P24", "Results depend only on the arguments, never on earlier calls",
  "Every computation of the library (propagation, transition matrices, conversions, Lambert, low-thrust legs) called with the same arguments returns bit-for-bit the same result whatever sequence of other computations was performed before it in the process; it also never modifies its arguments.",
  ["histories"], "all sequences of library calls up to a depth over an alphabet of operations and arguments chosen to collide (same operation with nearby arguments, different sizes, failing calls)",
  "Each test case makes its calls in one fixed order.", CORE, [("no state between calls", "all free functions of src/core_astro, src/lambert_problem.cpp, src/leg")])
p("P25", "Concurrent computations do not interfere",
  "Any number of threads may perform computations at the same time, each on its own objects or sharing objects they only read, and every thread obtains exactly the result it would have obtained alone, under every interleaving.",
  ["schedules"], "all interleavings, up to a preemption bound, of two or three threads performing library computations, with a scheduling point at every access to memory that is not the thread's own stack or freshly allocated heap",
  "The tests are single threaded.", CORE, [("re-entrancy of free functions and const methods", "src/core_astro, src/lambert_problem.cpp, src/leg")])
p("P26", "Serialization restores an equivalent object",
  "Saving any Lambert problem, low-thrust leg, epoch, planet or built-in body to an archive and loading it back, into a fresh or an already used object, yields an object with the same observable state that computes the same results, after any history of the original; saving does not alter the original.",
  ["histories"], "all objects reached by histories of constructors and setters, loaded into targets with every other state, through chains of save and load",
  "Tests round-trip one object of each class and compare a printed form.",
  ["include/kep3/lambert_problem.hpp", "include/kep3/leg/sims_flanagan.hpp", EH, "include/kep3/udpla/keplerian.hpp", "include/kep3/udpla/jpl_lp.hpp", PLH], [("serialize members", "each class' serialize()")])
TA = ["src/ta/stark.cpp", "src/ta/cr3bp.cpp"]
p("P27", "Shared integrator caches are built once and are safe under concurrency",
  "The cached Taylor integrators for the Stark and restricted three-body problems are built at most once per tolerance and then handed out as independent copies of the same prototype; requesting them, or the cache sizes, from several threads at once is free of data races and gives every thread the integrator for its own tolerance under every interleaving.",
  ["schedules", "histories"], "all interleavings up to a preemption bound of two or three threads requesting plain or variational integrators and cache sizes for equal or different tolerances, from empty and warm caches",
  "Tests request integrators from one thread.", TA + ["include/kep3/ta/stark.hpp", "include/kep3/ta/cr3bp.hpp"], [("caches and their mutexes", "src/ta/*.cpp: get_ta_*, get_ta_*_cache_dim")])
p("P28", "Stark and three-body dynamics and their variations are right",
  "The equations of motion handed to the integrators are those of a point-mass field with constant inertial thrust and mass flow thrust/effective exhaust velocity (Stark) and of the circular restricted three-body problem in the rotating frame, and the Stark propagation with derivatives returns the partial derivatives of the final state with respect to the initial state and the thrust vector.",
  ["inputs"], "all states, masses, thrust vectors (including zero), mass parameters and times over an alphabet, checked on the equations themselves and along integrated trajectories",
  "Tests integrate a few trajectories.", TA + ["src/stark_problem.cpp"], [("equations of motion", "src/ta/stark.cpp: stark_dyn; src/ta/cr3bp.cpp: cr3bp_dyn"), ("propagation", "src/stark_problem.cpp")])
p("P29", "The high-fidelity low-thrust leg depends only on its current settings",
  "After any sequence of setter calls a continuous-thrust leg reports exactly the last values set, keeps its segment counts consistent with throttles and cut, and computes the mismatch, throttle constraints and gradients of a leg freshly constructed with those values, which are those of piecewise-constant-thrust Stark motion flown forward and backward; a rejected call leaves it unchanged.",
  ["histories", "inputs"], "all sequences up to a depth of constructors, setters (each overload), copies and evaluations over an alphabet of valid and invalid values",
  "Tests set each field once; derived quantities cached per setter make the result depend on every history.",
  [SFH, "include/kep3/leg/sims_flanagan_hf.hpp", SC], [("setters and cached thrusts/parameters", SFH)], [{"name":"thrusts and integrator parameters","meaning":"cached quantities derived from throttles, thrust, mu, isp, tol","where":"include/kep3/leg/sims_flanagan_hf.hpp: m_thrusts, m_tas, m_tas_var"}])
VS = "src/udpla/vsop2013.cpp"; VSH = "include/kep3/udpla/vsop2013.hpp"
p("P30", "VSOP2013 bodies evaluate the right solution whatever was done before or meanwhile",
  "For each of the nine supported names (in any capitalisation), every finite non-negative threshold and every date, a VSOP2013 body returns, in metres and metres per second in the ecliptic J2000 frame, the position and velocity of the VSOP2013 solution of that planet truncated at that threshold and evaluated at that date (time counted from J2000 in thousands of Julian years), whatever other bodies were created, copied, moved, archived, destroyed or queried before in the process or meanwhile in other threads; two bodies with the same planet and threshold share one compiled solution, built once. Unknown names and negative or non-finite thresholds are rejected with an exception.",
  ["inputs", "histories", "schedules"], "all supported names and all names one edit away, thresholds from zero up, dates over millennia; all sequences up to a depth of constructions, copies, moves, archives, assignments and queries over several bodies; all interleavings up to a preemption bound of threads doing so",
  "The test asks four planets at one threshold and a few dates from one thread; the cache of compiled solutions makes every answer depend on the history of the process and on the other threads.",
  [VS, VSH], [("cache of compiled solutions and its lock", VS + ": vsop2013::impl, get_state"), ("time coordinate, units and frame", VS + ": eph"), ("validation", VS + ": vsop2013(std::string, double)"), ("archive", VS + ": save, load")],
  [{"name": "process-wide cache of compiled solutions", "meaning": "per planet and threshold, the compiled functions; a body holds a pointer into it", "where": VS}])
PK = "pykep/core.cpp"
p("P31", "The Python module is the library, unchanged",
  "Everything pykep exposes from the C++ library (constants, anomaly and element conversions, propagators and state transition matrices, Lambert's problem, fly-bys, epochs, planets, low-thrust legs, the Stark problem) returns, for every admitted form of the call (positional, keyword, defaults; lists, tuples, contiguous and strided arrays; numbers or epochs), exactly the values, shapes and settings the C++ library gives for the same arguments, with documented defaults, and raises whenever the library throws. Objects keep doing so through every sequence of attribute writes, copies, deep copies and pickling; a rejected write changes nothing; arrays returned own their data and stay valid after the object they came from is gone.",
  ["inputs", "histories"], "all exposed functions, classes and attributes x all forms of call x grids of valid and invalid arguments; all sequences of writes, copies and pickles of an exposed object up to a depth",
  "The Python tests call a few functions with one set of arguments in one call form; argument order, defaults, ownership and state after writes can be wrong everywhere else.",
  [PK, "pykep/common_utils.hpp", "pykep/common_utils.cpp", "pykep/expose_udplas.cpp", "pykep/__init__.py"],
  [("bindings", PK), ("C++ udplas", "pykep/expose_udplas.cpp"), ("copies and pickling", "pykep/common_utils.hpp: generic_copy_wrapper, pickle_getstate_wrapper"), ("names and constants", "pykep/__init__.py")])
MG = "pykep/trajopt/_mga.py"
p("P32", "A gravity-assist trajectory problem costs and shows the trajectory its chromosome encodes",
  "For every sequence of bodies, encoding (direct, alpha, eta), set of options (launch allowance, orbit insertion, one or two objectives) and chromosome, pykep.trajopt.mga returns the sum of the impulses (launch beyond the allowance, each powered fly-by, arrival or insertion into the target orbit) of the trajectory made of the single-revolution Lambert arcs between the bodies at the encoded dates; bounds have the chromosome's length and the requested limits; the encodings convert into each other without loss; printing, plotting and the planet made from the chromosome describe that same trajectory (each leg on its own dates, only between launch and arrival, outside of which it raises; every printed date, velocity and impulse; plots with the requested legs, points, units and styles). Arguments and chromosomes are never modified, an answer does not depend on earlier calls, and inconsistent constructions are refused. The gym's Cassini instances are such problems.",
  ["inputs", "histories"], "all sequences of bodies x encodings x options x chromosomes in any container; all orders of calls on one problem; all inconsistent constructor arguments",
  "The tests build a handful of problems and compare one fitness value with a stored number.",
  [MG, "pykep/trajopt/gym/_cassini_mga.py"], [("fitness", MG + ": fitness, _compute_dvs"), ("encodings", MG + ": alpha2direct, direct2alpha, eta2direct, direct2eta"), ("trajectory as a planet", MG + ": to_planet"), ("plots", MG + ": plot")])
DP, DL = "pykep/trajopt/_direct_point2point.py", "pykep/trajopt/_direct_pl2pl.py"
p("P33", "The direct low-thrust problems state the leg's constraints and their exact gradient",
  "For all end states or bodies, numbers of segments, cuts, scalings and chromosomes, direct_point2point and direct_pl2pl return the scaled final mass (negated), the mismatch and throttle constraints of the Sims-Flanagan leg the chromosome describes (and for bodies the two departure and arrival speed constraints), in the number and order they announce; the gradient, placed by the announced sparsity pattern, is the exact derivative of the fitness with respect to every variable and the pattern omits no non-zero derivative and repeats none. Every call answers for its own chromosome, whatever was evaluated, differentiated, printed or plotted before on the same problem, and leaves the chromosome unchanged.",
  ["inputs", "histories"], "all segment counts up to a bound x cuts x scalings x boundary states or pairs of bodies x chromosomes; all orders of calls on one problem object",
  "The tests compare a gradient with a numerical one for one problem with one cut; sign, scale and index slips in single blocks, or state kept between calls, escape them.",
  [DP, DL], [("decision vector to leg", DP + ": _set_leg_from_x"), ("fitness and gradient", DP + ": fitness, gradient, gradient_sparsity"), ("with moving ends", DL + ": fitness, gradient, gradient_sparsity")],
  [{"name": "leg of the problem", "meaning": "the one leg object every call rewrites from its chromosome", "where": DP + ": self.leg"}])
PP = "pykep/python_udpla.cpp"
p("P34", "A planet written in Python answers what its object answers",
  "A pykep.planet made from any Python object with an eph method returns what that object returns, at the date asked (numbers or epochs), as numbers of the right shape, and for each optional method (eph_v, name, extra information, gravity parameters, radii, period, elements) the object's own answer when it has a callable one, else the documented default: -1 or empty, its type's name, one eph per epoch, period and elements from the orbit when the central gravity parameter is known (NaN period on a hyperbola) and NotImplementedError otherwise. Exceptions raised by the object reach the caller unchanged and leave the planet usable; answers of the wrong kind or shape are refused, never read beyond their end; objects without eph, types and planets are refused. extract and is_ find exactly the type held; copies answer alike and a deep copy shares nothing. TLE and SPICE planets ask their propagators at the right instant and return SI units; planet_to_keplerian gives the osculating Keplerian planet at its date.",
  ["inputs", "histories"], "all subsets of optional methods, absent or not callable or appearing later; all words of copies with a write at any position; every method raising or answering wrongly; dates, bodies, frames and observers; all histories of de440s creation and destruction up to a length",
  "The tests define two or three Python planets; the 512 combinations, the errors, the copies and the stand-in-able packages' instants are untested.",
  [PP, "pykep/_patch_planet.py", "pykep/udpla/_tle.py", "pykep/udpla/_spice.py", "pykep/utils/_planet_to_keplerian.py", PK],
  [("dispatch to the Python object", PP), ("extraction", "pykep/_patch_planet.py"), ("deep copy, array of ephemerides", PK + ": planet_class"), ("instants and units", "pykep/udpla/_tle.py, pykep/udpla/_spice.py: eph, eph_v"), ("osculating planet", "pykep/utils/_planet_to_keplerian.py")])
p("P35", "What pykep draws is the trajectory of the object given",
  "Every plotting function draws, in the length unit asked, the very trajectory of its argument and returns the axes: a Lambert solution from its start to its end in its direction of motion (a multi-revolution one once around its ellipse), a ballistic arc over its time of flight, a planet at its date and its orbit over the range or one period, the requested solar-system planets and no others with their names, sizes and osculating orbits, a low-thrust leg as the arcs of its own transcription with grid points, mid points and throttle arrows where and only where asked and each arrow at its own segment, and the direct problems their bodies, ends and leg. This holds for every option and every split of the leg, including no forward or no backward segment. Propagation by true anomaly returns the exact state.",
  ["inputs"], "all options x units x resolutions x objects: all Lambert solutions and directions, all subsets of planets, legs of every length and cut",
  "Plots are not tested at all by the project.",
  ["pykep/plot/__init__.py", "pykep/plot/_lambert.py", "pykep/plot/_ballistic.py", "pykep/plot/_planet.py", "pykep/plot/_sf_leg.py", DP, DL],
  [("true-anomaly propagation", "pykep/plot/__init__.py: propagate_lagrangian_theta_v"), ("Lambert arc", "pykep/plot/_lambert.py: add_lambert"), ("legs", "pykep/plot/_sf_leg.py: add_sf_leg, add_sf_hf_leg"), ("planets", "pykep/plot/_planet.py")],
  None, None)
p("P36", "What an object prints about itself is its state",
  "The text any object prints (a leg of either kind, a Lambert problem, a Stark problem, a planet, a Keplerian or low-precision body) reports its present state: every labelled quantity is followed by the value of that quantity, to full precision, whatever the history of settings that led there; a quantity is named once. Lambert problems list every solution in order with its revolutions, branch, iterations, x, semi-major axis and the two velocities that belong to it; legs list their numbers of segments, settings, throttles and constraints; bodies their elements in the stated units, which are those of the orbit, their reference date and the state at that date; planets show their extra information when and only when there is one. Printing twice, through fmt, or after a copy gives the same text and changes nothing.",
  ["inputs", "histories"], "all settings and words of settings of both legs, all numbers of revolutions, all optional features of a planet, all shapes of orbits and unit systems",
  "The reports are how scripts and people read values that have no getter (chord, semiperimeter, lambda, semi-major axes, elements); tests only check that printing does not throw.",
  ["src/lambert_problem.cpp", "src/leg/sims_flanagan.cpp", "src/leg/sims_flanagan_hf.cpp", "src/stark_problem.cpp", "src/planet.cpp", "src/udpla/keplerian.cpp", "src/udpla/jpl_lp.cpp"],
  [("Lambert report", "src/lambert_problem.cpp: operator<<"), ("leg reports", "src/leg/sims_flanagan.cpp, src/leg/sims_flanagan_hf.cpp: operator<<"), ("bodies", "src/udpla/keplerian.cpp, src/udpla/jpl_lp.cpp: get_extra_info"), ("planets", "src/planet.cpp: operator<<")],
  None, None)
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P), "properties")
