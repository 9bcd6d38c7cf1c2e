"""P35: what the plotting functions draw, on axes that record every call (matplotlib itself is not installed)."""
import itertools as it
import math

from common import Run, THOROUGH, capi, flat, np

import pykep as pk

run = Run()
R = THOROUGH
DAY = 86400.0
UNITS = [pk.AU, 1.0, 2.5]


def close(a, b, tol=1e-11):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1e-300 + np.max(np.abs(b), initial=0.0))))


def pts(call):
    """The points of one plot / scatter call as an (N, 3) array."""
    a = call[1]
    return np.array([np.atleast_1d(np.asarray(x, float)) for x in a[:3]]).T


def prop(rv, t, mu):
    o = capi("prop", flat(rv), t, mu, 0)[:6]
    return [np.array(o[:3]), np.array(o[3:])]


# --- axes and the Sun ----------------------------------------------------------------------------------------------
def axes(i, c):
    c.state(i)
    c.trans()
    ax = pk.plot.make_3Daxis(**({} if i == 0 else {"figsize": (7, 7)}))
    kw = [{}, {"s": 3}, {"c": "k", "label": "x"}, {"alpha": 0.5}][i]
    c.expect(pk.plot.add_sun(ax, **kw) is ax and len(ax.calls) == 1 and ax.calls[0][0] == "scatter" and flat(pts(ax.calls[0])) == [0.0, 0.0, 0.0], "sun")
    c.expect(all(ax.calls[0][2].get(k) == v for k, v in kw.items()), "sun-kwargs")


run.section("sun", range(4), axes)

# --- propagation by true anomaly -----------------------------------------------------------------------------------
STATES = [[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]], [[1.1, 0.2, -0.3], [0.1, 0.9, 0.25]], [[1.0, 0.1, 0.2], [0.3, 2.2, -0.4]], [[0.9, -0.3, 0.1], [-0.2, -1.0, 0.3]],
          [[0.4, 0.1, 0.0], [-0.3, 1.8, 0.2]], [[2.0, 0.3, -0.4], [0.5, 0.2, 0.45]]]
TH = [0.0, 0.3, 1.0, math.pi / 2, 2.0, 3.0, math.pi, 3.5, 5.0, 6.2, -0.4, -1.5, 2 * math.pi]


def theta(cs, c):
    rv, mu, form = cs
    K = np.array(capi("ic2par", flat(rv), mu))
    ths = [t for t in TH if K[1] < 1 or math.cos(K[5] + t) > -1 / K[1] + 0.05 and abs(t) < 2.0]
    a = {"array": lambda x: (np.array(x[0]), np.array(x[1])), "list": lambda x: x, "tuple": lambda x: (tuple(x[0]), tuple(x[1]))}[form](rv)
    o = pk.plot.propagate_lagrangian_theta_v(rv=a, thetas=np.array(ths) if form == "array" else ths, mu=mu)
    c.state(rv, mu, form)
    c.expect(o.shape == (len(ths), 6), "theta-shape")
    for t, row in zip(ths, o):
        c.trans()
        # rotate about the angular momentum; size and velocity from the eccentricity vector
        h = np.cross(rv[0], rv[1])
        r = np.array(rv[0])
        e = np.cross(rv[1], h) / mu - r / np.linalg.norm(r)
        d = (r * math.cos(t) + np.cross(h, r) / np.linalg.norm(h) * math.sin(t)) / np.linalg.norm(r)
        w = flat(d * (h @ h / mu) / (1 + e @ d)) + flat(np.cross(h, e + d) * mu / (h @ h))
        c.within("theta-state", float(np.max(np.abs(row - w))), 1e-12 * max(1.0, max(map(abs, w))) / max(1 - K[1], 0.05) ** 2 if K[1] < 1 else 1e-10 * max(map(abs, w)), "%r %r" % (rv, t))
    c.trace()
    c.raises("theta-stm", NotImplementedError, lambda: pk.plot.propagate_lagrangian_theta_v(rv=a, thetas=ths, mu=mu, stm=True))


run.section("theta", list(it.product(STATES, (1.0, 0.9, 1.4), ("array", "list", "tuple"))), theta)
run.section("theta-defaults", [0], lambda _, c: c.expect(close(pk.plot.propagate_lagrangian_theta_v(), [[1, 0, 0, 0, 1, 0], [0, 1, 0, -1, 0, 0]], 1e-14), "theta-defaults"))


# --- Lambert arcs --------------------------------------------------------------------------------------------------
LR = [([1.0, 0.1, 0.2], [-0.4, 1.2, 0.1]), ([1.0, 0.0, 0.3], [-0.3, -1.1, 0.2]), ([0.8, -0.2, 0.1], [0.5, 0.9, -0.3]), ([1.0, 0.0, 0.0], [-1.2, -0.05, 0.3]),
      ([0.2, 0.3, 1.0], [1.1, -0.4, 0.1])]


def lambert(cs, c):
    (r0, r1), tof, mu, cw, mr, N, un = cs
    lp = pk.lambert_problem(r0=r0, r1=r1, tof=tof, mu=mu, cw=cw, multi_revs=mr)
    for sol in range(2 * lp.Nmax + 1):
        if sol >= len(lp.v0):
            continue
        ax = pk.plot.make_3Daxis()
        o = pk.plot.add_lambert(ax, lp, N=N, sol=sol, units=un, c="r", label="arc")
        c.state(cs, sol)
        c.trans(N)
        c.trace()
        if not c.expect(o is ax and len(ax.calls) == 1 and ax.calls[0][0] == "plot" and ax.calls[0][2] == {"c": "r", "label": "arc"}, "lambert-call"):
            continue
        p = pts(ax.calls[0]) * un
        c.expect(p.shape == (N, 3), "lambert-points")
        tl = 1e-9
        c.expect(close(p[0], r0, tl), "lambert-start|%r %d" % (cs, sol), lambda: "%r %r" % (p[0], r0))
        if sol == 0:
            c.expect(close(p[-1], r1, 1e-8), "lambert-end|%r %d" % (cs, sol), lambda: "%r %r" % (p[-1], r1))
        else:
            c.expect(close(p[-1], r0, tl), "lambert-multirev-closed|%r %d" % (cs, sol))
        # every point is on the conic of this very solution, run in the direction of motion
        v0 = np.array(lp.v0[sol])
        h = np.cross(r0, v0)
        e = np.cross(v0, h) / mu - np.array(r0) / np.linalg.norm(r0)
        for q in p:
            rr = np.linalg.norm(q)
            c.expect(abs(q @ h) <= 1e-9 * rr * np.linalg.norm(h) and abs(rr + q @ e - h @ h / mu) <= 1e-8 * rr, "lambert-conic|%r %d" % (cs, sol))
        tot = 0.0
        for a, b in zip(p, p[1:]):
            s, k = np.cross(a, b) @ h / np.linalg.norm(h), a @ b
            step = math.atan2(s, k) % (2 * math.pi)
            tot += step
        if N > 4:
            w = math.atan2(np.cross(r0, r1) @ h / np.linalg.norm(h), np.dot(r0, r1)) % (2 * math.pi) if sol == 0 else 2 * math.pi
            c.expect(abs(tot - w) < 1e-6, "lambert-sweep|%r %d" % (cs, sol), lambda: "%r %r" % (tot, w))
    for s in (2 * lp.Nmax + 1, 2 * lp.Nmax + 2, 99):
        c.raises("lambert-no-such-solution", ValueError, lambda: pk.plot.add_lambert(pk.plot.make_3Daxis(), lp, sol=s))
    c.state(cs)


run.section("lambert", list(it.product(LR, (0.7, 3.0, 25.0), (1.0, 0.8), (False, True), (0, 2), (5, 17, 60), UNITS)), lambert)


# --- ballistic arcs ------------------------------------------------------------------------------------------------
def ballistic(cs, c):
    rv, tof, mu, un, N = cs
    ax = pk.plot.make_3Daxis()
    s = [list(rv[0]), list(rv[1])]
    o = pk.plot.add_ballistic_arc(ax, s, tof, mu, units=un, N=N, c="g")
    c.state(cs)
    c.trans(N)
    c.trace()
    if not c.expect(o is ax and len(ax.calls) == 1 and ax.calls[0][0] == "plot" and ax.calls[0][2] == {"c": "g"} and s == rv, "ballistic-call"):
        return
    p = pts(ax.calls[0])
    w = np.array([prop(rv, tof * i / (N - 1), mu)[0] for i in range(N)]) / un
    c.expect(close(p, w, 1e-9), "ballistic-points|%r" % (cs,), lambda: "%r %r" % (p, w))


run.section("ballistic", list(it.product(STATES, (0.5, 3.0, -2.0, 12.0), (1.0, 0.9), UNITS, (2, 3, 10, 60))), ballistic)


# --- planets -------------------------------------------------------------------------------------------------------
class NoPeriod:
    def eph(self, t):
        return [[1.0 + t, 2.0, 3.0 * t], [1.0, 0.0, 3.0]]


def plist():
    o = [("jpl-" + b, lambda b=b: pk.udpla.jpl_lp(b)) for b in ("mercury", "earth", "jupiter", "neptune")]
    o.append(("kep", lambda: pk.udpla.keplerian(pk.epoch(12.5), [1.5e11, 0.4, 0.3, 0.4, 0.5, 0.6], pk.MU_SUN)))
    o.append(("kep-earth-orbit", lambda: pk.udpla.keplerian(pk.epoch(0), [7e6, 0.01, 1.3, 0.4, 0.5, 0.6], pk.MU_EARTH)))
    o.append(("python", NoPeriod))
    return o


PL = plist()


def planet(cs, c):
    (nm, mk), when, un = cs
    p = pk.planet(mk())
    for a in (when, pk.epoch(when)):
        ax = pk.plot.make_3Daxis()
        o = pk.plot.add_planet(ax, p, when=a, units=un, c="b", s=7)
        c.trans()
        w = np.array(p.eph(a)[0]) / un
        c.expect(o is ax and len(ax.calls) == 1 and ax.calls[0][0] == "scatter" and ax.calls[0][2] == {"c": "b", "s": 7} and close(pts(ax.calls[0])[0], w, 1e-15), "planet-point|" + nm)
    c.state(nm, when, un)
    c.trace()


run.section("planet", list(it.product(PL, (0.0, 123.25, -3000.5), UNITS)), planet)


def orbit(cs, c):
    (nm, mk), rng, N, un = cs
    p = pk.planet(mk())
    ax = pk.plot.make_3Daxis()
    c.state(nm, rng, N, un)
    c.trans(N)
    c.trace()
    if rng is None and nm == "jpl-neptune":
        # its period reaches past the validity of the ephemerides
        c.raises("orbit-out-of-validity", ValueError, lambda: pk.plot.add_planet_orbit(ax, p, units=un, N=N))
        c.expect(ax.calls == [], "orbit-out-of-validity-drawn")
        return
    if rng is None and nm == "python":
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            c.raises("orbit-no-period", NotImplementedError, lambda: pk.plot.add_planet_orbit(ax, p, units=un, N=N))
        c.expect(ax.calls == [], "orbit-no-period-drawn")
        return
    o = pk.plot.add_planet_orbit(ax, p, plot_range=rng, units=un, N=N, c="b", label="")
    if not c.expect(o is ax and len(ax.calls) == 1 and ax.calls[0][0] == "plot" and ax.calls[0][2] == {"c": "b", "label": ""}, "orbit-call"):
        return
    a, b = rng if rng is not None else (0.0, p.period() / DAY)
    q = pts(ax.calls[0])
    w = np.array([p.eph(a + (b - a) * i / (N - 1))[0] for i in range(N)]) / un
    c.expect(close(q, w, 1e-8), "orbit-points|" + nm, lambda: "%r %r" % (q, w))
    if rng is None and nm.startswith("kep"):
        c.expect(close(q[0], q[-1], 1e-7), "orbit-closed|" + nm, lambda: "%r %r" % (q[0], q[-1]))


run.section("orbit", list(it.product(PL, (None, (0.0, 100.0), [-500.0, -20.0], (50.0, 10.0)), (2, 5, 60), UNITS)), orbit)

NAMES = ["Mercury", "Venus", "Earth", "Mars", "Jupiter", "Saturn", "Uranus", "Neptune"]


def solar(cs, c):
    mask, when, sz, kw = cs
    bodies = [i + 1 for i in range(8) if mask >> i & 1]
    ax = pk.plot.make_3Daxis()
    s = [15, 2, 3, 3, 2, 8, 8, 5, 5] if sz == 0 else [10 * i + 1 for i in range(9)]
    k = {}
    if sz:
        k["s"] = s
    if when is not None:
        k["when"] = pk.epoch(when)
    o = pk.plot.add_solar_system(ax, bodies, **k) if kw == 0 else pk.plot.add_solar_system(ax, bodies=bodies[::-1], **k)
    t = pk.epoch(0.0 if when is None else when)
    c.state(cs)
    c.trace()
    c.trans(1 + 2 * len(bodies))
    if not c.expect(o is ax and len(ax.calls) == 1 + 2 * len(bodies), "solar-calls|%d" % mask):
        return
    c.expect(ax.calls[0][0] == "scatter" and flat(pts(ax.calls[0])) == [0, 0, 0] and ax.calls[0][2]["s"] == s[0], "solar-sun")
    got = {}
    for k_, a, kw_ in ax.calls[1:]:
        if k_ == "scatter":
            got[kw_["label"]] = (pts((k_, a, kw_))[0], kw_)
    c.expect(sorted(got) == sorted(NAMES[b - 1] for b in bodies), "solar-names|%d" % mask, lambda: repr(sorted(got)))
    lines = [(pts(x), x[2]) for x in ax.calls[1:] if x[0] == "plot"]
    for b in bodies:
        pl = pk.planet(pk.udpla.jpl_lp(NAMES[b - 1].lower()))
        w = np.array(pl.eph(t)[0]) / pk.AU
        q, k_ = got.get(NAMES[b - 1], (np.zeros(3), {}))
        c.expect(close(q, w, 1e-9) and k_.get("s") == s[b], "solar-planet|%s" % NAMES[b - 1], lambda: "%r %r" % (q, w))
        # its orbit: the line of the same colour, once around the osculating ellipse, through the planet
        ln = [p for p, kk in lines if kk.get("c") == k_.get("c")]
        if not c.expect(len(ln) == 1, "solar-orbit-line|%s" % NAMES[b - 1]):
            continue
        el = pl.elements(t, pk.el_type.KEP_F)
        rv = pl.eph(t)
        h = np.cross(rv[0], rv[1])
        mu = pl.get_mu_central_body()
        e = np.cross(rv[1], h) / mu - np.array(rv[0]) / np.linalg.norm(rv[0])
        P = ln[0] * pk.AU
        rr = np.linalg.norm(P, axis=1)
        c.expect(bool(np.all(np.abs(rr + P @ e - h @ h / mu) < 1e-6 * rr)) and bool(np.all(np.abs(P @ h) < 1e-7 * rr * np.linalg.norm(h))), "solar-orbit|%s" % NAMES[b - 1])
        sweep = sum(math.atan2(np.cross(x, y) @ h / np.linalg.norm(h), x @ y) for x, y in zip(P, P[1:]))
        c.expect(abs(sweep) > 2 * math.pi - 0.12, "solar-orbit-closed|%s" % NAMES[b - 1], lambda: "%r %r" % (sweep, el))


run.section("solar-system", list(it.product(range(256), (None, 1234.5), (0, 1), (0, 1) if R else (0,))), solar)


# --- Sims-Flanagan legs --------------------------------------------------------------------------------------------
def th(n, k):
    return [math.sin(1.7 * (i + 1) * (k + 1) + 0.3 * k) * (0.55 if (i + k) % 5 else 0.1) for i in range(3 * n)]


RV0 = [[1.0, 0.1, -0.1], [0.2, 1.0, -0.2]]
RV1 = [[1.2, -0.1, 0.1], [-0.2, 1.023, -0.44]]


def legw(kind, n, cut, k, tof, mu=1.0):
    S = pk.leg.sims_flanagan if kind == "sf" else pk.leg.sims_flanagan_hf
    return S(rvs=RV0, ms=1.3, throttles=th(n, k), rvf=RV1, mf=1.2, tof=tof, max_thrust=0.3, isp=0.9 / pk.G0 if kind == "sf" else 0.9, mu=mu, cut=cut)


def sf_model(l):
    """The Sims-Flanagan transcription: grid points, mid points, throttles and the states around each coast."""
    n = len(l.throttles) // 3
    nf = int(n * l.cut)
    dt = l.tof / n
    out = {}
    for d, rv, m, segs in ((1, l.rvs, l.ms, range(nf)), (-1, l.rvf, l.mf, range(n - 1, nf - 1, -1))):
        rv = [np.array(rv[0]), np.array(rv[1])]
        G, M, T, A = [rv[0]], [], [], []
        for i in segs:
            t = np.array(l.throttles[3 * i:3 * i + 3])
            A.append((rv, d * dt / 2, np.linalg.norm(t)))
            rv = prop(rv, d * dt / 2, l.mu)
            M.append(rv[0])
            T.append(t)
            rv = [rv[0], rv[1] + d * t * l.max_thrust * dt / m]
            m = m * math.exp(-d * np.linalg.norm(t) * l.max_thrust * dt / m / (l.isp * pk.G0))
            A.append((rv, d * dt / 2, np.linalg.norm(t)))
            rv = prop(rv, d * dt / 2, l.mu)
            G.append(rv[0])
        out[d] = (np.array(G), np.array(M).reshape(-1, 3), np.array(T).reshape(-1, 3), A, rv, m)
    return out


def sfleg(cs, c):
    n, cut, k, tof, un, N, opt, form = cs
    l = legw("sf", n, cut, k, tof)
    m = sf_model(l)
    # the transcription is the leg's own: its gap at the middle is the mismatch
    mc = l.compute_mismatch_constraints()
    f, b = m[1], m[-1]
    gap = list(f[4][0] - b[4][0]) + list(f[4][1] - b[4][1]) + [f[5] - b[5]]
    c.within("sfleg-model", max(abs(x - y) for x, y in zip(gap, mc)), 1e-9, "%r" % (cs,))
    ax = pk.plot.make_3Daxis()
    mid, grid, thr = opt & 1, opt >> 1 & 1, opt >> 2 & 1
    kw = dict(units=un, N=N, show_midpoints=bool(mid), show_gridpoints=bool(grid), show_throttles=bool(thr))
    if form:
        kw.update(length=0.7, arrow_length_ratio=0.2, alpha=0.4)
    o = pk.plot.add_sf_leg(ax, l, **kw)
    c.state(cs)
    c.trans(2 * n)
    c.trace()
    nf = int(n * cut)
    w = "%r" % (cs,)
    c.expect(o is ax, "sfleg-returns")
    arcs = [x for x in ax.calls if x[0] == "plot" and len(x[1]) == 3]
    marks = [x for x in ax.calls if x[0] == "plot" and len(x[1]) == 4]
    quiv = [x for x in ax.calls if x[0] == "quiver"]
    c.expect(len(arcs) + len(marks) + len(quiv) == len(ax.calls), "sfleg-other-calls|" + w)
    if c.expect(len(arcs) == 2 * n, "sfleg-arcs|" + w):
        for (rv, t, mag), x in zip(f[3] + b[3], arcs):
            p = pts(x)
            q = np.array([prop(rv, t * i / (N - 1), l.mu)[0] for i in range(N)]) / un
            c.expect(p.shape == q.shape and close(p, q, 1e-9), "sfleg-arc-points|" + w)
            col = x[2].get("c")
            c.expect(col is not None and len(col) == 3 and all(0 <= v <= 1 for v in col) and x[2].get("alpha") == (0.4 if form else None), "sfleg-arc-style|" + w, lambda: repr(x[2]))
    for flag, idx, sty in ((grid, 0, "k."), (mid, 1, "kx")):
        g = [pts(x) for x in marks if x[1][3] == sty]
        have = np.concatenate(g) if g else np.zeros((0, 3))
        want = np.concatenate([f[idx], b[idx]]) / un if flag else np.zeros((0, 3))
        c.expect(close(have, want, 1e-9), "sfleg-marks-%s|%s" % (sty, w), lambda: "%r %r" % (have, want))
    have = [np.concatenate([np.array([np.asarray(v, float) for v in x[1]]).T for x in quiv])] if quiv else [np.zeros((0, 6))]
    want = np.concatenate([np.hstack([f[1] / un, f[2]]), np.hstack([b[1] / un, b[2]])]) if thr else np.zeros((0, 6))
    c.expect(close(have[0], want, 1e-9), "sfleg-throttles|" + w, lambda: "%r %r" % (have, want))
    c.expect(all(x[2].get("length") == (0.7 if form else 0.1) and x[2].get("arrow_length_ratio") == (0.2 if form else 0.05) for x in quiv), "sfleg-arrow-style|" + w)


NC = list(it.product((1, 2, 3, 5, 8) if not R else range(1, 13), (0.0, 0.25, 0.5, 0.6, 1.0)))
run.section("sf-leg", [(n, cut, k, tof, un, N, opt, form) for n, cut in NC for k, tof in ((0, 1.2), (1, 3.0)) for un in (pk.AU, 2.5) for N in (2, 10) for opt in range(8) for form in (0, 1)], sfleg)


def hfleg(cs, c):
    n, cut, k, tof, un, N, opt, form = cs
    l = legw("hf", n, cut, k, tof)
    sh = np.array([np.array(x).reshape(N, 7) for x in l.get_state_history(N)])
    nf = int(n * cut)
    T = np.array(l.throttles).reshape(-1, 3)
    ax = pk.plot.make_3Daxis()
    kw = dict(units=un, N=N, show_gridpoints=bool(opt & 1), show_throttles=bool(opt & 2))
    ln, ratio = 0.1, 0.05
    if form:
        ln, ratio = 0.7, 0.2
        kw.update(length=ln, arrow_length_ratio=ratio)
    o = pk.plot.add_sf_hf_leg(ax, l, **kw)
    c.state(cs)
    c.trans(n)
    c.trace()
    w = "%r" % (cs,)
    c.expect(o is ax, "hfleg-returns")
    order = list(range(nf)) + list(range(n - 1, nf - 1, -1))
    want = np.concatenate([sh[i][:, :3] for i in order]) / un
    lines = [x for x in ax.calls if x[0] == "plot" and x[2].get("c") == "k"]
    have = np.concatenate([pts(x) for x in lines]) if lines else np.zeros((0, 3))
    c.expect(close(have, want, 1e-12), "hfleg-states|" + w)
    sc = [pts(x) for x in ax.calls if x[0] == "scatter"]
    have = np.concatenate(sc) if sc else np.zeros((0, 3))
    c.expect(close(have, want if opt & 1 else np.zeros((0, 3)), 1e-12), "hfleg-gridpoints|" + w)
    qv = [x for x in ax.calls if x[0] == "quiver"]
    tips = [x for x in ax.calls if x[0] == "plot" and x[2].get("c") != "k"]
    if opt & 2:
        have = np.concatenate([np.array([np.asarray(v, float) for v in x[1]]).T for x in qv]) if qv else np.zeros((0, 6))
        W = np.concatenate([np.hstack([sh[i][:, :3] / un, np.tile(T[i], (N, 1))]) for i in order])
        c.expect(close(have, W, 1e-12), "hfleg-throttles|" + w, lambda: "%r %r" % (have, W))
        have = np.concatenate([pts(x) for x in tips]) if tips else np.zeros((0, 3))
        c.expect(close(have, W[:, :3] + ln * W[:, 3:], 1e-12), "hfleg-tips|" + w)
        c.expect(all(x[2].get("length") == ln and x[2].get("arrow_length_ratio") == ratio for x in qv), "hfleg-arrow-style|" + w)
    else:
        c.expect(not qv and not tips, "hfleg-uncalled|" + w)


run.section("sf-hf-leg", [(n, cut, k, tof, un, N, opt, form) for n, cut in NC for k, tof in ((0, 1.2), (1, 2.0)) for un in (pk.AU, 2.5) for N in (2, 5) for opt in range(4) for form in (0, 1)], hfleg, 120)


# --- the direct problems draw themselves ---------------------------------------------------------------------------
def direct(cs, c):
    kind, n, cut, un, opt, own = cs
    from pykep.trajopt import direct_pl2pl, direct_point2point
    opts = dict(show_midpoints=bool(opt & 1), show_gridpoints=bool(opt & 2), show_throttles=bool(opt & 4))
    c.state(cs)
    c.trace()
    AU, EV = pk.AU, pk.EARTH_VELOCITY
    if kind == "p2p":
        u = direct_point2point(rvs=[np.array([1, 0.1, -0.1]) * AU, np.array([0.2, 1, -0.2]) * EV], rvf=[np.array([1.2, -0.1, 0.1]) * AU, np.array([-0.2, 1.023, -0.44]) * EV],
                               ms=1000, mu=pk.MU_SUN, max_thrust=0.12, isp=3000, tof_bounds=[200, 400], mf_bounds=[400, 1000], nseg=n, cut=cut)
        x = [900.0] + th(n, 1) + [300.0]
    else:
        a, b = pk.planet(pk.udpla.jpl_lp("earth")), pk.planet(pk.udpla.jpl_lp("mars"))
        u = direct_pl2pl(pls=a, plf=b, ms=1000, mu=pk.MU_SUN, max_thrust=0.12, isp=3000, t0_bounds=[6700, 6800], tof_bounds=[200, 400], mf_bounds=[400, 1000],
                         vinfs=3.0, vinff=0.0, nseg=n, cut=cut)
        x = [6710.0, 900.0] + [0.4, -0.3, 0.2] + [0.0, 0.0, 0.0] + th(n, 1) + [300.0]
        if len(x) != len(u.get_bounds()[0]):
            c.fail("direct-dimension", "%d %d" % (len(x), len(u.get_bounds()[0])))
            return
    ax = pk.plot.make_3Daxis() if own else None
    o = u.plot(x, ax=ax, units=un, length=0.3, arrow_length_ratio=0.2, **opts)
    c.expect(o is not None and (not own or o is ax), "direct-axes|" + kind)
    l = u.leg
    ref = pk.plot.make_3Daxis()
    pk.plot.add_sf_leg(ref, l, units=un, length=0.3, arrow_length_ratio=0.2, **opts)
    c.trans(len(o.calls))

    def sig(call):
        return (call[0], len(call[1]), tuple(np.round(np.concatenate([np.atleast_1d(np.asarray(a_, float)) for a_ in call[1] if not isinstance(a_, str)]) / 1e-9 / max(1.0, pk.AU / un), 0).tolist()))
    have = [sig(x_) for x_ in o.calls]
    rest = list(have)
    for x_ in ref.calls:
        s = sig(x_)
        if not c.expect(s in rest, "direct-leg|%s %r" % (kind, cs)):
            return
        rest.remove(s)
    ends = [np.array(l.rvs[0]) / un, np.array(l.rvf[0]) / un]
    got = [pts(x_)[0] for x_ in o.calls if x_[0] == "scatter"]
    want = ends if kind == "p2p" else ends + [np.array(u.pls.eph(x[0])[0]) / un, np.array(u.plf.eph(x[0] + x[-1])[0]) / un]
    c.expect(len(got) == len(want) and all(any(close(g, w_, 1e-11) for g in got) for w_ in want) and all(any(close(g, w_, 1e-11) for w_ in want) for g in got), "direct-points|%s %r" % (kind, cs),
             lambda: "%r %r" % (got, want))
    if kind == "pl2pl":
        for pl, t in ((u.pls, x[0]), (u.plf, x[0] + x[-1])):
            T = pl.period() / DAY
            w_ = np.array([pl.eph(T * i / 59.0)[0] for i in range(60)]) / un
            c.expect(any(pts(x_).shape == (60, 3) and close(pts(x_), w_, 1e-8) for x_ in o.calls if x_[0] == "plot" and len(x_[1]) == 3), "direct-orbit|%r" % (cs,))


run.section("direct", list(it.product(("p2p", "pl2pl"), (2, 5), (0.0, 0.6, 1.0), (pk.AU, 2.5, 1.0), range(8), (False, True))), direct)
run.go()
