"""P33: the direct low-thrust problems (pykep.trajopt.direct_point2point and direct_pl2pl)."""
import contextlib
import io
import itertools as it
import math
import re

from common import Run, THOROUGH, capi, flat, np, same

import pykep as pk
from pykep.trajopt import direct_pl2pl, direct_point2point

run = Run()
R = THOROUGH
DAY = 86400.0
AU, EV, MU = 149597870700.0, 29784.69183430911, 1.32712440041279419e20


def rnd(n, k):
    """A fixed non-repeating sequence in (-1, 1)."""
    return [math.sin(1.7 * (i + 1) * (k + 1) + 0.3 * k) * (0.9 if (i + k) % 5 else 0.2) for i in range(n)]


def leg2(rvs, ms, th, rvf, mf, tof, mt, isp, mu, cut):
    n = len(th) // 3
    o = capi("sf", rvs, ms, [float(len(th))] + list(th), rvf, mf, tof, mt, isp, mu, cut)
    p = 3 + 6 + 1 + 3 * n + 6 + 6
    mc, tc = o[p:p + 7], o[p + 7:p + 7 + n]
    q = p + 7 + n
    tg = np.array(o[q:q + 3 * n * n]).reshape(n, 3 * n)
    q += 3 * n * n
    gs = np.array(o[q:q + 49]).reshape(7, 7)
    gf = np.array(o[q + 49:q + 98]).reshape(7, 7)
    gt = np.array(o[q + 98:q + 98 + 7 * (3 * n + 1)]).reshape(7, 3 * n + 1)
    return np.array(mc), np.array(tc), tg, gs, gf, gt


RVS = [[np.array([1, 0.1, -0.1]) * AU, np.array([0.2, 1, -0.2]) * EV], [np.array([-0.3, 0.9, 0.2]) * AU, np.array([-1.0, -0.3, 0.1]) * EV]]
RVF = [[np.array([-1.2, -0.1, 0.1]) * AU, np.array([0.2, -1.023, 0.44]) * EV], [np.array([0.4, -1.3, -0.2]) * AU, np.array([0.8, 0.3, 0.05]) * EV]]


def close(a, b, tol=1e-11, floor=1e-13):
    a, b = flat(a), flat(b)
    return len(a) == len(b) and all(abs(x - y) <= floor + tol * abs(y) for x, y in zip(a, b))


def p2p_model(P, x):
    n = P["nseg"]
    mc, tc, tg, gs, gf, gt = leg2(P["rvs"], P["ms"], x[1:-1], P["rvf"], x[0], x[-1] * DAY, P["mt"], P["isp"], P["mu"], P["cut"])
    sc = np.array([P["rs"]] * 3 + [P["vs"]] * 3 + [P["mS"]])
    f = np.concatenate([[-x[0] / P["mS"]], mc / sc, tc])
    J = np.zeros((8 + n, 2 + 3 * n))
    J[0, 0] = -1 / P["mS"]
    J[1:8, 0] = gf[:, 6] / sc
    J[1:8, 1:-1] = gt[:, :-1] / sc[:, None]
    J[1:8, -1] = gt[:, -1] / sc * DAY
    J[8:, 1:-1] = tg
    return f, J


def acc(r, mu):
    return -mu * np.array(r) / np.linalg.norm(r) ** 3


def pl_model(P, x):
    n = P["nseg"]
    a, b = capi("eph", *P["ds"], x[0]), capi("eph", *P["df"], x[0] + x[-1])
    rs, vs, rf, vf = np.array(a[:3]), np.array(a[3:]), np.array(b[:3]), np.array(b[3:])
    mc, tc, tg, gs, gf, gt = leg2([rs, vs + np.array(x[2:5])], P["ms"], x[8:-1], [rf, vf + np.array(x[5:8])], x[1], x[-1] * DAY, P["mt"], P["isp"], P["mu"], P["cut"])
    sc = np.array([P["rs"]] * 3 + [P["vs"]] * 3 + [P["mS"]])
    vi = (sum(q * q for q in x[2:5]) - (P["vinfs"] * 1000) ** 2) / P["vs"] ** 2
    vo = (sum(q * q for q in x[5:8]) - (P["vinff"] * 1000) ** 2) / P["vs"] ** 2
    f = np.concatenate([[-x[1] / P["mS"]], mc / sc, tc, [vi, vo]])
    J = np.zeros((10 + n, 9 + 3 * n))
    J[0, 1] = -1 / P["mS"]
    ds = np.concatenate([vs, acc(rs, P["mu"])])
    df = np.concatenate([vf, acc(rf, P["mu"])])
    J[1:8, 0] = (gs[:, :6] @ ds + gf[:, :6] @ df) / sc * DAY
    J[1:8, 1] = gf[:, 6] / sc
    J[1:8, 2:5] = gs[:, 3:6] / sc[:, None]
    J[1:8, 5:8] = gf[:, 3:6] / sc[:, None]
    J[1:8, 8:-1] = gt[:, :-1] / sc[:, None]
    J[1:8, -1] = (gt[:, -1] + gf[:, :6] @ df) / sc * DAY
    J[8:8 + n, 8:-1] = tg
    J[8 + n, 2:5] = 2 * np.array(x[2:5]) / P["vs"] ** 2
    J[9 + n, 5:8] = 2 * np.array(x[5:8]) / P["vs"] ** 2
    return f, J


def gradient_checks(c, udp, x, J, nm, exact, fmodel):
    """The sparse gradient, scattered by the sparsity pattern, is the Jacobian; nothing outside the pattern."""
    sp = [tuple(int(q) for q in p) for p in udp.gradient_sparsity()]
    g = udp.gradient(x)
    c.trans(2)
    if not c.expect(len(sp) == len(g), nm + "-gradient-length", lambda: "%d %d" % (len(sp), len(g))):
        return
    c.expect(len(set(sp)) == len(sp), nm + "-sparsity-duplicates")
    G = np.zeros(J.shape)
    ok = all(0 <= i < J.shape[0] and 0 <= j < J.shape[1] for i, j in sp)
    if not c.expect(ok, nm + "-sparsity-range"):
        return
    for (i, j), v in zip(sp, g):
        G[i, j] = v
    cut = np.ones(J.shape, bool)
    for i, j in sp:
        cut[i, j] = False
    S = np.abs(J).max(axis=1)[:, None] + 1e-300
    E = np.abs(G - J) / S
    k = np.unravel_index(np.argmax(E), E.shape)
    c.within(nm + "-gradient", float(E[k]), exact, "row %d column %d" % k)
    c.expect(not np.any(np.abs(J[cut]) > exact * np.broadcast_to(S, J.shape)[cut]), nm + "-sparsity-misses")
    # against differences of the fitness itself (fourth order, steps per variable)
    x = np.array(x, float)
    for j in range(J.shape[1]):
        h = fmodel(j, x[j])
        fs = []
        for m in (-2, -1, 1, 2):
            y = x.copy()
            y[j] += m * h
            fs.append(np.array(udp.fitness(y)))
        D = (fs[0] - 8 * fs[1] + 8 * fs[2] - fs[3]) / (12 * h)
        e = np.abs(G[:, j] - D)
        sc = np.abs(J).max(axis=1) * 1e-8 + np.abs(D) * 1e-8 + np.abs(np.array(udp.fitness(x))) * 2e-14 / h + 3e-14 / h
        q = int(np.argmax(e / sc))
        c.within(nm + "-difference", float(e[q]), float(sc[q]) * 4, "row %d column %d" % (q, j))


def kw_p2p(P):
    return dict(rvs=P["rvs"], rvf=P["rvf"], ms=P["ms"], mu=P["mu"], max_thrust=P["mt"], isp=P["isp"], tof_bounds=P["tb"], mf_bounds=P["mb"], nseg=P["nseg"], cut=P["cut"],
                mass_scaling=P["mS"], r_scaling=P["rs"], v_scaling=P["vs"], with_gradient=P["wg"])


def p2p(cs, c):
    k, n, cut, sc, form = cs
    P = dict(rvs=RVS[k % 2], rvf=RVF[(k // 2) % 2], ms=[1000.0, 1200.0][k % 2], mu=MU, mt=[0.12, 0.4][k % 2], isp=[3000.0, 2500.0][k % 2], tb=[80.0, 400.0], mb=[200.0, 950.0],
             nseg=n, cut=cut, mS=[1000.0, 700.0][sc], rs=[AU, 0.5 * AU][sc], vs=[EV, 2e4][sc], wg=bool(k % 2 == 0))
    udp = direct_point2point(**kw_p2p(P)) if form == "kw" else direct_point2point(*[kw_p2p(P)[q] for q in (
        "rvs", "rvf", "ms", "mu", "max_thrust", "isp", "tof_bounds", "mf_bounds", "nseg", "cut", "mass_scaling", "r_scaling", "v_scaling", "with_gradient")])
    c.state(str(cs))
    xs = [[700.0 + 31.0 * i] + rnd(3 * n, i + k) + [150.0 + 77.5 * i] for i in range(3)]
    lb, ub = udp.get_bounds()
    c.expect(flat(lb) == [200.0] + [-1.0] * (3 * n) + [80.0] and flat(ub) == [950.0] + [1.0] * (3 * n) + [400.0], "p2p-bounds", lambda: "%r %r" % (lb, ub))
    c.expect(udp.get_nec() == 7 and udp.get_nic() == n and udp.has_gradient() is P["wg"], "p2p-dimensions")
    want = [p2p_model(P, x) for x in xs]
    for x, (f, J) in zip(xs, want):
        for a in (x, np.array(x), tuple(x)):
            g = udp.fitness(a)
            c.trans()
            c.trace()
            c.expect(close(g, f) and len(g) == 8 + n, "p2p-fitness", lambda: "%r %r" % (g, f))
        gradient_checks(c, udp, np.array(xs[0]) if x is xs[0] else np.array(x), J, "p2p", 1e-11,
                        lambda j, v, m=J.shape[1]: 1e-3 if 0 < j < m - 1 else (0.2 if j else 1.0)) if x is xs[k % 3] else None
    for x in xs:
        mc, tc = leg2(P["rvs"], P["ms"], x[1:-1], P["rvf"], x[0], x[-1] * DAY, P["mt"], P["isp"], P["mu"], P["cut"])[:2]
        leg_report(c, "p2p", ask(udp, "pretty", x), P, P["rvs"], P["rvf"], x[0], x[-1] * DAY, x[1:-1], mc, tc)
    words(c, lambda: direct_point2point(**kw_p2p(P)), xs, [[0], [1], list(range(1, 1 + 3 * n)), [3 * n], [3 * n + 1]], "p2p")


def ask(udp, f, x):
    """One call, as a comparable value."""
    if f in ("fitness", "gradient"):
        return flat(getattr(udp, f)(x))
    if f == "pretty":
        with contextlib.redirect_stdout(io.StringIO()) as s:
            udp.pretty(x)
        return s.getvalue()
    ax = udp.plot(x, ax=pk.plot.make_3Daxis(), show_throttles=True, show_midpoints=True, show_gridpoints=True)
    return [flat([flat(q) for q in a[:3] if not isinstance(q, str)]) for _, a, _ in ax.calls]


def numbers(t):
    return [float(z) for z in re.findall(r"(?<![\w.])[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?(?![\w.])", t.replace("np.float64", ""))]


def leg_report(c, nm, text, P, rvs, rvf, mf, tof, th, mc, tc):
    """The report of the problem shows the leg its chromosome describes: every labelled number."""
    rows = {}
    for l in text.split("\n"):
        if ":" in l:
            rows.setdefault(l.split(":")[0].strip(), []).append(numbers(l.split(":", 1)[1]))
    n = len(th) // 3
    nf = int(n * P["cut"])
    want = {"Number of segments": [n], "Number of fwd segments": [nf], "Number of bck segments": [n - nf], "Maximum thrust": [P["mt"]], "Central body gravitational parameter": [P["mu"]],
            "Specific impulse": [P["isp"]], "Time of flight": [tof], "Initial mass": [P["ms"]], "Final mass": [mf], "State at departure": flat(rvs), "State at arrival": flat(rvf),
            "Throttles values": list(th), "Throttle constraints": list(tc)}
    for k, w in want.items():
        c.eval()
        c.expect(len(rows.get(k, [])) == 1 and close(rows[k][0], w, 1e-12, 1e-12), nm + "-pretty|" + k, lambda: "%r, not %r" % (rows.get(k), w))
    g = rows.get("Mismatch constraints", [[]])[0]
    c.expect(len(g) == 7 and all(abs(a - b) <= 1e-9 * (abs(b) + m) for a, b, m in zip(g, mc, [1e9] * 3 + [1e3] * 3 + [1.0])), nm + "-pretty|mismatch", lambda: "%r, not %r" % (g, mc))
    return rows


def words(c, mk, xs, groups, nm):
    """All words of two calls on one problem object: every call answers for its own chromosome, as a fresh object does.
    The chromosomes include ones that differ from the first in one group of variables only."""
    near = []
    for g in groups:
        y = list(xs[0])
        for k in g:
            y[k] = xs[1][k]
        near.append(y)
    ch = list(xs) + near
    ops = [(f, i) for f in ("fitness", "gradient", "pretty", "plot") for i in (0, 1)] + [("fitness", 2), ("gradient", 2)]
    ref = {}

    def want(f, i):
        if (f, i) not in ref:
            ref[f, i] = ask(mk(), f, np.array(ch[i]))
        return ref[f, i]

    c.expect(want("pretty", 0) != want("pretty", 1) and want("fitness", 0) != want("fitness", 1), nm + "-words-differ")
    for i in range(len(xs), len(ch)):
        # x[0] and x[1] may agree on a group only by accident
        c.expect(ch[i] != ch[0] and want("fitness", i) != want("fitness", 0), nm + "-words-near-differ")
    udp = mk()
    todo = [w for w in it.product(ops, repeat=2) if not (w[0] == w[1] and w[0][0] == "plot")]
    vals = ("fitness", "gradient")
    todo += [((f, i), (g, j)) for f in vals for g in vals for k in range(len(xs), len(ch)) for i, j in ((0, k), (k, 0))]
    todo += [((f, k), (g, 0)) for f in ("pretty", "plot") for g in vals for k in range(len(xs), len(ch))]
    for w in todo:
        for f, i in w:
            x = np.array(ch[i])
            k = x.copy()
            r = ask(udp, f, x)
            c.trans()
            c.expect(r == want(f, i), nm + "-word|%s after %s" % (f, w[0][0]), lambda: str(w))
            c.expect(np.array_equal(x, k), nm + "-chromosome-modified|" + f)
    # One array, rewritten in place between the calls
    for f, g in it.product(vals, repeat=2):
        for j in range(1, len(ch)):
            x = np.array(ch[0])
            udp = mk()
            ask(udp, f, x)
            x[:] = ch[j]
            r = ask(udp, g, x)
            c.trans()
            c.expect(r == want(g, j), nm + "-word-in-place|%s after %s" % (g, f), lambda: str((f, g, j)))


NSEG = (1, 2, 3, 5) + ((8, 10, 14) if R else ())
CUTS = (0.0, 0.34, 0.6, 1.0) + ((0.2, 0.5, 0.8) if R else ())
run.section("point2point", list(it.product(range(4), NSEG, CUTS, (0, 1), ("kw", "pos"))), p2p)

KEP = {"a": [1.02 * AU, 0.017, 0.02, 0.4, 1.5, 0.3], "b": [1.5 * AU, 0.09, 0.033, 0.8, 4.9, 1.2], "c": [0.7 * AU, 0.2, 0.3, 2.0, 1.0, -2.0]}


def planet(k):
    if k in KEP:
        return pk.planet(pk.udpla.keplerian(pk.epoch(0.0), KEP[k], MU, k)), [[1.0, 0.0], KEP[k], [MU], k, [-1.0, -1.0, -1.0, 1.0]]
    return pk.planet(pk.udpla.jpl_lp(k)), [[0.0], k]


def pl2pl(cs, c):
    ps, pf, k, n, cut, sc, form = cs
    a, da = planet(ps)
    b, db = planet(pf)
    P = dict(ds=da, df=db, ms=[1500.0, 1200.0][k % 2], mu=MU, mt=[0.12, 0.4][k % 2], isp=[3000.0, 2500.0][k % 2], t0b=[6700.0, 6800.0], tb=[200.0, 300.0], mb=[1300.0, 1500.0],
             vinfs=[3.0, 1.5][k % 2], vinff=[0.0, 0.7][k % 2], nseg=n, cut=cut, mS=[1500.0, 700.0][sc], rs=[AU, 0.5 * AU][sc], vs=[EV, 2e4][sc], wg=bool(k % 2 == 0))
    kw = dict(pls=a, plf=b, ms=P["ms"], mu=P["mu"], max_thrust=P["mt"], isp=P["isp"], t0_bounds=P["t0b"], tof_bounds=P["tb"], mf_bounds=P["mb"], vinfs=P["vinfs"], vinff=P["vinff"],
              nseg=n, cut=cut, mass_scaling=P["mS"], r_scaling=P["rs"], v_scaling=P["vs"], with_gradient=P["wg"])
    udp = direct_pl2pl(**kw) if form == "kw" else direct_pl2pl(*kw.values())
    c.state(str(cs))
    xs = [[6710.5 + 17.0 * i, 1300.0 + 31.0 * i] + [700.0 * q for q in rnd(6, i + 5)] + rnd(3 * n, i + k) + [205.0 + 37.5 * i] for i in range(3)]
    lb, ub = udp.get_bounds()
    s, e = P["vinfs"] * 1000, P["vinff"] * 1000
    c.expect(close(lb, [6700.0, 1300.0] + [-s] * 3 + [-e] * 3 + [-1.0] * (3 * n) + [200.0]) and close(ub, [6800.0, 1500.0] + [s] * 3 + [e] * 3 + [1.0] * (3 * n) + [300.0]),
             "pl2pl-bounds", lambda: "%r %r" % (lb, ub))
    c.expect(udp.get_nec() == 7 and udp.get_nic() == n + 2 and udp.has_gradient() is P["wg"], "pl2pl-dimensions")
    want = [pl_model(P, x) for x in xs]
    kep = ps in KEP and pf in KEP
    for i, (x, (f, J)) in enumerate(zip(xs, want)):
        for q in (x, np.array(x), tuple(x)):
            g = udp.fitness(q)
            c.trans()
            c.trace()
            c.expect(close(g, f) and len(g) == 10 + n, "pl2pl-fitness", lambda: "%r %r" % (g, f))
        if i == k % 3:
            if kep:
                gradient_checks(c, udp, np.array(x), J, "pl2pl", 1e-11,
                                lambda j, v, m=J.shape[1]: 1e-3 if 7 < j < m - 1 else (0.05 if j in (0, m - 1) else 1.0))
            else:
                sp = [tuple(q) for q in udp.gradient_sparsity()]
                g = udp.gradient(np.array(x))
                G = np.zeros(J.shape)
                for (r, q), v in zip(sp, g):
                    G[r, q] = v
                S = np.abs(J).max(axis=1)[:, None] + 1e-300
                c.within("pl2pl-gradient", float(np.max(np.abs(G - J) / S)), 1e-11, "planets not Keplerian")
    words(c, lambda: direct_pl2pl(**kw), xs, [[0], [1], [2, 3, 4], [5, 6, 7], list(range(8, 8 + 3 * n)), [7 + 3 * n], [8 + 3 * n]], "pl2pl")
    for x in xs:
        o = ask(udp, "pretty", np.array(x))
        ra, rb = capi("eph", *P["ds"], x[0]), capi("eph", *P["df"], x[0] + x[-1])
        va, vb = [p + q for p, q in zip(ra[3:], x[2:5])], [p + q for p, q in zip(rb[3:], x[5:8])]
        mc, tc = leg2([ra[:3], va], P["ms"], x[8:-1], [rb[:3], vb], x[1], x[-1] * DAY, P["mt"], P["isp"], P["mu"], P["cut"])[:2]
        rows = leg_report(c, "pl2pl", o, P, [ra[:3], va], [rb[:3], vb], x[1], x[-1] * DAY, x[8:-1], mc, tc)
        txt = {l.split(":")[0].strip(): l.split(":", 1)[1].strip() for l in o.split("\n") if ":" in l}
        c.expect(txt.get("Departure") == a.get_name() and txt.get("Arrival") == b.get_name(), "pl2pl-pretty|bodies", lambda: o)
        for lab, t in (("Launch epoch", x[0]), ("Arrival epoch", x[0] + x[-1])):
            z = txt.get(lab, "").split()
            c.expect(len(z) > 1 and abs(float(z[0]) - t) < 1e-5 and z[-1] == str(pk.epoch(t)), "pl2pl-pretty|" + lab, lambda: "%r %r" % (z, str(pk.epoch(t))))
        c.expect(len(rows.get("Time of flight (days)", [])) == 1 and abs(rows["Time of flight (days)"][0][0] - x[-1]) < 1e-5, "pl2pl-pretty|tof", lambda: o)
        c.expect(close(rows.get("Final mass (kg)", [[]])[0], [x[1]]), "pl2pl-pretty|mass", lambda: o)
        for lab, v in (("Launch DV (km/s)", x[2:5]), ("Arrival DV (km/s)", x[5:8])):
            l = [l for l in o.split("\n") if l.startswith(lab)]
            g = numbers(l[0][len(lab):].replace("- [", " [")) if len(l) == 1 else []
            w = [math.sqrt(sum(q * q for q in v)) / 1000] + [q / 1000 for q in v]
            c.expect(len(g) == 4 and all(abs(p - q) <= 1e-8 for p, q in zip(g, w)), "pl2pl-pretty|" + lab, lambda: "%r, not %r" % (g, w))
    c.sample("%r %r" % (cs, flat(udp.fitness(xs[0]))[:4]))


run.section("pl2pl", list(it.product("ab", "bc", range(2), NSEG, CUTS, (0, 1), ("kw",))) + list(it.product(("earth",), ("mars", "venus"), range(2), (2, 5), (0.0, 0.6), (0, 1), ("kw", "pos"))),
            pl2pl, 120)


def defaults(kind, c):
    c.trans()
    c.state(kind)
    if kind == "p2p":
        u = direct_point2point()
        P = dict(rvs=RVS[0], rvf=RVF[0], ms=1000.0, mu=MU, mt=0.12, isp=3000.0, nseg=10, cut=0.6, mS=1000.0, rs=AU, vs=EV)
        x = [800.0] + rnd(30, 1) + [250.0]
        f, J = p2p_model(P, x)
        lb, ub = u.get_bounds()
        c.expect(flat(lb) == [200.0] + [-1.0] * 30 + [80.0] and flat(ub) == [1000.0] + [1.0] * 30 + [400.0], "p2p-default-bounds")
    else:
        u = direct_pl2pl()
        P = dict(ds=[[0.0], "earth"], df=[[0.0], "mars"], ms=1500.0, mu=MU, mt=0.12, isp=3000.0, vinfs=3.0, vinff=0.0, nseg=10, cut=0.6, mS=1500.0, rs=AU, vs=EV)
        x = [6750.0, 1400.0] + [500.0 * q for q in rnd(6, 3)] + rnd(30, 1) + [250.0]
        f, J = pl_model(P, x)
        lb, ub = u.get_bounds()
        c.expect(flat(lb) == [6700.0, 1300.0] + [-3000.0] * 3 + [0.0] * 3 + [-1.0] * 30 + [200.0] and flat(ub) == [6800.0, 1500.0] + [3000.0] * 3 + [0.0] * 3 + [1.0] * 30 + [300.0],
                 "pl2pl-default-bounds")
    c.expect(u.has_gradient() is True, "default-has-gradient")
    c.expect(close(u.fitness(x), f), "default-fitness|" + kind)
    v = type(u)()
    c.expect(same(flat(v.fitness(x)), flat(u.fitness(x))), "default-twice|" + kind)
    # two objects do not share state
    if kind == "p2p":
        w = direct_point2point(ms=900.0, cut=0.3, max_thrust=0.3)
    else:
        w = direct_pl2pl(ms=1450.0, cut=0.3, max_thrust=0.3)
    w.fitness(x)
    c.expect(close(u.fitness(x), f), "default-shared|" + kind)


run.section("defaults", ["p2p", "pl2pl"], defaults)
run.go()
