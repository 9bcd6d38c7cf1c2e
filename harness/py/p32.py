"""P32: the multiple gravity assist problem (pykep.trajopt.mga and the Cassini instances of the gym)."""
import contextlib
import copy
import io
import itertools as it
import math
import re

from common import Run, THOROUGH, capi, flat, np, same

import pykep as pk
from pykep.trajopt import mga

run = Run()
R = THOROUGH
DAY = 86400.0
J = {b: pk.planet(pk.udpla.jpl_lp(b)) for b in ("mercury", "venus", "earth", "mars", "jupiter", "saturn")}
MU = 1.32712440041279419e20

SEQS = [("earth", "venus"), ("earth", "mars"), ("earth", "venus", "earth"), ("venus", "mercury", "venus", "mercury"), ("earth", "venus", "mars", "jupiter"),
        ("earth", "venus", "venus", "earth", "jupiter", "saturn")]
TOFS = {1: [[150.0], [210.3]], 2: [[120.0, 260.0], [95.5, 401.25]], 3: [[130.0, 200.0, 410.5], [88.0, 95.5, 350.0]],
        5: [[167.0, 424.0, 53.0, 589.0, 2200.0], [100.0, 300.5, 200.0, 700.0, 3000.0]]}
T0S = [0.0, -789.5, 5000.25]


def norm(a):
    return math.sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2])


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def model(seq, t0, T, vinf, oi, et, rt):
    """The trajectory, rebuilt from the C++ library: list of epochs, legs (r0, v0, r1, v1), launch dv (total, charged), fly-by dvs, arrival dv."""
    ep = [t0]
    for t in T:
        ep.append(ep[-1] + t)
    rv = []
    for b, e in zip(seq, ep):
        x = capi("eph", [0.0], b, e)
        rv.append((x[:3], x[3:]))
    legs = []
    for i, t in enumerate(T):
        w = capi("lambert", rv[i][0], rv[i + 1][0], t * DAY, MU, 0, 0)
        legs.append((rv[i][0], w[9:12], rv[i + 1][0], w[12:15]))
    tot = norm(sub(rv[0][1], legs[0][1]))
    fb = []
    for i in range(len(T) - 1):
        fb.append(capi("fb_dv", sub(legs[i][3], rv[i + 1][1]), sub(legs[i + 1][1], rv[i + 1][1]), J[seq[i + 1]].get_mu_self(), J[seq[i + 1]].get_safe_radius())[0])
    arr = norm(sub(rv[-1][1], legs[-1][3]))
    if oi:
        mus = J[seq[-1]].get_mu_self()
        arr = abs(math.sqrt(arr * arr + 2 * mus / rt) - math.sqrt(mus * (1 + et) / rt))
    return ep, legs, tot, max(0.0, tot - vinf * 1000), fb, arr


def encode(enc, t0, T, dtmax):
    """Independent encoders: direct, alpha (any scale of the logarithms works), eta."""
    if enc == "direct":
        return [t0] + list(T)
    if enc == "alpha":
        s = sum(T)
        return [t0, s] + [math.exp(-t / s * 0.9) for t in T]
    out, left = [t0], dtmax
    for t in T:
        out.append(t / left)
        left -= t
    return out


def make(seq, enc, vinf, mo, oi, et, rt, T, t0b):
    tof = {"direct": [[t * 0.5, t * 1.5] for t in T], "alpha": [sum(T) * 0.4, sum(T) * 1.7], "eta": sum(T) * 1.7}[enc]
    return mga([J[b] for b in seq], t0b, tof, vinf, mo, enc, oi, et, rt), tof


def close(a, b, tol=1e-9, floor=1e-6):
    return len(a) == len(b) and all(abs(x - y) <= floor + tol * abs(y) for x, y in zip(a, b))


def numbers(t):
    return [float(z) for z in re.findall(r"(?<![\w.])[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?(?![\w.])", t.replace("np.float64", ""))]


def problems(cs, c):
    seq, ti, t0, enc, vinf, mo, oi = cs
    n = len(seq) - 1
    T = TOFS[n][ti]
    et, rt = (0.98, 1.0895e8) if oi else (None, None)
    t0b = [t0 - 100.0, t0 + 100.0]
    keep_t0 = list(t0b)
    udp, tof = make(seq, enc, vinf, mo, oi, et, rt, T, t0b)
    keep_tof = copy.deepcopy(tof)
    c.state(str(cs))
    x = encode(enc, t0, T, sum(T) * 1.7)
    ep, legs, tot, dv0, fb, arr = model(seq, t0, T, vinf, oi, et, rt)
    obj = dv0 + sum(fb) + arr
    want = [obj, sum(T)] if mo else [obj]
    # conditioning: epochs come out of the encodings with a relative error of a few units; velocities follow
    for form in (list(x), np.array(x), tuple(x) if enc == "direct" else np.array(x)):
        k = list(form)
        f = udp.fitness(form)
        c.trans()
        c.trace()
        c.expect(close(flat(f), want, 1e-9, 1e-4 if len(T) < 3 else 1e-3), "mga-fitness|%s oi=%d mo=%d" % (enc, oi, mo), lambda: "%r %r" % (f, want))
        c.expect(list(form) == k, "mga-chromosome-modified|" + enc)
    c.expect(udp.get_nobj() == (2 if mo else 1), "mga-nobj")
    # a second evaluation after another chromosome gives the same value
    y = encode(enc, t0 + 31.0, [t * 1.11 for t in T], sum(T) * 1.7)
    f1 = flat(udp.fitness(x))
    udp.fitness(y)
    with contextlib.redirect_stdout(io.StringIO()) as so:
        udp.pretty(x)
    c.trans(3)
    c.expect(same(flat(udp.fitness(x)), f1), "mga-history|" + enc)
    o = so.getvalue()
    tail = float(o.split("Total DV:")[1].split()[0].replace("np.float64(", "").rstrip(")"))
    c.expect(abs(tail - f1[0]) <= 1e-9 * abs(f1[0]), "mga-pretty|" + enc, lambda: o)
    nb = o.count("Fly-by:")
    c.expect(nb == n - 1, "mga-pretty-flybys")
    # every number of the report, block by block
    head, *blocks = re.split(r"(?m)^(?=Departure: |Fly-by: |Arrival: |Time of flights: )", o)
    c.expect(enc in head and str(oi) in head and all(J[b].get_name() in head for b in seq), "mga-pretty-header", lambda: head)
    c.expect(len(blocks) == n + 2, "mga-pretty-blocks", lambda: o)
    rows = [(("Departure", seq[0]), [("Epoch", [ep[0]]), ("Spacecraft velocity", legs[0][1]), ("Hyperbolic velocity", [tot]), ("Initial DV", [dv0])])]
    rows += [(("Fly-by", seq[i + 1]), [("Epoch", [ep[i + 1]]), ("DV", [fb[i]])]) for i in range(n - 1)]
    rows += [(("Arrival", seq[-1]), [("Epoch", [ep[-1]]), ("Spacecraft velocity", legs[-1][3]), ("Arrival DV", [arr])])]
    for ((kind, b), want_rows), blk in zip(rows, blocks):
        ls = blk.strip().split("\n")
        c.expect(ls[0].split(":")[0] == kind and ls[0].split(":", 1)[1].strip() == J[b].get_name(), "mga-pretty-body|" + kind, lambda: blk)
        got = {l.split(":")[0].strip(): numbers(l.split(":", 1)[1]) for l in ls[1:] if ":" in l}
        for lab, w in want_rows:
            c.eval()
            c.expect(close(got.get(lab, []), w, 1e-9, 1e-3 if lab != "Epoch" else 1e-8), "mga-pretty|%s %s" % (kind, lab), lambda: "%r, not %r" % (got, w))
    c.expect(close(numbers(blocks[-1].split("\n")[0]), T, 1e-12, 1e-8), "mga-pretty|tofs", lambda: blocks[-1])
    # bounds
    lb, ub = udp.get_bounds()
    wl = {"direct": [t0 - 100.0] + [t * 0.5 for t in T], "alpha": [t0 - 100.0, sum(T) * 0.4] + [1e-3] * n, "eta": [t0 - 100.0] + [1e-3] * n}[enc]
    wu = {"direct": [t0 + 100.0] + [t * 1.5 for t in T], "alpha": [t0 + 100.0, sum(T) * 1.7] + [1 - 1e-3] * n, "eta": [t0 + 100.0] + [1 - 1e-3] * n}[enc]
    c.expect(close(flat(lb), wl, 1e-14, 1e-9) and close(flat(ub), wu, 1e-14, 1e-9) and len(lb) == len(x), "mga-bounds|" + enc, lambda: "%r %r" % (lb, ub))
    c.expect(t0b == keep_t0 and tof == keep_tof, "mga-inputs-modified", lambda: "%r %r" % (t0b, tof))
    # the trajectory as a planet
    for p in (udp.to_planet(x), udp.to_planet(np.array(x))):
        c.trans()
        for i, (r0, v0, r1, v1) in enumerate(legs):
            t = ep[i] + 1e-9 * (i > 0)
            tol_r, tol_v = 3e4, 1e-2
            r, v = p.eph(ep[i] if i == 0 else ep[i] + 1e-7)
            dt = 0.0 if i == 0 else 1e-7 * DAY
            c.within("mga-planet-start-r", norm(sub(r, [a + b * dt for a, b in zip(r0, v0)])), tol_r, "%s leg %d" % (enc, i))
            c.within("mga-planet-start-v", norm(sub(v, v0)), tol_v, "%s leg %d" % (enc, i))
            e1 = ep[i + 1] - 1e-7
            r, v = p.eph(e1)
            c.within("mga-planet-end-r", norm(sub(r, [a - b * 1e-7 * DAY for a, b in zip(r1, v1)])), tol_r, "%s leg %d" % (enc, i))
            c.within("mga-planet-end-v", norm(sub(v, v1)), tol_v, "%s leg %d" % (enc, i))
            for q in (0.13, 0.5, 0.9):
                tt = ep[i] + q * T[i]
                w = capi("prop", [r0, v0], (tt - ep[i]) * DAY, MU, 0)
                r, v = p.eph(tt)
                c.eval()
                c.within("mga-planet-mid-r", norm(sub(r, w[:3])), 3e4, "%s leg %d" % (enc, i))
                c.within("mga-planet-mid-v", norm(sub(v, w[3:])), 1e-2, "%s leg %d" % (enc, i))
        grid = [ep[0] + (ep[-1] - ep[0]) * q / 7.0 for q in range(1, 7)]
        c.expect(same(flat(p.eph_v(grid)), flat([p.eph(t) for t in grid])), "mga-planet-eph_v")
        for t, word in ((ep[0] - 1.0, "before"), (ep[-1] + 1.0, "after")):
            e = c.raises("mga-planet-outside|" + word, ValueError, lambda: p.eph(t))
            if e is not None:
                lim = ep[0] if word == "before" else ep[-1]
                nums = []
                for w in str(e).split():
                    try:
                        nums.append(float(w))
                    except ValueError:
                        pass
                c.expect(any(abs(z - lim) < 1e-6 for z in nums) and word in str(e), "mga-planet-outside-message|" + word, lambda: str(e))
        c.expect(p.get_name() == "MGA spacecraft", "mga-planet-name")
    c.raises("mga-planet-length", ValueError, lambda: udp.to_planet(x + [0.5]))
    c.raises("mga-planet-length", ValueError, lambda: udp.to_planet(x[:-1]))
    # the plot: the trajectory passes the planets at the encounter epochs
    ax = pk.plot.make_3Daxis()
    udp.plot(x, ax=ax)
    c.trans()
    pts = [k for k in ax.calls if k[0] == "scatter" and flat(k[1][:3]) != [0.0, 0.0, 0.0]]
    for (_, a, _), b, e in zip(pts, seq, ep):
        w = capi("eph", [0.0], b, e)
        c.within("mga-plot-planets", norm(sub(flat(a[:3]), [q / pk.AU for q in w[:3]])), 1e-6, b)
    arcs = [k for k in ax.calls if k[0] == "plot" and k[2].get("c") != "dimgray"]
    c.expect(len(arcs) == n, "mga-plot-arcs", lambda: str(len(arcs)))
    for (_, a, _), (r0, v0, r1, v1) in zip(arcs, legs):
        A = np.array([flat(q) for q in a[:3]]).T * pk.AU
        c.within("mga-plot-arc-start", norm(sub(A[0], r0)), 1e-6 * norm(r0))
        c.within("mga-plot-arc-end", norm(sub(A[-1], r1)), 1e-6 * norm(r1), "%s" % (seq,))
    for ids in ([0], [n - 1]):
        ax = pk.plot.make_3Daxis()
        udp.plot(x, ax=ax, leg_ids=ids, units=1000.0)
        arcs = [k for k in ax.calls if k[0] == "plot" and k[2].get("c") != "dimgray"]
        c.expect(len(arcs) == 1, "mga-plot-leg-ids")
        A = np.array([flat(q) for q in arcs[0][1][:3]]).T * 1000.0
        c.within("mga-plot-arc-start", norm(sub(A[0], legs[ids[0]][0])), 1e-6 * norm(legs[ids[0]][0]))
    # all options: own axes, points per curve, colours, several legs, extra arguments, units of everything drawn
    for ax0, u, N, ids, kw in it.product((True, False), (pk.AU, 1000.0), (60, 7), ([], [0], [n - 1, 0]), ({}, {"lw": 3})):
        ax = pk.plot.make_3Daxis() if ax0 else None
        o = udp.plot(x, ax=ax, units=u, N=N, c_orbit="q1", c="q2", leg_ids=ids, figsize=(3, 4), **kw)
        c.trans()
        c.expect((o is ax) if ax0 else (o.fig == {"figsize": (3, 4)} and o.sub == {"projection": "3d"}), "mga-plot-axes")
        sc = [k for k in o.calls if k[0] == "scatter"]
        cu = [k for k in o.calls if k[0] == "plot"]
        c.expect(len(sc) == n + 2 and len(cu) == n + 1 + (len(ids) or n) and len(o.calls) == len(sc) + len(cu), "mga-plot-items", lambda: repr(o.calls)[:500])
        suns = [k for k in sc if flat(k[1][:3]) == [0.0, 0.0, 0.0]]
        c.expect(len(suns) == 1, "mga-plot-sun")
        for (_, a, k), b, e in zip([k for k in sc if k not in suns], seq, ep):
            w = [q / u for q in capi("eph", [0.0], b, e)[:3]]
            c.expect(norm(sub(flat(a[:3]), w)) <= 1e-6 * norm(w) and k == {"c": "q2"}, "mga-plot-planet", lambda: "%r %r %r" % (a, k, w))
        for (_, a, k), b in zip([k for k in cu if k[2].get("c") == "q1"], seq):
            P = J[b].period() / DAY
            A = np.array([flat(q) for q in a[:3]]).T
            c.expect(A.shape == (N, 3) and k == {"c": "q1"}, "mga-plot-orbit", lambda: "%r %r" % (A.shape, k))
            for q in (0, N // 2, N - 1):
                w = [z / u for z in capi("eph", [0.0], b, P * q / (N - 1))[:3]]
                c.expect(norm(sub(A[q], w)) <= 1e-6 * norm(w), "mga-plot-orbit-points|" + b, lambda: "%r %r" % (A[q], w))
        for (_, a, k), i in zip([k for k in cu if k[2].get("c") != "q1"], ids or range(n)):
            A = np.array([flat(q) for q in a[:3]]).T * u
            c.expect(A.shape == (N, 3), "mga-plot-points", lambda: "%r points asked, %r drawn" % (N, A.shape))
            c.expect(k == {"c": "q2", **kw}, "mga-plot-arc-style", lambda: repr(k))
            c.expect(norm(sub(A[0], legs[i][0])) <= 1e-6 * norm(legs[i][0]) and norm(sub(A[-1], legs[i][2])) <= 1e-6 * norm(legs[i][2]), "mga-plot-arc|" + enc)
    c.sample("%r %r" % (cs, f1))


CASES = [(s, ti, t0, enc, vi, mo, oi) for s in SEQS for ti in (0, 1) for t0 in T0S for enc in ("direct", "alpha", "eta") for vi in (0.0, 2.5) for mo in (False, True)
         for oi in (False, True)]
run.section("problems", CASES if R else [x for i, x in enumerate(CASES) if (i * 7 + i // 8) % 3 != 1], problems)


def ask(udp, f, x):
    """One call, as a comparable value; a returned planet is sampled later by the caller."""
    if f == "fitness":
        return flat(udp.fitness(x))
    if f == "pretty":
        with contextlib.redirect_stdout(io.StringIO()) as so:
            udp.pretty(x)
        return so.getvalue()
    if f == "plot":
        ax = pk.plot.make_3Daxis()
        udp.plot(x, ax=ax)
        return [flat([flat(q) for q in a[:3] if not isinstance(q, str)]) for _, a, _ in ax.calls]
    return udp.to_planet(x)


def fixed(v, t0, total):
    """What a call answered; for a planet, its ephemerides on a grid inside the trajectory."""
    if isinstance(v, pk.planet):
        return flat([v.eph(t0 + total * k / 6.0) for k in range(1, 6)])
    return v


def histories(cs, c):
    """All words of two calls on one problem: every call answers what a fresh problem answers; what was returned earlier stays valid."""
    seq, enc, mo, oi = cs
    n = len(seq) - 1
    T = TOFS[n][0]
    et, rt = (0.98, 1.0895e8) if oi else (None, None)

    def mk():
        return make(seq, enc, 2.5, mo, oi, et, rt, T, [0.0, 100.0])[0]

    x = encode(enc, 10.0, T, sum(T) * 1.7)
    y = encode(enc, 41.0, [t * (1.07 + 0.05 * (i % 2)) for i, t in enumerate(T)], sum(T) * 1.7)
    ch = [x, y] + [x[:k] + [y[k]] + x[k + 1:] for k in range(len(x)) if y[k] != x[k]]
    ops = ("fitness", "pretty", "to_planet") + (("plot",) if R or n < 3 else ())
    span = []
    for q in ch:
        if enc == "eta":
            left = sum(T) * 1.7
            for e in q[1:]:
                left -= left * e
            span.append((q[0], sum(T) * 1.7 - left))
        else:
            span.append((q[0], q[1] if enc == "alpha" else sum(q[1:])))
    ref = {(f, i): fixed(ask(mk(), f, np.array(q)), *span[i]) for f in ops for i, q in enumerate(ch)}
    for i in range(1, len(ch)):
        # with one leg, the alpha weight alone changes nothing
        if not (enc == "alpha" and n == 1 and i == len(ch) - 1 and len(ch) > 3):
            c.expect(ref["fitness", i] != ref["fitness", 0], "mga-words-differ", lambda: str((cs, i)))
    c.state(str(cs))
    udp, other = mk(), make(seq[::-1], enc, 0.5, not mo, oi, et, rt, T, [0.0, 100.0])[0]
    for f, g in it.product(ops, repeat=2):
        for k in range(1, len(ch)):
            for i, j in ((0, k), (k, 0)):
                first = ask(udp, f, np.array(ch[i]))
                ask(other, f, np.array(ch[j]))
                second = ask(udp, g, np.array(ch[j]))
                c.trans(2)
                c.trace()
                c.expect(fixed(second, *span[j]) == ref[g, j], "mga-word|%s after %s" % (g, f), lambda: str((cs, i, j)))
                c.expect(fixed(first, *span[i]) == ref[f, i], "mga-word-earlier|%s before %s" % (f, g), lambda: str((cs, i, j)))
            z = np.array(ch[0])
            one = mk()
            first = ask(one, f, z)
            z[:] = ch[k]
            second = ask(one, g, z)
            c.trans(2)
            c.expect(fixed(second, *span[k]) == ref[g, k], "mga-word-in-place|%s after %s" % (g, f), lambda: str((cs, k)))
            c.expect(fixed(first, *span[0]) == ref[f, 0], "mga-word-in-place-earlier|%s before %s" % (f, g), lambda: str((cs, k)))


HSEQ = (SEQS[0], SEQS[2], SEQS[3]) + ((SEQS[4], SEQS[5]) if R else ())
run.section("histories", list(it.product(HSEQ, ("direct", "alpha", "eta"), (False, True), (False, True))), histories)


def encodings(cs, c):
    n, k, t0, scale = cs
    fr = {0: [1.0] * n, 1: [i + 1.0 for i in range(n)], 2: [n - i + 0.5 for i in range(n)], 3: [0.05 if i == 1 % n else 1.0 for i in range(n)],
          4: [1.0 + (i * i) % 3 for i in range(n)]}[k]
    T = [f / sum(fr) * scale for f in fr]
    dt = scale * 1.4
    udp = mga([J["earth"]] * (n + 1), [0, 100], dt, 2.5, False, "eta")
    z = [t0] + T
    for form in (np.array(z), z):
        keep = list(form)
        a = mga.direct2alpha(np.array(form) if isinstance(form, list) else form)
        c.trans(4)
        c.trace(4)
        c.expect(len(a) == n + 2 and a[0] == t0 and abs(a[1] - scale) <= 1e-12 * scale and all(0 < q < 1 for q in a[2:]), "direct2alpha", lambda: repr(a))
        b = mga.alpha2direct(a)
        c.expect(close(flat(b), z, 1e-12, 1e-9), "alpha2direct", lambda: "%r %r" % (b, z))
        b = mga.alpha2direct(encode("alpha", t0, T, dt))
        c.expect(close(flat(b), z, 1e-12, 1e-9), "alpha2direct-any", lambda: "%r %r" % (b, z))
        e = udp.direct2eta(form)
        w = encode("eta", t0, T, dt)
        c.expect(close(flat(e), w, 1e-12, 1e-12), "direct2eta", lambda: "%r %r" % (e, w))
        b = udp.eta2direct(w)
        c.expect(close(flat(b), z, 1e-12, 1e-9), "eta2direct", lambda: "%r %r" % (b, z))
        b = udp.eta2direct(e)
        c.expect(close(flat(b), z, 1e-12, 1e-9), "eta-round-trip")
        c.expect(list(form) == keep, "encoding-modified")
    zi = [int(round(t0))] + [int(round(t)) for t in T]
    e = udp.direct2eta(np.array(zi))
    if all(zi[1:]):
        c.expect(close(flat(e), encode("eta", zi[0], zi[1:], dt), 1e-12, 1e-12), "direct2eta-integers", lambda: repr(e))
    d = mga([J["earth"]] * (n + 1), [0, 100], [[1, 2]] * n)
    c.raises("eta2direct-other-encoding", ValueError, lambda: d.eta2direct(z))
    c.raises("direct2eta-other-encoding", ValueError, lambda: d.direct2eta(z))
    c.state(cs)


run.section("encodings", list(it.product(range(1, 9 if R else 7), range(5), (0.0, -1000.25, 7000.5), (10.0, 365.25, 7000.0))), encodings)


def construction(cs, c):
    kind = cs
    seq = [J["earth"], J["venus"], J["mars"]]
    odd = pk.planet(pk.udpla.keplerian(pk.epoch(0), [1.0e11, 0.1, 0.1, 0, 0, 0], 1.0))
    bad = {"mu": (ValueError, lambda: mga([J["earth"], odd], [0, 1], [[1, 2]])),
           "mu-first": (ValueError, lambda: mga([odd, J["earth"], J["venus"]], [0, 1], [[1, 2], [3, 4]])),
           "enc": (ValueError, lambda: mga(seq, [0, 1], [[1, 2], [3, 4]], tof_encoding="beta")),
           "len": (TypeError, lambda: mga(seq, [0, 1], [[1, 2]])),
           "len+": (TypeError, lambda: mga(seq, [0, 1], [[1, 2]] * 3)),
           "elem": (TypeError, lambda: mga(seq, [0, 1], [[1, 2], [1, 2, 3]])),
           "elem2": (TypeError, lambda: mga(seq, [0, 1], [1, 2])),
           "order": (TypeError, lambda: mga(seq, [0, 1], [[1, 2], [4, 3]])),
           "float": (TypeError, lambda: mga(seq, [0, 1], 300.0)),
           "alpha-float": (TypeError, lambda: mga(seq, [0, 1], 300.0, tof_encoding="alpha")),
           "alpha-len": (TypeError, lambda: mga(seq, [0, 1], [1.0, 2.0, 3.0], tof_encoding="alpha")),
           "eta-list": (TypeError, lambda: mga(seq, [0, 1], [1.0, 2.0], tof_encoding="eta")),
           "oi-rp": (ValueError, lambda: mga(seq, [0, 1], [[1, 2], [3, 4]], orbit_insertion=True, e_target=0.5)),
           "oi-e": (ValueError, lambda: mga(seq, [0, 1], [[1, 2], [3, 4]], orbit_insertion=True, rp_target=1e7))}
    c.trans()
    c.state(kind)
    if kind in bad:
        e, f = bad[kind]
        c.raises("mga-construct|" + kind, e, f)
    elif kind == "epochs":
        for t0 in ([0.0, 1000.0], [pk.epoch(0.0), 1000.0], [0.0, pk.epoch(1000.0)], [pk.epoch(0.0), pk.epoch(1000.0)], (0, 1000), np.array([0.0, 1000.0])):
            n = list(t0)
            u = mga(seq, t0, [[1, 2], [3, 4]])
            lb, ub = u.get_bounds()
            c.expect(lb == [0.0, 1, 3] and ub == [1000.0, 2, 4] and all(a is b or a == b for a, b in zip(t0, n)), "mga-t0-forms", lambda: "%r %r %r" % (t0, lb, ub))
    elif kind == "twice":
        a, b = mga(), mga()
        f = a.fitness([10.0, 100.0, 250.0])
        c.expect(a.get_bounds() == b.get_bounds() == ([0.0, 30, 200], [1000.0, 200, 300]) and same(flat(b.fitness([10.0, 100.0, 250.0])), flat(f)), "mga-defaults")
        full = mga([J["earth"], J["venus"], J["earth"]], [0, 1000], [[30, 200], [200, 300]], 2.5, False, "direct", False, None, None)
        c.expect(same(flat(full.fitness([10.0, 100.0, 250.0])), flat(f)), "mga-defaults-explicit")
        # without the allowance the same trajectory costs its full launch
        c.expect(a.get_nobj() == 1 and flat(mga(vinf=0.0).fitness([10.0, 100.0, 250.0]))[0] > f[0], "mga-defaults-vinf")
        eq = mga(seq, [5, 5], [[2, 2], [3, 3]])
        c.expect(eq.get_bounds() == ([5.0, 2, 3], [5.0, 2, 3]), "mga-equal-bounds")
        p = a.to_planet([10.0, 100.0, 250.0])
        c.expect(same(flat(p.eph(200.0)), flat(b.to_planet([10.0, 100.0, 250.0]).eph(200.0))), "mga-defaults-planet")
        import inspect
        d = inspect.signature(mga.__init__).parameters["t0"].default
        c.expect(not isinstance(d, list) or list(d) == [0, 1000], "mga-default-modified", lambda: repr(d))


run.section("construction", ["mu", "mu-first", "enc", "len", "len+", "elem", "elem2", "order", "float", "alpha-float", "alpha-len", "eta-list", "oi-rp", "oi-e", "epochs", "twice"],
            construction)


def udpla_problems(cs, c):
    """Planets in Python and Keplerian planets, other central bodies, vinf exactly at the launch velocity."""
    mu, kind, enc = cs
    class P:
        def __init__(self, el):
            self.p = pk.planet(pk.udpla.keplerian(pk.epoch(0), el, mu, "k", [1e-3 * mu, 1e-3, 1e-2]))
            self.calls = []
        def eph(self, t):
            self.calls.append(t)
            return self.p.eph(t)
        def get_mu_central_body(self):
            return mu
        def get_mu_self(self):
            return 1e-3 * mu
        def get_safe_radius(self):
            return 1e-2
    a = (mu * (100 * DAY) ** 2) ** (1 / 3.0)
    us = [P([a, 0.01, 0.02, 0.1, 0.2, 0.3]), P([1.5 * a, 0.05, 0.1, 1.0, 0.2, 2.0]), P([2.4 * a, 0.1, 0.03, 2.0, 0.5, -1.0])]
    seq = [pk.planet(u) for u in us] if kind == "python" else [u.p for u in us]
    T = [180.0, 350.0]
    x = encode(enc, 12.5, T, sum(T) * 1.7)
    u = mga(seq, [0, 100], {"direct": [[1.0, 400.0]] * 2, "alpha": [10.0, 800.0], "eta": sum(T) * 1.7}[enc], 0.0, False, enc)
    ep = [12.5, 192.5, 542.5]
    rv = [p.p.eph(t) for p, t in zip(us, ep)]
    L = []
    for i in range(2):
        w = capi("lambert", rv[i][0], rv[i + 1][0], T[i] * DAY, mu, 0, 0)
        L.append((w[9:12], w[12:15]))
    fb = capi("fb_dv", sub(L[0][1], rv[1][1]), sub(L[1][0], rv[1][1]), seq[1].get_mu_self(), seq[1].get_safe_radius())[0]
    want = norm(sub(rv[0][1], L[0][0])) + fb + norm(sub(rv[2][1], L[1][1]))
    f = u.fitness(x)
    c.trans()
    c.trace()
    c.state(cs)
    c.expect(close(flat(f), [want], 1e-9, 1e-9 * want), "mga-other-centre|%s %s" % (kind, enc), lambda: "%r %r" % (f, want))
    p = u.to_planet(x)
    r, v = p.eph(100.0)
    w = capi("prop", [rv[0][0], L[0][0]], 87.5 * DAY, mu, 0)
    c.within("mga-other-centre-planet", norm(sub(r, w[:3])), 1e-9 * norm(w[:3]), str(cs))
    r, v = p.eph(300.0)
    w = capi("prop", [rv[1][0], L[1][0]], 107.5 * DAY, mu, 0)
    c.within("mga-other-centre-planet", norm(sub(r, w[:3])), 1e-9 * norm(w[:3]), str(cs))


run.section("other-centres", list(it.product((MU, 398600435507000.0, 1.0e9), ("python", "keplerian"), ("direct", "alpha", "eta"))), udpla_problems)


def gym(cs, c):
    from pykep.trajopt.gym import _cassini_mga as g
    nm, off = cs
    udp = getattr(g, nm)
    seq = ("earth", "venus", "venus", "earth", "jupiter", "saturn")
    enc = {"cassini1": "direct", "cassini1_a": "alpha", "cassini1_n": "eta"}[nm]
    T = [[158.33942, 449.38588, 54.720136, 1024.6563, 4552.7531], [167.3, 424.3, 53.1, 589.4, 2199.2], [100.0, 300.0, 100.0, 800.0, 4000.0]][off]
    t0 = [-789.8, -500.0, -10.0][off]
    x = encode(enc, t0, T, 7000.0)
    ep, legs, tot, dv0, fb, arr = model(seq, t0, T, 3.0, True, 0.98, 108950000)
    f = udp.fitness(x)
    c.trans()
    c.trace()
    c.state(cs)
    c.expect(close(flat(f), [dv0 + sum(fb) + arr], 1e-8, 1e-3), "gym-fitness|" + nm, lambda: "%r %r" % (f, dv0 + sum(fb) + arr))
    lb, ub = udp.get_bounds()
    B = {"direct": ([-1000, 30, 100, 30, 400, 1000], [0, 400, 470, 400, 2000, 6000]), "alpha": ([-1000, 4000] + [1e-3] * 5, [0, 7000] + [1 - 1e-3] * 5),
         "eta": ([-1000] + [1e-3] * 5, [0] + [1 - 1e-3] * 5)}[enc]
    c.expect(close(flat(lb), B[0], 1e-14, 1e-9) and close(flat(ub), B[1], 1e-14, 1e-9), "gym-bounds|" + nm)
    c.expect(isinstance(udp.get_name(), str) and repr(udp) == udp.get_name(), "gym-name|" + nm)
    e = udp.get_extra_info()
    c.expect("earth" in e.lower() and "saturn" in e.lower() and e.lower().count("venus") == 2, "gym-extra-info|" + nm, lambda: e)
    c.expect(udp.get_nobj() == 1, "gym-nobj")
    if off == 0:
        c.sample("%s %r" % (nm, f))


run.section("gym", list(it.product(("cassini1", "cassini1_a", "cassini1_n"), range(3))), gym)
run.go()
