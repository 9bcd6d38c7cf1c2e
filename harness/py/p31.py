"""P31: the Python module exposes the library unchanged (constants, functions, classes, arrays, copies, pickles)."""
import copy
import datetime
import gc
import itertools as it
import math
import pickle

from common import CapiThrow, Run, THOROUGH, capi, capi_s, flat, np, same

import pykep as pk

run = Run()
R = THOROUGH

# --- constants -------------------------------------------------------------------------------------------------
CONST = {"AU": 149597870700.0, "CAVENDISH": 6.67430e-11, "MU_SUN": 1.32712440041279419e20, "MU_EARTH": 398600435507000.0,
         "EARTH_VELOCITY": 29784.69183430911, "EARTH_J2": 1.08262668e-3, "EARTH_RADIUS": 6378137.0, "RAD2DEG": 180 / math.pi,
         "DEG2RAD": math.pi / 180, "DAY2SEC": 86400.0, "SEC2DAY": 1 / 86400.0, "DAY2YEAR": 1 / 365.25, "G0": 9.80665,
         "CR3BP_EARTH_MOON": 0.01215058439470971}


def constants(k, c):
    v = getattr(pk, k)
    c.trans()
    c.state(k, v)
    c.expect(isinstance(v, float) and abs(v - CONST[k]) <= 1e-15 * abs(CONST[k]), "constant|" + k, "%r expected %r" % (v, CONST[k]))
    c.sample("%s=%r" % (k, v))


run.section("constants", sorted(CONST), constants)

# --- anomalies -------------------------------------------------------------------------------------------------
AN = ["m2e", "e2m", "m2f", "f2m", "e2f", "f2e", "n2h", "h2n", "n2f", "f2n", "h2f", "f2h", "zeta2f", "f2zeta"]
ANG = [x * (1 if R else 1) for x in (-7.5, -3.1, -1.2, -0.3, 0.0, 0.4, 1.0, 2.2, 3.0, 4.1, 9.0)]
ECC = [0.0, 0.1, 0.5, 0.9, 0.99] + [1.1, 1.5, 2.0, 10.0] + [1.0]
if R:
    ANG += [x / 7.0 for x in range(-40, 41)]
    ECC += [x / 20.0 for x in range(1, 60)]


def anomalies(cs, c):
    n, e = cs
    f, fv = getattr(pk, n), getattr(pk, n + "_v")
    want = [capi(n, a, e)[0] for a in ANG]
    got = [f(a, e) for a in ANG]
    c.trans(len(ANG))
    c.trace(len(ANG))
    c.state(n, e)
    c.expect(same(got, want), "anomaly|" + n, lambda: "%r vs %r" % (got, want))
    arr = np.array(ANG)
    # every pair of shapes: 1-d x scalar, scalar x 1-d, 1-d x 1-d, 2-d, strided, broadcast outer
    es = np.array(ECC)
    outs = {"1d": (fv(arr, e), (len(ANG),), want),
            "list": (fv(list(ANG), e), (len(ANG),), want),
            "2d": (fv(arr[:10].reshape(2, 5), e), (2, 5), want[:10]),
            "2dT": (fv(arr[:10].reshape(2, 5).T, e), (5, 2), [want[i + 5 * j] for i in range(5) for j in range(2)]),
            "strided": (fv(arr[::-2], e), (len(ANG[::-2]),), want[::-2]),
            "same": (fv(arr, np.full(len(ANG), e)), (len(ANG),), want),
            "ecc": (fv(ANG[0], es), (len(ECC),), [capi(n, ANG[0], x)[0] for x in ECC]),
            "outer": (fv(arr[:3].reshape(3, 1), es[:4].reshape(1, 4)), (3, 4), [capi(n, a, x)[0] for a in ANG[:3] for x in ECC[:4]]),
            "empty": (fv(np.zeros(0), e), (0,), []),
            "int": (fv(np.array([0, 1, 2]), e), (3,), [capi(n, float(a), e)[0] for a in (0, 1, 2)])}
    for k, (o, sh, w) in outs.items():
        c.trans()
        c.expect(np.shape(o) == sh and same(flat(o), w), "anomaly_v|%s %s" % (n, k), lambda: "%r vs %r" % (o, w))
    o = fv(0.3, e)
    c.expect(same(flat(o), capi(n, 0.3, e)), "anomaly_v|%s scalar" % n, lambda: repr(o))
    c.expect(same(arr, ANG) and same(es, ECC), "input-modified|" + n)
    c.sample("%s e=%g %r" % (n, e, got[:3]))


run.section("anomalies", list(it.product(AN, ECC)), anomalies)

# --- elements --------------------------------------------------------------------------------------------------
STATES = [[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]], [[1.0, 0.1, -0.2], [0.1, 1.1, 0.3]], [[-2.0, 1.0, 0.5], [-0.3, -0.6, 0.2]],
          [[0.7, 0.2, 1.3], [-0.5, 1.3, 0.9]], [[1.2, -0.3, 0.1], [-0.1, -0.9, 0.4]], [[0.1, 1.1, 0.2], [1.9, 0.3, -0.8]]]
MUS = [1.0, 0.7, 1.32712440041279419e20]


def elements(cs, c):
    s, mu, retro, how = cs
    f = 1.0
    if mu > 1e10:
        s = [[x * pk.AU for x in s[0]], [x * pk.EARTH_VELOCITY for x in s[1]]]
    a = {"list": s, "tuple": tuple(map(tuple, s)), "array": np.array(s), "rows": [np.array(s[0]), np.array(s[1])]}[how]
    par = pk.ic2par(a, mu)
    c.trans(6)
    c.trace(6)
    c.state(str(cs))
    wp = capi("ic2par", s, mu)
    c.expect(same(flat(par), wp), "ic2par", lambda: "%r %r" % (par, wp))
    eq = pk.ic2eq(a, mu, retro)
    we = capi("ic2eq", s, mu, retro)
    c.expect(same(flat(eq), we), "ic2eq", lambda: "%r %r" % (eq, we))
    pin = wp if how == "list" else np.array(wp)
    ein = we if how == "list" else np.array(we)
    c.expect(same(flat(pk.par2ic(pin, mu)), capi("par2ic", wp, mu)), "par2ic")
    c.expect(same(flat(pk.eq2ic(ein, mu, retro)), capi("eq2ic", we, mu, retro)), "eq2ic")
    c.expect(same(flat(pk.par2eq(pin, retro)), capi("par2eq", wp, retro)), "par2eq")
    c.expect(same(flat(pk.eq2par(ein, retro)), capi("eq2par", we, retro)), "eq2par")
    c.expect(np.shape(par) == (6,) and np.shape(pk.par2ic(pin, mu)) == (2, 3), "elements-shape")


run.section("elements", list(it.product(STATES, MUS, (False, True), ("list", "tuple", "array", "rows"))), elements)

# --- Lagrangian propagation --------------------------------------------------------------------------------------
TOFS = [0.0, 0.3, -1.7, 4.0, 20.0, math.pi / 2]


def prop(cs, c):
    s, t, mu, stm, form = cs
    w = capi("prop", s, t, mu, stm)
    s0 = copy.deepcopy(s)
    if form == "kw":
        r = pk.propagate_lagrangian(stm=stm, mu=mu, tof=t, rv=s)
    elif form == "pos":
        r = pk.propagate_lagrangian(s, t, mu, stm)
    elif form == "array":
        r = pk.propagate_lagrangian(rv=np.array(s), tof=np.float64(t), mu=mu, stm=stm)
    elif form == "def-stm":
        r = pk.propagate_lagrangian(s, t, mu)
        stm = False
        w = w[:6]
    elif form == "def-mu":
        r = pk.propagate_lagrangian(s, t, stm=stm)
        w = capi("prop", s, t, 1.0, stm)
    elif form == "def-tof":
        r = pk.propagate_lagrangian(s, mu=mu, stm=stm)
        w = capi("prop", s, math.pi / 2, mu, stm)
    else:
        r = pk.propagate_lagrangian(tof=t, mu=mu, stm=stm)
        w = capi("prop", [[1, 0, 0], [0, 1, 0]], t, mu, stm)
    c.trans()
    c.trace()
    c.state(str(cs))
    c.expect(same(flat(list(r)), w), "propagate_lagrangian|" + form, lambda: "%r vs %r" % (r, w))
    c.expect(len(r) == 2 and s == s0, "propagate-shape|" + form)
    if stm:
        c.expect(np.shape(r[0]) == (2, 3) and isinstance(r[1], np.ndarray) and r[1].shape == (6, 6) and r[1].dtype == float,
                 "propagate-stm-shape|" + form, lambda: repr(r))
        keep = r[1]
        w36 = w[6:]
        junk = []
        for k in range(12):
            junk.append(pk.propagate_lagrangian(s, t + 0.1 * k, mu, True)[1])
        del r, junk
        gc.collect()
        junk = [np.full((6, 6), 7.0) for _ in range(12)]
        c.expect(same(flat(keep), w36), "propagate-stm-owned|" + form, lambda: repr(keep))
        keep[2, 3] = 5.0
        c.expect(keep[2, 3] == 5.0, "propagate-stm-writable|" + form)
    else:
        c.expect(np.shape(r[0]) == (3,) and np.shape(r[1]) == (3,), "propagate-shape|" + form, lambda: repr(r))


run.section("propagate_lagrangian", list(it.product(STATES, TOFS if not R else TOFS + [0.01 * k for k in range(1, 200, 7)], (1.0, 0.7), (False, True),
            ("kw", "pos", "array", "def-stm", "def-mu", "def-tof", "def-rv"))), prop)


def propv(cs, c):
    s, n, mu, stm, form = cs
    ts = [TOFS[(3 * i + n) % len(TOFS)] for i in range(n)]
    if form == "kw":
        r = pk.propagate_lagrangian_v(rv=s, tofs=ts, mu=mu, stm=stm)
    elif form == "array":
        r = pk.propagate_lagrangian_v(np.array(s), np.array(ts), mu, stm)
    elif form == "def":
        r, ts, s, mu, stm = pk.propagate_lagrangian_v(), [math.pi / 2], [[1, 0, 0], [0, 1, 0]], 1.0, False
    else:
        r, stm = pk.propagate_lagrangian_v(s, ts, mu), False
    c.trans()
    c.state(str(cs))
    c.expect(len(r) == len(ts), "propagate_v-length|" + form)
    for t, o in zip(ts, r):
        w = capi("prop", s, t, mu, stm)
        c.trace()
        c.expect(same(flat(o[0]), w[:6]), "propagate_v|" + form, lambda: "%r %r" % (o, w))
        c.expect((o[1] is None) if not stm else same(flat(o[1]), w[6:]), "propagate_v-stm|" + form)


run.section("propagate_lagrangian_v", list(it.product(STATES, range(5), (1.0, 0.7), (False, True), ("kw", "array", "def", "pos"))), propv)

# --- lambert -----------------------------------------------------------------------------------------------------
LP = [([1.0, 0.0, 0.0], [0.0, 1.2, 0.1]), ([1.0, 0.1, 0.2], [-0.9, -0.5, 0.3]), ([0.5, -0.7, 0.1], [1.6, 0.4, -0.9]),
      ([1.0, 0.0, 0.0], [0.3, -1.0, 0.2])]


def lam_read(l):
    return ([float(l.Nmax)] + flat(l.r0) + flat(l.r1) + [l.tof, l.mu] + flat(l.v0) + flat(l.v1) + flat(l.x) + flat([float(i) for i in l.iters]))


def lambert(cs, c):
    (r0, r1), tof, mu, cw, mr, form = cs
    w = capi("lambert", r0, r1, tof, mu, cw, mr)
    if form == "kw":
        l = pk.lambert_problem(multi_revs=mr, cw=cw, mu=mu, tof=tof, r1=r1, r0=r0)
    elif form == "pos":
        l = pk.lambert_problem(r0, r1, tof, mu, cw, mr)
    elif form == "array":
        l = pk.lambert_problem(np.array(r0), np.array(r1), tof, mu, cw, mr)
    else:
        l = pk.lambert_problem(r0, r1, tof)
        w = capi("lambert", r0, r1, tof, 1.0, 0, 1)
    c.trans()
    c.trace()
    c.state(str(cs))
    g = lam_read(l)
    n = 2 * l.Nmax + 1
    c.expect(same(g, w), "lambert|" + form, lambda: "%r vs %r" % (g, w))
    c.expect(np.shape(l.v0) == (n, 3) and np.shape(l.v1) == (n, 3) and len(l.x) == n and len(l.iters) == n, "lambert-shape")
    for nm, q in (("copy", copy.copy(l)), ("deepcopy", copy.deepcopy(l)), ("pickle", pickle.loads(pickle.dumps(l)))):
        c.trans()
        c.expect(type(q) is type(l) and q is not l and same(lam_read(q), w) and repr(q) == repr(l), "lambert-" + nm)
    v = l.v0
    v[0][0] = 99.0
    c.expect(same(lam_read(l), g), "lambert-alias")


run.section("lambert", list(it.product(LP, (0.8, 3.0, 20.0), (1.0, 0.8), (False, True), (0, 1, 4), ("kw", "pos", "array", "def"))), lambert)
run.section("lambert-defaults", [0], lambda _, c: c.expect(same(lam_read(pk.lambert_problem()),
            capi("lambert", [1, 0, 0], [0, 1, 0], math.pi / 2, 1, 0, 1)), "lambert-defaults"))

# --- fly-bys -----------------------------------------------------------------------------------------------------
VIN = [[2000.0, 1000.0, 0.0], [-3000.0, 500.0, 800.0], [100.0, -4000.0, 30.0]]
VOUT = [[1000.0, 2000.0, 0.0], [-2800.0, 900.0, -900.0], [3000.0, 2000.0, 1000.0]]
JPL = ["mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune"]


def flyby(cs, c):
    a, b, body = cs
    p = pk.planet(pk.udpla.jpl_lp(body))
    mu, rs = p.get_mu_self(), p.get_safe_radius()
    d = [0.0, body, ]
    c.trans(10)
    c.trace(5)
    c.state(str(cs))
    pl = [0.0]
    for nm in ("fb_con", "fb_dv"):
        f = getattr(pk, nm)
        w = capi(nm, a, b, mu, rs)
        wp = capi(nm + "_pl", a, b, pl, body)
        for k, r, ww in (("pos", f(a, b, mu, rs), w), ("kw", f(safe_radius=rs, mu=mu, v_rel_out=b, v_rel_in=a), w), ("pl", f(a, b, p), wp),
                         ("plkw", f(v_rel_in=a, planet=p, v_rel_out=b), wp), ("arr", f(np.array(a), np.array(b), p), wp)):
            c.expect(same(flat(r), ww), "%s|%s" % (nm, k), lambda: "%r %r" % (r, ww))
            c.expect(np.shape(r) == ((2,) if nm == "fb_con" else ()), nm + "-shape")
    for rp, be in ((1.2 * rs, 0.7), (3 * rs, -2.0)):
        w = capi("fb_vout", a, b, rp, be, mu)
        for k, r in (("pos", pk.fb_vout(a, b, rp, be, mu)), ("kw", pk.fb_vout(mu=mu, beta=be, rp=rp, v_pla=b, v_in=a))):
            c.trace()
            c.expect(same(flat(r), w), "fb_vout|" + k, lambda: "%r %r" % (r, w))


run.section("flyby", list(it.product(VIN, VOUT, JPL)), flyby)

# --- epochs ------------------------------------------------------------------------------------------------------
JT = [pk.epoch.julian_type.MJD2000, pk.epoch.julian_type.MJD, pk.epoch.julian_type.JD]
OFF = [0.0, 51544.0, 2451544.5]
WHEN = [-40000.25, -1.5, 0.0, 0.3, 1.0, 366.5, 9999.123456789, 18262.75]


def ep_read(e):
    return [e.mjd2000, e.mjd, e.jd]


def epochs(cs, c):
    w, j = cs
    x = w + OFF[j]
    want = capi("epoch", x, j)
    forms = [pk.epoch(x, JT[j]), pk.epoch(when=x, julian_type=JT[j]), pk.epoch(julian_type=JT[j], when=np.float64(x))]
    if j == 0:
        forms.append(pk.epoch(x))
    if x == int(x):
        forms.append(pk.epoch(int(x), JT[j]))
    for k, e in enumerate(forms):
        c.trans()
        c.trace()
        c.expect(same(ep_read(e), want), "epoch|%d" % k, lambda: "%r %r" % (ep_read(e), want))
        c.expect(repr(e) == capi_s("epoch_repr", x, j) == str(e), "epoch-repr|%d" % k, lambda: repr(e))
        for nm, q in (("copy", copy.copy(e)), ("deepcopy", copy.deepcopy(e)), ("pickle", pickle.loads(pickle.dumps(e)))):
            c.expect(type(q) is pk.epoch and q is not e and q == e and same(ep_read(q), want), "epoch-" + nm)
    c.state(want)
    # the string constructor reads back the representation, and truncated forms
    e = forms[0]
    for n in (26, 23, 19, 16, 13, 10, 7, 4):
        t = repr(e)[:n]
        try:
            ws = capi("epoch_str", t)
        except CapiThrow:
            c.raises("epoch-str-throws", Exception, lambda: pk.epoch(t))
            continue
        for q in (pk.epoch(t), pk.epoch(when=t), pk.epoch(t, pk.epoch.string_format.ISO)):
            c.trans()
            c.expect(same(ep_read(q), ws), "epoch-str", lambda: "%s %r %r" % (t, ep_read(q), ws))
    # arithmetic with days, timedelta
    for dt in (0.0, 1.0, -2.5, 365.25, 1e-5, 1000.000001):
        a, b = e + dt, e - dt
        us = round(dt * 86400e6)
        td = datetime.timedelta(microseconds=us)
        a2, b2 = e + td, e - td
        c.trans(4)
        for k, q, sgn in (("add", a, 1), ("sub", b, -1), ("add-td", a2, 1), ("sub-td", b2, -1)):
            c.expect(abs((q.mjd2000 - e.mjd2000) - sgn * dt) < 3e-11 * (1 + abs(e.mjd2000) / 1e4), "epoch-" + k, lambda: "%r %r" % (q.mjd2000 - e.mjd2000, dt))
        c.expect(same(ep_read(e), want), "epoch-immutable")


run.section("epochs", list(it.product(WHEN, range(3))), epochs)

CMP = [(-1.0), 0.0, 1e-9, 0.5, 0.5 + 1.0 / 86400e6, 1.0, 7000.0]


def compare(cs, c):
    a, b = cs
    x, y = pk.epoch(a), pk.epoch(b)
    ua, ub = round(a * 86400e6 - 1e-6), round(b * 86400e6 - 1e-6)
    c.trans(6)
    c.state(cs)
    m, n = x.mjd2000, y.mjd2000
    if a == b:
        exp = 0
    elif abs(a - b) < 1e-6 and m == n:
        exp = 0
    else:
        exp = -1 if a < b else 1
    got = (x < y, x > y, x <= y, x >= y, x == y, x != y)
    c.expect(got == (exp < 0, exp > 0, exp <= 0, exp >= 0, exp == 0, exp != 0), "epoch-compare", lambda: "%r %r %r" % (a, b, got))


run.section("epoch-compare", list(it.product(CMP, CMP)), compare)

DT = [(2000, 1, 1, 0, 0, 0, 0), (2000, 2, 29, 12, 30, 59, 999999), (1999, 12, 31, 23, 59, 59, 1), (2024, 3, 10, 1, 2, 3, 4567),
      (1950, 7, 14, 6, 0, 7, 123456), (2100, 2, 28, 0, 0, 0, 10), (1901, 1, 2, 3, 4, 5, 678901), (2023, 11, 30, 20, 19, 18, 17)]


def datetimes(d, c):
    t = datetime.datetime(*d)
    want = capi("epoch_ymd", d)
    day = (t - datetime.datetime(2000, 1, 1)) / datetime.timedelta(days=1)
    for k, e in (("pos", pk.epoch(t)), ("kw", pk.epoch(when=t))):
        c.trans()
        c.trace()
        c.expect(same(ep_read(e), want) and abs(e.mjd2000 - day) < 1e-9, "epoch-datetime|" + k, lambda: "%r %r" % (ep_read(e), want))
        c.expect(repr(e)[:26] == t.isoformat(timespec="microseconds"), "epoch-datetime-repr", lambda: "%r %r" % (e, t.isoformat()))
    c.state(d)


run.section("epoch-datetime", DT, datetimes)


def bad_epoch(x, c):
    c.trans()
    c.raises("epoch-bad|%r" % (x,), TypeError, lambda: pk.epoch(x))


run.section("epoch-bad", [[1, 2], {}, None, datetime.date(2000, 1, 1), object], bad_epoch)


def now(_, c):
    t = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
    e = pk.epoch.now()
    c.trans()
    c.expect(abs((e - 0.0).mjd2000 - pk.epoch(t).mjd2000) < 60 / 86400.0, "epoch-now")


run.section("epoch-now", [0], now)

# --- planets -----------------------------------------------------------------------------------------------------
ELT = [pk.el_type.KEP_M, pk.el_type.KEP_F, pk.el_type.MEQ, pk.el_type.MEQ_R, pk.el_type.POSVEL]
KEL = [[1.1, 0.2, 0.3, 0.4, 0.5, 0.6], [-2.0, 1.7, 0.3, 0.4, 0.5, 0.6], [0.8, 0.0, 1.0, 2.0, 3.0, 1.0]]


def pl_list():
    """(description, constructor, flattened description for capi)"""
    o = []
    for b in JPL + ["EARTH", "Mars"]:
        o.append(("jpl:" + b, lambda b=b: pk.udpla.jpl_lp(b), [[0.0], b]))
        o.append(("jplkw:" + b, lambda b=b: pk.udpla.jpl_lp(body=b), [[0.0], b]))
    o.append(("jpl-default", lambda: pk.udpla.jpl_lp(), [[0.0], "earth"]))
    o.append(("vsop", lambda: pk.udpla.vsop2013("venus", 1e-3), [[4.0], "venus", [1e-3]]))
    o.append(("vsopkw", lambda: pk.udpla.vsop2013(thresh=1e-4, body="uranus"), [[4.0], "uranus", [1e-4]]))
    o.append(("null", lambda: pk.udpla.null_udpla() if hasattr(pk.udpla, "null_udpla") else None, [[3.0]]))
    ty = {0: 0, 1: 1, 2: 2, 3: 3}
    for i, el in enumerate(KEL):
        for t in ty:
            if t in (2, 3):
                p = el[0] * (1 - el[1] ** 2)
                e2 = [p, 0.1, 0.2, 0.3, 0.1, 0.7]
            elif t == 0 and el[0] < 0:
                continue
            else:
                e2 = el
            o.append(("kep%d.%d" % (i, t), lambda e2=e2, t=t: pk.udpla.keplerian(pk.epoch(12.5), e2, 1.3, "nm", [0.2, 0.3, 0.4], ELT[t]),
                      [[1.0, 12.5], e2, [1.3], "nm", [0.2, 0.3, 0.4, float(t)]]))
            o.append(("kepkw%d.%d" % (i, t), lambda e2=e2, t=t: pk.udpla.keplerian(when=pk.epoch(12.5), elem=e2, mu_central_body=1.3, name="nm",
                                                                                 added_params=[0.2, 0.3, 0.4], el_type=ELT[t]),
                      [[1.0, 12.5], e2, [1.3], "nm", [0.2, 0.3, 0.4, float(t)]]))
    o.append(("kepdef", lambda: pk.udpla.keplerian(pk.epoch(1.0), KEL[0], 2.0), [[1.0, 1.0], KEL[0], [2.0], "unknown", [-1, -1, -1, 1.0]]))
    for i, s in enumerate(STATES[:4]):
        o.append(("pv%d" % i, lambda s=s: pk.udpla.keplerian(pk.epoch(3.0), s, 1.3, "pv", [0.5, 0.6, 0.7]), [[2.0, 3.0], s, [1.3], "pv", [0.5, 0.6, 0.7]]))
        o.append(("pvkw%d" % i, lambda s=s: pk.udpla.keplerian(posvel=s, when=pk.epoch(3.0), added_params=[0.5, 0.6, 0.7], mu_central_body=1.3),
                  [[2.0, 3.0], s, [1.3], "unknown", [0.5, 0.6, 0.7]]))
    return o


PLS = pl_list()
DAYS = [0.0, 1000.5, -321.25, 9999.0]


def num(f):
    try:
        return ("ok", flat(f()))
    except Exception:  # noqa: BLE001
        return ("throw", None)


def cnum(*a):
    try:
        return ("ok", capi(*a))
    except CapiThrow:
        return ("throw", None)


def sm(a, b):
    return a[0] == b[0] and (a[0] == "throw" or same(a[1], b[1]))


def planets(i, c):
    nm, mk, d = PLS[i]
    u = mk()
    if u is None:
        c.skip("null_udpla_not_exposed")
        return
    base = pk.planet(u)
    objs = {"pos": base, "kw": pk.planet(udpla=mk()), "copy": copy.copy(base), "deepcopy": copy.deepcopy(base), "pickle": pickle.loads(pickle.dumps(base))}
    for k, p in objs.items():
        c.state(nm, k)
        c.expect(type(p) is pk.planet, "planet-type|" + k)
        g = [p.get_mu_central_body(), p.get_mu_self(), p.get_radius(), p.get_safe_radius()]
        c.expect(same(g, capi("pl_num", *d)), "planet-getters|%s %s" % (nm, k), lambda: repr(g))
        c.expect(p.get_name() == capi_s("pl_name", *d) and p.get_extra_info() == capi_s("pl_info", *d), "planet-strings|%s %s" % (nm, k))
        c.expect(repr(p) == capi_s("pl_repr", *d), "planet-repr|%s %s" % (nm, k))
        for t in DAYS:
            c.trans(14)
            c.trace(7)
            for f, w in (("eph", "eph"), ("period", "period")):
                cf, ce = cnum(w, *d, t), cnum(w + "_ep", *d, t)
                m = getattr(p, f)
                for kk, got, ww in (("pos", num(lambda: m(t)), cf), ("kw", num(lambda: m(when=t)), cf), ("np", num(lambda: m(np.float64(t))), cf),
                                    ("ep", num(lambda: m(pk.epoch(t))), ce), ("epkw", num(lambda: m(when=pk.epoch(t))), ce)):
                    c.expect(sm(got, ww), "planet-%s|%s %s" % (f, nm, kk), lambda: "%r %r" % (got, ww))
            for e in range(5):
                cf, ce = cnum("elements", *d, t, e), cnum("elements_ep", *d, t, e)
                for kk, got, ww in (("pos", num(lambda: p.elements(t, ELT[e])), cf), ("kw", num(lambda: p.elements(el_type=ELT[e], when=t)), cf),
                                    ("ep", num(lambda: p.elements(pk.epoch(t), ELT[e])), ce)):
                    c.expect(sm(got, ww), "planet-elements|%s %s %d" % (nm, kk, e), lambda: "%r %r" % (got, ww))
            cf = cnum("elements", *d, t, 1)
            c.expect(sm(num(lambda: p.elements(t)), cf), "planet-elements|%s default type" % nm)
        c.expect(sm(num(lambda: p.period()), cnum("period", *d, 0.0)), "planet-period|%s default" % nm)
        c.expect(sm(num(lambda: p.elements()), cnum("elements", *d, 0.0, 1)), "planet-elements|%s default" % nm)
        if nm != "null":
            for n in range(5):
                ts = (DAYS * 2)[n % 3:n % 3 + n]
                w = capi("eph_v", *d, float(len(ts)), ts)
                for kk, a in (("list", ts), ("arr", np.array(ts)), ("strided", np.repeat(np.array(ts), 2)[::2])):
                    o = p.eph_v(a)
                    c.trans()
                    c.expect(isinstance(o, np.ndarray) and o.shape == (n, 6) and o.dtype == float and same(flat(o), w), "planet-eph_v|%s %s" % (nm, kk),
                             lambda: "%r %r" % (o, w))
                    for r, t in zip(o, ts):
                        c.expect(same(flat(r), flat(p.eph(t))), "planet-eph_v-rows|" + nm)
            o = p.eph_v(when=DAYS)
            for _ in range(6):
                p.eph_v([1.0, 2.0, 3.0, 4.0])
            gc.collect()
            c.expect(same(flat(o), capi("eph_v", *d, 4.0, DAYS)), "planet-eph_v-owned|" + nm)
    # extraction
    kinds = {"keplerian": pk.udpla.keplerian, "jpl_lp": pk.udpla.jpl_lp, "vsop2013": pk.udpla.vsop2013}
    for kn, kt in kinds.items():
        want = type(u) is kt
        c.trans()
        c.expect(base.is_(kt) is want, "planet-is|%s %s" % (nm, kn))
        x = base.extract(kt)
        c.expect((type(x) is kt) if want else x is None, "planet-extract|%s %s" % (nm, kn), lambda: repr(x))
        if want:
            q = pk.planet(x)
            c.expect(sm(num(lambda: q.eph(5.0)), num(lambda: base.eph(5.0))), "planet-extract-same|" + nm)
            if kn == "keplerian":
                c.expect(same([x.ref_epoch.mjd2000], [d[0][1]]), "udpla-ref-epoch|" + nm)
    class other:
        pass
    c.expect(base.extract(other) is None and not base.is_(other), "planet-extract-other|" + nm)
    c.raises("planet-extract-nontype|" + nm, TypeError, lambda: base.extract(u))
    c.raises("planet-of-planet|" + nm, TypeError, lambda: pk.planet(base))
    c.raises("planet-of-type|" + nm, TypeError, lambda: pk.planet(type(u)))
    c.sample("%s %s" % (nm, base.get_name()))


run.section("planets", list(range(len(PLS))), planets, 120)

# --- legs --------------------------------------------------------------------------------------------------------
FIELDS = ["rvs", "ms", "throttles", "rvf", "mf", "tof", "max_thrust", "isp", "mu", "cut"]
# three values for each field: the second and third are distinct from the constructor's
LV = {"rvs": [[[1.0, 0.1, -0.1], [0.2, 1.0, -0.2]], [[1.1, 0.0, 0.1], [0.1, 0.9, 0.05]]],
      "ms": [1.0, 1.25], "throttles": [[0.1, 0.2, 0.3, -0.1, 0.2, 0.1, 0.3, -0.2, 0.4], [0.2, -0.1, 0.4, 0.1, 0.1, -0.3, 0.05, 0.25, 0.3, 0.0, 0.2, 0.1]],
      "rvf": [[[-1.2, -0.1, 0.1], [0.2, -1.023, 0.44]], [[-0.2, 1.1, 0.2], [-0.9, -0.1, 0.1]]],
      "mf": [0.9, 0.8], "tof": [1.7, 2.3], "max_thrust": [0.11, 0.07], "isp": [1.3, 2.1], "mu": [1.0, 1.1], "cut": [0.6, 0.34]}


def leg_args(v):
    return [v["rvs"], v["ms"], [float(len(v["throttles"]))] + list(v["throttles"]), v["rvf"], v["mf"], v["tof"], v["max_thrust"], v["isp"], v["mu"], v["cut"]]


def leg_flat(l):
    g = l.compute_mc_grad()
    n = l.nseg
    sh = [np.shape(x) for x in g] == [(7, 7), (7, 7), (7, 3 * n + 1)]
    t = l.compute_tc_grad()
    sh = sh and np.shape(t) == (n, 3 * n) and len(l.compute_mismatch_constraints()) == 7 and len(l.compute_throttle_constraints()) == n
    return sh, ([float(l.nseg), float(l.nseg_fwd), float(l.nseg_bck)] + flat(l.rvs) + [l.ms] + flat(l.throttles) + flat(l.rvf)
                + [l.mf, l.tof, l.max_thrust, l.isp, l.mu, l.cut] + flat(l.compute_mismatch_constraints())
                + flat(l.compute_throttle_constraints()) + flat(t) + flat(g[0]) + flat(g[1]) + flat(g[2]))


def legs(cs, c):
    kind, how, word = cs
    cls = pk.leg.sims_flanagan if kind == "sf" else pk.leg.sims_flanagan_hf
    v = {k: LV[k][0] for k in FIELDS}
    if how == "pos":
        l = cls(*[v[k] for k in FIELDS])
    elif how == "kw":
        l = cls(**{k: v[k] for k in reversed(FIELDS)})
    elif how == "array":
        l = cls(*[np.array(v[k]) if k in ("rvs", "rvf", "throttles") else v[k] for k in FIELDS])
    else:
        l = cls()
        v = {"rvs": [[1, 0, 0], [0, 1, 0]], "ms": 1.0, "throttles": [0.0] * 6, "rvf": [[0, 1, 0], [-1, 0, 0]], "mf": 1.0, "tof": math.pi / 2,
             "max_thrust": 1.0, "isp": 1.0, "mu": 1.0, "cut": 0.5}
    for f in word:
        if f in ("copy", "deepcopy", "pickle"):
            q = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[f](l)
            c.expect(type(q) is cls and q is not l, "leg-copy|%s %s" % (kind, f))
            l.mf = 0.123  # the copy must not see it
            l = q
        else:
            setattr(l, f, LV[f][1])
            v[f] = LV[f][1]
        c.trans()
        for f2 in FIELDS:
            c.expect(same(flat(getattr(l, f2)), flat(v[f2])), "leg-property|%s %s after %s" % (kind, f2, f))
    try:
        w = capi(kind, *leg_args(v))
    except CapiThrow:
        c.raises("leg-throws|%s" % kind, ValueError, lambda: leg_flat(l))
        c.count("legs_whose_integration_fails")
        return
    sh, g = leg_flat(l)
    c.trace()
    c.state(str((kind, how, sorted(set(word)))))
    c.expect(sh, "leg-shapes|" + kind)
    # the high-fidelity leg integrates: the first integration of a fresh object and a later one may differ in the last bits
    if kind == "sf":
        c.expect(same(g, w), "leg|%s %s" % (kind, how), lambda: str([(i, a, b) for i, (a, b) in enumerate(zip(g, w)) if a != b][:4]) + " %d %d" % (len(g), len(w)))
    else:
        e = max([abs(a - b) / (1e-12 + abs(b)) if abs(a - b) > 1e-12 else 0.0 for a, b in zip(g, w)]) if len(g) == len(w) else math.inf
        c.within("leg-hf", e, 1e-9, how)
    a = l.compute_mc_grad()
    b = l.compute_tc_grad()
    snap = [flat(x) for x in a] + [flat(b)]
    del a, b
    a, b = l.compute_mc_grad(), l.compute_tc_grad()
    l.throttles = [0.5] * 9
    for _ in range(4):
        l.compute_mc_grad(), l.compute_tc_grad()
    gc.collect()
    ok = all(same(flat(x), y) for x, y in zip(list(a) + [b], snap)) if kind == "sf" else all(np.allclose(flat(x), y, 1e-9, 1e-12) for x, y in zip(list(a) + [b], snap))
    c.expect(ok, "leg-arrays-owned|" + kind)
    if kind == "hf":
        m = capi("hf_more", *leg_args(v))
        l.throttles = v["throttles"]
        c.expect(same(flat(l.rvms) + flat(l.rvmf), m[:14]) and l.tol == m[14], "leg-hf-mass-states", lambda: "%r %r" % (flat(l.rvms), m))
        h = l.get_state_history(4)
        wh = capi("hf_hist", *leg_args(v), 4.0)
        c.expect(len(h) == l.nseg and np.allclose(flat(h), wh, 1e-9, 1e-12), "leg-hf-history", lambda: "%r %r" % (np.shape(h), len(wh)))
    c.expect(isinstance(repr(l), str) and len(repr(l)) > 20, "leg-repr|" + kind)


OPS = FIELDS + ["copy", "deepcopy", "pickle"]
W1 = [()] + [(o,) for o in OPS]
W2 = [(a, b) for a in OPS for b in OPS if a != b]
run.section("leg-sf", [("sf", h, w) for h in ("pos", "kw", "array", "def") for w in W1] + [("sf", "kw", w) for w in W2]
            + ([("sf", "kw", w) for w in it.permutations(OPS, 3)] if R else []), legs)
run.section("leg-hf", [("hf", h, w) for h in ("pos", "kw", "def") for w in W1] + [("hf", "kw", w) for w in (W2 if R else W2[::7])], legs)


def leg_bad(cs, c):
    kind, f, bad = cs
    cls = pk.leg.sims_flanagan if kind == "sf" else pk.leg.sims_flanagan_hf
    l = cls()
    c.trans()
    c.raises("leg-bad|%s %s" % (kind, f), Exception, lambda: setattr(l, f, bad))


run.section("leg-bad", [(k, f, b) for k in ("sf", "hf") for f, b in (("tof", -1.0), ("max_thrust", -1.0), ("isp", -1.0), ("mu", -1.0),
            ("cut", 1.5), ("cut", -0.1), ("throttles", [0.1, 0.2]), ("rvs", [[1, 2, 3]]), ("rvs", [[1, 2], [3, 4]]), ("tof", "a"))], leg_bad)

# --- the Stark problem -------------------------------------------------------------------------------------------
X7 = [[1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 1.0], [1.0, 0.2, -0.1, 0.1, 0.9, 0.3, 2.0]]
U3 = [[0.02, 0.0, 0.0], [0.01, -0.02, 0.03]]


def stark(cs, c):
    x, u, mu, ve, t, form = cs
    s = {"pos": lambda: pk.stark_problem(mu, ve, 1e-14), "kw": lambda: pk.stark_problem(tol=1e-14, veff=ve, mu=mu),
         "copy": lambda: copy.copy(pk.stark_problem(mu, ve, 1e-14)), "deepcopy": lambda: copy.deepcopy(pk.stark_problem(mu, ve, 1e-14)),
         "pickle": lambda: pickle.loads(pickle.dumps(pk.stark_problem(mu, ve, 1e-14)))}[form]()
    c.trans(3)
    c.trace(2)
    c.state(str(cs))
    c.expect(same([s.mu, s.veff, s.tol], [mu, ve, 1e-14]), "stark-getters|" + form)
    w = capi("stark_var", mu, ve, 1e-14, x, u, t)
    r = s.propagate(x, u, t)
    c.expect(np.shape(r) == (7,) and np.allclose(flat(r), w[:7], 1e-10, 1e-13), "stark-propagate|" + form, lambda: "%r %r" % (r, w[:7]))
    r = s.propagate_var(rvm_state=np.array(x), tof=t, thrust=np.array(u))
    c.expect(len(r) == 3 and np.shape(r[0]) == (7,) and r[1].shape == (7, 7) and r[2].shape == (7, 3), "stark-shapes|" + form)
    c.expect(np.allclose(flat(list(r)), w, 1e-9, 1e-12), "stark-propagate_var|" + form, lambda: "%r %r" % (flat(list(r)), w))
    keep = flat(r[1]) + flat(r[2])
    a, b = r[1], r[2]
    del r
    for _ in range(4):
        s.propagate_var(x, [0.1, 0.1, 0.1], 0.5)
    gc.collect()
    c.expect(same(flat(a) + flat(b), keep), "stark-arrays-owned|" + form)


run.section("stark", list(it.product(X7, U3, (1.0, 1.2), (1.0, 3.0), (0.7, 2.0), ("pos", "kw", "copy", "deepcopy", "pickle"))), stark)


def starkdef(_, c):
    s = pk.stark_problem()
    c.expect(same([s.mu, s.veff, s.tol], [1.0, 1.0, 1e-16]), "stark-defaults")


run.section("stark-defaults", [0], starkdef)

run.go()
