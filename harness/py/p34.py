"""P34: planets defined in Python (UDPLAs), the TLE and SPICE ones, and planet_to_keplerian."""
import contextlib
import copy
import io
import itertools as it
import math

from common import Run, THOROUGH, CapiThrow, capi, flat, np, same

import pykep as pk
import spiceypy
from sgp4.api import Satrec

run = Run()
DAY = 86400.0
OPT = ["eph_v", "get_name", "get_extra_info", "get_mu_central_body", "get_mu_self", "get_radius", "get_safe_radius", "period", "elements"]
GET = OPT[1:7]
ELT = [pk.el_type.KEP_M, pk.el_type.KEP_F, pk.el_type.MEQ, pk.el_type.MEQ_R, pk.el_type.POSVEL]
CON = {"elliptic": ([[1.1, 0.2, -0.3], [0.1, 0.9, 0.25]], 1.3), "hyperbolic": ([[1.0, 0.1, 0.2], [0.3, 2.2, -0.4]], 1.1),
       "retrograde": ([[0.9, -0.3, 0.1], [-0.2, -1.0, 0.3]], 1.0)}
DAYS = [0.0, 17.25, -300.5, 12345.678] + ([-0.001, 1.0, 9000.0, -10000.0] if THOROUGH else [])


class Own(Exception):
    pass


def close(a, b, tol=1e-12):
    a, b = flat(a), flat(b)
    return len(a) == len(b) and all((x != x and y != y) or abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a, b))


def state(con, t):
    """A smooth path: the conic's own two-body motion."""
    (r, v), mu = CON[con]
    o = capi("prop", r + v, 1e-3 * t, mu, 0)[:6]
    return [o[:3], o[3:]]


class Rec:
    """Attributes given per instance; everything called is recorded."""

    def __init__(self, con, have, notcall=()):
        self.con, self.log = con, []
        for m in ("eph",) + tuple(have):
            setattr(self, m, getattr(self, "_" + m))
        for m in notcall:
            setattr(self, m, 3.5)

    def _eph(self, t):
        self.log.append(("eph", t))
        return state(self.con, t)

    def _eph_v(self, ts):
        self.log.append(("eph_v", list(ts)))
        return np.array([flat(state(self.con, t)) for t in ts]).reshape(-1, 6) + 1000.0

    def _get_name(self):
        return "a name é"

    def _get_extra_info(self):
        return "extra\nlines"

    def _get_mu_central_body(self):
        return CON[self.con][1]

    def _get_mu_self(self):
        return 0.25

    def _get_radius(self):
        return 0.5

    def _get_safe_radius(self):
        return 0.75

    def _period(self, t):
        self.log.append(("period", t))
        return 100.0 + t

    def _elements(self, t, e):
        self.log.append(("elements", t, e))
        return [t, 1.0 + ELT.index(e), 2.0, 3.0, 4.0, 5.0]


def wperiod(rv, mu):
    r, v = rv
    en = sum(x * x for x in v) / 2 - mu / math.sqrt(sum(x * x for x in r))
    if en > 0:
        return math.nan
    a = -mu / 2 / en
    return 2 * math.pi * math.sqrt(a ** 3 / mu)


def welements(rv, mu, e):
    if e == 0:
        k = capi("ic2par", flat(rv), mu)
        if k[0] < 0:
            raise CapiThrow("hyperbola")
        k[5] = capi("f2m", k[5], k[1])[0]
        return k
    if e == 1:
        return capi("ic2par", flat(rv), mu)
    if e in (2, 3):
        return capi("ic2eq", flat(rv), mu, float(e == 3))
    raise CapiThrow("no such elements")


def check_planet(p, u, con, have, c, k):
    mu = CON[con][1]
    c.expect(p.get_name() == ("a name é" if "get_name" in have else str(type(u))), "udpla-name|" + k, lambda: p.get_name())
    c.expect(p.get_extra_info() == ("extra\nlines" if "get_extra_info" in have else ""), "udpla-info|" + k)
    for g, w in (("get_mu_central_body", mu), ("get_mu_self", 0.25), ("get_radius", 0.5), ("get_safe_radius", 0.75)):
        c.expect(getattr(p, g)() == (w if g in have else -1.0), "udpla-%s|%s" % (g, k), lambda: repr(getattr(p, g)()))
    rep = repr(p)
    c.expect(p.get_name() in rep and p.get_extra_info() in rep, "udpla-repr|" + k)
    for t in DAYS:
        c.trans(10)
        for kk, a in (("float", t), ("np", np.float64(t)), ("epoch", pk.epoch(t))):
            tt = a.mjd2000 if kk == "epoch" else t
            n0 = len(u.log)
            o = p.eph(a)
            c.expect(flat(o) == flat(state(con, tt)) and u.log[n0:] == [("eph", tt)] and type(u.log[-1][1]) is float, "udpla-eph|" + kk, lambda: "%s %r" % (k, u.log[n0:]))
            n0 = len(u.log)
            if "period" in have:
                c.expect(p.period(a) == 100.0 + tt and u.log[n0:] == [("period", tt)], "udpla-period-own|" + k)
            elif "get_mu_central_body" in have:
                c.expect(close(p.period(a), wperiod(state(con, tt), mu)), "udpla-period|" + k, lambda: "%r" % p.period(a))
            else:
                c.raises("udpla-period-none|" + k, NotImplementedError, lambda: p.period(a))
            for e in range(5):
                n0 = len(u.log)
                if "elements" in have:
                    c.expect(flat(p.elements(a, ELT[e])) == [tt, 1.0 + e, 2.0, 3.0, 4.0, 5.0] and u.log[n0:] == [("elements", tt, ELT[e])], "udpla-elements-own|" + k)
                elif "get_mu_central_body" in have:
                    try:
                        w = welements(state(con, tt), mu, e)
                    except CapiThrow:
                        c.raises("udpla-elements-refused|" + k, Exception, lambda: p.elements(a, ELT[e]))
                        continue
                    c.expect(close(p.elements(a, ELT[e]), w), "udpla-elements|%d %s" % (e, k), lambda: "%r %r" % (p.elements(a, ELT[e]), w))
                else:
                    c.raises("udpla-elements-none|" + k, NotImplementedError, lambda: p.elements(a, ELT[e]))
    for n in range(4):
        ts = DAYS[:n]
        for a in (ts, np.array(ts)):
            n0 = len(u.log)
            o = p.eph_v(a)
            w = np.array([flat(state(con, t)) for t in ts]).reshape(-1, 6) + (1000.0 if "eph_v" in have else 0.0)
            c.expect(isinstance(o, np.ndarray) and o.shape == (n, 6) and same(flat(o), flat(w)), "udpla-eph_v|" + k, lambda: "%r %r" % (o, w))
            l = u.log[n0:]
            c.expect(l == ([("eph_v", ts)] if "eph_v" in have else [("eph", t) for t in ts]), "udpla-eph_v-calls|" + k, lambda: repr(l))


def udpla(cs, c):
    """Every subset of the optional methods: present, absent, and present but not callable."""
    con, mask, mode = cs
    have = [m for i, m in enumerate(OPT) if mask >> i & 1]
    u = Rec(con, have, [m for m in OPT if m not in have] if mode == "notcallable" else ())
    p = pk.planet(u) if mode == "absent" else pk.planet(udpla=u)
    c.state(cs)
    c.trace()
    check_planet(p, u, con, have, c, "%s %s" % (mode, "+".join(have)))
    q = copy.copy(p)
    x = q.extract(Rec)
    c.expect(type(x) is Rec and x is q.extract(object) and q.is_(Rec) and q.is_(object), "udpla-extract-copy")
    check_planet(q, x, con, have, c, "copy")


run.section("methods", list(it.product(CON, range(512), ("absent", "notcallable"))), udpla)


class Sub(Rec):
    pass


class Plain:
    """Methods on the class; state that must survive copies."""

    def __init__(self, k):
        self.k, self.l = k, [k]

    def eph(self, t):
        return [[self.k + t, 1.0, 2.0], [3.0, 4.0, float(len(self.l))]]


class Empty:
    pass


def extract(cs, c):
    u = Rec("elliptic", cs)
    p = pk.planet(u)
    c.state(tuple(cs))
    c.trans(8)
    c.expect(type(p.extract(Rec)) is Rec and p.is_(Rec), "extract-own-type")
    c.expect(p.extract(object) is p.extract(Rec) and p.is_(object), "extract-object")
    for t in (int, Empty, Sub, Plain, str, pk.planet, pk.epoch, type(None)):
        c.expect(p.extract(t) is None and not p.is_(t), "extract-other-type|%r" % t)
    for t in (pk.udpla.jpl_lp, pk.udpla.keplerian, pk.udpla.vsop2013, pk.udpla.null_udpla):
        c.expect(p.extract(t) is None and not p.is_(t), "extract-cpp-type|%r" % t)
    for b in (u, 3, "x", None):
        c.raises("extract-not-a-type", TypeError, lambda: p.extract(b))
    s = pk.planet(Sub("elliptic", cs))
    c.expect(s.is_(Sub) and not s.is_(Rec) and s.extract(Rec) is None, "extract-base-type")
    # C++ planets never answer for a Python type
    for mk in (lambda: pk.udpla.jpl_lp("mars"), lambda: pk.udpla.null_udpla(), lambda: pk.udpla.keplerian(pk.epoch(0), [1.0, 0.1, 0.2, 0.3, 0.4, 0.5], 1.0)):
        d = pk.planet(mk())
        c.expect(d.extract(Rec) is None and not d.is_(Rec) and d.extract(object) is None and not d.is_(object), "extract-from-cpp")


run.section("extract", [tuple(m for i, m in enumerate(OPT) if k >> i & 1) for k in range(0, 512, 1 if THOROUGH else 37)], extract)


def copies(cs, c):
    """All sequences of copy / deepcopy up to depth 7, with a change of the original at one position."""
    ops, at = cs
    p = pk.planet(Plain(5.0))
    shared = True  # the object behind p is still the one the first planet holds
    first = p
    n = 1
    for i, o in enumerate(ops):
        if i == at:
            first.extract(Plain).l.append(0)
            n = n + 1
        k = len(p.extract(Plain).l)
        q = {"c": copy.copy, "d": copy.deepcopy}[o](p)
        c.trans()
        c.state(ops[:i + 1], at)
        if o != "c":
            shared = False
            c.expect(q.extract(Plain) is not p.extract(Plain), "copies-deep-shares|%s" % (cs,))
        c.expect(q.is_(Plain) and flat(q.eph(2.0)) == [7.0, 1.0, 2.0, 3.0, 4.0, float(k)], "copies-state|%s" % (cs,), lambda: repr(q.eph(2.0)))
        p = q
    c.trace()
    c.expect(flat(first.eph(2.0)) == [7.0, 1.0, 2.0, 3.0, 4.0, float(n)], "copies-original")


run.section("copies", [("".join(o), a) for d in range(1, 12 if THOROUGH else 8) for o in it.product("cd", repeat=d) for a in range(-1, d)], copies)


# --- what is refused, and errors -----------------------------------------------------------------------------------
class NoCall:
    eph = 3


class Raiser(Rec):
    def __init__(self, what, exc):
        super().__init__("elliptic", [m for m in OPT if m not in ("period", "elements") or m == what])
        self.exc = exc

        def boom(*_):
            raise exc
        setattr(self, what, boom)


CALL = {"eph": lambda p: p.eph(1.0), "eph_v": lambda p: p.eph_v([1.0, 2.0]), "period": lambda p: p.period(1.0), "elements": lambda p: p.elements(1.0)}
for g_ in GET:
    CALL[g_] = lambda p, g_=g_: getattr(p, g_)()


def raising(cs, c):
    what, mk = cs
    e0 = mk()
    p = pk.planet(Raiser(what, e0))
    c.state(what, type(e0).__name__)
    for k in range(3):
        e = c.raises("error-propagates|%s %r" % (what, e0), type(e0), lambda: CALL[what](p))
        c.trans()
        c.expect(e is None or (type(e) is type(e0) and e.args == e0.args), "error-unchanged|" + what, lambda: repr(e))
    # the planet stays usable
    for m in CALL:
        if m not in (what, "period", "elements") and not (what == "eph" and m == "eph_v"):
            CALL[m](p)
    c.trace()


run.section("errors", list(it.product(CALL, (lambda: ValueError("v", 3), lambda: KeyError("k"), lambda: Own(1, 2), lambda: RuntimeError("é"), lambda: ZeroDivisionError(),
                                            lambda: NotImplementedError("mine"), lambda: StopIteration(4), lambda: MemoryError("m")))), raising)

BADRET = {
    "eph": [None, 3.0, [], [[1, 2, 3]], [[1, 2, 3], [4, 5]], [[1, 2, 3], [4, 5, 6], [7, 8, 9]], [[1, 2, 3, 4], [1, 2, 3, 4]], ["abc", "def"], [[1, 2, "x"], [4, 5, 6]],
            [1, 2, 3, 4, 5, 6], {}, object()],
    "eph_v": [None, "abc", [[1.0] * 6], [[1.0] * 6] * 3, [[1.0] * 5] * 2, [1.0] * 11, [1.0] * 13, [], [[1.0] * 7] * 2, 3.0, object()],
    "get_name": [3, None, [1], object()], "get_extra_info": [3, None, [1], object()],
    "get_mu_central_body": ["x", None, [1.0], object()], "get_mu_self": ["x", None, [1.0], object()], "get_radius": ["x", None, {}], "get_safe_radius": ["x", None, {}],
    "period": ["x", None, [1.0]], "elements": [None, 3.0, [1.0] * 5, [1.0] * 7, [], ["a"] * 6, object()]}


def badret(cs, c):
    """An answer of the wrong kind or shape is refused; it never yields numbers."""
    what, i = cs
    b = BADRET[what][i]
    u = Rec("elliptic", OPT)
    setattr(u, what, lambda *_: b)
    p = pk.planet(u)
    c.state(what, i)
    c.trans()
    c.trace()
    c.raises("bad-answer|%s %r" % (what, b), Exception, lambda: CALL[what](p))
    if what not in ("get_name", "get_extra_info"):
        c.expect(p.get_name() == "a name é", "bad-answer-after|" + what)


run.section("bad-answers", [(k, i) for k in BADRET for i in range(len(BADRET[k]))], badret)


def okret(cs, c):
    """Answers in other containers mean the same numbers."""
    k, f = cs
    u = Rec("elliptic", ["eph_v", "elements"])
    u.eph = lambda t: f(state("elliptic", t))
    u.eph_v = lambda ts: f([flat(state("elliptic", t)) for t in ts])
    p = pk.planet(u)
    c.state(k)
    for t in DAYS:
        c.expect(flat(p.eph(t)) == flat(state("elliptic", t)), "container-eph|" + k)
        c.trans()
    o = p.eph_v(DAYS)
    c.expect(o.shape == (len(DAYS), 6) and flat(o) == flat([flat(state("elliptic", t)) for t in DAYS]), "container-eph_v|" + k)


run.section("containers", [("list", lambda x: x), ("tuple", lambda x: tuple(tuple(y) for y in x)), ("arrays", lambda x: [np.array(y) for y in x]), ("array", np.array),
                           ("fortran", lambda x: np.asfortranarray(np.array(x))), ("strided", lambda x: np.repeat(np.array(x), 2, axis=1)[:, ::2])], okret)


def refused(cs, c):
    k, mk, exc = cs
    c.state(k)
    c.trans()
    c.raises("construct-refused|" + k, exc, lambda: pk.planet(mk()))


run.section("construct", [("type", lambda: Rec, TypeError), ("type-plain", lambda: Plain, TypeError), ("int-type", lambda: int, TypeError), ("no-eph", lambda: Empty(), NotImplementedError),
                          ("eph-not-callable", lambda: NoCall(), NotImplementedError), ("int", lambda: 3, NotImplementedError), ("none", lambda: None, NotImplementedError),
                          ("planet", lambda: pk.planet(Plain(1.0)), TypeError), ("planet-cpp", lambda: pk.planet(pk.udpla.jpl_lp()), TypeError)], refused)


def late(what, c):
    """Methods that come and go: the planet asks the object at each call."""
    u = Rec("elliptic", [m for m in OPT if m != what])
    if what in ("period", "elements"):
        del u.get_mu_central_body
    p = pk.planet(u)
    x = p.extract(Rec)
    dflt = {"get_name": str(type(u)), "get_extra_info": ""}
    for k in range(3):
        if what in ("period", "elements"):
            c.raises("late-none|" + what, NotImplementedError, lambda: CALL[what](p))
        elif what != "eph_v":
            c.expect(CALL[what](p) == dflt.get(what, -1.0), "late-default|" + what)
        setattr(x, what, getattr(x, "_" + what))
        a = CALL[what](p)
        c.expect(a is not None and (what == "eph_v" or a == (101.0 if what == "period" else getattr(x, "_" + what)(*((1.0, ELT[1]) if what == "elements" else ())))), "late-present|" + what, lambda: repr(a))
        delattr(x, what)
        c.trans(2)
        c.state(what, k)
    del x.eph
    c.raises("late-eph", NotImplementedError, lambda: p.eph(1.0))


run.section("late", OPT, late)


# --- planet_to_keplerian -------------------------------------------------------------------------------------------
def kepl(cs, c):
    con, have, when, mu = cs
    u = Rec(con, have)
    p = pk.planet(u)
    c.state(cs)
    c.trace()
    ep = pk.epoch(when)
    if mu is None and "get_mu_central_body" not in have:
        with contextlib.redirect_stdout(io.StringIO()):
            c.raises("kepl-no-mu", ValueError, lambda: pk.planet_to_keplerian(p, ep))
        return
    q = pk.planet_to_keplerian(p, ep) if mu is None else pk.planet_to_keplerian(p, when=ep, mu=mu)
    m = CON[con][1] if mu is None else mu
    c.expect(type(q) is pk.planet and q.is_(pk.udpla.keplerian), "kepl-type")
    c.expect(q.get_name() == p.get_name() + "(K)" and q.get_mu_central_body() == m and [q.get_mu_self(), q.get_radius(), q.get_safe_radius()] ==
             [p.get_mu_self(), p.get_radius(), p.get_safe_radius()], "kepl-fields")
    s = state(con, ep.mjd2000)
    for dt in (0.0, 3.0, -40.0, 700.0):
        c.trans(2)
        w = capi("prop", flat(s), dt * DAY * (1.0 if con != "hyperbolic" else 1e-3), m, 0)[:6]
        t = ep.mjd2000 + dt * (1.0 if con != "hyperbolic" else 1e-3)
        g = flat(q.eph(t))
        # secular error of a phase of dt*DAY with rounding of the epoch (1e-11 day) included
        e = max(abs(a - b) for a, b in zip(g, w)) / max(1.0, max(map(abs, w)))
        c.within("kepl-motion", e, 1e-10 if dt == 0 else 1e-5, "%s %g" % (con, dt))
        if dt == 0:
            for k in (0, 1, 2, 3):
                try:
                    we = welements(s, m, k)
                except CapiThrow:
                    continue
                c.expect(close(q.elements(t, ELT[k]), we, 1e-9), "kepl-osculating|%d" % k, lambda: "%r %r" % (q.elements(t, ELT[k]), we))


run.section("planet_to_keplerian", list(it.product(CON, ((), ("get_mu_central_body",), ("get_mu_central_body", "get_name", "get_mu_self", "get_radius", "get_safe_radius"),
                                                          ("get_mu_self", "get_name")), (0.0, 123.5, -2500.25), (None, 1.7, 0.9))), kepl)

# --- TLE -----------------------------------------------------------------------------------------------------------
L1 = "1 33773U 97051L   %s  .00002095  00000+0  65841-3 0  9991"
L2 = "2 33773  86.4068  33.1145 0009956 224.5064 135.5336 14.40043565770064"


class Spy:
    """Wraps the satellite so that the arguments it is asked with are known."""

    def __init__(self, s):
        self.s, self.log = s, []

    def __getattr__(self, k):
        return getattr(self.s, k)

    def sgp4(self, jd, fr):
        self.log.append((jd, fr))
        return self.s.sgp4(jd, fr)

    def sgp4_array(self, jd, fr):
        self.log += list(zip(jd.tolist(), fr.tolist()))
        return self.s.sgp4_array(jd, fr)


def tle(cs, c):
    stamp, n = cs
    l1 = L1 % stamp
    u = pk.udpla.tle(l1, L2)
    u.satellite = Spy(u.satellite)
    p = pk.planet(u)
    c.state(cs)
    c.trace()
    x = p.extract(pk.udpla.tle)
    ref = Satrec.twoline2rv(l1, L2)
    w0 = ref.jdsatepoch + ref.jdsatepochF - 2451544.5
    c.expect(abs(u.ref_epoch.mjd2000 - w0) < 1e-8, "tle-ref-epoch", lambda: "%r %r" % (u.ref_epoch, w0))
    c.expect(p.get_name() == "33773 - SGP4" and p.get_mu_central_body() == pk.MU_EARTH and l1 in p.get_extra_info() and L2 in p.get_extra_info(), "tle-fields")
    ts = [w0 + d for d in ([0.0, 0.25, 0.5, 1.0, -0.75, 33.3, 1000.125] if n else [])]
    ts += [float(math.floor(w0)) + k * 0.125 for k in range(n)]
    log = x.satellite.log
    for t in ts:
        for a in (t, pk.epoch(t)):
            n0 = len(log)
            g = flat(p.eph(a))
            tt = t if a is t else a.mjd2000
            c.trans()
            c.expect(len(log) == n0 + 1, "tle-calls")
            jd, fr = log[-1]
            c.expect(abs((jd - 2451544.5) + fr - tt) <= 2e-9 and -1.0 <= fr <= 1.0, "tle-julian-date", lambda: "%r %r %r" % (jd, fr, tt))
            _, r, v = ref.sgp4(jd, fr)
            c.expect(close(g, [1000.0 * k for k in r + v], 1e-14), "tle-units", lambda: "%r" % g)
            # along the satellite's path at this very instant
            jd2 = math.floor(tt) + 2451544.5
            _, r, v = ref.sgp4(jd2, tt - math.floor(tt))
            c.within("tle-eph", max(abs(a_ - 1000 * b_) for a_, b_ in zip(g[:3], r)), 5.0, "position (m), one nanosecond per double of a Julian date")
    for k in range(len(ts) + 1):
        n0 = len(log)
        if k == 0:
            continue
        o = p.eph_v(ts[:k])
        c.trans()
        c.expect(o.shape == (k, 6), "tle-eph_v-shape")
        for row, t in zip(o, ts):
            c.within("tle-eph_v", max(abs(a_ - b_) for a_, b_ in zip(flat(row), flat(p.eph(t)))), 1e-6, "")


run.section("tle", list(it.product(("23290.57931959", "00001.00000000", "99365.99999999", "57001.50000000", "56366.25000000", "20060.12345678"), (0, 9))), tle)


# --- SPICE ---------------------------------------------------------------------------------------------------------
def spice(cs, c):
    body, frame, obs, kind = cs
    spiceypy.loaded.clear()
    c.state(cs)
    c.trace()
    if frame not in spiceypy._FRAMES:
        ok = body in spiceypy._IDS and obs in spiceypy._IDS
        c.raises("spice-frame", NameError if ok else Exception, lambda: pk.udpla.spice(body, frame, obs))
        return
    if body not in spiceypy._IDS or obs not in spiceypy._IDS:
        c.raises("spice-name", Exception, lambda: pk.udpla.spice(body, frame, obs))
        return
    if kind == "spice":
        u = pk.udpla.spice(body, frame, obs)
        c.expect(spiceypy.loaded == [], "spice-loads")
        nm = body + " - SPICE"
    else:
        u = pk.udpla.de440s(body, frame, obs) if kind == "pos" else pk.udpla.de440s(obs=obs, body=body, ref_frame=frame)
        c.expect(len(spiceypy.loaded) == 1 and spiceypy.loaded[0].endswith("de440s.bsp") and spiceypy.loaded[0] == pk.udpla.de440s.kernel_file(), "de440s-kernel", lambda: repr(spiceypy.loaded))
        nm = body + " - de440s"
    p = pk.planet(u)
    inf = p.get_extra_info()
    c.expect(p.get_name() == nm and body in inf and obs in inf and frame in inf, "spice-fields", lambda: p.get_name() + inf)
    c.expect(u.naifid == spiceypy._IDS[body] and u.obs_naifid == spiceypy._IDS[obs] and u.frame_naifid == spiceypy._FRAMES[frame], "spice-ids")
    for t in DAYS:
        for a in (t, pk.epoch(t)):
            tt = t if a is t else a.mjd2000
            w = spiceypy._one(body, (tt - 0.5) * DAY, frame, obs) * 1000
            c.trans()
            c.expect(close(np.array(flat(p.eph(a))) / 1e6, w / 1e6, 1e-13), "spice-eph", lambda: "%r %r" % (p.eph(a), w))
    for n in range(1, 5):
        o = p.eph_v(DAYS[:n])
        c.expect(o.shape == (n, 6), "spice-eph_v-shape")
        for r, t in zip(o, DAYS):
            c.expect(close(np.array(flat(r)) / 1e6, np.array(flat(p.eph(t))) / 1e6, 1e-13), "spice-eph_v")


run.section("spice", list(it.product(("SUN", "EARTH BARYCENTER", "JUPITER BARYCENTER", "NOBODY"), ("J2000", "ECLIPJ2000", "NOFRAME"), ("SSB", "SUN", "NOWHERE"), ("spice", "pos", "kw"))), spice)


def kernels(ops, c):
    """Histories of making (+) and dropping (-) de440s planets: the kernel stays loaded once per planet alive."""
    spiceypy.loaded.clear()
    alive = []
    for o in ops:
        if o == "+":
            alive.append(pk.udpla.de440s())
        elif o == "s":
            alive.append(None)
        elif alive:
            alive.pop(0)
        n = sum(a is not None for a in alive)
        c.trans()
        c.state(ops)
        c.expect(len(spiceypy.loaded) == n, "de440s-loaded|" + ops, lambda: repr(spiceypy.loaded))
    c.trace()
    alive.clear()
    c.expect(spiceypy.loaded == [], "de440s-unloaded")
    d = pk.udpla.de440s()
    c.expect((d.body, d.ref_frame, d.obs) == ("EARTH BARYCENTER", "ECLIPJ2000", "SSB"), "de440s-defaults")


run.section("kernels", ["".join(o) for n in range(1, 12 if THOROUGH else 6) for o in it.product("+-", repeat=n)], kernels)


def utils(_, c):
    spiceypy.loaded.clear()
    pk.utils.load_spice_kernels("a.bsp")
    pk.utils.load_spice_kernels("b.bsp")
    pk.utils.unload_spice_kernels("a.bsp")
    c.expect(spiceypy.loaded == ["b.bsp"], "kernel-load")
    for n, i in spiceypy._IDS.items():
        c.expect(pk.utils.name2naifid(n) == i, "name2naifid|" + n)
    for i in pk.utils.naif_dict if hasattr(pk.utils, "naif_dict") else ():
        c.expect(pk.utils.naifid2name(i) == pk.utils.naif_dict[i], "naifid2name")
    for i, n in ((0, "SOLAR SYSTEM BARYCENTER"), (3, "EARTH BARYCENTER"), (10, "SUN"), (301, "MOON"), (399, "EARTH"), (499, "MARS"), (599, "JUPITER"), (699, "SATURN"),
                 (799, "URANUS"), (899, "NEPTUNE"), (999, "PLUTO"), (199, "MERCURY"), (299, "VENUS"), (401, "PHOBOS"), (402, "DEIMOS"), (501, "IO"), (502, "EUROPA"),
                 (503, "GANYMEDE"), (504, "CALLISTO"), (602, "ENCELADUS"), (606, "TITAN"), (801, "TRITON"), (901, "CHARON")):
        c.expect(pk.utils.naifid2name(i) == n, "naifid2name|%d" % i, lambda: pk.utils.naifid2name(i))
        c.trans()
    for n, i in spiceypy._FRAMES.items():
        c.expect(pk.utils.framename2naifid(n) == i, "framename2naifid")
    c.raises("framename2naifid-unknown", NameError, lambda: pk.utils.framename2naifid("NOFRAME"))
    for t in DAYS:
        o = pk.utils.rotation_matrix("J2000", "ECLIPJ2000", pk.epoch(t))
        w = spiceypy.pxform("J2000", "ECLIPJ2000", (pk.epoch(t).mjd2000 - 0.5) * DAY)
        c.expect(close(o, w, 1e-9), "rotation_matrix", lambda: "%r %r" % (o, w))
    c.expect(close(pk.utils.rotation_matrix("A", "B"), spiceypy.pxform("A", "B", -43200.0), 1e-9), "rotation_matrix-default")
    c.expect(list(pk.utils.inspect_spice_kernel("x")) == list(spiceypy.spkobj("x")), "inspect_spice_kernel")
    c.expect(pk.utils.spice_version() == spiceypy.tkvrsn("TOOLKIT"), "spice_version")
    c.expect(pk.udpla.de440s.body_list() == [pk.utils.naifid2name(i) for i in spiceypy.spkobj(pk.udpla.de440s.kernel_file())], "body_list")
    c.state("utils")


run.section("spice-utils", [0], utils)
run.go()
