"""Stand-in for spiceypy (not installed): analytic states of a few bodies, in km and km/s, at TDB seconds past J2000;
counts the kernels loaded and unloaded."""
import math

import numpy as np

_IDS = {"SSB": 0, "SUN": 10, "EARTH": 399, "EARTH BARYCENTER": 3, "EMB": 3, "JUPITER BARYCENTER": 5, "MARS BARYCENTER": 4}
_FRAMES = {"J2000": 1, "ECLIPJ2000": 17}
loaded = []


def tkvrsn(_):
    return "stand-in"


def furnsh(p):
    loaded.append(p)


def unload(p):
    if p in loaded:
        loaded.remove(p)


def bodn2c(n):
    return _IDS[n.upper()]


def bodc2n(i):
    for k, v in _IDS.items():
        if v == i:
            return k
    raise KeyError(i)


def namfrm(n):
    return _FRAMES.get(n, 0)


def _one(body, et, frame, obs):
    k = 1 + _IDS[body.upper()]
    a = 1e8 * k + 1e6 * _FRAMES[frame] - 1e7 * _IDS[obs.upper()]
    w = 2 * math.pi / (86400.0 * 100 * k)
    th = w * et
    return np.array([a * math.cos(th), a * math.sin(th), 0.1 * a * math.sin(th),
                     -a * w * math.sin(th), a * w * math.cos(th), 0.1 * a * w * math.cos(th)])


def spkezr(body, et, frame, abcorr, obs):
    assert abcorr == "NONE"
    if np.ndim(et) == 0:
        return _one(body, float(et), frame, obs), 0.0
    return [_one(body, float(t), frame, obs) for t in et], np.zeros(len(et))


def irfnum(n):
    return _FRAMES.get(n, 0)


def spkobj(path):
    return [0, 3, 10, 399] if path.endswith("de440s.bsp") else [10, 301]


def pxform(a, b, et):
    k = 1e-6 * et + len(a) - 2.0 * len(b)
    return np.array([[math.cos(k), math.sin(k), 0.0], [-math.sin(k), math.cos(k), 0.0], [0.0, 0.0, 1.0]])
