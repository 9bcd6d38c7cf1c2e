import math

import numpy as np


class Satrec:
    log = []

    @classmethod
    def twoline2rv(cls, line1, line2):
        s = cls()
        s.line1, s.line2 = line1, line2
        s.satnum_str = line1[2:7]
        yy = int(line1[18:20])
        year = 2000 + yy if yy < 57 else 1900 + yy
        day = float(line1[20:32])
        # Julian date of January 1st 0h of the year
        y = year - 1
        jd = 1721425.5 + 365 * y + y // 4 - y // 100 + y // 400
        s.jdsatepoch = jd + math.floor(day) - 1
        s.jdsatepochF = day - math.floor(day)
        s.incl = math.radians(float(line2[8:16]))
        s.ma = math.radians(float(line2[43:51]))
        s.n = float(line2[52:63]) * 2 * math.pi
        return s

    def _rv(self, jd, fr):
        dt = (jd - self.jdsatepoch) + (fr - self.jdsatepochF)
        th = self.ma + self.n * dt
        a = (398600.8 / (self.n / 86400.0) ** 2) ** (1.0 / 3.0)
        v = a * self.n / 86400.0
        c, s, ci, si = math.cos(th), math.sin(th), math.cos(self.incl), math.sin(self.incl)
        return (a * c, a * s * ci, a * s * si), (-v * s, v * c * ci, v * c * si)

    def sgp4(self, jd, fr):
        r, v = self._rv(jd, fr)
        return 0, r, v

    def sgp4_array(self, jd, fr):
        out = [self._rv(float(a), float(b)) for a, b in zip(jd, fr)]
        return np.zeros(len(out), dtype=np.uint8), np.array([o[0] for o in out]), np.array([o[1] for o in out])
