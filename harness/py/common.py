"""Exhaustive-enumeration driver for the checks of the Python layer: same contract and output as harness/common.hpp.

A section is a finite list of cases; every case is executed (in forked workers, so that a crash or a hang is attributed
to its case), and can be replayed alone."""
import ctypes
import hashlib
import json
import math
import multiprocessing as mp
import os
import signal
import struct
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
_a = {sys.argv[i][2:]: sys.argv[i + 1] for i in range(1, len(sys.argv) - 1, 2)}
PKG = _a.get("pkg", "/tmp/py/pkg")
TIER = _a.get("tier", "quick")
OUT = _a.get("out")
REPLAY = _a.get("replay")
SCALE = float(_a.get("limit-scale", "1"))
THOROUGH = TIER == "thorough"
sys.path[:0] = [PKG, os.path.join(os.path.dirname(os.path.dirname(HERE)), "pyshim", "stubs")]

import numpy as np  # noqa: E402

_lib = ctypes.CDLL(os.path.join(PKG, "capi.so"))
_lib.capi.restype = ctypes.c_long
_D = ctypes.POINTER(ctypes.c_double)


class CapiThrow(Exception):
    pass


def capi(name, *args):
    """Call the C++ library directly. Returns a flat list of doubles, or raises CapiThrow when the library throws."""
    flat = []
    for a in args:
        if isinstance(a, str):
            a = np.frombuffer(a.encode(), dtype=np.uint8).astype(float)
            flat.append(np.concatenate([[float(len(a))], a]))
        else:
            flat.append(np.ravel(np.asarray(a, dtype=float)))
    x = np.ascontiguousarray(np.concatenate(flat) if flat else np.zeros(0))
    out = np.full(20000, np.nan)
    n = _lib.capi(name.encode(), x.ctypes.data_as(_D), ctypes.c_long(len(x)), out.ctypes.data_as(_D), ctypes.c_long(len(out)))
    if n == -1:
        raise CapiThrow(name)
    if n < 0:
        raise RuntimeError("capi: unknown function " + name)
    return out[:n].tolist()


def capi_s(name, *args):
    return bytes(int(c) for c in capi(name, *args)).decode()


def flat(o):
    """All numbers in a nested structure, in order."""
    if isinstance(o, np.ndarray):
        return [float(x) for x in o.ravel()]
    if isinstance(o, (list, tuple)):
        r = []
        for x in o:
            r += flat(x)
        return r
    return [float(o)]


def bits(x):
    x = float(x)
    return b"nan" if x != x else struct.pack("<d", x)


def same(a, b):
    """Bit-identical (any NaN equals any NaN)."""
    return len(a) == len(b) and all(bits(x) == bits(y) for x, y in zip(a, b))


class Case:
    def __init__(self, sec, idx, verbose, want_sample):
        self.sec, self.idx, self.verbose, self.want_sample = sec, idx, verbose, want_sample
        self.states, self.viols, self.samples = set(), [], []
        self.n = dict(transitions=0, traces=0, evaluations=0, skips=0)
        self.metrics, self.counters = {}, {}

    def fail(self, key, msg=""):
        if self.verbose:
            print("FAIL", key, msg)
        if len(self.viols) < 40:
            self.viols.append({"key": key, "msg": str(msg)[:600], "replay": "%s:%d" % (self.sec, self.idx)})

    def state(self, *key):
        self.states.add(hashlib.md5(repr(key).encode()).digest()[:8])

    def trans(self, n=1):
        self.n["transitions"] += n

    def trace(self, n=1):
        self.n["traces"] += n

    def eval(self, n=1):
        self.n["evaluations"] += n

    def skip(self, why):
        self.n["skips"] += 1
        self.counters["skipped_" + why] = self.counters.get("skipped_" + why, 0) + 1

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def sample(self, s):
        if self.want_sample and len(self.samples) < 2:
            self.samples.append("%s:%d %s" % (self.sec, self.idx, str(s)[:300]))

    def expect(self, cond, key, msg=""):
        self.eval()
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def within(self, metric, err, tol, where=""):
        self.eval()
        r = 0.0 if err == 0 else (err / tol if err == err else math.inf)
        if not r >= 0:
            r = math.inf
        m = self.metrics.get(metric)
        if m is None or r > m[0]:
            self.metrics[metric] = [min(r, 1e308), "%s:%d" % (self.sec, self.idx)]
        if r > 1:
            self.fail(metric + "|" + str(where), "err=%.17g tol=%.17g" % (err, tol))
            return False
        return True

    def raises(self, key, exc, fn):
        """fn must raise exc (and nothing else)."""
        self.eval()
        try:
            r = fn()
        except exc as e:
            return e
        except Exception as e:  # noqa: BLE001
            self.fail(key, "raised %r" % (e,))
            return None
        self.fail(key, "did not raise; returned %r" % (r,))
        return None


def _merge(tot, c):
    tot["states"] |= c.states
    for k, v in c.n.items():
        tot[k] += v
    for k, v in c.metrics.items():
        if k not in tot["metrics"] or v[0] > tot["metrics"][k][0]:
            tot["metrics"][k] = v
    for k, v in c.counters.items():
        tot["counters"][k] = tot["counters"].get(k, 0) + v
    if len(tot["violations"]) < 3000:
        tot["violations"] += c.viols
    if c.want_sample and not c.samples:
        c.sample("(case %d): %d states, %d transitions, %d traces executed and compared" % (c.idx, len(c.states), c.n["transitions"], c.n["traces"]))
    tot["samples"] += c.samples


def _new():
    return dict(states=set(), transitions=0, traces=0, evaluations=0, skips=0, metrics={}, counters={}, violations=[], samples=[])


class Run:
    def __init__(self):
        self.secs, self.info = [], {}

    def section(self, name, cases, fn, limit_s=60):
        """cases: a list; fn(case_value, Case)."""
        self.secs.append((name, list(cases), fn, limit_s))

    @staticmethod
    def _do(name, cases, fn, i, tot, verbose=False):
        c = Case(name, i, verbose, i in (0, len(cases) // 2, len(cases) - 1))
        try:
            fn(cases[i], c)
        except Exception as e:  # noqa: BLE001
            c.fail("unexpected-exception|%s:%d" % (name, i), "%r %s" % (e, traceback.format_exc()[-400:]))
        _merge(tot, c)

    def _worker(self, name, cases, fn, nxt, chunk, slot, start, conn):
        tot = _new()
        while True:
            with nxt.get_lock():
                a = nxt.value
                nxt.value += chunk
            if a >= len(cases):
                break
            for i in range(a, min(len(cases), a + chunk)):
                start.value = time.time()
                slot.value = i
                self._do(name, cases, fn, i, tot)
                slot.value = -1
        conn.send(tot)
        conn.close()

    def go(self):
        t0 = time.time()
        tot, sections = _new(), {}
        aborted = None
        if REPLAY:
            rs, ri = REPLAY.rsplit(":", 1)
        for name, cases, fn, limit in self.secs:
            if REPLAY and name != rs:
                continue
            ts = time.time()
            if REPLAY:
                todo, cases_n = [int(ri)], 1
                nproc = 1
            else:
                todo, cases_n = None, len(cases)
                nproc = max(1, min(8, os.cpu_count() or 1, len(cases)))
            ctx = mp.get_context("fork")
            nxt = ctx.Value("q", 0)
            chunk = max(1, min(64, len(cases) // (nproc * 16 + 1)))
            procs = []
            for _ in range(nproc):
                slot, start = ctx.Value("q", -1, lock=False), ctx.Value("d", 0.0, lock=False)
                a, b = ctx.Pipe(False)
                if todo is not None:
                    def w(i=todo[0], slot=slot, start=start, b=b):
                        start.value = time.time()
                        slot.value = i
                        t = _new()
                        self._do(name, cases, fn, i, t, True)
                        slot.value = -1
                        b.send(t)
                        b.close()
                    p = ctx.Process(target=w)
                else:
                    p = ctx.Process(target=self._worker, args=(name, cases, fn, nxt, chunk, slot, start, b))
                p.start()
                b.close()
                procs.append((p, slot, start, a))
            live = list(procs)
            while live and not aborted:
                for e in list(live):
                    p, slot, start, a = e
                    if a.poll(0.02):
                        try:
                            t = a.recv()
                        except EOFError:
                            p.join()
                            i = slot.value
                            kind = "crash-signal%d" % -p.exitcode if p.exitcode and p.exitcode < 0 else "exit%s" % p.exitcode
                            tot["violations"].append({"key": "%s|%s:%d" % (kind, name, i), "msg": "%s while executing this case" % kind,
                                                      "replay": "%s:%d" % (name, i)})
                            aborted = kind
                            break
                        for k in ("states",):
                            tot[k] |= t[k]
                        for k in ("transitions", "traces", "evaluations", "skips"):
                            tot[k] += t[k]
                        for k, v in t["metrics"].items():
                            if k not in tot["metrics"] or v[0] > tot["metrics"][k][0]:
                                tot["metrics"][k] = v
                        for k, v in t["counters"].items():
                            tot["counters"][k] = tot["counters"].get(k, 0) + v
                        tot["violations"] += t["violations"]
                        tot["samples"] += t["samples"]
                        p.join()
                        live.remove(e)
                    elif slot.value >= 0 and time.time() - start.value > limit * SCALE:
                        i = slot.value
                        tot["violations"].append({"key": "hang|%s:%d" % (name, i), "msg": "no end after %g s" % (limit * SCALE),
                                                  "replay": "%s:%d" % (name, i)})
                        aborted = "hang"
                        break
            for p, _, _, _ in live:
                if p.is_alive():
                    os.kill(p.pid, signal.SIGKILL)
                p.join()
            sections[name] = {"cases": cases_n, "wall_s": round(time.time() - ts, 2)}
            if aborted:
                break
        tot["violations"].sort(key=lambda v: (v["replay"], v["key"]))
        res = dict(tot, states=len(tot["states"]), wall_s=round(time.time() - t0, 2), sections=sections,
                   metrics={k: {"max_err_over_tol": v[0], "at": v[1]} for k, v in sorted(tot["metrics"].items())},
                   info=self.info, samples=sorted(tot["samples"])[:24])
        if aborted:
            res["aborted"] = aborted
        s = json.dumps(res)
        if OUT:
            with open(OUT, "w") as f:
                f.write(s)
        print("states %d transitions %d evaluations %d violations %d wall %.1f s" % (
            res["states"], res["transitions"], res["evaluations"], len(res["violations"]), res["wall_s"]))
        for v in res["violations"][:12]:
            print("  ", v["key"], v["msg"][:700])
        sys.exit(1 if res["violations"] else 0)
