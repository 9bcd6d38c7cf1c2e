#!/usr/bin/env python3
"""Run one check:  python3 run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Builds /repo's current working tree together with the harness of the property, explores the bounded space, confirms
every reported violation by replaying it, filters the committed known findings, rewrites evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>".  Exit 2: error of the check.
"""
import concurrent.futures as cf
import fnmatch
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KEP3_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

BUILD = os.path.join(VERIF, "build")
CXX = "g++"
BASE = ["-w", "-O2", "-DNDEBUG", "-DBOOST_ALLOW_DEPRECATED_HEADERS", "-fno-strict-aliasing"]
# Sources that need heyoka / tanuki; the checks that cover them build them against /verif/shim themselves.
HEAVY = ("planet.cpp", "udpla/", "leg/sims_flanagan_hf.cpp", "stark_problem.cpp", "ta/", "core_astro/flyby.cpp")


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def tree_files(root, exts):
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return sorted(out)


def cmake_sources():
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"set\(\s*kep3_SRC_FILES(.*?)\)\s*\n", txt, re.S)
    if not m:
        raise CheckError("cannot find kep3_SRC_FILES in CMakeLists.txt")
    src = re.findall(r"src/[\w./+-]+\.cpp", m.group(1))
    return ["%s/%s" % (REPO, s) for s in src]


def gen_config(incdir):
    txt = open(os.path.join(REPO, "config.hpp.in")).read()
    ver = re.search(r"project\(\s*kep3\s+VERSION\s+([\d.]+)", open(os.path.join(REPO, "CMakeLists.txt")).read())
    v = ver.group(1) if ver else "0.0.0"
    parts = (v.split(".") + ["0", "0"])[:3]
    for k, val in (("kep3_VERSION_MAJOR", parts[0]), ("kep3_VERSION_MINOR", parts[1]), ("kep3_VERSION_PATCH", parts[2]),
                   ("kep3_VERSION", v)):
        txt = txt.replace("@%s@" % k, val)
    txt = re.sub(r"#cmakedefine\s+(\w+).*", r"/* #undef \1 */", txt)
    txt = re.sub(r"@\w+@", "", txt)
    d = os.path.join(incdir, "kep3")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "config.hpp")
    if not os.path.exists(p) or open(p).read() != txt:
        with open(p + ".tmp%d" % os.getpid(), "w") as f:
            f.write(txt)
        os.replace(p + ".tmp%d" % os.getpid(), p)


def compile_one(job):
    src, obj, cmd = job
    if os.path.exists(obj):
        return None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".tmp%d.o" % os.getpid()
    r = sh(cmd + ["-c", src, "-o", tmp])
    if r.returncode != 0:
        return "compilation of %s failed:\n%s" % (src, r.stdout[-6000:])
    os.replace(tmp, obj)
    return None


def build(pid):
    c = CHECKS[pid]
    inc = os.path.join(BUILD, "inc")
    gen_config(inc)
    headers = tree_files(os.path.join(REPO, "include"), (".hpp", ".h")) + [os.path.join(inc, "kep3/config.hpp")]
    hh = file_hash(headers)
    shim = c.get("shim", False)
    shim_h = file_hash(tree_files(os.path.join(VERIF, "shim"), (".hpp",))) if shim else ""
    har_h = file_hash(tree_files(os.path.join(VERIF, "harness"), (".hpp",)))
    incs = ["-I" + inc, "-I" + os.path.join(REPO, "include")]
    shim_inc = ["-I" + os.path.join(VERIF, "shim")]
    jobs, objs = [], []
    for s in cmake_sources():
        rel = os.path.relpath(s, os.path.join(REPO, "src"))
        heavy = rel.startswith(HEAVY)
        if heavy and not any(rel.startswith(x) for x in c.get("heavy", ())):
            continue
        if not os.path.exists(s):
            raise CheckError("source %s is listed in CMakeLists.txt but missing" % s)
        flags = [CXX, "-std=c++20"] + BASE + c.get("src_flags", []) + (shim_inc if shim else []) + incs
        key = hashlib.sha256((file_hash([s]) + hh + (shim_h if shim else "") + " ".join(flags)).encode()).hexdigest()[:20]
        o = os.path.join(BUILD, "obj", rel.replace("/", "_")[:-4] + "-" + key + ".o")
        jobs.append((s, o, flags))
        objs.append(o)
    hs = [os.path.join(VERIF, "harness", x) for x in [c["harness"]] + c.get("extra", [])]
    hobjs = []
    for i, s in enumerate(hs):
        flags = ([CXX, "-std=gnu++20"] + BASE + c.get("flags", []) + (c.get("extra_flags", []) if i else [])
                 + ["-I" + os.path.join(VERIF, "harness")] + (shim_inc if shim else []) + incs)
        key = hashlib.sha256((file_hash([s]) + hh + har_h + shim_h + " ".join(flags)).encode()).hexdigest()[:20]
        o = os.path.join(BUILD, "obj", "h_" + os.path.basename(s)[:-4] + "-" + key + ".o")
        jobs.insert(0, (s, o, flags))
        hobjs.append(o)
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for err in ex.map(compile_one, jobs):
            if err:
                raise CheckError(err)
    exe = os.path.join(BUILD, "bin", pid + "-" + hashlib.sha256(" ".join(sorted(objs + hobjs)).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        lib = exe + ".%d.a" % os.getpid()
        sh(["ar", "rcs", lib] + objs)
        r = sh([CXX] + hobjs + [lib] + c.get("ldflags", [])
               + ["-lboost_serialization", "-lfmt", "-lopenblas", "-llapack", "-lquadmath", "-lpthread", "-o", exe + ".tmp"])
        os.remove(lib)
        if r.returncode != 0:
            raise CheckError("link failed:\n" + r.stdout[-6000:])
        os.replace(exe + ".tmp", exe)
    return exe


def build_py(pid):
    """Compile /repo's Python bindings against the stand-in pybind11 (pyshim/) and lay out an importable pykep package."""
    c = CHECKS[pid]
    inc = os.path.join(BUILD, "inc")
    gen_config(inc)
    py = "/opt/veriftools/pyvenv/bin/python"
    if not os.path.exists(py):
        py = shutil.which("python3-vt") or sys.executable
    r = subprocess.run([py, "-c", "import numpy,sysconfig;print(numpy.get_include());print(sysconfig.get_path('include'))"],
                       stdout=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise CheckError("no Python with numpy")
    dirs = r.stdout.split()
    dirs = [dirs[0], dirs[1] if os.path.exists(os.path.join(dirs[1], "Python.h")) else "/usr/include/python3.12"]
    pk = os.path.join(REPO, "pykep")
    headers = (tree_files(os.path.join(REPO, "include"), (".hpp", ".h")) + [os.path.join(inc, "kep3/config.hpp")]
               + tree_files(os.path.join(VERIF, "shim"), (".hpp", ".h")))
    pyheaders = headers + tree_files(pk, (".hpp",)) + tree_files(os.path.join(VERIF, "pyshim"), (".h",))
    base = ([CXX, "-std=gnu++20", "-w", "-O1", "-fPIC", "-DNDEBUG", "-DBOOST_ALLOW_DEPRECATED_HEADERS", "-fno-strict-aliasing",
             "-fvisibility=hidden", "-I" + os.path.join(VERIF, "pyshim"), "-I" + os.path.join(VERIF, "shim"), "-I" + inc,
             "-I" + os.path.join(REPO, "include")] + ["-I" + d for d in dirs])
    hk, hp = file_hash(headers), file_hash(pyheaders)
    cm = open(os.path.join(pk, "CMakeLists.txt")).read()
    m = re.search(r"Python3_add_library\(\s*core\s+MODULE(.*?)\)", cm, re.S)
    if not m:
        raise CheckError("cannot find the sources of pykep's core module")
    pysrc = [os.path.join(pk, x) for x in re.findall(r"[\w./+-]+\.cpp", m.group(1))]
    jobs = []
    for grp, srcs, h in (("pk", pysrc, hp), ("lib", cmake_sources(), hk), ("capi", [os.path.join(VERIF, "harness/py/capi.cpp")], hk)):
        for s in srcs:
            key = hashlib.sha256((file_hash([s]) + h + " ".join(base)).encode()).hexdigest()[:20]
            jobs.append((s, os.path.join(BUILD, "obj", "py%s_" % grp + os.path.relpath(s, os.path.dirname(os.path.dirname(s))).replace("/", "_")[:-4]
                                         + "-" + key + ".o"), base, grp))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for err in ex.map(compile_one, [j[:3] for j in jobs]):
            if err:
                raise CheckError(err)
    files = []
    for d, _, fs in os.walk(pk):
        files += [os.path.join(d, f) for f in fs if f.endswith(".py") or f == "tle.txt"]
    key = hashlib.sha256((file_hash(sorted(files)) + " ".join(j[1] for j in jobs)).encode()).hexdigest()[:16]
    root = os.path.join(BUILD, "py", key)
    if not os.path.exists(root):
        tmp = root + ".tmp%d" % os.getpid()
        for f in files:
            o = os.path.join(tmp, "pykep", os.path.relpath(f, pk))
            os.makedirs(os.path.dirname(o), exist_ok=True)
            shutil.copyfile(f, o)
        with open(os.path.join(tmp, "pykep", "_version.py"), "w") as f:
            f.write('__version__ = "0.0.0"\n')
        for out, grps in (("pykep/core.so", ("pk", "lib")), ("capi.so", ("capi", "lib"))):
            r = sh([CXX, "-shared", "-o", os.path.join(tmp, out)] + [j[1] for j in jobs if j[3] in grps]
                   + ["-lboost_serialization", "-lfmt", "-lopenblas", "-llapack", "-lquadmath", "-lpthread"])
            if r.returncode != 0:
                raise CheckError("link failed:\n" + r.stdout[-6000:])
        try:
            os.rename(tmp, root)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return [py, "-W", "ignore", "-B", os.path.join(VERIF, "harness", "py", c["harness"]), "--pkg", root]


def run_exe(exe, tier, replay=None, timeout=None, verbose=False, limit_scale=1):
    scratch = os.path.join(BUILD, "run")
    os.makedirs(scratch, exist_ok=True)
    out = os.path.join(scratch, "out-%d-%s.json" % (os.getpid(), hashlib.md5(str(replay).encode()).hexdigest()[:8]))
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    cmd = (exe if isinstance(exe, list) else [exe]) + ["--tier", tier, "--out", out]
    if replay:
        cmd += ["--replay", replay]
    if limit_scale != 1:
        cmd += ["--limit-scale", str(limit_scale)]
    try:
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           cwd=scratch, errors="replace")
        rc, txt = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return {"aborted": "timeout", "violations": []}, "timeout"
    if verbose:
        print(txt[-20000:])
    if not os.path.exists(out):
        return {"aborted": "no-output rc=%d" % rc, "violations": [{"key": "crash|no-output", "msg": txt[-500:], "replay": replay or ""}]}, txt
    try:
        d = json.load(open(out))
    except Exception as e:  # noqa: BLE001
        raise CheckError("unreadable result of %s: %s\n%s" % (exe, e, txt[-2000:]))
    os.remove(out)
    return d, txt


def load_known(pid):
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING:\s+property=(\S+)\s+key=(.*?)\s+::\s+(.*)$", line.strip())
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3)))
    return known


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[pid]
    t0 = time.time()
    exe = build_py(pid) if c.get("py") else build(pid)
    tb = time.time() - t0
    if "--replay" in args:
        a = args[args.index("--replay") + 1]
        if os.path.exists(a):
            d = json.load(open(a))
            tier, a = d["tier"], d["replay"]
        d, txt = run_exe(exe, tier, replay=a)
        print(txt)
        print(json.dumps(d, indent=1)[:4000])
        sys.exit(1 if d.get("violations") else 0)
    budget = 840 if tier == "quick" else 6 * 3600
    d, txt = run_exe(exe, tier, timeout=budget)
    if d.get("aborted") == "timeout":
        raise CheckError("exploration exceeded %d s" % budget)
    cand = d.get("violations", [])
    known = load_known(pid)
    groups = {}
    hits = {}
    for v in cand:
        k = next((i for i, (pat, _) in enumerate(known) if v["key"] == pat or fnmatch.fnmatchcase(v["key"], pat)), None)
        if k is not None:
            hits.setdefault(k, []).append(v)
            continue
        groups.setdefault(v["key"].split("|")[0], []).append(v)
    confirmed = []
    again = None
    # Confirm: every group of unlisted violations must reproduce (alone, or by repeating the whole exploration).
    for g, vs in sorted(groups.items()):
        for v in vs[:4]:
            rd, rtxt = run_exe(exe, tier, replay=v["replay"], timeout=300, limit_scale=3)
            if rd.get("aborted") or any(x["key"] == v["key"] for x in rd.get("violations", [])):
                confirmed.append((v, "alone"))
                break
        else:
            if again is None:
                again, _ = run_exe(exe, tier, timeout=budget)
            keys = {x["key"] for x in again.get("violations", [])}
            for v in vs:
                if v["key"] in keys:
                    confirmed.append((v, "full exploration"))
                    break
    cov = {
        "states": d.get("states", 0),
        "transitions": d.get("transitions", 0),
        "traces_validated_against_impl": d.get("traces", 0),
        "samples": d.get("samples", []) or ["(no case ran to its end)"],
        "exhaustive": not d.get("aborted", False),
        "evaluations_of_the_property": d.get("evaluations", 0),
        "excluded_by_rule": d.get("skips", 0),
        "sections": d.get("sections", {}),
        "worst_error_over_tolerance": d.get("metrics", {}),
        "counters": d.get("counters", {}),
        "bounds": c.get("bounds", ""),
        "binding": c.get("binding", "every transition of the model is executed on the compiled /repo sources and compared"),
        "build_s": round(tb, 1),
        "info": d.get("info", {}),
        "known_findings_seen": {known[k][0]: len(v) for k, v in hits.items()},
    }
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": c.get("level", "model_checking"),
          "coverage": cov, "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    if ev["level"] == "exploration":
        cov["evaluations"] = d.get("evaluations", 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, vs in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k][1]))
    for k in range(len(known)):
        if k not in hits:
            print("note: listed finding not seen in this run: %s" % known[k][0])
    print("%s %s: %d states, %d transitions, %d traces on the real code, %d candidate(s), %d confirmed, %.1f s (build %.1f s)"
          % (pid, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], sum(map(len, groups.values())), len(confirmed),
             time.time() - t0, tb))
    if groups and not confirmed:
        print("note: %d unconfirmed candidate(s), not reproducible, not reported" % sum(map(len, groups.values())))
    if confirmed:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for v, how in confirmed:
            p = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, hashlib.md5(v["key"].encode()).hexdigest()[:10]))
            with open(p, "w") as f:
                json.dump({"property": pid, "tier": tier, "confirmed": how, "command": "python3 run.py %s --replay %s" % (pid, p), **v}, f, indent=1)
            print("  %s: %s" % (v["key"][:400], v["msg"][:400]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)
