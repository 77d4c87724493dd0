"""Shared machinery: importing the code under test, TLC runs, number abstraction."""
import contextlib
import io
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECDIR = os.path.join(VERIF, "spec")
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NONE = -1000000007      # the specification's "absent" integer
NAN = -1000000009       # a number that is not representable (NaN, inf, wrong type)
LIM = 2**30


def seed():
    return int(os.environ.get("VERIF_SEED", "1") or 1)


def ensure_version():
    """cratermaker/_version.py is generated and git-ignored; create it if a fresh checkout lacks it."""
    f = os.path.join(REPO, "cratermaker", "_version.py")
    if os.path.exists(f):
        return
    v = "0.0.0"
    with open(os.path.join(REPO, "crates/cratermaker-py/Cargo.toml")) as fh:
        for line in fh:
            m = re.match(r'^version *= *"(.*)"', line)
            if m:
                v = m.group(1)
                break
    with open(f, "w") as fh:
        fh.write(f'__version__ = version = "{v}"\n')


def import_cm():
    """Import cratermaker from /repo with stand-ins for its Rust extension."""
    ensure_version()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    if not hasattr(np.random, "_vh_default_rng"):
        # unseeded generators are part of the environment: make them reproducible
        np.random._vh_default_rng = np.random.default_rng
        count = [0]

        def default_rng(seed=None):
            if seed is None:
                count[0] += 1
                seed = 987654321 + count[0]
            return np.random._vh_default_rng(seed)
        np.random.default_rng = default_rng
    import standins
    standins.install()
    import cratermaker
    assert cratermaker.__file__.startswith(REPO + "/"), cratermaker.__file__
    import logging
    logging.disable(logging.CRITICAL)
    return cratermaker


@contextlib.contextmanager
def quiet():
    """Discard everything the code under test prints."""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def iq(x, scale=1.0, tol=1e-6):
    """x/scale as an integer if it is one (within tol), NONE for None, NAN otherwise."""
    if x is None:
        return NONE
    try:
        v = float(x) / scale
    except (TypeError, ValueError):
        return NAN
    if not math.isfinite(v) or abs(v) > LIM:
        return NAN
    r = round(v)
    return int(r) if abs(v - r) <= tol * max(1.0, abs(v)) else NAN


def isgn(x):
    return (x > 0) - (x < 0)


class MachineryError(Exception):
    pass


def tlc(module, cfg, workers=1, env=None, args=(), timeout=600, heap="4g", keep_out=None):
    """Run TLC; returns dict(rc, out, generated, distinct, depth, secs)."""
    meta = tempfile.mkdtemp(prefix="tlc_", dir=os.environ.get("VH_SCRATCH") or None)
    cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-Dvh=1",
           "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
           "-config", cfg, *args, module]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPECDIR, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout or b"")
        out = out.decode() if isinstance(out, bytes) else out
        rc = -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = {"rc": rc, "out": out, "secs": time.time() - t, "generated": 0, "distinct": 0, "depth": 0}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ",").replace("\u00a0", ""))
    if not m:
        m = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct states found", out)
    if m:
        res["generated"] = int(m[-1][0].replace(",", ""))
        res["distinct"] = int(m[-1][1].replace(",", ""))
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    if m:
        res["depth"] = int(m[-1])
    return res


def tlc_check(module, cfg, **kw):
    """Exhaustive model check that must succeed."""
    r = tlc(module, cfg, **kw)
    if r["rc"] != 0 or "Model checking completed. No error has been found" not in r["out"]:
        raise MachineryError(f"TLC {module} {cfg} failed (rc={r['rc']}):\n" + r["out"][-4000:])
    return r


def tlc_scenarios(module, cfg, simulate=None, depth=None, sd=1, timeout=600, workers=1):
    """Scenarios printed as 'SCN <json>' by a generator module."""
    args = []
    if simulate:
        args = ["-simulate", f"num={simulate}", "-depth", str(depth or 100), "-seed", str(sd)]
        workers = 1
    args += ["-deadlock"]
    r = tlc(module, cfg, workers=workers, args=args, timeout=timeout)
    scn, seen = [], set()
    for line in r["out"].splitlines():
        line = line.strip()
        if line.startswith('"SCN '):
            line = json.loads(line)
        if line.startswith("SCN "):
            s = line[4:]
            if s not in seen:
                seen.add(s)
                scn.append(json.loads(s))
    if r["rc"] not in (0,) or not scn:
        raise MachineryError(f"TLC generation {module} {cfg} failed (rc={r['rc']}, {len(scn)} scenarios):\n" + r["out"][-4000:])
    scn.sort(key=lambda s: json.dumps(s, sort_keys=True))
    return scn, r


class TlcFailed(MachineryError):
    pass


def _tlc_traces(module, cfg, traces, scratch, workers, timeout):
    path = os.path.join(scratch, f"traces_{module}_{os.getpid()}_{time.time_ns()}.json")
    with open(path, "w") as f:
        json.dump(traces, f)
    r = tlc(module, cfg, workers=workers, env={"VH_TRACES": path}, args=["-deadlock"], timeout=timeout, heap="8g")
    os.unlink(path)
    if r["rc"] == -1:
        raise MachineryError(f"trace validation {module} timed out")
    if r["rc"] != 0 or "Model checking completed. No error has been found" not in r["out"]:
        raise TlcFailed(f"trace validation {module} failed (rc={r['rc']}):\n" + r["out"][-6000:])
    bad = []
    for m in re.finditer(r'"?BAD <<(\d+), (\d+), \\?"([^"\\]*)\\?">>', r["out"]):
        bad.append((int(m.group(1)) - 1, int(m.group(2)) - 1, m.group(3)))
    bad = sorted(set(bad))
    stop = {b[0]: b[1] + 1 for b in bad}
    want = sum((stop[i] if i in stop else len(t["ev"])) + 1 for i, t in enumerate(traces))
    if r["distinct"] != want:
        raise MachineryError(f"trace validation {module} incomplete: {r['distinct']} states, expected {want}\n" + r["out"][-3000:])
    return bad, r


OUTSIDE = "observation outside the domain of the specification"


def tlc_traces(module, cfg, traces, scratch, workers=4, timeout=800):
    """Validate traces; returns (list of (trace index, step, clause), TLC result).

    If TLC cannot evaluate the judgement at all (an observation of a type the specification does not know),
    the culprit traces are located by bisection and reported as outside the specification's domain."""
    if not traces:
        raise MachineryError("no traces to validate")
    try:
        return _tlc_traces(module, cfg, traces, scratch, workers, timeout)
    except TlcFailed as ex:
        first = ex
    total = {"distinct": 0, "generated": 0}
    bad = []

    def go(lo, hi, budget):
        if budget[0] <= 0:
            return
        budget[0] -= 1
        try:
            b, r = _tlc_traces(module, cfg, traces[lo:hi], scratch, workers, timeout)
            bad.extend((i + lo, s, c) for i, s, c in b)
            total["distinct"] += r["distinct"]
            total["generated"] += r["generated"]
        except TlcFailed:
            if hi - lo == 1:
                bad.append((lo, 0, OUTSIDE))
                budget[0] -= 8
                return
            mid = (lo + hi) // 2
            go(lo, mid, budget)
            go(mid, hi, budget)

    go(0, len(traces), [40])
    if not any(c == OUTSIDE for _, _, c in bad):
        raise first
    with open("/dev/stderr", "w") as f:
        f.write("TLC: " + str(first)[-1500:] + "\n")
    return sorted(bad), total
