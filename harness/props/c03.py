"""C03: stopping, reopening and continuing a simulation."""
import glob
import os
import random
import shutil

import numpy as np
import simrun
from props import c01

LEVEL = "model_checking"
MODELS = c01.MODELS
GENERATORS = {"quick": [{"module": "GenSimRun", "cfg": "GenSimRun.cfg", "simulate": 400, "depth": 60, "limit": 600}],
              "thorough": [{"module": "GenSimRun", "cfg": "GenSimRun.cfg", "simulate": 6000, "depth": 60, "limit": 6000}]}
TRACE = "TraceSimRun"
ASSUMPTIONS = ["a process may end before or after the files of a state are written and between them; partly written files are not considered",
               "the random stream and the craters of a continued run are compared when the process ended at a saved state",
               "times are compared to 1e-5 My"]
SCENARIO_TIMEOUT = 120


def scenarios(rng, tier, gen):
    hs = [g["h"] for g in gen if any(o["op"] == "stop" for o in g["h"])]
    rng.shuffle(hs)
    hs.sort(key=lambda h: -c01.score(h) - 2 * sum(o["op"] == "stop" and o["phase"] != "idle" for o in h) - 2 * rng.random())
    out = []
    for i, h in enumerate(hs[:26 if tier == "quick" else 500]):
        out.append({"kind": "crash", "h": h, "seed": rng.randint(0, 10**6), "grid": ["plain", "odd", "early"][i % 3], "prod": ["powerlaw", "neukum"][i % 2],
                    "mesh": "ico2"})
    for i in range(14 if tier == "quick" else 300):
        out.append({"kind": "split", "seed": rng.randint(0, 10**6), "prod": ["neukum", "powerlaw"][i % 2], "mesh": ["ico3", "ico3", "ico2"][i % 3],
                    "m": ["time", "number"][(i // 2) % 2], "n": rng.randint(2, 4), "stops": sorted(rng.sample(range(0, 4), rng.randint(1, 3)))})
    rng.shuffle(out)
    return out


def setup(cm, scratch):
    return {"cm": cm, "scratch": scratch, "n": 0}


EXTRA = [dict(), dict(do_slope_collapse=False), dict(do_subpixel_degradation=False), dict(ejecta_truncation=3.0), dict(monte_carlo=False), dict(target="Mars"),
         dict(scaling="montecarlo", target="Moon"), dict(projectile="comets"), dict(material="Hard Rock")]


def reopen(ctx, rec, d, exact, cfg):
    sim = simrun.make(ctx["cm"], d, reset=False)
    ev, snaps, start = rec.ev, rec.snap, rec.start
    new = simrun.Recorder(sim, ev)
    new.snap, new.start = snaps, start
    last = snaps[max(snaps)] if snaps else None
    now = new.snapshot()
    fl = dict(el=True, tags=True, obs=True, emp=True, rng=True, cfg=True)
    if last is not None:
        fl["el"] = all(np.array_equal(x, y) for x, y in zip(last["el"], now["el"]))
        fl["tags"] = bool(np.array_equal(last["tags"], now["tags"]))
        fl["obs"] = last["observed"] == now["observed"]
        if exact:
            fl["rng"] = last["rng"] == now["rng"]
        else:
            last["rng"] = now["rng"]        # after a crash the stream restarts from here
    if exact and cfg is not None:
        c2 = simrun.settings(sim)
        diff = [k for k in set(cfg) | set(c2) if cfg.get(k) != c2.get(k)]
        fl["cfg"] = not diff
        fl["diff"] = sorted(f"{k}: {cfg.get(k)} -> {c2.get(k)}"[:80] for k in diff)[:4]
    ev.append({"op": "reopen", **new.clock(), **fl})
    return new


def run(ctx, scn, ev):
    ctx["n"] += 1
    d = os.path.join(ctx["scratch"], f"s{ctx['n']}")
    try:
        return (split if scn["kind"] == "split" else crash)(ctx, scn, ev, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + "b", ignore_errors=True)


def crash(ctx, scn, ev, d):
    cm = ctx["cm"]
    r = random.Random(scn["seed"])
    prod = scn["prod"]
    sim = simrun.make(cm, d, **simrun.config(scn["seed"], mesh=scn["mesh"], prod=prod, counting=True))
    g = c01.grid(scn["grid"], prod)
    c01.scale(sim, g(5) - g(0), prod, 60)
    rec = simrun.Recorder(sim, ev)
    h = scn["h"]
    i = 0
    req = None
    while i < len(h):
        o = h[i]
        nxt = h[i + 1] if i + 1 < len(h) else None
        if o["op"] == "run":
            ts, te = g(o["ts"]), g(o["te"])
            v = o["d"]
            if o["m"] == "time" and ts > te:
                v = ("dt", (ts - te) / r.choice([1, 2, 2.5, 3]))
            req = (ts, te, o["m"], v)
            if nxt is not None and nxt["op"] == "stop" and nxt["phase"] in ("window", "formed", "half"):
                k = int(rec.sim.interval) + (0 if nxt["phase"] != "half" else 1) + r.choice([0, 0, 1])
                rec.stop_at = (nxt["phase"], k)
            with rec.hooks():
                res = c01.one(rec, r, *req, forms=["start", "start", "age"])
            rec.stop_at = None
            if res == "stopped":
                if not rec.snap:
                    return {}
                rec = reopen(ctx, rec, d, nxt["phase"] == "window", None)
                i += 1
                if r.random() < 0.6:
                    # take up the interrupted request again
                    with rec.hooks():
                        c01.one(rec, r, *req, forms=["start"])
        elif o["op"] == "stop" and rec.snap:
            cfg = simrun.settings(rec.sim)
            ev.append({"op": "stop"})
            rec = reopen(ctx, rec, d, True, cfg)
        i += 1
    rec.disk()
    return {}


def split(ctx, scn, ev, d):
    """the same simulation, uninterrupted and with stops at saved intervals"""
    cm = ctx["cm"]
    r = random.Random(scn["seed"])
    prod = scn["prod"]
    extra = r.choice(EXTRA)
    cfg0 = simrun.config(scn["seed"], mesh=scn["mesh"], prod=prod, **extra)
    n = scn["n"]
    ts, te = (4350.0, 4350.0 - 60 * n) if prod == "neukum" else (100.0 * n, 0.0)
    kw = dict(time_start=ts, time_end=te)
    dt = 0
    if scn["m"] == "time":
        dt = kw["time_interval"] = (ts - te) / (n - r.choice([0, 0.5]))
    else:
        kw["ninterval"] = n
        dt = 0
    sched = [dict(diameter=r.uniform(5e5, 8e5), location=(r.uniform(-180, 180), r.uniform(-80, 80)), time=r.uniform(te, ts)) for _ in range(2)]
    use = r.random() < 0.3
    sims = []
    for x in ("b", ""):
        s = simrun.make(cm, d + x, **cfg0)
        s.rng.bit_generator.state = np.random.PCG64(scn["seed"]).state
        c01.scale(s, ts - te, prod, 60)
        sims.append(s)
    A, B = sims
    hand = {"a": [], "b": []}
    a, b = simrun.Recorder(A, []), simrun.Recorder(B, ev)
    with a.hooks():
        a.run(ts, te, kw, dt=dt, n=0 if dt else n)
    kept = {}
    for k in scn["stops"]:
        if b.sim._time is not None and float(b.sim.time) <= te:
            break
        b.stop_at = ("window", k)
        with b.hooks():
            res = b.run(ts, te, kw, dt=dt, n=0 if dt else n)
        b.stop_at = None
        if res != "stopped":
            break
        cfg = simrun.settings(b.sim)
        b = reopen(ctx, b, d, True, cfg)
        for f in glob.glob(os.path.join(d, "surface", "surface*.nc")):
            kept.setdefault(f, content(f))
    if b.sim._time is None or float(b.sim.time) > te or not b.snap:
        with b.hooks():
            b.run(ts, te, kw, dt=dt, n=0 if dt else n)
    b.disk()
    na, nb = sorted(a.snap), sorted(b.snap)
    fl = {"nums": na == nb, "times": True, "craters": True, "el": True, "kept": all(same(content(f), v) for f, v in kept.items())}
    ca = {e["interval"]: e for e in a.ev if e["op"] == "save"}
    cb = {e["interval"]: e for e in ev if e["op"] == "save"}
    for i in set(na) & set(nb):
        fl["times"] = fl["times"] and abs(ca[i]["time"] - cb[i]["time"]) <= 1 and abs(ca[i]["elapsed"] - cb[i]["elapsed"]) <= 1
        fl["craters"] = fl["craters"] and sorted(a.snap[i]["emplaced"]) == sorted(b.snap[i]["emplaced"]) and a.snap[i]["observed"] == b.snap[i]["observed"]
        fl["el"] = fl["el"] and all(np.array_equal(x, y) for x, y in zip(a.snap[i]["el"], b.snap[i]["el"])) and bool(np.array_equal(a.snap[i]["tags"], b.snap[i]["tags"]))
    ev.append({"op": "twin", "n": sum(len(a.snap[i]["emplaced"]) for i in na), **fl})
    return {}


def content(f):
    import xarray as xr
    try:
        with xr.open_dataset(f) as ds:
            return {str(v): np.array(ds[v].values) for v in ds.variables}
    except FileNotFoundError:
        return None


def same(a, b):
    if a is None or b is None or set(a) != set(b):
        return False
    return all(np.array_equal(a[k], b[k], equal_nan=a[k].dtype.kind == "f") for k in a)


def corrupt(t, rng):
    k = [e for e in t["ev"] if e["op"] in ("reopen", "twin")]
    if not k:
        return None
    e = rng.choice(k)
    if e["op"] == "twin":
        e[rng.choice(["nums", "times", "craters", "el", "kept"])] = False
    elif rng.random() < 0.5:
        e["interval"] += 1
    else:
        e[rng.choice(["el", "tags", "obs", "rng", "cfg"])] = False
    return t


def vacuity(traces):
    n = sum(1 for t in traces for e in t["ev"] if e["op"] == "reopen")
    m = sum(e["n"] for t in traces for e in t["ev"] if e["op"] == "twin")
    if n < 20 or m < 50:
        import vh
        raise vh.MachineryError(f"{n} reopenings, {m} craters compared")
    return f"{n} reopenings, {m} craters compared"


def matches(k, trace, step, clause):
    return False
