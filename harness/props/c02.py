"""C02: contradictory run and sampling requests are refused without effect, legal ones mean one span."""
import hashlib
import os
import random
import shutil

import numpy as np

import simrun

LEVEL = "model_checking"
MODELS = {"quick": [("RunRequest", "RunRequest_MC.cfg")], "thorough": [("RunRequest", "RunRequest_Deep.cfg")]}
GENERATORS = {"quick": [{"module": "GenRunRequest", "cfg": "GenRunRequest.cfg", "limit": 4000}],
              "thorough": [{"module": "GenRunRequest", "cfg": "GenRunRequest.cfg", "limit": 4000}]}
TRACE = "TraceRunRequest"
ASSUMPTIONS = ["empty spans (start = end) and not-a-number values are not asked for",
               "the size of a sample is compared with its expectation within 8 standard deviations"]
NAME = {"age": "age", "ts": "time_start", "te": "time_end", "nd": "N_D", "nde": "N_D_end", "dn": "diameter_number", "dne": "diameter_number_end",
        "n": "ninterval", "dt": "time_interval", "range": "diameter_range", "area": "area", "ct": "compute_time"}


def scenarios(rng, tier, gen):
    """batches of requests; a batch runs on one simulation"""
    reqs = [g["h"] for g in gen]
    out = []
    for rep in range(1 if tier == "quick" else 12):
        rs = [dict(r) for r in reqs]
        rng.shuffle(rs)
        fit = [r for r in rs if r["fits"] and r["bad"] == "none"]
        rest = [r for r in rs if not (r["fits"] and r["bad"] == "none")]
        if tier == "quick":
            bad = [r for r in rest if r["bad"] != "none"]
            mix = [r for r in rest if r["bad"] == "none"]
            # two ways of saying something are the likeliest contradiction: keep all of the small ones
            mix.sort(key=lambda r: (len(r["g"]) > 3, rng.random()))
            rest = bad + mix[:900]
            rng.shuffle(rest)
        runs = [r for r in fit if r["kind"] == "run"]
        other = [r for r in fit if r["kind"] != "run"]
        runs = 2 * runs
        rng.shuffle(runs)
        if tier == "quick":
            other = 3 * [r for r in other if r["kind"] == "populate"] + [r for r in other if r["kind"] == "sample"][:60]
        nb = 24
        for i in range(nb):
            seq = rest[i::nb] + other[i::nb]
            rng.shuffle(seq)
            mine = runs[i::nb]
            k = len(seq) // (len(mine) + 1)
            for j, r in enumerate(mine):
                seq.insert((j + 1) * k + j, r)
            out.append({"kind": "batch", "reqs": seq, "seed": rng.randint(0, 10**6), "prod": ["powerlaw", "powerlaw", "neukum"][i % 3]})
    rng.shuffle(out)
    return out


def setup(cm, scratch):
    return {"cm": cm, "scratch": scratch, "n": 0}


def digest(sim, d):
    h = hashlib.sha1()
    for k in sorted(map(str, sim.surface.uxds.variables)):
        h.update(k.encode())
        h.update(np.ascontiguousarray(sim.surface.uxds[k].values).tobytes())
    files = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            files[os.path.relpath(p, d)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    c = sim.counting
    p = sim.production
    return {"clock": (sim.interval, sim._time, sim.elapsed_time, sim.elapsed_n1), "surface": h.hexdigest(), "stream": simrun._rng(sim),
            "craters": ([x.id for x in c.emplaced], sorted(c.observed)), "files": files,
            "settings": simrun.settings(sim), "quasimc": [x.id for x in (p.quasimc_craters or [])]}


def run(ctx, scn, ev):
    ctx["n"] += 1
    d = os.path.join(ctx["scratch"], f"s{ctx['n']}")
    r = random.Random(scn["seed"])
    kw = dict(production="neukum", largest_crater=800e3) if scn["prod"] == "neukum" else dict(production="powerlaw", N1_coef=1.0)
    sim = simrun.make(ctx["cm"], d, surface="icosphere", gridlevel=2, rng_seed=scn["seed"], reset=True, **kw)
    try:
        for q in scn["reqs"]:
            one(ctx, sim, d, q, scn, ev, r)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {"prod": scn["prod"]}


def number(sim, dia, t):
    return float(np.asarray(sim.production.function(diameter=dia, time_start=float(t))).item())


def values(sim, q, scn, r):
    """concrete arguments for a request, and the time each of them stands for"""
    g, bad = q["g"], q["bad"]
    now = sim._time
    neukum = scn["prod"] == "neukum"
    if q["kind"] == "sample":
        ts, area = r.choice([50.0, 1200.0, 3900.0]), 4 * np.pi * 1.7e6**2
    elif now is None:
        ts, area = (3900.0 + r.choice([0, 40.0])) if neukum else r.choice([3000.0, 1234.5, 2000]), sim.surface.area
    else:
        ts, area = float(now), sim.surface.area
        # a crater number turns into a time within rounding, so it is not asked to hit the current time
        if set(g) & {"nd", "dn"} or (r.random() < 0.4 and set(g) & {"age", "ts"}):
            ts *= 1.02
    if q["kind"] == "populate" and not neukum:
        ts = max(ts, 2500.0) if set(g) & {"age", "ts", "nd", "dn"} else ts
    te = ts * r.choice([0.93, 0.97, 0.99] if q["kind"] == "run" else [0.2, 0.5, 0.9])
    if q["kind"] == "run" and not (set(g) & {"te", "nde", "dne"}) and now is not None:
        te = 0.0
    pair = r.choice([tuple, list, np.array])
    v, t = {}, {}
    dia = r.choice([1.0, 5.0, 20.0])
    dia2 = r.choice([dia, 2.0, 10.0])
    den = {"area": area}
    nf, df = sim.production.N_conversion_factor, sim.production.D_conversion_factor
    if "range" in g:
        v["range"] = None
    if "area" in g:
        den["area"] = area = r.choice([1e11, 1e12, 3e12])
        v["area"] = area
    elif q["kind"] == "sample":
        den["area"] = area = 1.0
    if "range" in g:
        want = r.choice([5, 100, 400, 1000])
        lo = min(np.geomspace(1e2, 5e5, 60), key=lambda x: abs(number(sim, x, ts) * area - want))
        v["range"] = (float(lo), 1e6)
    for a in g:
        if a in ("age", "ts"):
            v[a], t[a] = ts, ts
        elif a == "te":
            v[a], t[a] = te, te
        elif a == "nd":
            v[a], t[a] = pair((dia, number(sim, dia * df, ts) * nf)), ts
        elif a == "nde":
            v[a], t[a] = pair((dia2, number(sim, dia2 * df, te) * nf)), te
        elif a == "dn":
            v[a], t[a] = pair((dia * 1e3, number(sim, dia * 1e3, ts) * area)), ts
        elif a == "dne":
            v[a], t[a] = pair((dia2 * 1e3, number(sim, dia2 * 1e3, te) * area)), te
        elif a == "n":
            v[a] = r.choice([1, 2, 3])
        elif a == "ct":
            v[a] = True
    if "dt" in g:
        lo = te if set(g) & {"te", "nde", "dne"} else 0.0
        v["dt"] = (ts - lo) / r.choice([1.0001, 2, 2.5, 3.3])
    if bad != "none":
        n0 = v.get(bad)
        v[bad] = r.choice({
            "age": [-5.0, "old", [ts], None if not neukum else 9000.0, (ts, 0.0)],
            "ts": [-5.0, "old", [ts], None if not neukum else 9000.0, np.array([ts, 1.0])],
            "te": [-3.0, "late", [te], ts * 1.3 + 1, np.array([te, te])],
            "nd": [(1.0, -2.0), (1.0,), 7.0, ("a", 1.0), (1.0, 2.0, 3.0), (-1.0, 2.0)],
            "nde": [(1.0, -2.0), (1.0,), 7.0, (1.0, 2.0, 3.0), (dia, number(sim, dia * df, ts) * nf * 1.5)],
            "dn": [(1e3, -2.0), (1e3,), 7.0, (1e3, 2.0, 3.0), (-1e3, 2.0)],
            "dne": [(1e3, -2.0), (1e3,), 7.0, (1e3, 2.0, 3.0), (dia * 1e3, number(sim, dia * 1e3, ts) * area * 1.5)],
            "n": [0, -2, 2.5, "3", 2.0], "dt": [0.0, -1.0, (ts - 0.0) * 1.5 + 1, "x"],
            "range": [(0.0, 1e4), (1e4, 5e3), (1e4,), (-5.0, 1e4), (1e3, 1e4, 1e5), 7.0],
            "area": [-1.0, [1e12], np.array([1e12, 1e12])], "ct": [1, "yes"]}[bad])
        if v[bad] is None:
            v[bad] = -1.0
        del n0
    return v, t, den["area"]


def one(ctx, sim, d, q, scn, ev, r):
    v, t, area = values(sim, q, scn, r)
    kw = {NAME[a]: x for a, x in v.items()}
    before = digest(sim, d)
    fresh = sim._time is None
    e = {"op": q["kind"], "g": sorted(q["g"]), "good": q["bad"] == "none", "t": {a: simrun.tq(x) for a, x in t.items()},
         "n": int(v["n"]) if "n" in q["g"] and q["bad"] != "n" else (0 if "dt" in q["g"] else 1),
         "dt": simrun.tq(v["dt"]) if "dt" in q["g"] and q["bad"] != "dt" else 0, "done": True, "num": 0, "exp": -1, "lo": 0, "hi": 0, "inrange": True,
         "flat": scn["prod"] == "powerlaw"}
    if q["kind"] == "sample" and "range" not in q["g"]:
        keep = sim.production.diameter_range
    dias, times = [], []
    try:
        if q["kind"] == "run":
            sim.run(**kw)
        elif q["kind"] == "populate":
            cs = sim.populate(**kw)
            times = [c.time for c in cs]
        else:
            dias, times = sim.production.sample(**kw)
    except Exception as x:
        e["done"] = False
        e["exc"] = f"{type(x).__name__}: {x}"[:160]
    after = digest(sim, d)
    e["chg"] = [k for k in after if after[k] != before[k]]
    e["set"] = sim._time is not None
    e["time"] = simrun.tq(sim._time) if e["set"] else -1
    e["first"] = e["nsave"] = 0
    if q["kind"] == "run" and e["done"]:
        e["nsave"] = len([f for f in after["files"] if after["files"][f] != before["files"].get(f) and "surface" in f and f.endswith(".nc") and "grid" not in f])
        if fresh:
            e["first"] = simrun.tq(np.asarray(sim.surface.read_saved_output(interval=0)["time"]).ravel()[0])
    if q["kind"] != "run" and e["done"]:
        times = [float(x) for x in times]
        e["num"] = max(len(times), len(dias))
        if times:
            e["lo"], e["hi"] = simrun.tq(min(times)), simrun.tq(max(times))
        if q["kind"] == "sample":
            rg = v["range"] if "range" in v else keep
            e["inrange"] = bool(np.all((np.asarray(dias) >= rg[0] * (1 - 1e-9)) & (np.asarray(dias) <= rg[1] * (1 + 1e-9))))
            try:
                span = [t[a] for a in ("age", "ts", "nd", "dn") if a in t][0], next((t[a] for a in ("te", "nde", "dne") if a in t), 0.0)
                e["exp"] = int(round(area * float(np.asarray(sim.production.function(diameter=rg[0], time_start=span[0], time_end=span[1])).item())))
            except Exception:
                pass
    ev.append(e)


def corrupt(t, rng):
    i = [k for k, e in enumerate(t["ev"]) if e["op"] != "x"]
    e = t["ev"][rng.choice(i)]
    e["done"] = not e["done"]
    return t


def vacuity(traces):
    import vh
    evs = [e for t in traces for e in t.get("ev", [])]
    n = {k: sum(1 for e in evs if e["op"] == k and e["done"]) for k in ("run", "populate", "sample")}
    ref = sum(1 for e in evs if not e["done"])
    cov = sum(1 for e in evs if e["num"] >= 60 and e["flat"])
    if min(n.values()) < 8 or ref < 300 or cov < 5:
        raise vh.MachineryError(f"C02: too little was asked: {n}, {ref} refused, {cov} large samples")
    return f"{n['run']} runs, {n['populate']} populations and {n['sample']} samples drawn, {ref} requests refused, {cov} samples of 60 or more"
