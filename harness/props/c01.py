"""C01: the clock, the intervals and the saved states of a run."""
import os
import random
import shutil

import simrun

LEVEL = "model_checking"
MODELS = {"quick": [("SimRun", "SimRun_MC.cfg")], "thorough": [("SimRun", "SimRun_Deep.cfg")]}
GENERATORS = {"quick": [{"module": "GenSimRun", "cfg": "GenSimRun_C01.cfg", "simulate": 400, "depth": 60, "limit": 400}],
              "thorough": [{"module": "GenSimRun", "cfg": "GenSimRun_C01.cfg", "simulate": 6000, "depth": 60, "limit": 6000}]}
TRACE = "TraceSimRun"
ASSUMPTIONS = ["times are compared to 1e-5 My, crater-number shares to 1e-4, the elapsed production to 5e-6 of the total",
               "the production function itself is taken as given (C17 decides it)"]


def score(h):
    """prefer histories with several legal requests and intervals"""
    t, n = None, 0
    for o in h:
        if o["op"] == "run" and o["ts"] > o["te"] and (t is None or o["ts"] >= t):
            n += 2 if o["ts"] - o["te"] > 1 else 1
            t = min(o["te"], t) if t is not None else o["te"]
    return n


def scenarios(rng, tier, gen):
    hs = [g["h"] for g in gen]
    rng.shuffle(hs)
    hs.sort(key=lambda h: -score(h) - 1.5 * rng.random())
    n = 40 if tier == "quick" else 900
    out = []
    for i, h in enumerate(hs[:n]):
        out.append({"kind": "run", "h": h, "seed": rng.randint(0, 10**6), "grid": ["plain", "plain", "odd", "early"][i % 4],
                    "prod": ["powerlaw", "powerlaw", "neukum"][i % 3]})
    # awkward divisions: the last interval is short, or the rounding of start - i*dt goes the wrong way
    for k in range(16 if tier == "quick" else 200):
        ts = rng.choice([1000.0, 1, 3, 0.7, 300.0, 1234.5, 4000.0])
        if k % 2:
            m = rng.choice(["number", "number", "time"])
            v = rng.randint(2, 7)
        else:
            m, v = "time", rng.choice([3, 7, 10, 2.5, 1.1, 6.1, 9.99])
        out.append({"kind": "one", "ts": ts, "te": rng.choice([0, 0, ts / 4, ts / 3]), "m": m, "v": v, "seed": rng.randint(0, 10**6),
                    "prod": rng.choice(["powerlaw", "powerlaw", "neukum"])})
    rng.shuffle(out)
    return out


def setup(cm, scratch):
    return {"cm": cm, "scratch": scratch, "n": 0}


def grid(g, prod):
    if prod == "neukum":
        return {"plain": lambda i: 4000.0 + 70.0 * i if i else 0.0, "odd": lambda i: 4000.3 + 61.7 * i, "early": lambda i: 4100.0 + 40 * i}[g]
    return {"plain": lambda i: 100 * i, "odd": lambda i: 0.1 * i, "early": lambda i: 3700.0 + 33.3 * i}[g]


def schedule(cm, sim, r, ts, te):
    """a few scheduled craters in the span of the run"""
    cs = [cm.Crater.maker(diameter=r.uniform(7e5, 9e5), location=(r.uniform(-180, 180), r.uniform(-80, 80)), time=r.uniform(te, ts))
          for _ in range(r.randint(1, 3))]
    sim.production.quasimc_craters = cs


def run(ctx, scn, ev):
    cm = ctx["cm"]
    r = random.Random(scn["seed"])
    ctx["n"] += 1
    d = os.path.join(ctx["scratch"], f"s{ctx['n']}")
    prod = scn["prod"]
    sim = simrun.make(cm, d, **simrun.config(scn["seed"], prod=prod, counting=r.random() < 0.6))
    rec = simrun.Recorder(sim, ev)
    try:
        with rec.hooks():
            if scn["kind"] == "one":
                scale(sim, scn["ts"] - scn["te"], prod, 60)
                one(rec, r, scn["ts"], scn["te"], scn["m"], scn["v"])
                if r.random() < 0.4 and scn["te"] > 0:
                    one(rec, r, scn["te"], 0, "time", 1, ["end", "start"])
            else:
                g = grid(scn["grid"], prod)
                runs = [o for o in scn["h"] if o["op"] == "run"]
                scale(sim, g(5) - g(0), prod, 60)
                for o in runs:
                    ts, te = g(o["ts"]), g(o["te"])
                    m, v = o["m"], o["d"]
                    if m == "time" and ts > te:
                        span = ts - te
                        v = r.choice([span / v, (g(2) - g(1)) * v])
                        if v < span / 12:
                            v = span / 4
                        v = ("dt", v)
                    one(rec, r, ts, te, m, v)
            rec.disk()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {}


def scale(sim, span, prod, n):
    """choose the rate so that about n craters form over the whole span"""
    if prod == "powerlaw":
        per = float(sim.production.function(diameter=5e5, time_start=float(span))) * sim.surface.area
        sim.production.N1_coef = float(sim.production.N1_coef) * n / per


def one(rec, r, ts, te, m, v, forms=None):
    sim = rec.sim
    kw = {}
    dt = n = 0
    if m == "number":
        n = int(v)
        kw["ninterval"] = n
        if n == 1:
            dt = ts - te
            if r.random() < 0.5:
                del kw["ninterval"]
    elif isinstance(v, tuple):
        dt = kw["time_interval"] = v[1]
    elif ts > te:
        dt = kw["time_interval"] = (ts - te) / v
    else:
        dt = kw["time_interval"] = 1.0
    form = r.choice(forms or ["start", "start", "age", "end", "ND", "DN"])
    if ts <= te and form in ("ND", "DN", "end"):
        form = "start"
    if form in ("ND", "DN") and (sim._time is not None or not 1.0 <= ts <= 4400):
        form = "start"
    if form in ("ND", "DN", "end") and dt and "time_interval" in kw and dt > 0.99 * (ts - te):
        form = "start"          # the times found from a number are not exact
    kw = simrun.request(r, form, ts, te, sim, **kw)
    if r.random() < 0.15:
        sim.production.quasimc_craters is None and ts > te and sim._time is None and schedule(sim_cm(), sim, r, ts, te)
    return rec.run(float(ts), float(te), kw, dt=dt, n=n)


def sim_cm():
    import cratermaker
    return cratermaker


def corrupt(t, rng):
    sv = [e for e in t["ev"] if e["op"] == "save"]
    cr = [e for e in t["ev"] if e["op"] == "craters" and len(e["t"]) > 1 and e["t"][0] != e["t"][-1]]
    k = rng.random()
    if k < 0.3 and cr:
        rng.choice(cr)["t"].reverse()
    elif sv and k < 0.6:
        rng.choice(sv)["elapsed"] += 50
    elif sv and k < 0.8:
        rng.choice(sv)["interval"] += 1
    elif sv:
        rng.choice(sv)["N1"] += 300
    else:
        return None
    return t


def vacuity(traces):
    n = sum(1 for t in traces for e in t["ev"] if e["op"] == "save")
    if n < 60:
        import vh
        raise vh.MachineryError(f"only {n} saved states")
    return f"{n} saved states"


def matches(k, trace, step, clause):
    return False
