"""C16: scheduled craters get exactly one time each, within range, exact where exact, in stratigraphic order."""
import os
import random

import numpy as np

import vh

LEVEL = "model_checking"
MODELS = {"quick": [("Schedule", "Schedule_MC.cfg"), ("Schedule", "Schedule_Groups.cfg")], "thorough": [("Schedule", "Schedule_Deep.cfg"), ("Schedule", "Schedule_Groups.cfg")]}
GENERATORS = {"quick": [{"module": "GenSchedule", "cfg": "GenSchedule.cfg", "simulate": 900, "depth": 12}],
              "thorough": [{"module": "GenSchedule", "cfg": "GenSchedule.cfg", "simulate": 15000, "depth": 12}]}
TRACE = "TraceSchedule"
ASSUMPTIONS = ["an exact crater may be moved when the ranges of different sequences overlap or a sequence states nothing",
               "draws are within eight deviations of their mean, and the spread of forty equal offers is 0.4 to 1.7 deviations",
               "N(D) is in the documented units, D in km and N per 10^6 km^2"]
TOP = 4500.0


def scenarios(rng, tier, gen):
    out = []
    for g in gen:
        m = g["h"]["m"]
        out.append({"kind": "offer", "m": m, "h": g["h"]["h"], "seed": rng.randint(0, 10**9), "prod": rng.choice(["Moon", "Moon", "Mars", "powerlaw"])})
    for i in range(24 if tier == "quick" else 200):
        out.append({"kind": "many", "seed": rng.randint(0, 10**9), "what": ["time", "nd", "seq"][i % 3], "prod": ["Moon", "powerlaw", "Mars"][i // 3 % 3]})
    return out


def setup(cm, scratch):
    from cratermaker.components.crater import Crater
    from cratermaker.components.production import Production
    return {"Crater": Crater.maker, "Production": Production.maker, "scratch": scratch, "n": 0}


def prod(ctx, scn):
    if scn["prod"] == "powerlaw":
        return ctx["Production"]("powerlaw", rng_seed=scn["seed"])
    return ctx["Production"]("neukum", version=scn["prod"], rng_seed=scn["seed"])


def n1(p, t):
    return float(np.asarray(p.function(diameter=1000.0, time_start=float(min(max(t, 0.0), TOP)))).item())


def nd(p, d, t):
    return float(np.asarray(p.function(diameter=d * 1e3, time_start=float(t))).item()) * 1e12


def describe(p, r, o, m, i):
    """one crater to offer: keyword arguments and what the specification is told about it"""
    q, k = o["seq"], o["kind"]
    if m["order"] == "apart":
        t = 4400.0 - 900 * max(q, 0) - 20 * o["level"] + r.uniform(-5, 5)
    elif m["order"] == "touching":
        t = 4300.0 - 300 * max(q, 0) - 20 * o["level"]
    else:
        t = r.choice([r.uniform(0.1, 4490), r.uniform(3600, 4400)])
    if q < 0:
        t = r.choice([r.uniform(0.01, 4499), r.uniform(1, 60), r.uniform(4400, 4499.9), 4500.0, 0.5])
    kw = {"production_sequence": q} if q >= 0 else {}
    c = {"seq": q, "kind": "none", "lo": 0, "hi": 0, "inr": True}
    mean = sd = None
    unit = 1e9 / n1(p, TOP)
    if k in ("t0", "tf", "ts", "tw"):
        sd = {"t0": 0.0, "tf": 0.0, "ts": r.choice([0.5, 5.0, 20.0]), "tw": r.choice([150.0, 600.0])}[k]
        mean = t
        kw["production_time"] = t if k == "tf" else (t, sd)
        lo, hi = n1(p, t - sd), n1(p, t + sd)
    elif k in ("n0", "n2", "ns", "nw", "both"):
        d = r.choice([1.0, 5.0, 20.0, 64.0, 90.0])
        t = min(t, 4499.99)  # the number of the very end of the chronology is beyond it by rounding
        n = nd(p, d, t)
        f = {"ns": 0.02, "nw": r.choice([0.3, 1.5])}.get(k, 0.0)
        mean, sd = n, n * f
        kw["production_ND"] = (d, n) if k in ("n2", "both") else (d, n, sd)
        if k == "both":
            kw["production_time"] = (t, 0.0)
        lo, hi = n1(p, t) * max(1 - f, 0.0), n1(p, t) * (1 + f)
    if k != "none":
        hi = min(hi, n1(p, TOP))
        c.update(kind="exact" if sd == 0 else "range", lo=int(lo * unit), hi=int(np.ceil(hi * unit)))
    return kw, c, {"t": t, "mean": mean, "sd": sd, "d": kw.get("production_ND", (None,))[0]}


def table(ctx, kws):
    ctx["n"] += 1
    f = os.path.join(ctx["scratch"], f"q{ctx['n']}.csv")
    with open(f, "w") as fh:
        fh.write("name,latitude,longitude,diameter,production_time,production_time_stdev,production_D,production_N,production_N_stdev,production_sequence\n")
        for kw in kws:
            t = kw.get("production_time", ("", ""))
            t = t if isinstance(t, tuple) else (t, "")
            t = tuple("" if x == 0 or x == "" else repr(x) for x in t[1:])
            tm = kw.get("production_time", "")
            tm = tm[0] if isinstance(tm, tuple) else tm
            n = tuple(repr(x) for x in kw.get("production_ND", ())) + ("", "", "")
            fh.write(f"{kw['name']},{kw['location'][1]},{kw['location'][0]},{kw['diameter']!r},{tm if tm == '' else repr(tm)},{t[0]},{n[0]},{n[1]},{n[2]},{kw.get('production_sequence', '')}\n")
    return f


def run(ctx, scn, ev):
    r = random.Random(scn["seed"])
    p = prod(ctx, scn)
    if scn["kind"] == "many":
        ev.append(many(ctx, p, scn, r))
        return {}
    for rep in range(2):
        offer(ctx, p, scn, r, ev)
    return {"m": scn["m"]}


def offer(ctx, p, scn, r, ev):
    kws, cs, info = [], [], []
    for i, o in enumerate(scn["h"]):
        kw, c, x = describe(p, r, o, scn["m"], i)
        kw.update(name=f"c{i}", diameter=float(r.randint(2000, 900000)) + i / 16, location=(r.uniform(-179, 179), r.uniform(-89, 89)))
        kws.append(kw)
        cs.append(c)
        info.append(x)
    before = [(c.name, c.time) for c in p.quasimc_craters]
    e = {"op": "offer", "cs": cs, "done": True, "kept": True, "out": [], "dev": [], "extra": 0, "same": True, "list": [],
         "top": int(TOP * 1e5) if scn["prod"] != "powerlaw" else -1}
    with vh.quiet():
        try:
            if scn["m"]["how"] == "file":
                p.quasimc_file = table(ctx, kws)
            else:
                p.quasimc_craters = [ctx["Crater"](**kw) for kw in kws]
        except (ValueError, RuntimeError) as x:
            e["done"], e["exc"] = False, repr(x)[:120]
            e["kept"] = [(c.name, c.time) for c in p.quasimc_craters] == before
            ev.append(e)
            return
        got = list(p.quasimc_craters)
    names = {kw["name"]: i for i, kw in enumerate(kws)}
    at = {i: [] for i in range(len(kws))}
    for c in got:
        if c.name in names:
            at[names[c.name]].append(c)
        else:
            e["extra"] += 1
    q = lambda t: int(np.clip(round(t * 1e5), -2e9, 2e9)) if t is not None and np.isfinite(t) else -2 * 10**9
    for i, kw in enumerate(kws):
        e["out"].append([q(c.time) for c in at[i]])
        x, dev = info[i], 0
        if at[i]:
            c = at[i][0]
            e["same"] &= bool(abs(c.diameter - kw["diameter"]) < 1e-6 and abs(c.location[0] - kw["location"][0]) < 1e-6 and abs(c.location[1] - kw["location"][1]) < 1e-6
                              and (c.production_sequence == kw.get("production_sequence")))
            if x["mean"] is not None and c.time is not None:
                if x["sd"] == 0:
                    dev = abs(c.time - x["t"]) * 1e6
                elif x["d"] is None:
                    dev = abs(c.time - x["mean"]) / x["sd"] * 1e3
                else:
                    dev = abs(nd(p, x["d"], min(max(c.time, 0), TOP)) - x["mean"]) / x["sd"] * 1e3
        e["dev"].append(int(min(dev, 2e9)))
    e["list"] = [q(c.time) for c in got]
    ev.append(e)
    with vh.quiet():
        again = list(p.quasimc_craters)
    ev.append({"op": "again", "same": [(c.name, c.time) for c in again] == [(c.name, c.time) for c in got]})


def many(ctx, p, scn, r):
    t = r.uniform(1500, 3900)
    sd = r.choice([1.0, 20.0, 100.0])
    k = 40
    if scn["what"] == "nd":
        n = nd(p, 20.0, t)
        sd = n * r.choice([0.01, 0.1])
        kw = {"production_ND": (20.0, n, sd)}
    else:
        n = t
        kw = {"production_time": (t, sd)}
    cs = [ctx["Crater"](name=f"m{i}", diameter=20e3, location=(0, 0), **kw) for i in range(k)]
    with vh.quiet():
        p.quasimc_craters = cs
        ts = [c.time for c in p.quasimc_craters]
    v = [nd(p, 20.0, x) for x in ts] if scn["what"] == "nd" else ts
    return {"op": "many", "ratio": int(np.std(v) / sd * 1000), "mean": int((np.mean(v) - n) / sd * 1000)}


def corrupt(t, rng):
    for e in t["ev"]:
        if e["op"] == "offer" and e["done"] and any(e["out"]):
            i = next(i for i, o in enumerate(e["out"]) if o)
            c = rng.choice(["twice", "lost", "future", "exact"])
            if c == "twice":
                e["out"][i].append(e["out"][i][0])
            elif c == "lost":
                e["out"][i] = []
            elif c == "future":
                e["out"][i] = [-1]
            else:
                j = [j for j, x in enumerate(e["cs"]) if x["kind"] == "exact" and x["seq"] < 0]
                if not j:
                    continue
                e["dev"][j[0]] = 1000
            return t
    return None


def vacuity(traces):
    n = {"accepted": 0, "refused": 0, "exact": 0, "range": 0, "left out": 0, "tagged pairs": 0, "tagged exact kept apart": 0, "file": 0}
    for t in traces:
        for e in t["ev"]:
            if e["op"] == "offer":
                n["accepted" if e["done"] else "refused"] += 1
                if not e["done"]:
                    continue
                n["file"] += t.get("m", {}).get("how") == "file"
                tag = [c for c in e["cs"] if c["seq"] >= 0]
                n["tagged pairs"] += len({c["seq"] for c in tag}) > 1
                for c in e["cs"]:
                    n["exact"] += c["kind"] == "exact"
                    n["range"] += c["kind"] == "range"
                    n["left out"] += c["kind"] == "none" and c["seq"] < 0
                st = [c for c in tag if c["kind"] != "none"]
                if len({c["seq"] for c in st}) > 1 and all(a["lo"] > b["hi"] for a in st for b in st if a["seq"] < b["seq"]):
                    n["tagged exact kept apart"] += any(c["kind"] == "exact" for c in st)
    if min(n.values()) < 10:
        raise vh.MachineryError(f"too little: {n}")
    return str(n)


def matches(k, trace, step, clause):
    return False
