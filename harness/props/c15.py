"""C15: merging scheduled craters into random populations."""
import os

LEVEL = "model_checking"
MODELS = {"quick": [("QuasiMerge", "QuasiMerge_MC.cfg")], "thorough": [("QuasiMerge", "QuasiMerge_Deep.cfg")]}
GENERATORS = {
    "quick": [{"module": "GenQuasiMerge", "cfg": "GenQuasiMerge.cfg", "simulate": 60, "depth": 10, "limit": 400}],
    "thorough": [{"module": "GenQuasiMerge", "cfg": "GenQuasiMerge.cfg", "simulate": 600, "depth": 10, "limit": 6000}],
}
TRACE = "TraceQuasiMerge"
ASSUMPTIONS = ["scheduled craters carry exact times here (uncertain times and sequences are C16)",
               "sizes and times are mapped to integers; ordering and equality are exact"]


def scenarios(rng, tier, gen):
    out = []
    for g in gen:
        h = g["h"]
        out.append({"kind": "gen", "sched": [[q["d"], q["t"]] for q in h["sched"]],
                    "steps": [{"from": s["from"], "to": s["to"], "R": [[r["d"], r["t"]] for r in s["R"]]} for s in h["steps"]]})
    n = 150 if tier == "quick" else 3000
    for _ in range(n):
        T = rng.choice([4, 8, 20])
        D = rng.choice([3, 8, 30])
        cuts = sorted(rng.sample(range(0, T + 1), min(T + 1, rng.randint(2, 6))), reverse=True)
        out.append({"kind": "random",
                    "sched": [[rng.randint(1, D), rng.randint(0, T)] for _ in range(rng.randint(0, 12))],
                    "steps": [{"from": a, "to": b,
                               "R": [[rng.randint(1, D), rng.randint(-1, T)] for _ in range(rng.randint(0, 25))]}
                              for a, b in zip(cuts, cuts[1:])]})
    for k in range(8 if tier == "quick" else 40):
        out.append({"kind": "sim", "sched": [[rng.randint(400, 900), rng.randint(0, 16)] for _ in range(rng.randint(1, 6))],
                    "mode": ["time", "number", "one", "populate"][k % 4], "n": rng.choice([2, 3, 4, 5]), "seed": k + 1,
                    "slope": rng.choice([-2.0, -3.0]), "amp": rng.choice([1, 3])})
    rng.shuffle(out)
    return out


def setup(cm, scratch):
    return {"cm": cm, "scratch": scratch}


def _mk(cm, **kw):
    return cm.Crater.maker(projectile_velocity=20000.0, projectile_angle=45.0, projectile_density=2500.0, projectile_direction=0.0, **kw)


def _ranks(vals):
    s = sorted(set(vals))
    return {v: i for i, v in enumerate(s)}


def run(ctx, scn, ev):
    if scn["kind"] == "sim":
        return run_sim(ctx, scn, ev)
    cm = ctx["cm"]
    p = cm.Production.maker("powerlaw", rng_seed=3)
    p.diameter_range = (1.0, 1e9)
    TS = 16.0
    sched = [_mk(cm, diameter=1000.0 * d, location=(i + 1, 45), production_time=(t * TS, 0)) for i, (d, t) in enumerate(scn["sched"])]
    p.quasimc_craters = sched
    pending = []
    times = [float(t * TS) for _, t in scn["sched"]]
    for s in scn["steps"]:
        R = [_mk(cm, diameter=1000.0 * d, location=(j + 1, -45), **({} if t < 0 else {"time": t * TS})) for j, (d, t) in enumerate(s["R"])]
        M = p.quasimc_merge(R, time_start=s["from"] * TS, time_end=s["to"] * TS)
        pending.append((s, [("s" if c.location[1] > 0 else "r", int(round(c.location[0])), c.diameter / 1000.0, float(c.time)) for c in M]))
        times += [x[3] for x in pending[-1][1]] + [t * TS for _, t in s["R"] if t >= 0] + [s["from"] * TS, s["to"] * TS]
    rk = _ranks(times)
    for s, M in pending:
        ev.append({"op": "merge", "from": rk[s["from"] * TS], "to": rk[s["to"] * TS],
                   "R": [{"i": j + 1, "d": d, "t": rk[t * TS] if t >= 0 else -1} for j, (d, t) in enumerate(s["R"])],
                   "M": [{"k": k, "i": i, "d": int(round(d)), "t": rk[t]} for k, i, d, t in M]})
    if scn["steps"]:
        ev.append({"op": "end", "from": rk[scn["steps"][0]["from"] * TS], "to": rk[scn["steps"][-1]["to"] * TS]})
    return {"sched": [{"i": i + 1, "d": d, "t": rk[float(t * TS)]} for i, (d, t) in enumerate(scn["sched"])]}


def run_sim(ctx, scn, ev):
    """A whole run with scheduled craters: what every interval hands to emplacement."""
    cm = ctx["cm"]
    d = os.path.join(ctx["scratch"], "sim15")
    T = 16 * 16.0
    prod = cm.Production.maker("powerlaw", N1_coef=scn["amp"] * 1e-14, slope=scn["slope"], rng_seed=scn["seed"])
    sim = cm.Simulation(simdir=d, gridlevel=3, rng_seed=scn["seed"], ask_overwrite=False, reset=True, production=prod)
    sim.surface.save_actions = None
    sim.save_actions = None
    sched = [sim.Crater.maker(diameter=1000.0 * dd, location=(i * 20 + 1, 45), production_time=(t * 16.0, 0), name=f"S{i + 1}")
             for i, (dd, t) in enumerate(scn["sched"])]
    sim.quasimc_craters = sched
    calls = []
    cls = type(sim.morphology)
    orig = cls.emplace

    def spy(self, craters=None, **kw):
        calls.append([(c.name, float(c.time), c.diameter) for c in craters])
        return orig(self, craters, **kw)

    wins = []
    cls.emplace = spy
    try:
        n = scn["n"]
        if scn["mode"] == "populate":
            edges = [T - T * k / n for k in range(n + 1)]
            for a, b in zip(edges, edges[1:]):
                k0 = len(calls)
                sim.populate(time_start=a, time_end=b)
                wins.append((a, b, [x for c in calls[k0:] for x in c]))
        else:
            osave = type(sim).save
            marks = []

            def spysave(self, **kw):
                marks.append((float(self.time), len(calls)))
                return osave(self, **kw)
            type(sim).save = spysave
            try:
                if scn["mode"] == "time":
                    sim.run(age=T, time_interval=T / n)
                elif scn["mode"] == "number":
                    sim.run(age=T, ninterval=n)
                else:
                    sim.run(time_start=T)
            finally:
                type(sim).save = osave
            for (a, ka), (b, kb) in zip(marks, marks[1:]):
                wins.append((a, b, [x for c in calls[ka:kb] for x in c]))
    finally:
        cls.emplace = orig
    # computed boundaries carry rounding noise: treat times within 1e-6 as equal (times are multiples of 16)
    def q(v):
        return round(v, 5)
    times = [q(t * 16.0) for _, t in scn["sched"]] + [q(x) for a, b, _ in wins for x in (a, b)] + [q(c[1]) for w in wins for c in w[2]]
    rk = _ranks(times)
    for a, b, M in wins:
        ev.append({"op": "run", "from": rk[q(a)], "to": rk[q(b)],
                   "M": [{"k": "s" if nm and nm.startswith("S") else "r", "i": int(nm[1:]) if nm and nm.startswith("S") else 0,
                          "d": 0, "t": rk[q(t)]} for nm, t, _ in M]})
    ev.append({"op": "end", "from": rk[q(wins[0][0])], "to": rk[q(wins[-1][1])]})
    return {"sched": [{"i": i + 1, "d": dd, "t": rk[q(t * 16.0)]} for i, (dd, t) in enumerate(scn["sched"])]}


def corrupt(t, rng):
    for e in t["ev"]:
        if e["op"] == "merge" and e["M"]:
            e["M"] = e["M"] + [e["M"][0]] if rng.random() < 0.5 else e["M"][1:]
            if e["M"] and len(e["M"]) > 0:
                return t
            return t
    return None


def matches(k, trace, step, clause):
    return False
