"""C11: the observed-crater list agrees with the surface."""
import os
import random
import shutil

import numpy as np

LEVEL = "model_checking"
MODELS = {"quick": [("Observed", "Observed_MC.cfg")], "thorough": [("Observed", "Observed_Deep.cfg")]}
TRACE = "TraceObserved"
ASSUMPTIONS = ["faces in exactly the same crater regions and rims form one atom; all faces of an atom must carry the same tags (checked)",
               "scenarios keep every face below its tag capacity (what happens at capacity is C12)",
               "craters covering between 85 and 115 faces are not generated (countability threshold)"]
BUDGET = {"quick": 150, "thorough": 3000}
HIRES = dict(surface="hireslocal", pix=20e3, local_location=(10, 40), local_radius=400e3, superdomain_scale_factor=20)
ICO = dict(surface="icosphere", gridlevel=3)


def scenarios(rng, tier, gen):
    out = []
    for i in range(54 if tier == "quick" else 700):
        ops = []
        n = rng.randint(3, 6)
        w = rng.choice([[6, 2, 1, 1, 1, 1, 1, .3], [5, 0, 1, .5, .5, 2, 2, .3], [1, 5, 1, 1, .5, 1, 1, .2]])
        for _ in range(rng.randint(4, 12)):
            op = rng.choices(["add", "emplace", "remove", "tally", "orphan", "save", "reopen", "reset"], w)[0]
            ops.append({"op": op, "c": rng.randint(1, n), "k": rng.randint(1, 3)})
        if i % 3 == 0:     # all craters fade or are removed between two saves
            ops = [{"op": rng.choice(["add", "emplace"]), "c": c, "k": 2} for c in range(1, n + 1)] + [{"op": "save"}]
            ops += rng.choice([[{"op": "remove", "c": c} for c in range(1, n + 1)], [{"op": "tally"}], [{"op": "remove", "c": 1}, {"op": "tally"}]])
            ops += [{"op": "save"}, {"op": "reopen"}] + [{"op": "add", "c": 1}, {"op": "save"}, {"op": "reopen"}] * rng.randint(0, 1)
            ops = [{"c": 1, "k": 1, **o} for o in ops]
        out.append({"kind": "ico" if i % 4 == 0 else "hires", "n": n, "ops": ops, "seed": rng.randint(0, 10**6)})
    return out


def setup(cm, scratch):
    return {"cm": cm, "scratch": scratch, "sims": {}}


def opensim(ctx, kind, fresh):
    d = os.path.join(ctx["scratch"], "c11" + kind)
    kw = dict(HIRES if kind == "hires" else ICO) if fresh else {}
    s = ctx["cm"].Simulation(simdir=d, ask_overwrite=False, do_subpixel_degradation=False, reset=True if fresh else None, **kw)
    for c in (s, s.surface, s.counting):
        c.save_actions = None
    return s


def run(ctx, scn, ev):
    r = random.Random(scn["seed"])
    kind = scn["kind"]
    sim = ctx["sims"].get(kind)
    if sim is None:
        sim = opensim(ctx, kind, True)
    else:
        sim.reset()
    ctx["sims"][kind] = None
    s = sim.surface
    F = s.n_face
    loc = np.ones(F, bool)
    if kind == "hires":
        loc[:] = False
        loc[s.local.face_indices] = True
        le, ln = set(np.asarray(s.local.edge_indices).tolist()), set(np.asarray(s.local.node_indices).tolist())

    def mask(g):
        m = np.zeros(F, bool)
        if g is None:
            return m
        m[g.face_indices] = True
        if kind == "hires" and not isinstance(g.face_indices, slice):
            m &= loc
            if not (le & set(np.asarray(g.edge_indices).tolist()) and ln & set(np.asarray(g.node_indices).tolist())):
                m[:] = False
        return m
    craters, reg, rim, counted = [], [], [], []
    k = 0
    while len(craters) < scn["n"]:
        k += 1
        if kind == "hires":
            where = r.choices(["in", "edge", "out"], [6, 1, .7])[0]
            d = {"in": r.uniform(0, 250e3), "edge": r.uniform(300e3, 700e3), "out": r.uniform(1500e3, 2500e3)}[where]
            ll = np.ravel(s.compute_location_from_distance_bearing(d, r.uniform(0, 360), s.local_location))
            l = (float(ll[0]), float(ll[1]))
            rad = r.choices([r.uniform(20e3, 90e3), r.uniform(120e3, 170e3), r.uniform(150e3, 300e3)], [1, 4, 3])[0]
            if where == "out":
                rad = r.uniform(300e3, 900e3)
        else:
            l = (r.uniform(-180, 180), r.uniform(-85, 85))
            rad = r.choices([r.uniform(200e3, 600e3), r.uniform(1300e3, 2200e3)], [1, 5])[0]
        if craters and r.random() < 0.12:
            rad = craters[-1].radius       # equal sizes
        if craters and r.random() < 0.3:   # same place
            l = r.choice(craters).location
        c = ctx["cm"].Crater.maker(diameter=2 * rad, location=l, time=r.choice([None, float(k)]))
        m = sim.morphology.Crater.maker(crater=c)
        g = m.crater_region
        nf = 0 if g is None else g.n_face
        if 85 < nf < 115:
            continue
        if any(c.id == x.id for x in craters):
            continue
        craters.append(c)
        counted.append(nf >= 115)
        reg.append(mask(g))
        rim.append(mask(g.extract_subregion(c.radius)) & reg[-1] if g is not None else np.zeros(F, bool))
    plain = list(craters)
    if r.random() < 0.5:       # hand over promoted objects
        craters = [sim.morphology.Crater.maker(crater=c) if r.random() < 0.5 else c for c in craters]
    _, atom = np.unique(np.stack(reg + rim).T, axis=0, return_inverse=True)
    atom = np.ravel(atom)
    na = int(atom.max()) + 1
    num = {int(c.id): i + 1 for i, c in enumerate(craters)}
    orphan = {}
    sizes = sorted({c.diameter for c in craters})

    def state():
        s = sim.surface
        uni, out = True, []
        if "crater_id" in s.uxds:
            d = np.sort(np.asarray(s.uxds.crater_id.data).reshape(F, -1), axis=1)
        else:
            d = np.zeros((F, 1), int)
        for a in range(na):
            rows = np.unique(d[atom == a], axis=0)
            uni = uni and len(rows) == 1 and (np.diff(rows[0][rows[0] > 0].astype(np.int64)) > 0).all()
            out.append(sorted(num.get(int(x), orphan.get(int(x), 9999)) for x in rows[0] if x != 0))
        return uni, out, max(map(len, out))

    def emit(e):
        u, t, _ = state()
        o = sim.counting.observed
        ob = sorted(num.get(int(x), 9999) if int(x) == int(o[x].id) else 8888 for x in o)
        ev.append({**e, "uniform": bool(u), "tags": t, "obs": ob, "nobs": int(sim.counting.n_observed)})
    emit({"op": "look"})
    saved = False
    for op in scn["ops"]:
        k = op["op"]
        c = craters[op["c"] - 1]
        full = state()[2] >= 7
        on = {int(x) for x in sim.counting.observed}
        if k == "add":
            if full or int(c.id) in on:
                continue
            sim.counting.add(c)
            emit({"op": "add", "c": op["c"]})
        elif k == "emplace":
            cs = [i for i in dict.fromkeys([op["c"], (op["c"] + 1) % scn["n"] + 1]) if int(craters[i - 1].id) not in on][:op["k"]]
            if not cs or state()[2] >= 6:
                continue
            sim.emplace([craters[i - 1] for i in cs])
            emit({"op": "emplace", "cs": cs})
        elif k == "remove":
            i = c.id if r.random() < 0.5 else int(c.id)
            if "crater_id" not in sim.surface.uxds:
                continue
            sim.counting.remove(i)
            emit({"op": "remove", "c": op["c"]})
        elif k == "tally":
            if "crater_id" not in sim.surface.uxds:
                continue
            faded = []
            for i, v in list(sim.counting.observed.items()):
                if sim.counting.measure_degradation_state(v) >= sim.counting.visibility_function(v):
                    faded.append(num.get(int(i), 9999))
            if r.random() < 0.3:       # only the craters with a tag in a region
                g = sim.surface.extract_region(c.location, c.radius * r.choice([0.3, 1.0]), at_least_one_face=True)
                ids = set(np.unique(np.asarray(sim.surface.uxds.crater_id.data)[g.face_indices]).tolist()) - {0}
                faded = [x for x in faded if x in {num.get(int(i), 9999) for i in ids}]
                sim.counting.tally(region=g, quiet=True)
            else:
                sim.counting.tally(quiet=r.random() < 0.5)
            emit({"op": "tally", "faded": faded})
        elif k == "orphan":
            if full or "crater_id" not in sim.surface.uxds:
                continue
            v = r.randint(1, 2**32 - 1)
            if v in num:
                continue
            orphan[v] = 500 + len(orphan)
            sim.surface.add_tag(name="crater_id", tag=v)
            emit({"op": "orphan", "c": orphan[v], "atoms": list(range(1, na + 1))})
            faded = [num.get(int(i), 9999) for i, w in list(sim.counting.observed.items())
                     if sim.counting.measure_degradation_state(w) >= sim.counting.visibility_function(w)]
            sim.counting.tally(quiet=True)
            emit({"op": "tally", "faded": faded})
        elif k == "save":
            if r.random() < 0.6:
                sim.interval += 1
            sim.save()
            saved = True
            emit({"op": "save"})
        elif k == "reopen":
            if not saved:
                continue
            sim = opensim(ctx, kind, False)
            craters = plain            # promoted craters belong to the closed simulation
            emit({"op": "reopen"})
        elif k == "reset":
            if r.random() < 0.5:
                sim.reset()
                saved = False
                emit({"op": "reset"})
            else:
                sim.counting.reset(ask_overwrite=False)
                sim.save()
                saved = True
                emit({"op": "reset"})
    ctx["sims"][kind] = sim
    return {"reg": [sorted(set((atom[m] + 1).tolist())) for m in reg], "rim": [sorted(set((atom[m] + 1).tolist())) for m in rim],
            "dia": [sizes.index(c.diameter) + 1 for c in craters], "counted": [bool(x) for x in counted], "na": na}


def corrupt(t, rng):
    es = [e for e in t["ev"] if e["obs"]]
    if not es:
        return None
    e = rng.choice(es)
    if rng.random() < 0.5:
        e["obs"] = e["obs"][1:]
    else:
        k = [i for i, x in enumerate(e["tags"]) if x]
        e["tags"][rng.choice(k)].pop()
    return t


def matches(k, trace, step, clause):
    return False
