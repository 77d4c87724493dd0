"""C07: one random stream per simulation, decided by the seed."""
import contextlib
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import simrun
import vh

LEVEL = "model_checking"
MODELS = {"quick": [("Stream", "Stream_MC.cfg")], "thorough": [("Stream", "Stream_Deep.cfg")]}
GENERATORS = {"quick": [{"module": "GenStream", "cfg": "GenStream.cfg", "simulate": 90, "depth": 14, "limit": 90}],
              "thorough": [{"module": "GenStream", "cfg": "GenStream.cfg", "simulate": 1500, "depth": 14, "limit": 1500}]}
TRACE = "TraceStream"
SCENARIO_TIMEOUT = 240
ASSUMPTIONS = ["the compiled library is a stand-in that draws no random numbers", "files are compared by their contents (variables, values), not byte by byte",
               "components are replaced by ones made with the simulation's common arguments"]


def scenarios(rng, tier, gen):
    out = [{"kind": "history", "ops": g["h"], "seed": rng.randint(0, 10**9), "prod": rng.choice(["powerlaw", "powerlaw", "neukum"])} for g in gen]
    rng.shuffle(out)
    return out


def setup(cm, scratch):
    import cratermaker.utils.montecarlo_utils as mc
    with contextlib.suppress(ImportError):
        import rich.style  # noqa: F401  draws one number when it is first imported (progress bars)
    from cratermaker.components.production import Production
    from cratermaker.components.projectile import Projectile
    from cratermaker.components.scaling import Scaling
    from cratermaker.components.target import Target
    return {"cm": cm, "mc": mc, "scratch": scratch, "n": 0, "T": Target, "P": Projectile, "S": Scaling, "G": Production}


def digest(x):
    h = hashlib.sha1()

    def feed(v):
        if isinstance(v, np.ndarray):
            h.update(str(v.dtype.kind).encode() + str(v.shape).encode())
            h.update(np.ascontiguousarray(v).tobytes() if v.dtype.kind in "iufb" else repr(v.tolist()).encode())
        elif isinstance(v, dict):
            for k in sorted(v, key=str):
                h.update(str(k).encode())
                feed(v[k])
        elif isinstance(v, (list, tuple)):
            h.update(b"(")
            for y in v:
                feed(y)
            h.update(b")")
        else:
            h.update(repr(v.item() if isinstance(v, np.generic) else v).encode())
    feed(x)
    return h.hexdigest()[:16]


def state(sim):
    return digest(sim.rng.bit_generator.state)


def craters(cs):
    return [(str(c.id), c.diameter, tuple(c.location), c.time, c.projectile_velocity, c.projectile_angle, c.projectile_direction, c.projectile_density, c.morphology_type)
            for c in cs]


def surface(sim):
    return {k: np.asarray(sim.surface.uxds[k].values) for k in ("face_elevation", "node_elevation", "ray_intensity") if k in sim.surface.uxds}


def files(sim):
    import xarray as xr
    import yaml
    out = {}
    for d, _, fs in os.walk(sim.simdir):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, sim.simdir)
            if f.endswith(".nc"):
                with xr.open_dataset(p) as ds:
                    out[rel] = {str(v): np.asarray(ds[v].values) for v in sorted(ds.variables, key=str)}
            elif f.endswith((".yaml", ".yml")):
                with open(p) as fh:
                    c = fh.read()
                out[rel] = yaml.safe_load(c.replace(str(sim.simdir), "DIR").replace(os.path.basename(str(sim.simdir)), "DIR"))
            else:
                out[rel] = "other"
    return out


def components(s):
    c = {"target": s.target, "scaling": s.scaling, "starget": s.scaling.target, "sprojectile": s.scaling.projectile, "production": s.production, "surface": s.surface,
         "starg": s.surface.target, "morphology": s.morphology, "counting": s.counting, "projectile": s.projectile, "ptarget": s.projectile.target,
         "mscaling": s.morphology.scaling, "mproduction": s.morphology.production}
    return [v for v in c.values() if v is not None]


def holder(sim, c):
    return {"sim": sim, "scaling": sim.scaling, "production": sim.production, "surface": sim.surface, "morphology": sim.morphology, "counting": sim.counting,
            "projectile": sim.projectile, "target": sim.target}[c]


def act(ctx, h, op, r):
    """one operation; (what it returned, whether it is a function of the state, whether it must draw)"""
    sim, o = h["sim"], op["op"]
    args = vars(sim.common_args)
    if o == "sample":
        d, t = sim.production.sample(time_start=r.uniform(10, 3000), diameter_range=(2e4, 1e6), area=float(sim.surface.area) * r.choice([1e-4, 1e-2]), compute_time=r.random() < 0.7)
        return [np.asarray(d), np.asarray(t)], True, True
    if o == "projectile":
        p = sim.projectile.new_projectile()
        return [p.velocity, p.angle, p.direction, tuple(p.location), p.density], True, bool(sim.projectile.sample)
    if o == "location":
        return ctx["mc"].get_random_location(size=r.randint(1, 5), rng=holder(sim, op["c"]).rng), True, True
    if o == "function":
        f = r.choice(["get_random_impact_angle", "get_random_impact_direction", "get_random_velocity"])
        a = {"size": r.randint(1, 5), "rng": holder(sim, op["c"]).rng}
        if f == "get_random_velocity":
            a = {"vmean": 15e3, "vescape": 5e3, **a}
        return np.asarray(getattr(ctx["mc"], f)(**a)), True, True
    if o == "face":
        i = np.array([r.randrange(sim.surface.n_face) for _ in range(r.randint(1, 6))])
        return [np.asarray(x) for x in sim.surface.get_random_location_on_face(i)], True, True
    if o == "crater":
        c = sim.Crater.maker(diameter=r.uniform(1e3, 5e5), morphology=sim.morphology, **args)
        return craters([c]), False, False
    if o == "populate":
        return craters(sim.populate(time_start=r.uniform(5, 60))), False, False
    if o == "emplace":
        if op["k"] % 2:
            sim.emplace(diameter=r.uniform(1e5, 6e5))
        else:
            sim.emplace([sim.Crater.maker(diameter=r.uniform(1e5, 6e5), morphology=sim.morphology, **args) for _ in range(op["k"] // 2)])
        return [craters(sim.emplaced), surface(sim)], False, False
    if o == "run":
        a = r.uniform(5, 40)
        sim.run(time_start=a, time_interval=a / r.choice([1, 2]))
        return [craters(sim.emplaced), surface(sim), sim.time, sim.interval], False, False
    if o == "read":
        return [len(str(sim)) > 0, len(str(holder(sim, op["c"]))) > 0, sim.common_args is not None, sim.elapsed_time, sim.smallest_crater, sim.largest_projectile,
                sim.surface.compute_volume(sim.surface.face_elevation) if hasattr(sim.surface, "compute_volume") else 0], False, False
    if o == "save":
        sim.save()
        return [], False, False
    if o == "record":
        h["saved"].append(json.loads(json.dumps(holder(sim, op["c"]).rng_state)))
        return [], False, False
    if o == "restore":
        if not h["saved"]:
            return [], False, False
        holder(sim, op["c"]).rng_state = h["saved"][op["k"] % len(h["saved"])]
        return [], False, False
    if o == "seed":
        holder(sim, op["c"]).rng_seed = op["v"]
        return [], False, False
    if o == "replace":
        k, b = op["r"], r.choice(["Moon", "Mars", "Earth"])
        if k == "target":
            sim.target = ctx["T"].maker(b, **args)
        elif k == "projectile":
            sim.projectile = ctx["P"].maker(r.choice(["asteroids", "comets"]), target=r.choice([sim.target, b]), **args)
        elif k == "scaling":
            if r.random() < 0.5:
                sim.scaling = ctx["S"].maker(r.choice(["montecarlo", "ctem"]), **args)
            else:
                sim.scaling = ctx["S"].maker("montecarlo", target=sim.target, projectile=sim.projectile, **args)
        elif k == "production":
            lim = sim.production.diameter_range
            sim.production = ctx["G"].maker("powerlaw", N1_coef=0.5, **args) if r.random() < 0.5 else ctx["G"].maker("neukum", version=r.choice(["Moon", "Mars"]), **args)
            sim.production.diameter_range = lim if sim.production.generator_type == "crater" else (5e3, 1e5)
        elif r.random() < 0.3:
            sim.projectile.target = b
        elif r.random() < 0.5:
            sim.scaling.target = b
        else:
            sim.scaling.projectile = r.choice(["asteroids", "comets"])
        return [], False, False
    return [], False, False


def new(ctx, scn, seed):
    ctx["n"] += 1
    d = os.path.join(ctx["scratch"], f"sim{os.getpid()}_{ctx['n']}")
    with vh.quiet():
        sim = simrun.make(ctx["cm"], d, **simrun.config(seed, prod=scn["prod"]))
    return {"sim": sim, "saved": []}


def step(ctx, h, op, i, scn):
    r = random.Random(scn["seed"] * 100 + i)
    if op["op"] == "files":
        with vh.quiet():
            h["sim"].save()
        return files(h["sim"]), False, False
    if op["op"] in ("outside", "other"):
        return [], False, False
    with vh.quiet():
        return act(ctx, h, op, r)


def ops(scn):
    return scn["ops"] + [{"op": "files", "c": "sim", "k": 1, "v": 0, "r": ""}]


def history(ctx, scn):
    h = new(ctx, scn, scn["seed"] % 100000)
    out = [["", state(h["sim"])]]
    for i, op in enumerate(ops(scn)):
        v, _, _ = step(ctx, h, op, i, scn)
        out.append([digest(v), state(h["sim"])])
    return out


def elsewhere(ctx, scn):
    """the same history in another process with another hash seed"""
    if "child" not in ctx:
        ctx["child"] = subprocess.Popen([sys.executable, os.path.abspath(__file__), os.path.join(ctx["scratch"], "other")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                        stderr=subprocess.DEVNULL, text=True, env=dict(os.environ, PYTHONHASHSEED="4711"))
    ctx["child"].stdin.write(json.dumps(scn) + "\n")
    ctx["child"].stdin.flush()


def answer(ctx):
    while True:
        line = ctx["child"].stdout.readline()
        if not line:
            raise vh.MachineryError("the other process ended")
        if line.startswith("OUT "):
            return json.loads(line[4:])


def outside():
    return digest(np.random.get_state()[1:]), digest(random.getstate())


def run(ctx, scn, ev):
    elsewhere(ctx, scn)
    a, b = new(ctx, scn, scn["seed"] % 100000), new(ctx, scn, scn["seed"] % 100000)
    if "third" not in ctx:
        ctx["third"] = new(ctx, dict(scn, prod="powerlaw"), 424242)
    c = ctx["third"]
    rec = []
    cfg = 0
    try:
        rec.append({"op": "new", "what": "", "k": 0, "pure": False, "must": False, "np": True, "py": True, "alone": True, "result": "", "twinresult": ""})
        keep(a, state(a["sim"]))
        rec[0].update(state=state(a["sim"]), twinstate=state(b["sim"]), gens=gens(a["sim"]))
        for i, op in enumerate(ops(scn)):
            n0, c0 = outside(), state(c["sim"])
            e = {"op": op["op"], "k": 0}
            if op["op"] == "restore":
                if a["saved"]:
                    e["k"] = op["k"] % len(a["saved"]) + 1
                else:
                    e["op"] = "read"
            va, pure, must = step(ctx, a, op, i, scn)
            vb, _, _ = step(ctx, b, op, i, scn)
            n1, c1 = outside(), state(c["sim"])
            if op["op"] == "outside":
                np.random.rand(op["k"])
                random.random()
                np.random.default_rng(op["v"]).random()
            elif op["op"] == "other":
                with vh.quiet(), contextlib.suppress(Exception):
                    act(ctx, c, dict(op, op=random.Random(op["v"]).choice(["sample", "projectile", "face", "populate", "emplace"])), random.Random(op["v"]))
            if op["op"] in ("replace", "crater", "populate", "emplace", "run", "files"):
                cfg += 1
            rr = random.Random(scn["seed"] * 100 + i)
            e.update(what=digest([op["op"], cfg, rr.random(), i]) if not pure else digest([op["op"], cfg, i]), pure=bool(pure), must=bool(must), np=n0[0] == n1[0], py=n0[1] == n1[1], alone=c0 == c1,
                     result=digest(va), twinresult=digest(vb), state=state(a["sim"]), twinstate=state(b["sim"]), gens=gens(a["sim"]) + gens(b["sim"]))
            rec.append(e)
            # the same call again after the stream was put back gives the same draws
            if pure:
                s0 = a["sim"].rng_state
                a["sim"].rng_state = a["hist"][rec[-2]["state"]]
                v2, _, _ = step(ctx, a, op, i, scn)
                e["redo"] = digest(v2) == e["result"] and state(a["sim"]) == e["state"]
                a["sim"].rng_state = s0
            keep(a, e["state"])
    finally:
        other = answer(ctx)
    for e, (res, st) in zip(rec, other, strict=False):
        e.update(procresult=res, procstate=st)
        e.setdefault("redo", True)
        ev.append(e)
    if len(other) != len(rec):
        raise vh.MachineryError("the other process did less")
    return {}


def keep(h, token):
    h.setdefault("hist", {})[token] = h["sim"].rng_state


def gens(sim):
    return [1 if x.rng is sim.rng else 2 for x in components(sim)]


def corrupt(t, rng):
    e = rng.choice(t["ev"])
    k = rng.choice(["result", "state", "gens", "proc"])
    if k == "gens":
        e["gens"] = e["gens"] + [2]
    else:
        e[{"result": "twinresult", "state": "twinstate", "proc": "procresult"}[k]] = "zork"
    return t


def vacuity(traces):
    ops, states = {}, set()
    for t in traces:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
            states.add(e["state"])
    need = {"sample": 15, "projectile": 15, "crater": 15, "face": 15, "populate": 15, "emplace": 15, "run": 15, "restore": 10, "replace": 30, "other": 15, "files": 30}
    if any(ops.get(k, 0) < v for k, v in need.items()) or len(states) < 200:
        raise vh.MachineryError(f"too little covered: {ops} {len(states)}")
    return f"{ops}, {len(states)} generator states"


def matches(k, trace, step, clause):
    return False


if __name__ == "__main__":
    out = sys.stdout
    sys.stdout = sys.stderr
    _ctx = setup(vh.import_cm(), sys.argv[1])
    for _line in sys.stdin:
        try:
            _r = history(_ctx, json.loads(_line))
        except Exception as x:
            _r = [["error", repr(x)[:200]]]
        out.write("OUT " + json.dumps(_r) + "\n")
        out.flush()
