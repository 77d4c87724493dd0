"""C06: explicit arguments win over the file, the file over the defaults, and every setting survives."""
import hashlib
import os
import random
import shutil

import numpy as np
import simrun
import vh
import yaml

LEVEL = "model_checking"
MODELS = {"quick": [("Config", "Config_MC.cfg")], "thorough": [("Config", "Config_Deep.cfg")]}
GENERATORS = {"quick": [{"module": "GenConfig", "cfg": "GenConfig.cfg", "simulate": 1500, "depth": 14, "limit": 3000}],
              "thorough": [{"module": "GenConfig", "cfg": "GenConfig.cfg", "simulate": 20000, "depth": 14, "limit": 30000}]}
TRACE = "TraceConfig"
ASSUMPTIONS = ["targets Moon and Mars, icosphere meshes of level 2 and 3, materials Soft Rock, Hard Rock and Ice",
               "the file is edited by hand only while the simulation is closed",
               "two values per setting; settings that are not numbers, switches or names (save_actions, rng_state) are covered by C03"]
SCENARIO_TIMEOUT = 240

# key -> (component, property, argument, section of the file, values)
K = {"radius": ("target", "radius", "radius", "target_config", (1.8e6, 2.0e6)), "mass": ("target", "mass", "mass", "target_config", (8e22, 5e23)),
     "tst": ("target", "transition_scale_type", "transition_scale_type", "target_config", ("silicate", "ice")),
     "tmat": ("target", "material", None, "target_config", None), "tdens": ("target", "density", None, "target_config", (2100.0, 2900.0)),
     "smat": ("scaling", "material", None, "scaling_config", None), "K1": ("scaling", "K1", "K1", "scaling_config", (0.11, 0.21)),
     "mu": ("scaling", "mu", "mu", "scaling_config", (0.42, 0.5)), "Ybar": ("scaling", "Ybar", "Ybar", "scaling_config", (1e6, 3e6)),
     "mc": ("scaling", "monte_carlo_scaling", "monte_carlo_scaling", "scaling_config", (True, False)),
     "version": ("production", "version", "version", "production_config", None), "slope": ("production", "slope", "slope", "production_config", (-2.5, -3.5)),
     "N1": ("production", "N1_coef", "N1_coef", "production_config", (1e-3, 5e-3)),
     "Dconv": ("production", "D_conversion_factor", "D_conversion_factor", "production_config", (1.0, 1000.0)),
     "Nconv": ("production", "N_conversion_factor", "N_conversion_factor", "production_config", (1.0, 1e6)),
     "pdens": ("projectile", "density", None, "projectile_config", (1900.0, 3100.0)),
     "pvel": ("projectile", "mean_velocity", "mean_velocity", "projectile_config", (15e3, 22e3)),
     "gridlevel": ("surface", "gridlevel", "gridlevel", "surface_config", (2, 3)),
     "small": (None, "smallest_crater", "smallest_crater", None, (1.0e6, 1.2e6)), "large": (None, "largest_crater", "largest_crater", None, (1.5e6, 3.0e6)),
     "collapse": ("morphology", "do_slope_collapse", "do_slope_collapse", "morphology_config", (True, False)),
     "subpix": ("morphology", "do_subpixel_degradation", "do_subpixel_degradation", "morphology_config", (True, False)),
     "rays": ("morphology", "dorays", "dorays", "morphology_config", (True, False)),
     "trunc": ("morphology", "ejecta_truncation", "ejecta_truncation", "morphology_config", (3.0, 5.0)),
     "count": ("morphology", "do_counting", "do_counting", "morphology_config", (True, False)),
     "material": (None, None, "material", None, None), "density": (None, None, "density", None, (2200.0, 2700.0))}
MATS = ("Soft Rock", "Hard Rock", "Ice")
MODELCH = ("target", "production", "scaling", "projectile")


def canon(v):
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v))
    if isinstance(v, (int, float, np.number)):
        return f"{float(v):.9g}"
    return str(v)


def value(k, tok):
    vs = K[k][4]
    return tok if vs is None or tok not in ("v1", "v2") else vs[int(tok[1]) - 1]


def scenarios(rng, tier, gen):
    hs = [g["h"] for g in gen]

    def score(h):
        ops = [o["op"] for o in h]
        n = 0.0
        for i, o in enumerate(ops):
            if o == "reopen":
                n += 1 + {"save": 3, "edit": 1.5, "erase": 1.5}.get(ops[i - 1], 0)
            elif o == "set":
                n += 0.7 if "save" in ops[i:] and "reopen" in ops[i:] else 0
        return n + 3 * rng.random()
    rng.shuffle(hs)
    hs.sort(key=lambda h: -score(h))
    return [{"kind": "hist", "h": h, "seed": rng.randint(0, 10**6)} for h in hs[:110 if tier == "quick" else 2500]]


def setup(cm, scratch):
    ctx = {"cm": cm, "scratch": scratch, "n": 0}
    with vh.quiet():
        tgt = {t: cm.Target.maker(t) for t in ("Moon", "Mars")}
        tb = {"target": {t: {"radius": canon(o.radius), "mass": canon(o.mass), "tst": canon(o.transition_scale_type), "tmat": canon(o.material)} for t, o in tgt.items()}}
        tb["mat"] = {}
        for m in MATS:
            t = cm.Target.maker("Moon")
            s = cm.Scaling.maker("montecarlo", target=t, material=m)
            tb["mat"][m] = {"K1": canon(s.K1), "mu": canon(s.mu), "Ybar": canon(s.Ybar), "tdens": canon(s.target.density)}
        tb["pvel"], tb["pdens"] = {}, {}
        for p in ("asteroids", "comets"):
            os_ = {t: cm.Projectile.maker(p, target=o) for t, o in tgt.items()}
            tb["pvel"][p] = {t: canon(o.mean_velocity) for t, o in os_.items()}
            tb["pdens"][p] = canon(os_["Moon"].density)
        g = cm.Projectile.maker("generic", mean_velocity=2e4)
        tb["pvel"]["generic"] = {"Moon": "none", "Mars": "none"}
        tb["pdens"]["generic"] = canon(g.density)
    ctx["tb"] = tb
    d = os.path.join(scratch, "table")
    sim = simrun.make(cm, d, surface="icosphere", gridlevel=2, reset=True, rng_seed=1, production="powerlaw")
    tb["other"] = {k: canon(getattr(getattr(sim, K[k][0]), K[k][1])) for k in
                   ("slope", "N1", "mc", "Dconv", "Nconv", "gridlevel", "collapse", "subpix", "rays", "trunc", "count")}
    tb["ch"] = {c: canon(getattr(getattr(sim, c), "name" if c == "target" else "component_name")) for c in MODELCH if c != "production"}
    sim = simrun.make(cm, d + "2", surface="icosphere", gridlevel=2, reset=True, rng_seed=1)
    tb["ch"]["production"] = sim.production.component_name
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(d + "2", ignore_errors=True)
    return ctx


def observe(sim):
    vals = {}
    for k, (comp, prop, _, _, _) in K.items():
        if prop is None:
            continue
        o = sim if comp is None else getattr(sim, comp)
        try:
            v = getattr(o, prop)
        except AttributeError:
            continue
        vals[k] = canon(v)
    return {"models": {c: canon(getattr(getattr(sim, c), "name" if c == "target" else "component_name")) for c in MODELCH}, "vals": vals}


def dictof(x):
    return x if isinstance(x, dict) else {}


def norm(args):
    """the arguments as the specification sees them"""
    return {k: canon(value(k, v)) for k, v in args.items()}


def run(ctx, scn, ev):
    ctx["n"] += 1
    d = os.path.join(ctx["scratch"], f"s{ctx['n']}")
    try:
        return go(ctx, scn, ev, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def go(ctx, scn, ev, d):
    cm = ctx["cm"]
    cfg = os.path.join(d, "cratermaker.yaml")
    sim = None
    for o in scn["h"]:
        op = o["op"]
        if op in ("create", "reopen"):
            ch, args = dictof(o["ch"]), dictof(o["args"])
            ch = dict(ch)
            args = dict(args)
            if op == "create" and ch.get("projectile") == "generic":
                args.setdefault("pvel", "v1")       # has no default
            kw = {K[k][2]: value(k, v) for k, v in args.items()}
            a = norm(args)
            if op == "create":
                kw.setdefault("gridlevel", 2)
                a.setdefault("gridlevel", canon(kw["gridlevel"]))
                sim = simrun.make(cm, d, reset=True, surface="icosphere", rng_seed=scn["seed"], **ch, **kw)
                ev.append({"op": op, "ch": ch, "args": a, **observe(sim)})
            else:
                if ch.get("projectile") == "generic" and "pvel" not in args:
                    kw["mean_velocity"] = 15e3
                    a["pvel"] = canon(15e3)
                h0 = digest(cfg)
                sim = None
                sim = simrun.make(cm, d, reset=False, **ch, **kw)
                ev.append({"op": op, "ch": ch, "args": a, "new": bool(sim.is_new), "same": digest(cfg) == h0, **observe(sim)})
        elif op == "set":
            comp, prop = K[o["k"]][:2]
            setattr(sim if comp is None else getattr(sim, comp), prop, value(o["k"], o["v"]))
            ev.append({"op": op, "k": o["k"], "v": canon(value(o["k"], o["v"])), **observe(sim)})
        elif op == "save":
            sim.save()
            ev.append({"op": op, **observe(sim)})
        elif op in ("edit", "erase"):
            _, prop, _, sec, _ = K[o["k"]]
            with open(cfg) as f:
                c = yaml.safe_load(f)
            s = c if sec is None else c.setdefault(sec, {})
            if op == "edit":
                s[prop] = value(o["k"], o["v"])
                ev.append({"op": op, "k": o["k"], "v": canon(value(o["k"], o["v"]))})
            else:
                s.pop(prop, None)
                ev.append({"op": op, "k": o["k"]})
            with open(cfg, "w") as f:
                yaml.safe_dump(c, f)
    return {"tb": ctx["tb"]}


def digest(f):
    with open(f, "rb") as fh:
        return hashlib.sha256(fh.read()).hexdigest()


def corrupt(t, rng):
    es = [e for e in t["ev"] if e["op"] in ("create", "set", "save", "reopen")]
    if not es:
        return None
    e = rng.choice(es)
    ks = [k for k in ("mass", "K1", "mu", "Dconv", "collapse", "tst", "pdens", "gridlevel", "smat") if k in e["vals"]]
    e["vals"][rng.choice(ks)] = "wrong"
    return t


def vacuity(traces):
    n = {}
    for t in traces:
        for e in t["ev"]:
            n[e["op"]] = n.get(e["op"], 0) + 1
            if e["op"] == "reopen":
                n["args"] = n.get("args", 0) + len(e["args"])
                n["new"] = n.get("new", 0) + bool(e["new"])
    for k in ("create", "set", "save", "edit", "reopen", "args", "new"):
        if not n.get(k):
            raise vh.MachineryError(f"no {k} in any history")
    return f"{n}"
