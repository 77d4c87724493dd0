"""C23: component factories and catalogues."""
import os
import random
import re

import numpy as np

import vh

LEVEL = "model_checking"
MODELS = {"quick": [("Factory", "Factory_MC.cfg")], "thorough": [("Factory", "Factory_Deep.cfg")]}
GENERATORS = {"quick": [{"module": "GenFactory", "cfg": "GenFactory.cfg", "simulate": 400, "depth": 16}],
              "thorough": [{"module": "GenFactory", "cfg": "GenFactory.cfg", "simulate": 6000, "depth": 16}]}
TRACE = "TraceFactory"
ASSUMPTIONS = ["attribute values are compared to 12 digits", "many histories run one after another in the same process, so what one leaves behind shows in the next"]
ATTRS = {"target": ["radius", "mass", "material", "transition_scale_type", "density"],
         "projectile": ["mean_velocity", "density", "sample", "velocity", "angle"],
         "production": [], "scaling": ["material", "K1", "mu", "Ybar", "density"],
         "morphology": ["ejecta_truncation", "dorays", "do_subpixel_degradation", "do_slope_collapse"], "counting": [], "surface": []}
ASTEROIDS = {"Mercury", "Venus", "Earth", "Moon", "Mars", "Ceres", "Vesta"}
COMETS = {"Mercury", "Earth", "Moon", "Mars", "Io", "Europa", "Pluto"}


def scenarios(rng, tier, gen):
    out = [{"kind": "history", "ops": g["h"], "seed": rng.randint(0, 10**9)} for g in gen]
    rng.shuffle(out)
    return out


def setup(cm, scratch):
    from cratermaker.components.counting import Counting
    from cratermaker.components.morphology import Morphology
    from cratermaker.components.production import Production
    from cratermaker.components.projectile import Projectile
    from cratermaker.components.scaling import Scaling
    from cratermaker.components.surface import Surface
    from cratermaker.components.target import Target
    d = os.path.join(scratch, "s")
    with vh.quiet():
        s = Surface.maker("icosphere", gridlevel=2, simdir=d, ask_overwrite=False)
    return {"d": d, "n": 0, "scratch": scratch, "surface": s,
            "C": {"target": Target, "projectile": Projectile, "production": Production, "scaling": Scaling, "morphology": Morphology, "counting": Counting, "surface": Surface}}


def text(v):
    if isinstance(v, (bool, np.bool_)) or v is None:
        return str(v)
    if isinstance(v, str):
        return v
    return "%.12g" % float(v)


def attrs(kind, o):
    if kind == "production":
        return ["version"] if o.component_name == "neukum" else ["N1_coef", "slope", "generator_type"]
    return ATTRS[kind]


def read(kind, o):
    e = {"model": o.component_name, "type": type(o).__name__, "none": ""}
    for a in attrs(kind, o):
        e[a] = text(o.target.density if kind == "scaling" and a == "density" else getattr(o, a))
    if kind == "projectile":
        e["target"] = o.target.name
    if kind == "scaling":
        e["body"] = o.target.name
        e["tmass"] = text(o.target.mass)
    return e


def value(a, op, r, kind):
    if a in ("material",):
        return op["mat"]
    if a == "transition_scale_type":
        return r.choice(["silicate", "ice"])
    if a == "generator_type":
        return r.choice(["crater", "projectile"])
    if a == "version":
        return r.choice(["Moon", "Mars", "Projectile"])
    if a in ("dorays", "do_subpixel_degradation", "do_slope_collapse"):
        return r.random() < 0.5
    if a == "sample":
        return True
    if a == "slope":
        return -round(r.uniform(1, 5), 4)
    if a == "angle":
        return round(r.uniform(1, 90), 3)
    hi = {"radius": 5e6, "mass": 1e24, "K1": 3.0, "mu": 0.6, "Ybar": 1e7, "density": 5000.0, "N1_coef": 1e-3, "ejecta_truncation": 10.0, "velocity": 4e4, "mean_velocity": 4e4}[a]
    return float("%.6g" % (hi * r.uniform(0.1, 1)))


def request(ctx, op, r, items):
    """(name or None, keyword arguments, what was given explicitly)"""
    kind = op["k"]
    b = op["b"]
    default = op["op"] == "default"
    given = {}
    if kind == "target":
        name = b
        allowed = ATTRS["target"]
    elif kind == "projectile":
        pool = [x for x, ok in (("asteroids", b in ASTEROIDS), ("comets", b in COMETS)) if ok]
        name = None if default else r.choice(pool + ["generic"])
        allowed = ["density", "velocity", "angle", "sample"]
    elif kind == "production":
        name = None if default else r.choice(["neukum", "powerlaw"])
        eff = name or ("neukum" if b in ("Mercury", "Earth", "Moon", "Mars") else "powerlaw")
        allowed = ["version"] if eff == "neukum" else ["N1_coef", "slope", "generator_type"]
        if name is None and eff == "powerlaw":
            allowed = ["slope"]
    elif kind == "scaling":
        name = None if default else r.choice(["montecarlo", "ctem"])
        allowed = ATTRS["scaling"]
    elif kind == "morphology":
        name = None if default else r.choice(["basicmoon", "realisticmoon"])
        allowed = ATTRS["morphology"]
    elif kind == "counting":
        name = None if default else "depthcount"
        allowed = []
    else:
        name = None if default else "icosphere"
        allowed = []
    for a in allowed:
        if a in op["g"]:
            given[a] = value(a, op, r, kind)
    if kind == "projectile" and name == "generic":
        given["mean_velocity"] = value("mean_velocity", op, r, kind)
        given.setdefault("density", 3210.0)
    return name, given


def make(ctx, op, r, items, e):
    kind = op["k"]
    C = ctx["C"][kind]
    name, given = request(ctx, op, r, items)
    kw = dict(given)
    passed = None
    if kind == "target":
        pass
    elif kind in ("projectile", "production", "scaling"):
        mine = [o for k, o in items if k == "target" and o.name == op["b"]]
        if kind == "projectile" and mine and r.random() < 0.7:
            passed = kw["target"] = r.choice(mine)
        else:
            kw["target"] = op["b"]
        if r.random() < 0.3:
            kw["rng_seed"] = r.randint(0, 10**6)
    elif kind in ("morphology", "counting"):
        passed = kw["surface"] = ctx["surface"]
        kw["simdir"] = ctx["d"]
        kw["ask_overwrite"] = False
    else:
        ctx["n"] += 1
        kw.update(gridlevel=1, simdir=os.path.join(ctx["scratch"], f"g{ctx['n']}"), ask_overwrite=False)
    what = name
    if op["op"] == "class" and name is not None and kind in ("scaling", "projectile"):
        what = C._registry[name] if hasattr(C, "_registry") else name
    if kind == "production" and name is not None and r.random() < 0.3:
        what = name.upper()
    if kind == "scaling" and "material" in kw and r.random() < 0.5:
        kw["material"] = kw["material"].lower()
    with vh.quiet():
        o = C.maker(what, **kw) if what is not None else C.maker(**kw)
    used = True
    if passed is not None:
        used = (o.target if kind == "projectile" else o.surface) is passed
    g = {a: text(v) for a, v in given.items()}
    e.update(op="make", kind=kind, name="" if name is None else name, body=op["b"], given=g, model=o.component_name, new=all(o is not x for _, x in items), used=bool(used))
    items.append((kind, o))


def unknown(ctx, op, r, e):
    kind = op["k"]
    C = ctx["C"][kind]
    bad = r.choice(["zork", "", "Moonx", "montecarlo2", "object", "_registry"])
    if op["op"] == "wrong":
        bad = r.choice([3, 2.5, [], {"a": 1}, object(), dict])
    e.update(op="refuse", kind=kind, refused=True, listed=[])
    try:
        with vh.quiet():
            if kind in ("morphology", "counting"):
                C.maker(bad, surface=ctx["surface"], simdir=ctx["d"])
            else:
                C.maker(bad, **({"simdir": os.path.join(ctx["scratch"], "never")} if kind == "surface" else {}))
        e["refused"] = False
    except (KeyError, ValueError, TypeError) as x:
        e["listed"] = re.findall(r"'([a-z_]+)'", str(x))
        if op["op"] == "wrong":
            e["listed"] = sorted(C.available())


def run(ctx, scn, ev):
    r = random.Random(scn["seed"])
    items = []
    for op in scn["ops"]:
        e = {}
        o = op["op"]
        if o in ("make", "class", "default"):
            make(ctx, op, r, items, e)
        elif o in ("unknown", "wrong"):
            unknown(ctx, op, r, e)
        elif not items:
            continue
        else:
            i = op["i"] % len(items)
            kind, x = items[i]
            if o == "pass":
                with vh.quiet():
                    y = ctx["C"][kind].maker(x)
                e.update(op="pass", same=y is x)
            elif o == "change":
                pool = [a for a in attrs(kind, x) if a not in ("sample",)]
                if not pool:
                    continue
                a = pool[op["v"] % len(pool)]
                v = value(a, op, r, kind)
                if kind == "scaling" and a == "density":
                    x.target.density = v
                else:
                    with vh.quiet():
                        setattr(x, a, v)
                e.update(op="change", i=i + 1, a=a, v=text(v))
            else:
                C = ctx["C"][kind]
                C.available().clear()
                if kind == "scaling":
                    for k in x.material_catalogue.values():
                        k["K1"], k["density"] = 77.0, 88.0
                x.valid_drivers.append("zork")
                e.update(op="tamper")
        e["objs"] = [read(k, y) for k, y in items]
        ev.append(e)
    return {}


def corrupt(t, rng):
    c = [e for e in t["ev"] if len(e["objs"]) > 1]
    if not c:
        return None
    e = rng.choice(c)
    if e["op"] == "change":
        e["objs"][e["i"] - 1][e["a"]] = "zork"
    else:
        rng.choice(e["objs"][:-1])["model"] = "zork"
    return t


def vacuity(traces):
    ops, models = {}, {}
    for t in traces:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
            if e["op"] == "make":
                k = e["kind"] + ":" + (e["model"] if e["kind"] != "target" else "body")
                models[k] = models.get(k, 0) + 1
    need = {"make": 300, "pass": 40, "change": 100, "refuse": 80, "tamper": 20}
    if any(ops.get(k, 0) < v for k, v in need.items()) or len(models) < 11:
        raise vh.MachineryError(f"too little covered: {ops} {models}")
    return f"{ops}, components made: {models}"


def matches(k, trace, step, clause):
    return False
