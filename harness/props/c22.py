"""C22: scaling laws."""
import math
import random

import numpy as np

import vh

LEVEL = "model_checking"
MODELS = {"quick": [("Scaling", "Scaling_MC.cfg")], "thorough": [("Scaling", "Scaling_Deep.cfg")]}
GENERATORS = {"quick": [{"module": "GenScaling", "cfg": "GenScaling.cfg", "simulate": 1000, "depth": 14}],
              "thorough": [{"module": "GenScaling", "cfg": "GenScaling.cfg", "simulate": 8000, "depth": 14}]}
TRACE = "TraceScaling"
ASSUMPTIONS = ["sizes from 1 mm to 1000 km, impacts at 1 degree or more above the horizon",
               "sizes agree to 2e-9 of their value; close to the transition a transient crater may be of either class"]
BODY = {"Mercury": (2439.40e3, 3.301001e23, 0), "Earth": (6371.01e3, 5.972168e24, 0), "Moon": (1737.53e3, 7.345789e22, 0), "Mars": (3389.92e3, 6.416909e23, 0),
        "Ceres": (469.70e3, 9.383516e20, 1), "Vesta": (262.70e3, 2.590270e20, 0), "Europa": (1560.80e3, 4.798574e22, 1), "Titan": (2575.50e3, 1.345181e23, 1),
        "Pluto": (1188.30e3, 1.302498e22, 1)}
GRAV = 6.6743e-11
# log10 of the transition diameter against that of gravity: slope, intercept, spread (Schenk et al. 2021)
FIT = [(-0.5484575694575697, 4.201369948094472, 0.0699898822890725), (-0.7066985617230864, 3.52268633631802, 0.10337890091526512)]
CTEM = [(-1.0303, math.log10(16533.8)), (-1.22486, math.log10(3081.39))]


def scenarios(rng, tier, gen):
    return [{"kind": "history", "ops": g["h"], "seed": rng.randint(0, 10**9)} for g in gen]


def setup(cm, scratch):
    from cratermaker.components.projectile import Projectile
    from cratermaker.components.scaling import Scaling
    from cratermaker.components.target import Target
    return {"cm": cm, "S": Scaling, "T": Target, "P": Projectile}


def dev(x, ref):
    if not np.isfinite(x):
        return 2 * 10**9
    return int(min(abs(float(x) - ref) / abs(ref) * 1e12, 2e9))


def whole(x):
    return int(round(x)) if abs(x - round(x)) < 1e-6 else -77


def transient(s, d):
    """Holsapple's pi scaling in the current settings"""
    p, t = s.projectile, s.target
    g = GRAV * t.mass / t.radius**2
    v = p.velocity * math.sin(math.radians(p.angle))
    mu, r = s.mu, d / 2
    p2, p3, p4 = g * r / v**2, s.Ybar / (t.density * v**2), t.density / p.density
    vol = s.K1 * (p2 * p4 ** (-1 / 3) + p3 ** (1 + mu / 2)) ** (-3 * mu / (2 + mu)) * 4 / 3 * math.pi * r**3 * p.density / t.density
    return max(2 * (3 * vol / math.pi) ** (1 / 3), d)


def shrink(s, d, simple):
    f = s.simple_enlargement_factor
    return d / f if simple else d / (f * s.complex_enlargement_factor) * (d / s.transition_diameter) ** -s.final_exp


def observe(st):
    s = st["s"]
    fit = CTEM if st["ctem"] else FIT
    k = 1 if s.target.transition_scale_type == "ice" else 0
    nom = [10 ** (fit[k][0] * math.log10(g) + fit[k][1]) for g in st["grav"]]
    det = not s.monte_carlo_scaling
    far = 0 if st["ctem"] else int(min(abs(math.log10(s.transition_diameter / s.transition_nominal)) / FIT[k][2] * 1000, 2e9))
    return {"mat": s.material, "str": [whole(s.K1 * 1e3), whole(s.mu * 1e2), whole(s.Ybar / 1e3)], "rho": whole(s.target.density), "body": s.target.name,
            "nom": [dev(s.transition_nominal, x) for x in nom], "det": bool(det), "tr": dev(s.transition_diameter, s.transition_nominal), "far": far}


def ranks(x):
    u = sorted(set(x))
    return [u.index(a) for a in x]


def ratio(s, f):
    return int(min(f / s.transition_nominal * 1000, 2e9))


def sizes(st, r):
    s = st["s"]
    e = {}
    p = sorted(10 ** r.uniform(-3, 6) for _ in range(6))
    if r.random() < 0.5:
        p[1] = p[0] * (1 + 1e-6)
    t = [s.projectile_to_transient(num(r, x)) for x in p]
    e["pt"] = [dev(a, transient(s, x)) for a, x in zip(t, p, strict=True)]
    e["torder"] = ranks(t)
    e["tp"] = [dev(s.transient_to_projectile(num(r, a)), x) for a, x in zip(t, p, strict=True)]
    n = s.transition_nominal
    ts = sorted([n * r.uniform(0.2, 0.7) for _ in range(3)] + [n * r.uniform(0.7, 3) for _ in range(3)] + [10 ** r.uniform(-2, 6.5) for _ in range(4)])
    fin = [s.transient_to_final(num(r, a)) for a in ts]
    e["fratio"], e["fclass"] = [ratio(s, f) for f, _ in fin], [str(m) for _, m in fin]
    e["tf"] = [dev(s.final_to_transient(f, str(m))[0], a) for (f, m), a in zip(fin, ts, strict=True)]
    e["fsimple"] = ranks([f for f, m in fin if m == "simple"])
    e["fcomplex"] = ranks([f for f, m in fin if m != "simple"])
    fs = sorted([n * r.uniform(0.3, 1) for _ in range(3)] + [n * r.uniform(1, 2.5) for _ in range(3)] + [10 ** r.uniform(-2, 6.5) for _ in range(4)] + [n * 0.4999, n * 2.001])
    tr = [s.final_to_transient(num(r, f)) for f in fs]
    e["ratio"], e["class"] = [ratio(s, f) for f in fs], [str(m) for _, m in tr]
    e["ft"] = [dev(a, shrink(s, f, m == "simple")) for (a, m), f in zip(tr, fs, strict=True)]
    e["tsimple"] = ranks([a for a, m in tr if m == "simple"])
    e["tcomplex"] = ranks([a for a, m in tr if m != "simple"])
    e["back"] = [dev(s.transient_to_final(a)[0], f) for (a, _), f in zip(tr, fs, strict=True) if f < 0.25 * n or f > 4 * n]
    e["same"] = bool(t == [s.projectile_to_transient(x) for x in p]) if not r.random() < 0 else True
    if not s.monte_carlo_scaling:
        e["same"] = e["same"] and tr == [s.final_to_transient(f) for f in fs] and fin == [s.transient_to_final(a) for a in ts]
    return e


def num(r, x):
    k = r.random()
    if k < 0.2:
        return np.float64(x)
    return x


def crater(st, r):
    s = st["s"]
    form = r.choice(["projectile_diameter", "transient_diameter", "diameter", "radius", "projectile_mass"])
    d = 10 ** r.uniform(0, 5)
    c = st["cm"].Crater.maker(scaling=s, **{form: d})
    e = {k: [] for k in ("pt", "torder", "tp", "fratio", "fclass", "tf", "fsimple", "fcomplex", "ratio", "class", "ft", "tsimple", "tcomplex", "back")}
    e["same"] = True
    e["pt"] = [dev(c.transient_diameter, transient(s, c.projectile_diameter))]
    e["tf"] = [dev(shrink(s, c.diameter, c.morphology_type == "simple"), c.transient_diameter)]
    got = {"projectile_diameter": c.projectile_diameter, "transient_diameter": c.transient_diameter, "diameter": c.diameter, "radius": c.radius, "projectile_mass": c.projectile_mass}
    e["tp"] = [dev(got[form], d)]
    a, b = ("ratio", "class") if form in ("diameter", "radius") else ("fratio", "fclass")
    e[a], e[b] = [ratio(s, c.diameter)], [str(c.morphology_type)]
    return e


def bad(st):
    s = st["s"]
    asked = refused = 0
    for v in (0.0, -1.0, float("nan"), float("inf"), -float("inf"), "10", None, [10.0], np.float64(-3)):
        for f in (s.projectile_to_transient, s.transient_to_projectile, s.transient_to_final, s.final_to_transient):
            asked += 1
            try:
                f(v)
            except (ValueError, TypeError):
                refused += 1
    for name, v in (("K1", -1.0), ("mu", -0.5), ("Ybar", -1.0), ("K1", "x"), ("Ybar", [1.0]), ("material", 3), ("monte_carlo_scaling", "no")):
        asked += 1
        try:
            setattr(s, name, v)
        except (ValueError, TypeError):
            refused += 1
    return {"asked": asked, "refused": refused}


def gravity(s):
    return GRAV * s.target.mass / s.target.radius**2


def run(ctx, scn, ev):
    r = random.Random(scn["seed"])
    T, st = ctx["T"], {"cm": ctx["cm"]}
    names = ["K1", "mu", "Ybar"]
    unit = [1e-3, 1e-2, 1e3]
    for o in scn["ops"]:
        e = {"op": o["op"]}
        s = st.get("s")
        if o["op"] == "create":
            kw = {k: v * u for k, v, u in zip(names, o["g"], unit, strict=True) if v != -1}
            mat = o["m"]
            if mat:
                kw["material"] = r.choice([mat, mat.lower(), mat.upper()])
            if o["form"] == "object":
                kw["target"] = T.maker(o["b"], **({"density": float(o["d"])} if o["d"] != -1 else {}))
            else:
                kw["target"] = o["b"]
                if o["d"] != -1:
                    kw["density"] = float(o["d"])
            if o["k"] == "fixed":
                kw["monte_carlo_scaling"] = False
            if r.random() < 0.3:
                kw["projectile"] = r.choice(["asteroids", "comets"]) if o["b"] not in ("Ceres", "Vesta", "Europa", "Titan", "Pluto", "Mercury") else None
            e.update(b=o["b"], m=mat, g=o["g"], d=o["d"], refused=False)
            try:
                with vh.quiet():
                    st["s"] = ctx["S"].maker("ctem" if o["k"] == "ctem" else "montecarlo", rng_seed=r.randint(0, 10**6), **{k: v for k, v in kw.items() if v is not None})
            except ValueError:
                e["refused"] = True
                ev.append(e)
                break
            st["ctem"] = o["k"] == "ctem"
            st["grav"] = [gravity(st["s"])]
            st["g0"] = [BODY[o["b"]]]
            radius, mass, k = BODY[o["b"]]
            st["grav"][0] = GRAV * mass / radius**2
        elif o["op"] == "mat":
            m = o["m"] or "Sand"
            s.material = r.choice([m, m.lower()])
            e["m"] = m
        elif o["op"] == "str":
            i = o["i"]
            v = o["g"][i - 1] if o["g"][i - 1] != -1 else [333, 44, 555][i - 1]
            setattr(s, names[i - 1], v * unit[i - 1])
            e.update(i=i, v=v)
        elif o["op"] == "rho":
            d = abs(o["d"]) if o["d"] != -1 else 1999
            s.target.density = float(d)
            e["d"] = d
        elif o["op"] == "body":
            d = -1
            if o["form"] == "object":
                d = o["d"]
                s.target = T.maker(o["b"], **({"density": float(d)} if d != -1 else {}))
            elif r.random() < 0.5:
                s.target = o["b"]
            else:
                ctx["S"].maker(s, target=o["b"])
            radius, mass, k = BODY[o["b"]]
            st["grav"] = [GRAV * mass / radius**2]
            e.update(b=o["b"], d=d)
        elif o["op"] == "move":
            f = r.uniform(1.2, 2.5)
            if o["x"] % 2:
                s.target.mass = s.target.mass * f
            else:
                s.target.radius = s.target.radius * f
            st["grav"].append(gravity(s))
        elif o["op"] == "recompute":
            s.recompute()
        elif o["op"] == "mode":
            if st["ctem"]:
                s.recompute()
            else:
                was = s.monte_carlo_scaling
                s.monte_carlo_scaling = not was
        elif o["op"] == "projectile":
            k = o["x"] % 3
            if k == 0 and s.target.name in ("Moon", "Mars", "Earth"):
                s.projectile = r.choice(["asteroids", "comets"])
            else:
                s.projectile = ctx["P"].maker("generic", mean_velocity=r.uniform(2e3, 4e4), density=r.uniform(500, 8000), angle=r.uniform(1, 90), target=s.target)
            e["op"] = "projectile"
        elif o["op"] == "velocity":
            s.projectile.velocity = r.choice([r.uniform(500, 7e4), 1000])
            s.projectile.angle = r.choice([90, r.uniform(1, 90)])
            s.projectile.density = r.uniform(300, 9000)
        elif o["op"] == "size":
            e.update(sizes(st, r))
        elif o["op"] == "crater":
            with vh.quiet():
                e.update(crater(st, r))
        elif o["op"] == "bad":
            e.update(bad(st))
        e["o"] = observe(st)
        ev.append(e)
    return {}


def corrupt(t, rng):
    c = [e for e in t["ev"] if "o" in e]
    if not c:
        return None
    e = rng.choice(c)
    k = rng.choice(["str", "rho", "mat", "nom"])
    if k == "str":
        e["o"]["str"][0] += 1
    elif k == "rho":
        e["o"]["rho"] += 1
    elif k == "mat":
        e["o"]["mat"] = "Cheese"
    else:
        e["o"]["nom"] = [10**6] * len(e["o"]["nom"])
    return t


def vacuity(traces):
    ops, cl, refused = {}, {}, 0
    for t in traces:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
            refused += bool(e["op"] == "create" and e["refused"])
            for c in e.get("class", []) + e.get("fclass", []):
                cl[c] = cl.get(c, 0) + 1
    need = {"create": 100, "mat": 60, "str": 60, "rho": 30, "body": 60, "move": 30, "recompute": 30, "mode": 30, "projectile": 30, "velocity": 30, "crater": 30, "size": 60, "bad": 30}
    if any(ops.get(k, 0) < v for k, v in need.items()) or len(cl) < 3 or refused < 3:
        raise vh.MachineryError(f"too little covered: {ops} {cl} {refused}")
    return f"{ops}, classes {cl}, {refused} models without strength refused"


def matches(k, trace, step, clause):
    return False
