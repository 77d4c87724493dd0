"""C08: crater identity and copies."""
import json
import os
import random
import subprocess
import sys

LEVEL = "model_checking"
MODELS = {"quick": [("CraterId", "CraterId_MC.cfg")], "thorough": [("CraterId", "CraterId_Deep.cfg")]}
GENERATORS = {"quick": [{"module": "GenCraterId", "cfg": "GenCraterId.cfg", "simulate": 400, "depth": 14, "limit": 400}],
              "thorough": [{"module": "GenCraterId", "cfg": "GenCraterId.cfg", "simulate": 6000, "depth": 14, "limit": 6000}]}
TRACE = "TraceCraterId"
ASSUMPTIONS = ["identities are 32-bit hashes: distinct parameters are assumed not to collide in the sampled histories",
               "rim height and floor depth of surface-bound craters are measured by the compiled library and excluded"]
KEY = {"sma": "semimajor_axis", "smi": "semiminor_axis", "td": "transient_diameter", "pd": "projectile_diameter", "pm": "projectile_mass",
       "ori": "orientation", "pv": "projectile_velocity", "pa": "projectile_angle", "time": "time"}
VAR = {"msma": "measured_semimajor_axis", "msmi": "measured_semiminor_axis", "mori": "measured_orientation", "mrim": "measured_rim_height",
       "mflr": "measured_floor_depth", "deg": "degradation_state", "ptime": "production_time", "pnd": "production_ND",
       "pseq": "production_sequence", "name": "name"}
FIX = {**KEY, "loc": "location", "id": "id", "diameter": "diameter", "radius": "radius", "mtype": "morphology_type", "density": "projectile_density",
       "pvv": "projectile_vertical_velocity", "pdir": "projectile_direction", "tr": "transient_radius", "pr": "projectile_radius"}


def scenarios(rng, tier, gen):
    out = []
    for i, g in enumerate(gen):
        out.append({"kind": "typed" if i % 10 == 0 else "plain", "ops": g["h"], "seed": rng.randint(0, 10**6)})
    out.append({"kind": "process", "seed": rng.randint(0, 10**6), "ops": []})
    # every single field replaced alone, and each measured alone
    for f in ["ori", "pv", "pa", "loc", "time", "lonlat", "dir", "vv", "dens"]:
        out.append({"kind": "plain", "seed": rng.randint(0, 10**6), "ops": [{"op": "copy", "i": 1, "key": [f], "var": [], "size": ""}]})
    for f in ["mdiam", "mrad", "maxes", "mori", "mloc", "mrim", "mflr", "deg", "ptime", "pnd", "pseq", "name"]:
        out.append({"kind": "plain", "seed": rng.randint(0, 10**6), "ops": [{"op": "copy", "i": 1, "key": [], "var": [f], "size": ""}]})
    for f in FIX:
        out.append({"kind": "plain", "seed": rng.randint(0, 10**6), "ops": [{"op": "fix", "i": 1, "f": f}]})
    rng.shuffle(out)
    return out


def setup(cm, scratch):
    return {"cm": cm, "scratch": scratch, "sim": None}


def getsim(ctx):
    if ctx["sim"] is None:
        ctx["sim"] = ctx["cm"].Simulation(simdir=os.path.join(ctx["scratch"], "sim"), gridlevel=2, ask_overwrite=False, reset=True, rng_seed=1)
        ctx["sim"].save_actions = None
    return ctx["sim"]


class Rec:
    def __init__(self, typed):
        self.tab = {}
        self.typed = typed

    def v(self, x):
        if x is None:
            return 0
        if isinstance(x, (tuple, list)):
            x = tuple(float(y) for y in x)
        elif not isinstance(x, str):
            x = float(x)
        k = repr(x)
        return self.tab.setdefault(k, len(self.tab) + 1)

    def snap(self, c):
        o = {k: self.v(getattr(c, a)) for k, a in KEY.items()}
        o["lon"], o["lat"] = self.v(c.location[0]), self.v(c.location[1])
        for k, a in VAR.items():
            o[k] = 0 if self.typed and k in ("mrim", "mflr") else self.v(getattr(c, a))
        o["mlon"], o["mlat"] = (self.v(c.measured_location[0]), self.v(c.measured_location[1])) if c.measured_location is not None else (0, 0)
        o["mtype"] = self.v(c.morphology_type)
        o["id"] = self.v(str(int(c.id)))
        return o


def full_args(c):
    d = {k: v for k, v in c.as_dict().items() if k in (
        "semimajor_axis", "semiminor_axis", "orientation", "transient_diameter", "projectile_diameter", "projectile_velocity",
        "projectile_angle", "projectile_mass", "location", "time") and v is not None}
    return d


def run(ctx, scn, ev):
    cm = ctx["cm"]
    r = random.Random(scn["seed"])
    typed = scn["kind"] == "typed"
    rec = Rec(typed)
    cs = []

    def q(lo, hi):
        return r.randint(int(lo * 2), int(hi * 2)) / 2.0

    def loc():
        return (q(-179, 179), q(-89, 89))
    def near(cur, v):
        """sometimes a value that differs from the present one only far behind the decimal point"""
        if cur and r.random() < 0.4:
            return float(cur) * (1 - 2.0 ** -r.choice([12, 17, 22, 30, 40, 50]))
        return v
    make = getsim(ctx).Crater.maker if typed else cm.Crater.maker
    size = 1.0 if not typed else 400.0
    base = dict(diameter=q(800, 5000) * size, projectile_velocity=q(10000, 30000), projectile_angle=q(10, 80), projectile_density=q(2000, 4000),
                location=loc(), projectile_direction=q(0, 359))
    opt = {"time": q(1, 3000), "name": "c0", "production_time": (q(1, 99), q(1, 9)), "production_sequence": r.randint(1, 9),
           "degradation_state": q(1, 9), "production_ND": (q(1, 9), q(1, 9), q(1, 2))}
    for k in r.sample(sorted(opt), r.randint(0, len(opt))):
        base[k] = opt[k]
    if r.random() < 0.3:
        base["semimajor_axis"] = base.pop("diameter") / 2
        base["semiminor_axis"] = base["semimajor_axis"] * 0.75
    cs.append(cm.Crater.maker(**base) if not typed or r.random() < 0.5 else make(**base))

    def emit(e):
        e["objs"] = [rec.snap(c) for c in cs]
        ev.append(e)
    emit({"op": "new"})
    if typed:
        cs.append(make(crater=cs[0]))
        emit({"op": "conv", "i": 1})
    if scn["kind"] == "process":
        return run_process(ctx, cm, r, cs, rec, emit, loc, q)
    for op in scn["ops"]:
        i = op["i"] - 1
        if op["op"] == "fix":
            try:
                setattr(cs[i], FIX[op["f"]], (1.0, 2.0) if op["f"] == "loc" else "x" if op["f"] == "mtype" else 17)
            except AttributeError:
                pass
            try:
                setattr(cs[i]._fixed, FIX[op["f"]], 17)
            except AttributeError:
                pass
            emit({"op": "fix", "i": op["i"]})
        elif op["op"] == "set":
            c, f = cs[i], op["f"]
            a, b = c.measured_semimajor_axis, c.measured_semiminor_axis
            ch = {}
            if f == "mdiam":
                v = q(500, 9000)
                c.measured_diameter = v
                ch = {"msma": v / 2, "msmi": v / 2}
            elif f == "mrad":
                v = q(500, 9000)
                c.measured_radius = v
                # assignment passes through both axis setters; the pair is (v, v) whatever it was
                ch = {"msma": v, "msmi": v}
            elif f in ("msma", "msmi"):
                v = q(500, 9000)
                setattr(c, VAR[f], v)
                lo, hi = sorted([v, b if f == "msma" else a])
                ch = {"msma": hi, "msmi": lo}
            elif f == "mloc":
                v = loc()
                c.measured_location = v
                ch = {"mlon": v[0], "mlat": v[1]}
            elif f in ("mrim", "mflr") and typed:
                continue
            else:
                v = {"mori": q(0, 359), "mrim": q(1, 99), "mflr": -q(1, 99), "deg": q(0, 99), "ptime": (q(1, 99), q(0, 9)),
                     "pnd": (q(1, 9), q(1, 9), q(0, 2)), "pseq": r.randint(0, 99), "name": "n%d" % r.randint(0, 99)}[f]
                setattr(c, VAR[f], v)
                ch = {f: v}
            emit({"op": "set", "i": op["i"], "ch": {k: rec.v(x) for k, x in ch.items()}})
        else:
            kw, ch, e = {}, {}, {"op": "copy", "i": op["i"], "size": bool(op["size"]), "dens": False, "vel": False}
            key, var = set(op["key"]), set(op["var"])
            if "dir" in key:
                key.discard("ori")
            if "lonlat" in key:
                key.discard("loc")
            if key & {"pv", "pa"}:
                key.discard("vv")
            ms = sorted(var & {"mdiam", "mrad", "maxes"})
            var -= set(ms[1:])
            if typed:
                var -= {"mrim", "mflr"}
            for f in sorted(key):
                if f in ("ori", "dir"):
                    kw["orientation" if f == "ori" else "projectile_direction"] = ch["ori"] = near(cs[i].orientation, q(0, 359))
                elif f == "pv":
                    kw["projectile_velocity"] = ch["pv"] = near(cs[i].projectile_velocity, q(10000, 30000))
                elif f == "pa":
                    kw["projectile_angle"] = ch["pa"] = near(cs[i].projectile_angle, q(10, 80))
                elif f == "time":
                    t = near(cs[i].time, q(1, 3000))
                    kw["time"] = int(t) if r.random() < 0.5 and t == int(t) else t
                    ch["time"] = kw["time"]
                elif f == "vv":
                    kw["projectile_vertical_velocity"] = q(3000, 9000)
                    e["vel"] = True
                elif f == "dens":
                    kw["projectile_density"] = q(4100, 6000)
                    e["dens"] = not op["size"]
                else:
                    p = loc()
                    if r.random() < 0.5:
                        p = (near(cs[i].location[0], cs[i].location[0]), near(cs[i].location[1], p[1]))
                    ch["lon"], ch["lat"] = p
                    if f == "loc":
                        kw["location"] = p
                    else:
                        kw["longitude"], kw["latitude"] = p
            for f in sorted(var):
                if f == "mdiam":
                    kw["measured_diameter"] = v = q(500, 9000)
                    ch["msma"] = ch["msmi"] = v / 2
                elif f == "mrad":
                    kw["measured_radius"] = v = q(500, 9000)
                    ch["msma"] = ch["msmi"] = v
                elif f == "maxes":
                    kw["measured_semimajor_axis"] = ch["msma"] = q(5000, 9000)
                    kw["measured_semiminor_axis"] = ch["msmi"] = q(500, 4999)
                elif f == "mloc":
                    p = loc()
                    kw["measured_location"] = p
                    ch["mlon"], ch["mlat"] = p
                else:
                    v = {"mori": q(0, 359), "mrim": q(1, 99), "mflr": -q(1, 99), "deg": q(0, 99), "ptime": (q(1, 99), q(0, 9)),
                         "pnd": (q(1, 9), q(1, 9), q(0, 2)), "pseq": r.randint(0, 99), "name": "n%d" % r.randint(0, 99)}[f]
                    kw[VAR[f]] = ch[f] = v
            sz = op["size"]
            if sz:
                v = q(100, 3000) * size
                if sz == "axes":
                    kw["semimajor_axis"] = ch["sma"] = v
                    kw["semiminor_axis"] = ch["smi"] = v * 0.5
                else:
                    kw[sz] = v if sz != "projectile_mass" else v * 1e8
                    if sz == "diameter":
                        ch["sma"] = ch["smi"] = v / 2
                    elif sz == "radius":
                        ch["sma"] = ch["smi"] = v
                    elif sz == "transient_diameter":
                        ch["td"] = v
                    elif sz == "transient_radius":
                        ch["td"] = 2 * v
                    elif sz == "projectile_diameter":
                        ch["pd"] = v
                    elif sz == "projectile_radius":
                        ch["pd"] = 2 * v
            e["ch"] = {k: rec.v(x) for k, x in ch.items()}
            e["nomeas"] = not ms
            cs.append(make(crater=cs[i], **kw) if r.random() < 0.5 or typed else cs[i].maker(cs[i], **kw))
            emit(e)
    return {}


def run_process(ctx, cm, r, cs, rec, emit, loc, q):
    for k in range(6):
        cs.append(cm.Crater.maker(diameter=q(800, 90000), location=loc(), time=q(1, 3000), rng_seed=k))
        emit({"op": "new"})
    args = [full_args(c) for c in cs]
    code = ("import sys,json\nsys.path.insert(0,%r)\nimport vh\ncm=vh.import_cm()\n"
            "print('IDS',json.dumps([str(int(cm.Crater.maker(check_redundant_inputs=False,**a).id)) for a in json.loads(sys.stdin.read())]))" % os.path.dirname(os.path.dirname(__file__)))
    env = dict(os.environ, PYTHONHASHSEED="4711")
    o = subprocess.run([sys.executable, "-c", code], input=json.dumps(args), capture_output=True, text=True, env=env, timeout=100)
    ids = [json.loads(x[4:]) for x in o.stdout.splitlines() if x.startswith("IDS ")]
    assert ids, o.stderr[-500:]
    for i, x in enumerate(ids[0]):
        emit({"op": "proc", "i": i + 1, "other": rec.v(x)})
    return {}


def corrupt(t, rng):
    e = t["ev"][-1]
    if e["op"] in ("set", "copy") and len(t["ev"]) > 1:
        e["objs"][0][rng.choice(["pv", "id", "sma"])] += 1000
        return t
    return None


def matches(k, trace, step, clause):
    return False
