"""C09: crater requests and derived quantities."""
import math
import random

LEVEL = "model_checking"
MODELS = {"quick": [("CraterReq", "CraterReq_MC.cfg")], "thorough": [("CraterReq", "CraterReq_Deep.cfg")]}
GENERATORS = {"quick": [{"module": "GenCraterReq", "cfg": "GenCraterReq.cfg"}],
              "thorough": [{"module": "GenCraterReq", "cfg": "GenCraterReq_Deep.cfg"}]}
TRACE = "TraceCraterReq"
ASSUMPTIONS = ["relations between floating point values are compared with a relative tolerance of 2e-6",
               "projectile speeds between 3 and 45 km/s, crater sizes between 10 m and 1000 km"]
NAMES = {"v": "projectile_velocity", "vv": "projectile_vertical_velocity", "angle": "projectile_angle", "mean": "projectile_mean_velocity",
         "direction": "projectile_direction", "density": "projectile_density", "mdiam": "measured_diameter", "mrad": "measured_radius"}
BADS = ["negsize", "zerosize", "negv", "negvv", "negangle", "bigangle", "negdens", "negdir", "vvtoolarge", "wrongtype", "neg_measured", "badloc"]


def scenarios(rng, tier, gen):
    cases = [g["h"]["args"] for g in gen] * (2 if tier == "quick" else 4)
    # group requests so that a scenario shares a target and scaling model
    rng.shuffle(cases)
    out = []
    for i in range(0, len(cases), 40):
        out.append({"kind": "lattice", "cases": [{"args": a, "bad": "", "seed": rng.randint(0, 10**9)} for a in cases[i:i + 40]],
                    "target": rng.choice(["Moon", "Mars", "Mercury", "Earth", "Vesta", "Ceres"]), "scaling": rng.choice([None, "montecarlo", "ctem"])})
    sizes = ["diameter", "radius", "axes", "transient_diameter", "transient_radius", "projectile_diameter", "projectile_radius", "projectile_mass", "final_diameter", "final_radius"]
    for _ in range(3 if tier == "quick" else 30):
        cs = []
        for b in BADS:
            for s in sizes if b in ("negsize", "zerosize") else rng.sample(sizes, 2):
                extra = {"negv": ["v"], "negvv": ["vv", "angle"], "negangle": ["angle"], "bigangle": ["angle"], "negdens": ["density"],
                         "negdir": ["direction"], "vvtoolarge": ["v", "vv"], "neg_measured": ["mrad"], "badloc": ["location"]}.get(b, [])
                cs.append({"args": sorted([s] + extra), "bad": b, "seed": rng.randint(0, 10**9)})
        out.append({"kind": "illegal", "cases": cs, "target": rng.choice(["Moon", "Mars"]), "scaling": None})
    return out


def setup(cm, scratch):
    return {"cm": cm}


def build(case, r):
    A, b, kw, given = set(case["args"]), case["bad"], {}, {}
    D = 10 ** r.uniform(1, 6)
    sv = {"diameter": D, "radius": D / 2, "final_diameter": D * 1.25, "final_radius": D * 0.75, "transient_diameter": D * 0.75,
          "transient_radius": D * 0.3, "projectile_diameter": D * 0.06, "projectile_radius": D * 0.04, "projectile_mass": 1200.0 * (D * 0.05) ** 3}
    for f in sorted(A):
        if f in sv:
            v = sv[f]
            if b == "negsize":
                v = -v
            elif b == "zerosize":
                v = 0.0
            elif b == "wrongtype":
                v = "large"
            kw[f] = v
            given[{"final_diameter": "diameter", "final_radius": "radius"}.get(f, f)] = v
        elif f == "axes":
            sg = -1 if b == "negsize" else 0 if b == "zerosize" else 1
            kw["semimajor_axis"], kw["semiminor_axis"] = sg * D * 0.6, (1 if b == "negsize" else sg) * D * 0.4
            if b == "wrongtype":
                kw["semimajor_axis"] = "large"
            given["semimajor_axis"], given["semiminor_axis"] = kw["semimajor_axis"], kw["semiminor_axis"]
    vv = r.uniform(3000, 9000)
    if "v" in A:
        kw["projectile_velocity"] = -5000.0 if b == "negv" else r.uniform(10000, 45000)
    if "angle" in A:
        kw["projectile_angle"] = {"negangle": -r.uniform(1, 80), "bigangle": r.uniform(91, 179)}.get(b, r.choice([90.0, r.uniform(15, 90)]))
    if "vv" in A:
        kw["projectile_vertical_velocity"] = -vv if b == "negvv" else 60000.0 if b == "vvtoolarge" else vv
    for f in ("v", "angle", "vv"):
        if f in A:
            given[NAMES[f]] = kw[NAMES[f]]
    if "mean" in A:
        kw["projectile_mean_velocity"] = r.uniform(10000, 30000)
    lon, lat = r.uniform(-179, 179), r.uniform(-89, 89)
    if "location" in A:
        kw["location"] = (1.0, 2.0, 3.0) if b == "badloc" else (lon, lat)
    if "projectile_location" in A:
        kw["projectile_location"] = (lon, lat)
    if "lonlat" in A:
        kw["longitude"], kw["latitude"] = lon, lat
    if "lon" in A:
        kw["longitude"] = lon
        if "lonlat" in A:
            kw.pop("latitude", None)
    if "lat" in A:
        kw["latitude"] = lat
        if "lonlat" in A:
            kw.pop("longitude", None)
    if {"lon", "lat"} <= A:        # both halves make a whole: keep only one so that the request is incomplete
        kw.pop("latitude", None)
    if "orientation" in A:
        given["orientation"] = kw["orientation"] = r.uniform(1, 359)
    if "direction" in A:
        kw["projectile_direction"] = -5.0 if b == "negdir" else r.uniform(1, 359)
        given["projectile_direction"] = kw["projectile_direction"]
    if "density" in A:
        kw["projectile_density"] = -100.0 if b == "negdens" else r.uniform(900, 8000)
        given["projectile_density"] = kw["projectile_density"]
    if "time" in A:
        given["time"] = kw["time"] = r.uniform(1, 4000)
    if "name" in A:
        kw["name"] = "Tycho"
    if "mdiam" in A:
        given["measured_diameter"] = kw["measured_diameter"] = D * 1.5
    if "mrad" in A:
        kw["measured_radius"] = -D if b == "neg_measured" else D
        given["measured_radius"] = kw["measured_radius"]
    return kw, given, (lon, lat) if A & {"location", "projectile_location", "lonlat"} else None


def ratio(a, b):
    if a is None or b is None:
        return 1000000 if a is b else -1
    try:
        x = float(a) / float(b) if b else (1.0 if a == b else 9.0)
    except (TypeError, ValueError):
        return -2
    return int(round(1e6 * x)) if math.isfinite(x) and abs(x) < 1000 else -3


def run(ctx, scn, ev):
    cm = ctx["cm"]
    for case in scn["cases"]:
        r = random.Random(case["seed"])
        kw, given, loc = build(case, r)
        e = {"op": "request", "args": sorted(case["args"]), "bad": [case["bad"]] if case["bad"] else []}
        try:
            c = cm.Crater.maker(target=scn["target"], scaling=scn["scaling"], rng_seed=case["seed"] % 1000, **kw)
        except Exception:
            e["res"] = "refused"
            ev.append(e)
            continue
        e["res"] = "accepted"
        if case["bad"] == "":
            e["given"] = [{"f": k, "ratio": ratio(getattr(c, k), v)} for k, v in sorted(given.items())]
            if loc:
                e["given"] += [{"f": "lon", "ratio": ratio(c.location[0] + 360, loc[0] + 360)}, {"f": "lat", "ratio": ratio(c.location[1] + 360, loc[1] + 360)}]
            e["given"].append({"f": "name", "ratio": 1000000 if c.name == kw.get("name") else 0})
            if "time" not in given:
                e["given"].append({"f": "notime", "ratio": 1000000 if c.time is None else 0})
            vol = 4.0 / 3.0 * math.pi * c.projectile_radius ** 3
            e["rel"] = {
                "diameter": ratio(c.diameter, 2 * c.radius), "axes": ratio(c.radius ** 2, c.semimajor_axis * c.semiminor_axis),
                "transient": ratio(c.transient_diameter, 2 * c.transient_radius), "projectile": ratio(c.projectile_diameter, 2 * c.projectile_radius),
                "mass": ratio(c.projectile_mass, c.projectile_density * vol),
                "vertical": ratio(c.projectile_vertical_velocity, c.projectile_velocity * math.sin(math.radians(c.projectile_angle))) if c.projectile_angle > 0.01 else 1000000,
                "direction": ratio(c.orientation + 360, c.projectile_direction + 360),
                "mdiam": ratio(c.measured_diameter, 2 * c.measured_radius),
                "maxes": ratio(c.measured_radius ** 2, c.measured_semimajor_axis * c.measured_semiminor_axis),
                "mdefault": ratio(c.measured_radius, c.radius) if not set(case["args"]) & {"mdiam", "mrad"} else 1000000,
                "circular": ratio(c.semimajor_axis, c.semiminor_axis) if "axes" not in case["args"] else 1000000,
                "mlon": ratio(c.measured_location[0] + 360, c.location[0] + 360), "mlat": ratio(c.measured_location[1] + 360, c.location[1] + 360),
                "mori": ratio(c.measured_orientation + 360, c.orientation % 360 + 360)}
            e["positive"] = all(x > 0 for x in (c.diameter, c.transient_diameter, c.projectile_diameter, c.projectile_mass, c.projectile_velocity, c.projectile_density))
            e["inrange"] = bool(0 <= c.projectile_angle <= 90 and 0 <= c.orientation < 360 + 1e-9 and -180 <= c.location[0] < 180 and -90 <= c.location[1] <= 90
                                and c.morphology_type in ("simple", "complex", "transitional", "peakring", "multiring"))
        ev.append(e)
    return {}


def corrupt(t, rng):
    for e in t["ev"]:
        if e["res"] == "accepted" and not e["bad"]:
            k = rng.choice(["vertical", "mass", "diameter"])
            e["rel"][k] = 999990
            return t
    return None


def matches(k, trace, step, clause):
    return False
