"""C19: canonical coordinates."""
import math

import numpy as np

LEVEL = "model_checking"
MODELS = {"quick": [("Coords", "Coords_MC.cfg")], "thorough": [("Coords", "Coords_Deep.cfg")]}
GENERATORS = {"quick": [{"module": "GenCoords", "cfg": "GenCoords.cfg", "simulate": 200, "depth": 14, "limit": 200}],
              "thorough": [{"module": "GenCoords", "cfg": "GenCoords.cfg", "simulate": 4000, "depth": 14, "limit": 4000}]}
TRACE = "TraceCoords"
NPROC = 4
G = 4096                     # grid units per degree for random inputs (exact in binary)
FORMS = ["func", "tuple", "list", "array", "f32", "ints", "dict", "dictrev", "struct1", "structrev1", "void", "struct0", "row", "listrow",
         "crater", "craterlonlat", "measured", "projectile", "prjloc"]
MANY = ["arr2d", "listpairs", "listlists", "structN", "structrevN", "tuplepairs"]
BAD = ["three", "one", "empty", "none", "int", "nolat", "struct_bad", "arr3", "strpair", "dictbad", "nested3"]
ASSUMPTIONS = ["inputs lie on a binary grid of 1/4096 degree (exact arithmetic) or are special floating point values"]


def scenarios(rng, tier, gen):
    out = [{"kind": "gen", "q": 3, "pts": g["h"]} for g in gen]
    n = 150 if tier == "quick" else 4000

    def coord(big):
        c = rng.random()
        if c < 0.35:
            v = rng.choice([-450, -360, -270, -180, -135, -90, -45, 0, 45, 90, 135, 180, 225, 270, 360, 450, 540, 720]) * G
            return v + rng.choice([0, 0, 1, -1, G])
        if c < 0.8:
            return rng.randint(-400 * G, 400 * G)
        return rng.randint(-big * G, big * G)
    for _ in range(n):
        out.append({"kind": "random", "q": 90 * G, "pts": [[coord(30000), coord(5000)] for _ in range(6)]})
    for _ in range(20 if tier == "quick" else 200):
        out.append({"kind": "edge", "seed": rng.randint(0, 10**6)})
    out.append({"kind": "malformed"})
    rng.shuffle(out)
    return out


def setup(cm, scratch):
    from cratermaker.utils.general_utils import normalize_coords, validate_and_normalize_location
    prj = cm.Projectile.maker("asteroids", rng_seed=1)
    return {"cm": cm, "n": normalize_coords, "v": validate_and_normalize_location, "prj": prj}


def _mk(cm, **kw):
    return cm.Crater.maker(diameter=1000.0, projectile_velocity=20000.0, projectile_angle=45.0, projectile_density=2500.0,
                           projectile_direction=0.0, **kw)


def call(ctx, form, lon, lat):
    v, cm = ctx["v"], ctx["cm"]
    f8, r8 = [("lon", "f8"), ("lat", "f8")], [("lat", "f8"), ("lon", "f8")]
    if form == "func":
        return ctx["n"]((lon, lat))
    if form == "tuple":
        return v((lon, lat))
    if form == "list":
        return v([lon, lat])
    if form == "array":
        return v(np.array([lon, lat]))
    if form == "f32":
        return v((np.float64(lon), np.float64(lat)))
    if form == "ints":
        if lon != int(lon) or lat != int(lat):
            return v((lon, lat))
        return v((int(lon), np.int64(lat)))
    if form == "dict":
        return v({"lon": lon, "lat": lat})
    if form == "dictrev":
        return v({"lat": lat, "lon": lon})
    if form == "struct1":
        return v(np.array([(lon, lat)], dtype=f8))
    if form == "structrev1":
        return v(np.array([(lat, lon)], dtype=r8))
    if form == "struct0":
        return v(np.array((lat, lon), dtype=r8))
    if form == "void":
        return v(np.array([(lat, lon)], dtype=r8)[0])
    if form == "row":
        return v(np.array([[lon, lat]]))
    if form == "listrow":
        return v([(lon, lat)])
    if form == "crater":
        return _mk(cm, location=(lon, lat)).location
    if form == "craterlonlat":
        return _mk(cm, longitude=lon, latitude=lat).location
    if form == "prjloc":
        return _mk(cm, projectile_location=(lon, lat)).location
    if form == "measured":
        c = _mk(cm, location=(0, 0))
        c.measured_location = (lon, lat)
        assert c.location == (0.0, 0.0)
        return c.measured_location
    if form == "projectile":
        ctx["prj"].location = (lon, lat)
        return ctx["prj"].location
    raise KeyError(form)


def call_many(ctx, form, pts):
    v = ctx["v"]
    f8, r8 = [("lon", "f8"), ("lat", "f8")], [("lat", "f8"), ("lon", "f8")]
    if form == "arr2d":
        return v(np.array(pts))
    if form == "listpairs":
        return v([tuple(p) for p in pts])
    if form == "listlists":
        return v([list(p) for p in pts])
    if form == "tuplepairs":
        return v(tuple(tuple(p) for p in pts))
    if form == "structN":
        return v(np.array([tuple(p) for p in pts], dtype=f8))
    return v(np.array([(b, a) for a, b in pts], dtype=r8))


def run(ctx, scn, ev):
    import vh
    if scn["kind"] == "malformed":
        v = ctx["v"]
        bad = {"three": (1.0, 2.0, 3.0), "one": (1.0,), "empty": (), "none": None, "int": 5, "nolat": {"lon": 1.0},
               "struct_bad": np.array([(1.0, 2.0)], dtype=[("x", "f8"), ("y", "f8")]), "arr3": np.zeros((2, 3)),
               "strpair": ("a", "b"), "dictbad": {"x": 1.0, "y": 2.0}, "nested3": [(1.0, 2.0, 3.0)]}
        for k, b in bad.items():
            try:
                v(b)
                ev.append({"op": "bad", "form": k, "refused": False})
            except Exception:
                ev.append({"op": "bad", "form": k, "refused": True})
        return {"q": 1}
    if scn["kind"] == "edge":
        import random
        r = random.Random(scn["seed"])
        for _ in range(40):
            b = r.choice([-180.0, 180.0, -90.0, 90.0, 0.0, 360.0, -360.0, 540.0, 270.0, -270.0])
            b2 = r.choice([-180.0, 180.0, -90.0, 90.0, 0.0, 360.0, 270.0, -270.0, 45.0])
            lon = r.choice([np.nextafter(b, 1e9), np.nextafter(b, -1e9), b + r.choice([-1, 1]) * 10.0 ** -r.randint(8, 300), b + r.uniform(-1e-6, 1e-6)])
            lat = r.choice([b2, np.nextafter(b2, 1e9), np.nextafter(b2, -1e9), b2 + r.uniform(-1e-6, 1e-6)])
            if r.random() < 0.6:       # ordinary floats, most of them already canonical
                lon, lat = r.choice([r.uniform(-180, 180), r.uniform(-720, 720)]), r.choice([r.uniform(-90, 90), r.uniform(-90, 90), r.uniform(-400, 400)])
            o = ctx["n"]((float(lon), float(lat)))
            o2 = ctx["n"](o)
            ev.append({"op": "real", "inp": [round(float(lon) * 64), round(float(lat) * 64)], "out": [round(o[0] * 64), round(o[1] * 64)],
                       "range": bool(-180 <= o[0] < 180 and -90 <= o[1] <= 90), "idem": bool(o == o2 and (o == (lon, lat) or not (-180 <= lon < 180 and -90 <= lat <= 90)))})
        return {"q": 90 * 64}
    q = scn["q"]
    u = 90.0 / q

    def dec(p):
        return [vh.iq(p[0], u, 1e-9), vh.iq(p[1], u, 1e-9)]
    pts = scn["pts"]
    real = [(p[0] * u, p[1] * u) for p in pts]
    for i, (p, r) in enumerate(zip(pts, real)):
        for form in FORMS[:13] if i % 3 else FORMS:
            o = call(ctx, form, *r)
            o2 = ctx["n"](o)
            ev.append({"op": "norm", "form": form, "inp": [p], "out": [dec(o)], "again": [dec(o2)]})
    for form in MANY:
        for k in (2, 3, len(real)):
            o = call_many(ctx, form, real[:k])
            ev.append({"op": "norm", "form": form, "inp": pts[:k], "out": [dec(x) for x in o], "again": [dec(ctx["n"](x)) for x in o]})
    return {"q": q}


def corrupt(t, rng):
    for e in t["ev"]:
        if e["op"] == "norm" and abs(e["out"][0][1]) < t["q"]:
            e["out"][0][0] += rng.choice([4 * t["q"], 1, -1])
            return t
    return None


def matches(k, trace, step, clause):
    return False
