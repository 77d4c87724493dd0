"""C20: regions of the mesh."""
import os
import random

import numpy as np

LEVEL = "model_checking"
MODELS = {"quick": [("Regions", "Regions_MC.cfg")], "thorough": [("Regions", "Regions_Deep.cfg")]}
TRACE = "TraceRegions"
ASSUMPTIONS = ["radii are kept a relative 1e-7 away from the distance of any face centre (rounding)",
               "distances and bearings are computed by the compiled library (stand-in); judged are the centre, units and element order the Python code passes"]
MESH = {"ico2": ("icosphere", dict(gridlevel=2)), "ico3": ("icosphere", dict(gridlevel=3)), "arb": ("arbitrary_resolution", dict(pix=700e3)),
        "hires": ("hireslocal", dict(pix=60e3, local_location=(10, 80), local_radius=400e3, superdomain_scale_factor=20)),
        "hires2": ("hireslocal", dict(pix=60e3, local_location=(-179, -3), local_radius=300e3, superdomain_scale_factor=30))}


def scenarios(rng, tier, gen):
    out = []
    n = 5 if tier == "quick" else 60
    for m in ["ico2", "arb", "hires", "hires2"] + (["ico3"] if tier != "quick" else []):
        for _ in range(n):
            out.append({"kind": m, "seed": rng.randint(0, 10**6)})
    rng.shuffle(out)
    return out


def setup(cm, scratch):
    return {"cm": cm, "scratch": scratch, "m": {}}


def mesh(ctx, k):
    if k not in ctx["m"]:
        name, kw = MESH[k]
        ctx["m"][k] = ctx["cm"].Surface.maker(name, simdir=os.path.join(ctx["scratch"], k), reset=True, ask_overwrite=False, **kw)
    return ctx["m"][k]


def rows(a, n=None):
    a = np.asarray(a)
    return [[int(x) for x in r if 0 <= x < (n or 1 << 60)] for r in a]


def lrows(a, n):
    """local tables: fill values become -1, out-of-range values stay visible"""
    return [[int(x) if 0 <= x < 10**6 else -1 for x in r] for r in np.asarray(a)]


def unit(lon, lat):
    lon, lat = np.radians(lon), np.radians(lat)
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def angle(c, v):
    return np.arctan2(np.linalg.norm(np.cross(np.broadcast_to(c, v.shape), v), axis=-1), v @ c)


def run(ctx, scn, ev):
    r = random.Random(scn["seed"])
    s = mesh(ctx, scn["kind"])
    R = s.radius
    fv, nv = unit(np.asarray(s.face_lon), np.asarray(s.face_lat)), unit(np.asarray(s.node_lon), np.asarray(s.node_lat))
    ev.append({"op": "mesh"})
    F, N, E = s.n_face, s.n_node, s.n_edge

    def ix(i, n):
        return np.arange(n)[i] if isinstance(i, slice) else np.asarray(i)

    def record(g, core, loc, sub):
        if g is None:
            ev.append({"op": "region", "none": True, "core": core, "sub": sub})
            return
        fi, ni, ei = ix(g.face_indices, F), ix(g.node_indices, N), ix(g.edge_indices, E)
        c = unit(*loc)
        fd, nd = angle(c, fv[fi]) * R, angle(c, nv[ni]) * R
        derr = max(np.max(np.abs(np.asarray(g.face_distance) - fd)), np.max(np.abs(np.asarray(g.node_distance) - nd))) if len(g.face_distance) == len(fi) and len(g.node_distance) == len(ni) else 1e9

        def bearing(lon, lat):
            l1, p1, l2, p2 = np.radians(loc[0]), np.radians(loc[1]), np.radians(lon), np.radians(lat)
            return np.degrees(np.arctan2(np.sin(l2 - l1) * np.cos(p2), np.cos(p1) * np.sin(p2) - np.sin(p1) * np.cos(p2) * np.cos(l2 - l1))) % 360
        berr = 0.0
        for got, lon, lat, d in ((g.face_bearing, np.asarray(s.face_lon)[fi], np.asarray(s.face_lat)[fi], fd), (g.node_bearing, np.asarray(s.node_lon)[ni], np.asarray(s.node_lat)[ni], nd)):
            got = np.asarray(got)
            if len(got) != len(d):
                berr = 1e9
                break
            b = np.abs((got - bearing(lon, lat) + 180) % 360 - 180) * np.sin(d / R)
            berr = max(berr, float(b.max()))
        sl = True
        for a, i in (("face_lon", fi), ("face_lat", fi), ("face_area", fi), ("face_size", fi), ("face_x", fi), ("face_y", fi), ("face_z", fi),
                     ("node_lon", ni), ("node_lat", ni), ("node_x", ni), ("node_y", ni), ("node_z", ni), ("edge_length", ei), ("edge_face_distance", ei)):
            sl = sl and np.array_equal(np.asarray(getattr(g, a)), np.asarray(getattr(s, a))[i])
        sl = sl and g.n_face == len(fi) and g.n_node == len(ni) and g.n_edge == len(ei) and abs(g.area - float(np.asarray(s.face_area)[fi].sum())) < 1.0
        sl = sl and abs((g.location[0] - loc[0] + 180) % 360 - 180) < 1e-9 and abs(g.location[1] - loc[1]) < 1e-9
        ev.append({"op": "region", "none": False, "core": core, "sub": sub, "faces": [int(x) for x in fi], "nodes": [int(x) for x in ni], "edges": [int(x) for x in ei],
                   "loc": {"fn": lrows(g.face_node_connectivity, N), "fe": lrows(g.face_edge_connectivity, E), "ff": lrows(g.face_face_connectivity, F),
                           "nf": lrows(g.node_face_connectivity, F), "ef": lrows(g.edge_face_connectivity, F), "en": lrows(g.edge_node_connectivity, N)},
                   "slices": bool(sl), "derr": int(min(derr * 1000, 10**8)), "berr": int(min(berr * 1e6, 10**8))})

    def radius(d, lo, hi):
        """a radius that is not a face distance"""
        for _ in range(50):
            x = r.uniform(lo, hi) * R
            if np.min(np.abs(d - x)) > 1e-7 * R:
                return x
        return x
    for k in range(5):
        lon, lat = r.choice([(r.uniform(-180, 180), np.degrees(np.arcsin(r.uniform(-1, 1)))), (r.choice([-180.0, 180.0, 179.999, 0.0]), r.uniform(-60, 60)),
                             (r.uniform(-180, 180), r.choice([90.0, -90.0, 89.99, -89.9])), (float(np.asarray(s.face_lon)[k * 7 % F]), float(np.asarray(s.face_lat)[k * 7 % F])),
                             (s.local_location if hasattr(s, "local_location") else (10.0, 20.0))])
        given = (lon + r.choice([0, 0, 360, -360]), lat)
        loc = (lon, float(lat))
        d = angle(unit(*loc), fv) * R
        rad = radius(d, *r.choice([(0.001, 0.1), (0.1, 0.7), (0.5, 2.0), (2.0, 3.1)]))
        if len(s.face_lon) > 200 and rad > 1.0 * R:
            rad = radius(d, 0.3, 0.8)
        core = [int(x) for x in np.flatnonzero(d <= rad)]
        form = r.choice([given, list(given), np.array(given)])
        g = s.extract_region(form, rad)
        record(g, core, loc, False)
        near = np.argsort(d)
        if not core and d[near[1]] - d[near[0]] > 1e-6 * R:
            record(s.extract_region(given, rad, at_least_one_face=True), [int(near[0])], loc, False)
        if d[near[1]] - d[near[0]] > 1e-6 * R:
            ev.append({"op": "near", "got": int(s.find_nearest_face(given)), "want": int(near[0])})
        dn = angle(unit(*loc), nv) * R
        nn = np.argsort(dn)
        if dn[nn[1]] - dn[nn[0]] > 1e-6 * R:
            ev.append({"op": "near", "got": int(s.find_nearest_node(given)), "want": int(nn[0])})
        # regions of regions, twice
        sub = g
        rs = rad
        for _ in range(2):
            if sub is None:
                break
            rs = radius(d, 0.05 * rs / R, 0.999 * rs / R)
            sub = sub.extract_subregion(rs)
            record(sub, [int(x) for x in np.flatnonzero(d <= rs)], loc, True)
        # from the centre to a place at a distance and bearing, and back
        dist, brg = r.uniform(0.001, 3.0) * R, r.uniform(0, 360)
        o = s.compute_location_from_distance_bearing(dist, brg, loc)
        a = float(s.compute_distances(np.array([o]), loc)[0])
        b = float(np.atleast_1d(s.compute_bearings(np.array([o]), loc))[0])
        err = abs(a - dist) / R + abs(np.radians((b - brg + 180) % 360 - 180)) * abs(np.cos(np.radians(loc[1]))) * np.sin(dist / R)
        ev.append({"op": "geo", "err": int(min(err * 1e6, 10**8))})
    if r.random() < 0.5 and F < 200:
        loc = (33.0, 44.0)
        g = s.extract_region(loc, np.pi * R * r.choice([1.0, 1.01, 2.0]))
        record(g, list(range(F)), loc, False)
    return {"fn": rows(s.face_node_connectivity, N), "fe": rows(s.face_edge_connectivity, E), "ff": rows(s.face_face_connectivity, F),
            "nf": rows(s.node_face_connectivity, F), "ef": rows(s.edge_face_connectivity, F), "en": rows(s.edge_node_connectivity, N)}


def corrupt(t, rng):
    for e in t["ev"]:
        if e["op"] == "region" and not e["none"] and not e["sub"]:
            k = rng.choice(["faces", "nodes", "loc"])
            if k == "loc":
                e["loc"]["fn"][0] = e["loc"]["fn"][-1] if len(e["loc"]["fn"]) > 1 else []
            else:
                e[k] = e[k][1:]
            return t
    return None


def matches(k, trace, step, clause):
    return False
