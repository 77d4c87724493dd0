"""C05: saved intervals read back exactly and stay independent."""
import hashlib
import os
import random
import shutil

import numpy as np
import simrun
import vh

LEVEL = "model_checking"
MODELS = {"quick": [("SavedStates", "SavedStates_MC.cfg")], "thorough": [("SavedStates", "SavedStates_Deep.cfg")]}
GENERATORS = {"quick": [{"module": "GenSaved", "cfg": "GenSaved.cfg", "simulate": 120, "depth": 16, "limit": 120}],
              "thorough": [{"module": "GenSaved", "cfg": "GenSaved.cfg", "simulate": 2500, "depth": 16, "limit": 2500}]}
TRACE = "TraceSaved"
ASSUMPTIONS = ["fields are compared by a digest of their values; the order of the layers of a tag does not count",
               "a time variable that is not given with a save keeps the value an earlier save of the same interval gave it",
               "meshes: icosphere level 2 and 3, and a high-resolution local mesh"]
SCENARIO_TIMEOUT = 240
NAMES = [[0, 1, 2, 3], [0, 3, 10, 200], [0, 999998, 999999, 1000000], [0, 7, 70, 1000001]]


def scenarios(rng, tier, gen):
    hs = [g["h"] for g in gen]

    def score(h):
        ops = [o["op"] for o in h]
        return len(set(ops)) + min(3, ops.count("save")) + min(2, ops.count("csave")) + 2 * rng.random()
    rng.shuffle(hs)
    hs.sort(key=lambda h: -score(h))
    n = 44 if tier == "quick" else 1200
    return [{"kind": "hist", "h": h, "names": NAMES[[0, 1, 0, 2, 3][i % 5]], "mesh": ["ico2", "ico3", "ico2", "hires"][i % 4], "seed": rng.randint(0, 10**6)}
            for i, h in enumerate(hs[:n])]


def setup(cm, scratch):
    return {"cm": cm, "scratch": scratch, "n": 0}


class Ids:
    def __init__(self):
        self.d = {}

    def __call__(self, a):
        a = np.asarray(a)
        if a.dtype.kind == "f" and a.size and np.all(np.isnan(a)):
            return None
        if a.ndim == 2:
            a = np.sort(np.nan_to_num(a).astype(np.uint32), axis=1)
        else:
            a = a.astype(np.float64) + 0.0
        h = hashlib.sha1(str(a.shape).encode() + np.ascontiguousarray(a).tobytes()).hexdigest()
        return self.d.setdefault(h, len(self.d) + 1)


def fields(ids, ds, i=None):
    """the fields of a data set, at the i-th interval of it"""
    out = {}
    for v in ds.data_vars:
        if str(v).startswith("is_local_"):
            continue        # part of the mesh
        a = ds[v]
        if "interval" in a.dims:
            a = a.isel(interval=0 if i is None else i)
        x = ids(a.values)
        if x is not None:
            out[str(v)] = x
    return out


MESHES = {**simrun.MESH, "hires": dict(surface="hireslocal", pix=60e3, local_location=(20.0, 30.0), local_radius=400e3, superdomain_scale_factor=20)}


def observe(ctx, sim, ids, names, cids):
    s = sim.surface
    e = {"mem": fields(ids, s.uxds)}
    lst = s.get_saved_interval_numbers()
    lst = lst[0] if isinstance(lst, tuple) else lst
    full = s._full().get_saved_interval_numbers()[0]
    pos = {n: i for i, n in enumerate(names)}
    e["list"] = [pos.get(int(n), -1) for n in (lst or [])]
    if list(full or []) != list(lst or []):
        e["list"] = [-2]
    e["reads"], e["iv"], e["tvs"] = [], [], []
    for n in names:
        ds = s.read_saved_output(interval=n)
        f = fields(ids, ds) if ds is not None else {}
        e["reads"].append(f)
        e["iv"].append(pos.get(int(np.asarray(ds["interval"].values).ravel()[0]), -1) if f else -1)
        e["tvs"].append(timevars(ids, s, n))
    k = len(e["list"])
    e["ends"] = [fields(ids, s.read_saved_output(interval=-i)) for i in range(1, k + 1)]
    e["tvends"] = [timevars(ids, s, -i) for i in range(1, k + 1)]
    ds = s.read_saved_output()
    e["all"] = [{"k": pos.get(int(n), -1), "f": fields(ids, ds, i)} for i, n in enumerate(np.asarray(ds["interval"].values).ravel())]
    c = sim.counting
    # lists of craters
    nums = c.get_saved_interval_numbers()
    e["clist"] = {x: [pos.get(int(n), -1) for n in (nums[i] or [])] for i, x in enumerate(("observed", "emplaced"))}
    e["creads"] = {"observed": [], "emplaced": []}
    for n in names:
        r = c.read_saved_output(interval=n)
        for i, x in enumerate(("observed", "emplaced")):
            e["creads"][x].append(craterids(cids, r[i]))
    e["cmem"] = {"observed": lid(cids, [q.id for q in c.observed.values()]), "emplaced": lid(cids, [q.id for q in c.emplaced])}
    return e


def lid(cids, ids):
    ids = sorted(int(i) for i in ids)
    return 0 if not ids else cids.setdefault(tuple(ids), len(cids) + 1)


def craterids(cids, ds):
    if ds is None or "id" not in ds.variables:
        return 0
    return lid(cids, np.asarray(ds["id"].values).ravel())


def timevars(ids, s, n):
    t = s._full().get_time_variables(interval=n)
    if t is None:
        return {}
    t = t[0] if isinstance(t, tuple) else t
    if t is None:
        return {}
    return {k: ids(np.asarray(t[k].values).ravel()[0]) for k in ("time", "elapsed_time") if k in t.coords}


def run(ctx, scn, ev):
    ctx["n"] += 1
    d = os.path.join(ctx["scratch"], f"s{ctx['n']}")
    try:
        return go(ctx, scn, ev, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def go(ctx, scn, ev, d):
    cm, r = ctx["cm"], random.Random(scn["seed"])
    names = scn["names"]
    sim = simrun.make(cm, d, reset=True, rng_seed=scn["seed"], do_slope_collapse=False, **MESHES[scn["mesh"]])
    ids, cids = Ids(), {}
    s = sim.surface
    blank = {"face_elevation": ids(np.zeros(s.n_face)), "node_elevation": ids(np.zeros(s.n_node))}
    ev.append({"op": "start", **observe(ctx, sim, ids, names, cids)})
    g = np.random.Generator(np.random.PCG64(scn["seed"]))
    kw = dict(projectile_velocity=2e4, projectile_angle=45.0, projectile_density=2500.0, projectile_direction=0.0)
    for o in scn["h"]:
        s = sim.surface
        op = o["op"]
        e = {"op": op}
        if op == "edit":
            f = o["f"]
            e["f"] = f
            if f == "region":
                reg = s.extract_region((r.uniform(-180, 180), r.uniform(-90, 90)), s.radius * r.uniform(0.4, 1.2))
                if reg is not None:
                    reg.update_elevation(g.uniform(-100, 100, reg.n_face))
            elif f == "elev":
                s.update_elevation(g.uniform(-100, 100, s.n_face), overwrite=r.random() < .5)
                if r.random() < .5:
                    s.update_elevation(g.uniform(-100, 100, s.n_node))
            elif f == "x":
                s.add_data(name="x", data=g.uniform(-1, 1, s.n_face), isfacedata=True, overwrite=True)
            elif f == "tag":
                for _ in range(3):
                    reg = s.extract_region((r.uniform(-180, 180), r.uniform(-90, 90)), s.radius * r.uniform(0.4, 1.2))
                    if reg is not None:
                        reg.add_tag(name="t", tag=r.randint(1, 2**32 - 1))
            else:
                big = scn["mesh"] == "ico3"
                sim.emplace([sim.Crater.maker(diameter=r.uniform(1.65e6, 1.8e6) if big else r.uniform(5e5, 9e5),
                                              location=(r.uniform(-180, 180), r.uniform(-80, 80)), time=r.uniform(0, 100), **kw)])
        elif op == "save":
            tv = {"none": {}, "time": {"time": g.uniform(0, 4000)}, "both": {"time": g.uniform(0, 4000), "elapsed_time": g.uniform(0, 100)}}[o["tv"]]
            tv = {k: float(v) for k, v in tv.items()}
            s.save(interval=names[o["k"]], **({"time_variables": tv} if tv else {}))
            e.update(k=o["k"], tv={k: ids(v) for k, v in tv.items()})
        elif op == "csave":
            sim.counting.save(interval=names[o["k"]], crater_type=o["which"])
            e.update(k=o["k"], which=["observed", "emplaced"] if o["which"] == "both" else [o["which"]])
        elif op == "regsave":
            reg = s.extract_region((20.0, 30.0), s.radius * 0.6)
            if reg is not None:
                reg.save(interval=names[o["k"]])
        elif op == "export":
            s.export(driver=r.choice(["VTK", "VTK", "GPKG"]), interval=names[o["k"]])
            e.update(k=o["k"])
        elif op == "reset":
            s.reset()
        elif op == "creset":
            sim.counting.reset()
        elif op == "reopen":
            sim = None
            sim = simrun.make(cm, d, reset=False)
        e.update(observe(ctx, sim, ids, names, cids))
        ev.append(e)
    return {"blank": blank}


def corrupt(t, rng):
    es = [e for e in t["ev"] if e["op"] in ("save", "edit", "csave") and e["list"]]
    if not es:
        return None
    e = rng.choice(es)
    k = rng.choice(e["list"])
    if rng.random() < .5:
        e["reads"][k]["face_elevation"] = 999
    else:
        e["list"] = e["list"][:-1]
    return t


def vacuity(traces):
    n, multi, resave = {}, 0, 0
    for t in traces:
        seen = set()
        for e in t["ev"]:
            n[e["op"]] = n.get(e["op"], 0) + 1
            multi += len(e.get("list", [])) >= 3
            if e["op"] == "save":
                resave += e["k"] in seen
                seen.add(e["k"])
    for k in ("edit", "save", "csave", "regsave", "reset", "reopen", "creset"):
        if not n.get(k):
            raise vh.MachineryError(f"no {k} in any history")
    if not multi or not resave:
        raise vh.MachineryError("no history with several saved intervals or a re-saved one")
    return f"{n}, states with 3 or more saved intervals {multi}, intervals saved again {resave}"
