"""C21: a stored mesh is reused only if it matches the request."""
import contextlib
import hashlib
import json
import os
import pathlib
import random
import shutil
import subprocess
import sys

import numpy as np

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vh

LEVEL = "model_checking"
MODELS = {"quick": [("Mesh", "Mesh_MC.cfg")], "thorough": [("Mesh", "Mesh_Deep.cfg")]}
GENERATORS = {"quick": [{"module": "GenMesh", "cfg": "GenMesh.cfg", "simulate": 110, "depth": 12, "limit": 110}],
              "thorough": [{"module": "GenMesh", "cfg": "GenMesh.cfg", "simulate": 1500, "depth": 12, "limit": 1500}]}
TRACE = "TraceMesh"
SCENARIO_TIMEOUT = 240
ASSUMPTIONS = ["two meshes are the same when their coordinates and connectivity are", "a crash is simulated by an exception that nothing catches, before or after a file operation",
               "areas are compared with the sphere within the accuracy of the mesh library's quadrature"]

# what a mesh is generated from
HI = {"pix": 2e5, "local_radius": 6e5, "local_location": (10.0, 20.0), "superdomain_scale_factor": 2.0}
KEYS = [("icosphere", "Moon", {"gridlevel": 0}), ("icosphere", "Moon", {"gridlevel": 1}), ("icosphere", "Moon", {"gridlevel": 2}), ("icosphere", "Mars", {"gridlevel": 2}),
        ("icosphere", ("Foo", 5e5), {"gridlevel": 2}), ("icosphere", ("Foo", 6e5), {"gridlevel": 2}), ("arbitrary_resolution", "Moon", {"pix": 4e5}),
        ("arbitrary_resolution", "Moon", {"pix": 1e6}), ("arbitrary_resolution", "Mars", {"pix": 4e5}), ("hireslocal", "Moon", HI),
        ("hireslocal", "Moon", {**HI, "local_location": (10.0, -20.0)}), ("hireslocal", "Moon", {**HI, "pix": 2.5e5}), ("hireslocal", "Moon", {**HI, "local_radius": 8e5}),
        ("hireslocal", "Moon", {**HI, "superdomain_scale_factor": 4.0}), ("hireslocal", "Mars", HI), ("icosphere", "Moon", {"gridlevel": 3})]


class Stop(BaseException):
    """the process ends here"""


def scenarios(rng, tier, gen):
    out = []
    for g in gen:
        k = rng.choice([0, 1, 2, 3])
        if k == 0:
            keys = rng.sample([9, 10, 11, 12, 13, 14], 3)
        elif k == 1:
            keys = rng.choice([[2, 3], [4, 5], [6, 8], [2, 15], [6, 7], [0, 1]]) + [rng.randrange(16)]
        else:
            keys = rng.sample(range(16), rng.choice([2, 3, 4]))
        out.append({"kind": "history", "ops": g["h"], "keys": keys, "seed": rng.randint(0, 10**9)})
    return out


def setup(cm, scratch):
    from cratermaker.components.surface import Surface
    from cratermaker.components.target import Target
    ctx = {"S": Surface, "T": Target, "scratch": scratch, "n": 0}
    if __name__ != "__main__":
        out = subprocess.run([sys.executable, os.path.abspath(__file__), os.path.join(scratch, "other")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                             env=dict(os.environ, PYTHONHASHSEED="4711"), timeout=300)
        lines = [x for x in out.stdout.splitlines() if x.startswith("OUT ")]
        if not lines:
            raise vh.MachineryError("reference meshes: " + out.stderr[-300:])
        ctx["want"] = json.loads(lines[0][4:])
    return ctx


def digest(*xs):
    h = hashlib.sha1()
    for x in xs:
        x = np.asarray(x)
        h.update(str(x.shape).encode())
        h.update(np.ascontiguousarray(x.astype("<f8")).tobytes() if x.dtype.kind == "f" else np.ascontiguousarray(x.astype("<i8")).tobytes())
    return h.hexdigest()[:12]


def indices(x, n):
    return np.arange(n)[x] if isinstance(x, slice) else np.asarray(x)


def mesh(s):
    return digest(s.face_x, s.face_y, s.face_z, s.node_x, s.node_y, s.node_z, s.face_node_connectivity, s.face_area)


def local(s):
    lo = getattr(s, "local", None)
    return "-" if lo is None else digest(indices(lo.face_indices, s.n_face), indices(lo.node_indices, s.n_node), indices(lo.edge_indices, s.n_edge), lo.face_area)


def disk(d):
    """the stored mesh"""
    import xarray as xr
    p = os.path.join(d, "surface", "grid.nc")
    if not os.path.exists(p):
        return "none"
    try:
        with xr.open_dataset(p) as ds:
            return digest(*(ds[v].values for v in ("node_lon", "node_lat", "face_node_connectivity")))
    except Exception:
        return "bad"


def stamp(d):
    p = os.path.join(d, "surface", "grid.nc")
    if not os.path.exists(p):
        return None
    with open(p, "rb") as f:
        return os.stat(p).st_ino, os.stat(p).st_mtime_ns, hashlib.sha1(f.read()).hexdigest()


def results(d):
    out, p = {}, os.path.join(d, "surface")
    for f in sorted(os.listdir(p)) if os.path.isdir(p) else []:
        if f.startswith(("surface", "local_surface")) and f.endswith(".nc"):
            with open(os.path.join(p, f), "rb") as fh:
                out[f] = hashlib.sha1(fh.read()).hexdigest()
    return out


def spell(kw, r):
    """the same parameters written differently"""
    out = {}
    for k, v in kw.items():
        if k == "gridlevel":
            out[k] = r.choice([int, np.int64])(v)
        elif k == "local_location":
            v = (v[0] + r.choice([0, 0, 360]), v[1])
            out[k] = r.choice([tuple, list, np.array])(v)
        else:
            out[k] = r.choice([int, float, np.float64])(v)
    return out


def target(ctx, t, r=None):
    if isinstance(t, tuple):
        return ctx["T"].maker(t[0], radius=t[1], mass=1e20, material="Soft Rock", transition_scale_type="silicate")
    return ctx["T"].maker(t) if r is not None and r.random() < 0.5 else t


def make(ctx, d, key, r=None, **kw):
    kind, t, par = KEYS[key]
    return ctx["S"].maker(kind, simdir=d, target=target(ctx, t, r), **(spell(par, r) if r is not None else par), **kw)


@contextlib.contextmanager
def crash(at, kind):
    """the process ends at the `at`-th file operation"""
    state = {"n": 0}

    def hit(*paths):
        return any("grid" in os.path.basename(str(p)) or "surface" in os.path.basename(str(p)) for p in paths)

    def wrap(f, torn=False):
        def g(*a, **k):
            paths = [x for x in (*a, *k.values()) if isinstance(x, str | os.PathLike)]
            if not hit(*paths) or (kind == "torn" and not torn):
                return f(*a, **k)
            state["n"] += 1
            if state["n"] == at and kind == "before":
                raise Stop
            out = f(*a, **k)
            if state["n"] == (1 if kind == "torn" else at):
                if torn and kind == "torn":
                    for p in paths:
                        if os.path.isfile(p):
                            os.truncate(p, os.path.getsize(p) // 2)
                raise Stop
            return out
        return g
    saved = [(shutil, "move", False), (os, "replace", False), (os, "rename", False), (pathlib.Path, "unlink", False), (pathlib.Path, "replace", False), (os, "unlink", False), (os, "remove", False),
             (np, "savez_compressed", True), (np, "savez", True)]
    old = [(o, n, getattr(o, n)) for o, n, _ in saved]
    if at:
        for (o, n, t) in saved:
            setattr(o, n, wrap(getattr(o, n), t))
    try:
        yield
    finally:
        for o, n, f in old:
            setattr(o, n, f)


@contextlib.contextmanager
def answer(a):
    import builtins
    old = builtins.input
    builtins.input = lambda *_: a
    try:
        yield
    finally:
        builtins.input = old


def geometry(s, key):
    kind, _, par = KEYS[key]
    a = np.asarray(s.face_area, dtype=float)
    bins = [np.asarray(b) for b in s.face_bin_indices]
    flat = np.concatenate(bins) if bins else np.array([], dtype=int)
    ok = len(bins) == len(s.face_bin_area) == len(s.face_bin_min_sizes) == len(s.face_bin_max_sizes)
    ok = ok and all(abs(A - a[b].sum()) <= 1e-9 * A and m == s.face_size[b].min() and M == s.face_size[b].max() and abs(m - np.sqrt(a[b].min())) <= 1e-9 * m
                    for b, A, m, M in zip(bins, s.face_bin_area, s.face_bin_min_sizes, s.face_bin_max_sizes, strict=True))
    if kind == "hireslocal":
        size = np.sqrt(np.median(s.local.face_area))
    else:
        size = np.sqrt(4 * np.pi * s.radius**2 / s.n_face)
    return {"areaerr": int(abs(a.sum() / (4 * np.pi * s.radius**2) - 1) * 1e6), "nface": int(s.n_face), "nnode": int(s.n_node), "nedge": int(s.n_edge),
            "level": par.get("gridlevel", -1), "binned": len(flat), "binneddistinct": len(set(flat.tolist())) if flat.size and flat.min() >= 0 and flat.max() < s.n_face else -1,
            "binratio": int(max((a[b].max() / a[b].min() for b in bins), default=0) * 1e5), "binok": bool(ok),
            "pixok": bool(abs(size / par["pix"] - 1) < 0.3) if "pix" in par else True}


def run(ctx, scn, ev):
    ctx["n"] += 1
    d = os.path.join(ctx["scratch"], f"d{os.getpid()}_{ctx['n']}")
    r = random.Random(scn["seed"])
    cur, s, k = scn["keys"][0], None, 0
    for op in scn["ops"]:
        if op["op"] in ("open", "again"):
            if op["op"] == "open":
                cur = scn["keys"][op["p"] % len(scn["keys"])]
            e = {"op": "open", "p": str(cur), "regrid": op["regrid"], "reset": op["reset"], "ask": op["ask"] == "n", "out": "ok"}
            want = ctx["want"][str(cur)]
            st0, res0 = stamp(d), results(d)
            s = None
            try:
                with vh.quiet(), answer("y" if op["ask"] == "y" else "n"), crash(op["crash"], r.choice(["before", "after", "torn"])):
                    s = make(ctx, d, cur, r, regrid=op["regrid"], reset=op["reset"], ask_overwrite=op["ask"] != "off")
            except Stop:
                e["out"] = "crash"
            except RuntimeError as x:
                if "abort" not in str(x).lower() and "cancel" not in str(x).lower():
                    raise
                e["out"] = "refused"
            res1 = results(d)
            e.update(filekept=stamp(d) == st0, same=all(res1.get(f) == h for f, h in res0.items()) and set(res1) == set(res0), resn=len(res0), mainn=sum(f.startswith("surface") for f in res0), resafter=len(res1), disk=disk(d), wantdisk=want["disk"])
            if e["out"] == "ok":
                e.update(have=mesh(s), loc=local(s), want=want["mesh"], wantloc=want["local"], elev=elev(s), complete=bool(np.size(s.node_elevation) == s.n_node and np.size(s.face_elevation) == s.n_face), isnew=bool(s.is_new), askafter=bool(s.ask_overwrite) and op["ask"] == "n", **geometry(s, cur))
                if op["ask"] == "y":
                    e["askafter"] = not s.ask_overwrite
            ev.append(e)
        elif op["op"] == "save":
            if s is None:
                continue
            k += 1
            with vh.quiet():
                s.ask_overwrite = False
                s.save_actions = None
                s.update_elevation(np.full(s.n_face, float(op["v"])))
                s.save(interval=k)
            ev.append({"op": "save", "elev": elev(s)})
        else:
            s = None
            p = os.path.join(d, "surface", "grid.nc")
            idx = os.path.join(d, "surface", "local_grid_indices.npz")
            how = op["how"]
            if how == "idx":
                if os.path.exists(idx):
                    os.unlink(idx)
            elif os.path.exists(p):
                if how == "delete":
                    os.unlink(p)
                elif how == "truncate":
                    os.truncate(p, os.path.getsize(p) // 2)
                else:
                    with open(p, "r+b") as f:
                        f.write(r.randbytes(64))
            else:
                continue
            ev.append({"op": "damage", "how": how})
    shutil.rmtree(d, ignore_errors=True)
    return {}


def elev(s):
    v = np.asarray(s.face_elevation, dtype=float)
    return "zero" if not v.any() else digest(v)


def corrupt(t, rng):
    e = [x for x in t["ev"] if x["op"] == "open" and x["out"] == "ok"]
    if not e:
        return None
    e = rng.choice(e)
    k = rng.choice(["have", "disk", "loc", "binned", "filekept"])
    if k == "filekept":
        e = t["ev"][0]
        if e["op"] != "open" or e["out"] != "ok":
            return None
        e["filekept"] = True
    elif k == "binned":
        e[k] -= 1
    else:
        e[k] = "zork"
    return t


def vacuity(traces):
    c = {"reused": 0, "made": 0, "refused": 0, "crash": 0, "damage": 0, "save": 0, "afterloss": 0}
    keys = set()
    for t in traces:
        last = ""
        for e in t["ev"]:
            if e["op"] == "open":
                w = e["out"] if e["out"] != "ok" else "reused" if e["filekept"] else "made"
                c[w] += 1
                c["afterloss"] += last in ("crash", "damage") and e["out"] == "ok"
                keys.add(e["p"])
                last = e["out"]
            else:
                c[e["op"]] += 1
                last = e["op"]
    need = {"reused": 60, "made": 150, "refused": 20, "crash": 25, "damage": 30, "save": 50, "afterloss": 40}
    if any(c[k] < v for k, v in need.items()) or len(keys) < 14:
        raise vh.MachineryError(f"too little covered: {c} {len(keys)}")
    return f"{c}, {len(keys)} meshes"


def matches(k, trace, step, clause):
    return False


if __name__ == "__main__":
    _cm = vh.import_cm()
    _ctx = setup(_cm, sys.argv[1])
    _out = {}
    for _k in range(len(KEYS)):
        _d = os.path.join(sys.argv[1], f"m{_k}")
        os.makedirs(_d, exist_ok=True)
        with vh.quiet():
            _s = make(_ctx, _d, _k)
        _out[_k] = {"mesh": mesh(_s), "local": local(_s), "disk": disk(_d)}
        shutil.rmtree(_d, ignore_errors=True)
    sys.__stdout__.write("OUT " + json.dumps(_out) + "\n")
