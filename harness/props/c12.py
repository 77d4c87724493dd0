"""C12: tag layers."""
import os
import random
import warnings

import numpy as np

LEVEL = "model_checking"
MODELS = {"quick": [("TagLayers", "TagLayers_MC.cfg")], "thorough": [("TagLayers", "TagLayers_Deep.cfg")]}
GENERATORS = {"quick": [{"module": "GenTagLayers", "cfg": "GenTagLayers.cfg", "simulate": 60, "depth": 26, "limit": 60}],
              "thorough": [{"module": "GenTagLayers", "cfg": "GenTagLayers.cfg", "simulate": 600, "depth": 26, "limit": 600}]}
TRACE = "TraceTagLayers"
ASSUMPTIONS = ["faces in exactly the same regions form one atom; every face of an atom must carry the same tags (checked), so one bag per atom is a lossless record"]
NAMES = ["crater_id", "other"]


def scenarios(rng, tier, gen):
    out = [{"kind": "gen", "ops": [dict(o, n=1) for o in g["h"]], "seed": rng.randint(0, 10**6)} for g in gen]
    for _ in range(80 if tier == "quick" else 1500):
        ops, nt = [], rng.choice([2, 9, 12, 40])
        w = rng.choice([[6, 2, 1, .3, .1], [10, 1, 1, .1, .1], [4, 4, 1, .2, .2]])
        bias = rng.choice([[1, 1, 1, 1, 1, 1], [.2, 5, 1, 1, 1, 1], [.2, 1, 1, 4, 4, 1]])
        for _ in range(rng.randint(4, 40)):
            op = rng.choices(["add", "remove", "sort", "clear", "save"], w)[0]
            ops.append({"op": op, "r": rng.choices([1, 2, 3, 4, 5, 6], bias)[0], "t": rng.randint(1, nt), "n": rng.choices([1, 2], [4, 1])[0]})
        out.append({"kind": "random", "ops": ops, "seed": rng.randint(0, 10**6)})
    rng.shuffle(out)
    return out


def setup(cm, scratch):
    from cratermaker.components.surface import _N_TAG_LAYERS
    sims = {}
    return {"cm": cm, "scratch": scratch, "sims": sims, "nl": _N_TAG_LAYERS}


def getsurf(ctx, kind):
    if kind not in ctx["sims"]:
        cm = ctx["cm"]
        d = os.path.join(ctx["scratch"], "s" + kind)
        if kind == "ico":
            ctx["sims"][kind] = cm.Surface.maker("icosphere", gridlevel=3, simdir=d, reset=True, ask_overwrite=False)
        else:
            ctx["sims"][kind] = cm.Surface.maker("hireslocal", pix=60e3, local_location=(10, 60), local_radius=400e3, superdomain_scale_factor=20,
                                                 simdir=d, reset=True, ask_overwrite=False)
    return ctx["sims"][kind]


def run(ctx, scn, ev):
    r = random.Random(scn["seed"])
    hires = r.random() < 0.3
    s = getsurf(ctx, "hires" if hires else "ico")
    s.reset()
    for nm in NAMES:
        if nm in s.uxds:
            del s._uxds[nm]
    R = s.radius
    lon, lat = r.uniform(-180, 180), r.uniform(-85, 85)
    rad = R * r.choice([0.3, 0.6, 1.0])
    if hires:            # tags of regions are confined to the high-resolution part
        lon, lat = 10 + r.uniform(-15, 15), 60 + r.uniform(-8, 8)
        rad = r.choice([150e3, 400e3, 900e3])
    regs = [s, s.extract_region((lon, lat), rad, at_least_one_face=True),
            s.extract_region((lon + r.choice([5, 20, 40]), lat * 0.8), rad * r.choice([0.5, 1.0]), at_least_one_face=True),
            None,
            s.extract_region((lon + 180, -lat), R * 0.2, at_least_one_face=True), s.extract_region((0, 0), R * 3.2)]
    regs[3] = regs[1].extract_subregion(rad * r.choice([0.3, 0.7])) or s.extract_region((lon, lat), 1.0, at_least_one_face=True)
    n = s.n_face
    mem = np.zeros((len(regs), n), bool)
    for i, g in enumerate(regs):
        if i == 0:
            mem[0] = True
        else:
            mem[i, g.face_indices] = True
    amem = mem.copy()
    if hires:
        loc = np.zeros(n, bool)
        loc[s.local.face_indices] = True
        amem[1:] &= loc
        le, ln = set(np.asarray(s.local.edge_indices).tolist()), set(np.asarray(s.local.node_indices).tolist())
        for i, g in enumerate(regs):       # regions that touch the local part without sharing an edge do not overlap it
            if i and not isinstance(g.face_indices, slice) and not (le & set(g.edge_indices.tolist()) and ln & set(g.node_indices.tolist())):
                amem[i] = False
    _, atom = np.unique(np.concatenate([mem, amem]).T, axis=0, return_inverse=True)
    natom = int(atom.max()) + 1
    tagval = {}
    rev = {}

    def tv(t):
        if t not in tagval:
            v = r.choice([t, t + 2**31, 2**32 - t, r.randint(1, 2**32 - 1)])
            tagval[t] = np.uint32(v) if r.random() < 0.5 else v
            rev[int(v)] = t
        return tagval[t]

    def bags(ds):
        uni, out = True, []
        for nm in NAMES:
            if nm not in ds:
                out.append([[] for _ in range(natom)])
                continue
            d = np.sort(np.asarray(ds[nm].data).reshape(n, -1), axis=1)
            b = []
            for a in range(natom):
                rows = np.unique(d[atom == a], axis=0)
                uni = uni and len(rows) == 1
                b.append(sorted(rev.get(int(x), 100000 + int(x) % 100000) for x in rows[0] if x != 0))
            out.append(b)
        return uni, out

    def emit(e, ds=None):
        u, b = bags(s.uxds)
        if ds is not None:
            fu, e["file"] = bags(ds)
            u = u and fu
        ev.append({**e, "uniform": bool(u), "bags": b})
    # a field that does not exist cannot lose tags
    try:
        regs[1].remove_tag("other", 3)
        ref = False
    except ValueError:
        ref = True
    emit({"op": "refuse", "n": 2, "refused": ref})
    for op in scn["ops"]:
        nm = NAMES[op["n"] - 1]
        k = op["op"]
        g = regs[op.get("r", 1) - 1]
        if k == "add":
            t = tv(op["t"])
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                g.add_tag(name=nm, tag=t, long_name="tag field")
            emit({"op": k, "n": op["n"], "r": op["r"], "t": op["t"], "warned": bool(ws)})
        elif k == "remove":
            if nm not in s.uxds:
                continue
            g.remove_tag(nm, tv(op["t"]))
            emit({"op": k, "n": op["n"], "r": op["r"], "t": op["t"]})
        elif k == "sort":
            if nm not in s.uxds:
                continue
            (g._full() if g is s else g).sort_tags(nm)
            emit({"op": k, "n": op["n"], "r": op["r"]})
        elif k == "clear":
            (s if hires else g).add_tag(name=nm, tag=None)
            emit({"op": k, "n": op["n"]})
        elif k == "save":
            s.save(interval=1)
            ds = s.read_saved_output(interval=1)
            emit({"op": k, "n": op["n"]}, ds)
            ds.close()
    return {"nl": ctx["nl"], "natom": natom, "regions": [sorted({int(a) + 1 for a in atom[m]}) for m in mem],
            "aregions": [sorted({int(a) + 1 for a in atom[m]}) for m in amem]}


def corrupt(t, rng):
    for e in t["ev"]:
        if e["op"] == "add" and e["bags"][0][0]:
            e["bags"][0][0] = e["bags"][0][0][1:] if rng.random() < 0.5 else e["bags"][0][0] + [99]
            return t
    return None


def vacuity(traces):
    import vh
    n = {k: sum(e["op"] == k for t in traces for e in t["ev"]) for k in ("add", "remove", "sort", "save", "clear")}
    w = sum(e.get("warned", False) for t in traces for e in t["ev"])
    if min(n.values()) < 10 or w < 10:
        raise vh.MachineryError(f"too few events: {n}, {w} overflows")
    return f"{n}, {w} additions to full faces"


def matches(k, trace, step, clause):
    return False
