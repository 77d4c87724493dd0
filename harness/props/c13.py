"""C13: surface edits through regions."""
import os
import random

import numpy as np

LEVEL = "model_checking"
MODELS = {"quick": [("SurfaceEdit", "SurfaceEdit_MC.cfg")], "thorough": [("SurfaceEdit", "SurfaceEdit_Deep.cfg")]}
GENERATORS = {"quick": [{"module": "GenSurfaceEdit", "cfg": "GenSurfaceEdit.cfg", "simulate": 80, "depth": 12, "limit": 80}],
              "thorough": [{"module": "GenSurfaceEdit", "cfg": "GenSurfaceEdit.cfg", "simulate": 1500, "depth": 12, "limit": 1500}]}
TRACE = "TraceSurfaceEdit"
ASSUMPTIONS = ["data are constant on atoms (elements lying in the same regions), so one value per atom records the whole field; atoms are checked to be uniform",
               "node elevations interpolated from faces are computed by the compiled library (stand-in); only their locality and range are judged"]
FIELDS = {"x": "face", "y": "node", "w": "face"}


def scenarios(rng, tier, gen):
    out = []
    for g in gen:
        ops = []
        for o in g["h"]:
            if o["op"] == "edit":
                el = rng.choice(["face", "face", "node"])
                f = "elev" if o["f"] == "elev" else {"face": "x", "node": "y"}[el]
                ops.append({"op": "elev" if f == "elev" else "add", "f": f, "r": o["r"], "over": o["over"], "pos": o["pos"] and f != "elev",
                            "fill": o["fill"], "v": o["v"]})
            else:
                ops.append({"op": o["op"]})
        out.append({"kind": "gen", "ops": ops, "seed": rng.randint(0, 10**6)})
    for _ in range(90 if tier == "quick" else 2000):
        ops = []
        for _ in range(rng.randint(3, 14)):
            k = rng.choices(["add", "elev", "refuse", "reset", "proc"], [6, 5, 2, 0.5, 1])[0]
            ops.append({"op": k, "f": rng.choice(sorted(FIELDS)), "r": rng.randint(1, 6), "over": rng.random() < 0.35, "pos": k == "add" and rng.random() < 0.2,
                        "fill": rng.choice([0, 0, 3]), "v": [rng.randint(-50, 50) for _ in range(5)]})
        out.append({"kind": "random", "ops": ops, "seed": rng.randint(0, 10**6)})
    rng.shuffle(out)
    return out


def setup(cm, scratch):
    return {"cm": cm, "scratch": scratch, "sims": {}}


def getsurf(ctx):
    if "s" not in ctx["sims"]:
        d = os.path.join(ctx["scratch"], "s")
        ctx["sims"]["s"] = ctx["cm"].Surface.maker("icosphere", gridlevel=3, simdir=d, reset=True, ask_overwrite=False, rng_seed=1)
    return ctx["sims"]["s"]


def tie_region(ctx, s):
    if "tie" not in ctx:
        q, ctx["tie"] = random.Random(5), None
        for _ in range(300):
            g = s.extract_region((q.uniform(-180, 180), q.uniform(-90, 90)), s.radius * q.uniform(0.02, 0.6), at_least_one_face=True)
            h = g.extract_subregion(g.region_radius * q.uniform(.2, .9))
            if h is not None and h.n_face == h.n_node:
                ctx["tie"] = h
                break
    return ctx["tie"]


def run(ctx, scn, ev):
    import vh
    r = random.Random(scn["seed"])
    s = getsurf(ctx)
    s.reset()
    R = s.radius
    lon, lat = r.uniform(-180, 180), r.uniform(-85, 85)
    rad = R * r.choice([0.25, 0.6, 1.0])
    regs = [s, s.extract_region((lon, lat), rad), s.extract_region((lon + r.choice([5, 20, 40]), lat * 0.8), rad * r.choice([0.5, 1.0])), None,
            s.extract_region((0, 0), R * 3.2), s.extract_region((lon, lat), 1.0, at_least_one_face=True)]
    regs[3] = regs[1].extract_subregion(rad * r.choice([0.3, 0.7, 1.5])) or regs[5]
    if r.random() < 0.35:
        regs[3] = tie_region(ctx, s) or regs[3]        # as many nodes as faces
    N = {"face": s.n_face, "node": s.n_node}

    def idx(g, el):
        if g is s:
            return np.arange(N[el])
        i = g.face_indices if el == "face" else g.node_indices
        return np.arange(N[el])[i]
    mem, atom, nat = {}, {}, {}
    for el in N:
        m = np.zeros((len(regs), N[el]), bool)
        for i, g in enumerate(regs):
            m[i, idx(g, el)] = True
        mem[el] = m
        _, a = np.unique(m.T, axis=0, return_inverse=True)
        atom[el], nat[el] = a, int(a.max()) + 1

    def el_of(arr):
        return "face" if arr.shape[0] == N["face"] else "node"

    def snap():
        return {n: np.array(s.uxds[n].data, dtype=float) for n in s.uxds.data_vars}
    before = [snap()]

    def uniform(a):
        return vh.iq(a[0]) if np.all(np.abs(a - a[0]) < 1e-7) else vh.NAN

    def views(now):
        for g in regs[1:] + [s._full()]:
            for n, a in now.items():
                w = np.asarray(getattr(g, n))
                e = a[idx(g, el_of(a))]
                u = np.asarray(g.uxds[n].data)
                if w.shape != e.shape or not np.array_equal(w, e) or not np.array_equal(u, e):
                    return False
        return all(np.array_equal(np.asarray(getattr(s, n)), a) for n, a in now.items())

    def emit(e):
        now = snap()
        fl = {}
        for n, a in now.items():
            el = el_of(a)
            b = before[0].get(n, np.full(a.shape, np.nan))
            at = atom[el]
            parts = [(a[at == k], b[at == k]) for k in range(nat[el])]
            fl[n] = {"el": el, "val": [uniform(x) for x, _ in parts],
                     "dlt": [uniform(x - y) if not np.isnan(y).any() else vh.NAN for x, y in parts],
                     "same": [bool(np.array_equal(x, y)) for x, y in parts]}
        ev.append({"may": [], "interp": False, "inrange": True, "edits": [], **e, "flds": fl, "views": bool(views(now))})
        before[0] = now

    def values(g, el, v, scalar):
        """per-atom values and the array of the region"""
        at = atom[el]
        if scalar:
            per = [v[0]] * nat[el]
        else:
            per = [v[k % len(v)] for k in range(nat[el])]
        return per, np.array(per, dtype=float)[at[idx(g, el)]]
    for op in scn["ops"]:
        k = op["op"]
        if k == "reset":
            s.reset()
            emit({"op": "reset", "r": 1})
            continue
        ri = op.get("r", 1)
        g = regs[ri - 1]
        nf, nn = len(idx(g, "face")), len(idx(g, "node"))
        if k == "add":
            f = op["f"]
            el = FIELDS[f]
            scalar = r.random() < 0.3 or (nf == nn and el == "node" and f not in s.uxds)
            per, arr = values(g, el, op["v"], scalar)
            data = float(per[0]) if scalar else r.choice([arr, arr.tolist(), arr.astype(np.float32), arr.astype(int)])
            kw = {"isfacedata": el == "face"} if scalar else {}
            g.add_data(name=f, data=data, overwrite=op["over"], positive_only=op["pos"], fill_value=float(op["fill"]), long_name="a field", units="m", **kw)
            emit({"op": "edit", "r": ri, "edits": [{"f": f, "el": el, "over": op["over"], "pos": op["pos"], "given": per, "fill": op["fill"]}]})
        elif k == "elev":
            form = r.choice(["scalar", "face", "node", "both", "size1"])
            if form == "node" and nf == nn:
                form = "face"
            if form == "both" and (nf + nn in (nf, nn)):
                continue
            ed, interp, inr = [], False, True
            base = {"over": op["over"], "pos": False, "fill": 0}
            if form in ("scalar", "size1"):
                v = float(op["v"][0])
                data = v if form == "scalar" else np.array([v])
                ed = [{"f": "face_elevation", "el": "face", "given": [op["v"][0]] * nat["face"], **base},
                      {"f": "node_elevation", "el": "node", "given": [op["v"][0]] * nat["node"], **base}]
            else:
                pf, af = values(g, "face", op["v"], False)
                pn, an = values(g, "node", op["v"][::-1], False)
                if form != "node":
                    ed.append({"f": "face_elevation", "el": "face", "given": pf, **base})
                if form != "face":
                    ed.append({"f": "node_elevation", "el": "node", "given": pn, **base})
                interp = form == "face"
                data = {"face": af, "node": an, "both": np.concatenate([af, an])}[form]
                if r.random() < 0.3:
                    data = data.tolist()
            g.update_elevation(data, overwrite=op["over"])
            if interp:
                fe, ne = np.asarray(s.face_elevation), np.asarray(s.node_elevation)
                c = np.asarray(s.node_face_connectivity)[idx(g, "node")]
                inside = np.zeros(N["face"] + 1, bool)
                inside[idx(g, "face")] = True
                ok = (c >= 0) & inside[np.where(c >= 0, c, -1)]
                lo = np.where(ok, fe[np.where(ok, c, 0)], np.inf).min(axis=1)
                hi = np.where(ok, fe[np.where(ok, c, 0)], -np.inf).max(axis=1)
                x = ne[idx(g, "node")]
                inr = bool(np.all((x >= lo - 1e-6) & (x <= hi + 1e-6)))
            emit({"op": "edit", "r": ri, "edits": ed, "interp": interp, "inrange": inr})
        elif k == "proc":
            what = r.choice(["diff", "noise", "interp", "collapse"])
            if what == "diff":
                g.apply_diffusion(r.choice([1e3, 0.0, 1e6]))
            elif what == "noise":
                g.apply_noise(model="turbulence", noise_width=R / 10, noise_height=5.0)
            elif what == "interp":
                g.interpolate_node_elevation_from_faces()
            else:
                g.slope_collapse(20.0)
            may = [n for n in ("ejecta_thickness",) if n in s.uxds]
            may = may + [n for n in ("face_elevation", "node_elevation") if n not in may]
            emit({"op": "edit", "r": ri, "may": may})
        elif k == "refuse":
            bad = {"long": np.zeros(nf + nn + 7), "three": np.zeros(max(nf, nn) + 3), "both": np.zeros(nf + nn), "str": "abc", "empty": np.zeros(0)}
            if "x" in s.uxds and nf != nn:
                bad["nodetoface"] = np.ones(nn)
            if "y" in s.uxds and nf != nn:
                bad["facetonode"] = np.ones(nf)
            bad["elong"] = np.zeros(nf + nn + 7)
            bad["eshort"] = np.zeros(max(nf, nn) + 1) if max(nf, nn) + 1 != nf + nn else np.zeros(nf + nn + 5)
            bad["eempty"] = np.zeros(0)
            w = r.choice(sorted(bad))
            try:
                if w[0] == "e" and w != "empty":
                    g.update_elevation(bad[w], overwrite=r.random() < 0.5)
                else:
                    g.add_data(name={"nodetoface": "x", "facetonode": "y"}.get(w, r.choice(["x", "z"])), data=bad[w], overwrite=r.random() < 0.5)
                refused = False
            except (ValueError, TypeError):
                refused = True
            emit({"op": "refuse", "what": w, "r": ri, "refused": refused})
    return {"nat": nat, "regs": [{el: sorted({int(a) + 1 for a in atom[el][mem[el][i]]}) for el in N} for i in range(len(regs))]}


def corrupt(t, rng):
    for e in t["ev"]:
        if e["op"] == "edit" and e["edits"]:
            f = e["flds"][e["edits"][0]["f"]]
            k = rng.randrange(len(f["val"]))
            f["val"][k] += 1
            f["same"][k] = False
            f["dlt"][k] += 1
            return t
    return None


def vacuity(traces):
    import vh
    n = {k: sum(e["op"] == k for t in traces for e in t["ev"]) for k in ("edit", "refuse", "reset")}
    if min(n.values()) < 20:
        raise vh.MachineryError(f"too few events: {n}")
    return str(n)


def matches(k, trace, step, clause):
    return False
