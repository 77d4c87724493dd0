"""C24: crater formation conserves mass and stays in its footprint."""
import os
import random

import numpy as np
import simrun
import vh

LEVEL = "model_checking"
MODELS = {"quick": [("Form", "Form_MC.cfg")], "thorough": [("Form", "Form_Deep.cfg")]}
GENERATORS = {"quick": [{"module": "GenForm", "cfg": "GenForm.cfg", "simulate": 110, "depth": 10, "limit": 110}],
              "thorough": [{"module": "GenForm", "cfg": "GenForm.cfg", "simulate": 1200, "depth": 10, "limit": 1200}]}
TRACE = "TraceForm"
SCENARIO_TIMEOUT = 240
ASSUMPTIONS = ["crater and ejecta profiles, ray pattern, slope collapse and diffusion steps come from the stand-ins for the compiled library", "volumes are compared to 2e-5 of the material moved",
               "a face belongs to a region by its centre"]
HI = dict(surface="hireslocal", pix=6e4, local_radius=3.5e5, local_location=(40.0, -15.0), superdomain_scale_factor=6)


def scenarios(rng, tier, gen):
    out = [{"kind": "history", "ops": g["h"], "seed": rng.randint(0, 10**9), "mesh": rng.choice(["ico3", "ico3", "hires", "hires", "arb"]), "prod": rng.choice(["powerlaw", "neukum"]),
            "counting": rng.random() < 0.3, "collapse": rng.random() < 0.6, "trunc": rng.choice([None, None, 3.0, 8.0])} for g in gen]
    for i, s in enumerate(out):
        s["run"] = i % 8 == 0
    return out


def setup(cm, scratch):
    return {"cm": cm, "scratch": scratch, "n": 0}


def simulation(ctx, scn):
    ctx["n"] += 1
    d = os.path.join(ctx["scratch"], f"s{os.getpid()}_{ctx['n']}")
    if scn["run"]:
        scn = dict(scn, prod="powerlaw")
    kw = {"ejecta_truncation": scn["trunc"]} if scn["trunc"] else {}
    if scn["mesh"] == "ico3":
        c = simrun.config(scn["seed"] % 1000, mesh="ico3", prod=scn["prod"], counting=scn["counting"])
    else:
        c = dict(HI if scn["mesh"] == "hires" else dict(surface="arbitrary_resolution", pix=2.2e5), rng_seed=scn["seed"] % 1000, reset=True, do_counting=scn["counting"], production=scn["prod"])
        if scn["prod"] == "powerlaw":
            c["N1_coef"] = 0.05
    if scn["run"]:
        c["N1_coef"] = 20.0
    return simrun.make(ctx["cm"], d, do_slope_collapse=scn["collapse"], **c, **kw)


def gc(lon0, lat0, lon, lat, radius):
    lon0, lat0, lon, lat = (np.radians(np.asarray(x, float)) for x in (lon0, lat0, lon, lat))
    a = np.sin((lat - lat0) / 2) ** 2 + np.cos(lat0) * np.cos(lat) * np.sin((lon - lon0) / 2) ** 2
    return 2 * radius * np.arcsin(np.sqrt(np.clip(a, 0, 1)))


def idx(x, n):
    m = np.zeros(n, bool)
    m[x] = True
    return m


class View:
    """the surface before and after"""

    local = True

    def __init__(self, s):
        self.s = s
        self.f, self.n = np.array(s.face_elevation, float), np.array(s.node_elevation, float)
        self.o = {k: np.array(s.uxds[k].values) for k in ("ejecta_thickness", "ray_intensity") if k in s.uxds}

    def compare(self, e, faces=None, nodes=None, conserve=True):
        s = self.s
        f, n = np.asarray(s.face_elevation, float), np.asarray(s.node_elevation, float)
        df, dn = f - self.f, n - self.n
        a = np.asarray(s.face_area, float)
        gross = float(np.sum(np.abs(df) * a))
        e["finite"] = bool(np.isfinite(f).all() and np.isfinite(n).all())
        e["changed"] = bool(df.any())
        e["vol"] = int(min(1e9, abs(np.sum(df * a)) / gross * 1e9)) if conserve and gross > 0 and e["finite"] else 0
        faces = np.ones(s.n_face, bool) if faces is None else faces
        nodes = np.ones(s.n_node, bool) if nodes is None else nodes
        e["outside"] = int(np.sum((df != 0) & ~faces))
        e["nodesoutside"] = int(np.sum((dn != 0) & ~nodes))
        bad = 0
        for k, v in self.o.items():
            w = np.asarray(s.uxds[k].values)
            if w.shape == v.shape and w.shape[0] == s.n_face:
                ch = w != v
                bad += int(np.sum((ch if ch.ndim == 1 else ch.any(axis=1)) & ~faces))
        e["dataoutside"] = bad
        lo = getattr(s, "local", None) if self.local else None
        e["nonlocal"] = int(np.sum((df != 0) & ~idx(lo.face_indices, s.n_face))) if lo is not None else 0
        return df


def base(op):
    return {"op": op, "finite": True, "changed": False, "vol": 0, "outside": 0, "nodesoutside": 0, "dataoutside": 0, "nonlocal": 0, "far": 0, "formed": False, "dug": True, "large": False,
            "extremes": True, "refused": False, "bad": False, "zero": False, "strong": False, "kmin": 0, "kmax": 0, "kgrew": True, "kadds": True, "kept": False}


def place(sim, at, last, r):
    s = sim.surface
    lo = getattr(s, "local_location", None) or (40.0, -15.0)
    if at == "same" and last:
        return last
    if at == "near" and last:
        return (last[0] + r.uniform(-5, 5), max(-89.0, min(89.0, last[1] + r.uniform(-5, 5))))
    if at == "pole":
        return (r.uniform(-180, 180), r.choice([90.0, -90.0, 89.5, -88.0]))
    if at == "dateline":
        return (r.choice([180.0, -179.9, 179.5]), r.uniform(-60, 60))
    if at in ("local", "edge"):
        return (lo[0] + r.uniform(-6, 6) + (11 if at == "edge" else 0), lo[1] + r.uniform(-6, 6))
    if at == "antipode":
        return (lo[0] - 180 + r.uniform(-3, 3), -lo[1] + r.uniform(-3, 3))
    return (r.uniform(-180, 180), float(np.degrees(np.arcsin(r.uniform(-1, 1)))))


def form(sim, op, st, r):
    s, m, e = sim.surface, sim.morphology, base("form")
    craters, sizes = [], []
    for _ in range({"direct": 1, "emplace": 1, "list": r.randint(2, 4)}[op["via"]]):
        loc = place(sim, op["at"], st.get("last"), r)
        st["last"] = loc
        face = int(np.argmin(gc(loc[0], loc[1], s.face_lon, s.face_lat, s.radius)))
        size = float(np.sqrt(s.face_area[face]))
        rad = min({"below": r.uniform(0.05, 0.3), "face": r.uniform(0.4, 1.0), "small": r.uniform(1, 2), "medium": r.uniform(2.2, 4), "large": r.uniform(4, 8)}[op["size"]] * size, 0.5 * s.radius)
        craters.append(m.Crater.maker(diameter=2 * rad, location=loc, morphology=m, **vars(sim.common_args)))
        sizes.append((rad, size, face, loc))
    faces, nodes, reach = np.zeros(s.n_face, bool), np.zeros(s.n_node, bool), np.full(s.n_face, np.inf)
    for c, (rad, size, _, loc) in zip(craters, sizes, strict=True):
        rmax = c.ejecta_rmax
        reg = s.extract_region(location=loc, region_radius=rmax) if rmax is not None else None
        if reg is not None:
            faces |= idx(reg.face_indices, s.n_face)
            nodes |= idx(reg.node_indices, s.n_node)
            reach = np.minimum(reach, (gc(loc[0], loc[1], s.face_lon, s.face_lat, s.radius) - 2 * s.face_size) / max(rmax, 1.0))
    v = View(s)
    old = m.do_subpixel_degradation
    m.do_subpixel_degradation = False
    try:
        if op["via"] == "direct":
            m.form_crater(craters[0])
        else:
            sim.emplace(craters if op["via"] == "list" else craters[0])
    finally:
        m.do_subpixel_degradation = old
    df = v.compare(e, faces, nodes)
    ch = df != 0
    e["far"] = int(max(0, min(1000, 100 * reach[ch].max()))) if ch.any() else 0
    e["formed"] = bool(ch.any())
    e["large"] = bool(any(rad >= 2 * size for rad, size, _, _ in sizes))
    if len(craters) == 1 and faces.any() and np.ptp(v.f[faces]) < 1.0 and sizes[0][0] >= 3 * sizes[0][1]:
        e["dug"] = bool(df[sizes[0][2]] < 0)
    return e


def region(sim, op, st, r):
    s = sim.surface
    if op["where"] == "surface":
        return s, np.ones(s.n_face, bool), np.ones(s.n_node, bool)
    if op["where"] == "local" and getattr(s, "local", None) is not None:
        reg = s.local
    else:
        reg = s.extract_region(location=place(sim, op["at"], st.get("last"), r), region_radius=r.uniform(3, 8) * float(np.median(s.face_size)))
        if reg is not None and op["where"] == "subregion":
            reg = reg.extract_subregion(r.uniform(0.5, 0.9) * reg.region_radius) or reg
    if reg is None:
        return None, None, None
    return reg, idx(reg.face_indices, s.n_face), idx(reg.node_indices, s.n_node)


def diffuse(sim, op, st, r):
    s, e = sim.surface, base(op["op"])
    reg, faces, nodes = region(sim, op, st, r)
    if reg is None:
        return None
    lo = getattr(s, "local", None)
    whole = op["where"] == "surface"       # the whole surface was asked for
    act = faces & (idx(lo.face_indices, s.n_face) if lo is not None and not whole else True)     # where something may happen
    v = View(s)
    if whole:
        v.local = False
    if op["op"] == "collapse":
        reg.slope_collapse(critical_slope_angle=r.choice([35.0, 5.0, 1.0, 0.3, 0.1]))
        v.compare(e, faces, nodes)
        return e
    if op["op"] == "noise":
        reg.apply_noise(noise_height=r.uniform(1, 500), noise_width=r.uniform(1e5, 1e6))
        v.compare(e, faces, nodes, conserve=False)
        return e
    if 0 < act.sum() < 20 and act.sum() < faces.sum() and op["kd"] in ("negative", "negspot", "size"):
        return None           # the overlap with the local area may be too thin to act on
    n = int(faces.sum())
    amin = float(np.min(s.face_area[faces & act])) if act.any() else float(np.min(s.face_area))
    k = r.uniform(0.01, 1.0) * amin
    g = np.random.default_rng(r.randint(0, 10**6))
    where = np.flatnonzero(act[faces]) if op["where"] != "surface" else np.flatnonzero(act)
    kind = op["kd"]
    if kind in ("scalar", "huge"):
        kd = k * (3 if kind == "huge" else 1)
    elif kind == "array":
        kd = g.uniform(0, k, n)
    elif kind == "spot":
        kd = np.zeros(n)
        if where.size:
            kd[g.choice(where)] = k
    elif kind == "zero":
        kd = r.choice([0.0, np.zeros(n)])
        e["zero"] = True
    elif kind == "negative":
        kd = -k
        e["bad"] = bool(act.any())
        e["zero"] = not e["bad"]
    elif kind == "negspot":
        kd = g.uniform(0, k, n)
        if where.size:
            kd[g.choice(where)] = -k * 1e-3
        e["bad"] = bool(where.size)
        e["zero"] = not e["bad"]
    else:
        kd = g.uniform(0, k, n + r.choice([-1, 1, 7]))
        e["bad"] = bool(act.any())
        e["zero"] = not e["bad"]
    lo_, hi_ = (float(v.f[act].min()), float(v.f[act].max())) if act.any() else (0.0, 0.0)
    try:
        reg.apply_diffusion(kd)
    except (ValueError, IndexError):
        e["refused"] = True
        if not act.any():
            e["bad"] = True
    df = v.compare(e, faces, nodes)
    if act.any():
        f = np.asarray(s.face_elevation, float)[act]
        slack = 1e-6 * (hi_ - lo_) + 1e-9
        e["extremes"] = bool(f.min() >= lo_ - slack and f.max() <= hi_ + slack)
        e["strong"] = bool(kind in ("scalar", "huge") and hi_ - lo_ > 100 and act.sum() >= 20)
    del df
    return e


def kdiff(m):
    k = getattr(m, "_Kdiff", None)
    return None if k is None else np.array(k, float)


def collect(sim, op, st, r):
    m, s, e = sim.morphology, sim.surface, base("collect")
    a = r.uniform(100, 3000)
    b, c = a * r.uniform(0.3, 0.9), a * r.uniform(0.0, 0.25)
    v, k0 = View(s), kdiff(m)
    if op["kd"] in ("negative", "negspot"):
        e["bad"] = True
        try:
            m.compute_subpixel_degradation(time_start=c, time_end=r.choice([a, c]))
        except ValueError:
            e["refused"] = True
    else:
        old = m.apply_subpixel_degradation
        try:
            m.apply_subpixel_degradation = lambda *_, **__: None
            parts = []
            for x, y in ((a, c), (a, b), (b, c)):
                if kdiff(m) is not None:
                    m._Kdiff = np.zeros(s.n_face)
                m.compute_subpixel_degradation(time_start=x, time_end=y)
                parts.append(kdiff(m))
        finally:
            m.__dict__.pop("apply_subpixel_degradation", None)
            if "apply_subpixel_degradation" in vars(m) or m.apply_subpixel_degradation.__name__ == "<lambda>":
                m.apply_subpixel_degradation = old
        if parts[0] is not None:
            t, p, q = parts
            e["kmin"] = -1 if min(t.min(), p.min(), q.min()) < 0 else 0
            e["kgrew"] = bool((t >= p * (1 - 1e-6)).all() and t.max() > 0)
            e["kadds"] = bool(np.allclose(t, p + q, rtol=1e-3))
            m._Kdiff = (np.zeros(s.n_face) if k0 is None else k0)
            f = r.uniform(0.1, 0.5) * s.face_area.min() / max(t.max(), 1e-300)
            m._Kdiff += np.minimum(t * min(1.0, f), 0.5 * s.face_area.min())      # what is applied later stays within the accuracy of the diffusion step
            m._Kdiff = np.minimum(m._Kdiff, 0.9 * s.face_area.min())
    v.compare(e)
    e["kept"] = True
    return e


def degrade(sim, st, r):
    m, s, e = sim.morphology, sim.surface, base("degrade")
    v, act = View(s), np.ones(s.n_face, bool)
    v.local = False
    m.apply_subpixel_degradation()
    v.compare(e)
    k = kdiff(m)
    e["kmax"] = int(np.sum(k != 0)) if k is not None else 0
    f, g = v.f[act], np.asarray(s.face_elevation, float)[act]
    slack = 1e-6 * (f.max() - f.min()) + 1e-9
    e["extremes"] = bool(g.min() >= f.min() - slack and g.max() <= f.max() + slack)
    return e


def run(ctx, scn, ev):
    r = random.Random(scn["seed"])
    st = {}
    with vh.quiet(), np.errstate(all="ignore"):
        sim = simulation(ctx, scn)
        for op in [{"op": "form", "size": "medium", "at": r.choice(["random", "local", "edge"]), "via": "direct"}, *scn["ops"]]:
            if op["op"] in ("diffuse", "collapse") and r.random() < 0.6:
                op = dict(op, at="near")
            e = form(sim, op, st, r) if op["op"] == "form" else collect(sim, op, st, r) if op["op"] == "collect" else degrade(sim, st, r) if op["op"] == "degrade" else diffuse(sim, op, st, r)
            if e is not None:
                ev.append(e)
        if scn["run"]:
            e, v = base("run"), View(sim.surface)
            a = r.uniform(300, 2500)
            sim.run(time_start=a, time_interval=a / 2)
            v.compare(e)
            ev.append(e)
    return {}


def corrupt(t, rng):
    e = rng.choice(t["ev"])
    k = rng.choice(["vol", "outside", "nodesoutside", "finite", "kmin"])
    e[k] = {"vol": 10**6, "outside": 1, "nodesoutside": 2, "finite": False, "kmin": -1}[k]
    return t


def vacuity(traces):
    c = {}
    for t in traces:
        for e in t["ev"]:
            k = e["op"] + ("+" if e["changed"] else "-")
            c[k] = c.get(k, 0) + 1
            for f in ("large", "bad", "strong"):
                c[f] = c.get(f, 0) + bool(e[f])
    need = {"form+": 100, "form-": 15, "diffuse+": 30, "diffuse-": 15, "collect-": 50, "degrade+": 8, "run+": 5, "large": 60, "bad": 20, "strong": 5, "noise+": 10}
    if any(c.get(k, 0) < v for k, v in need.items()):
        raise vh.MachineryError(f"too little covered: {c}")
    return f"{c}"


def matches(k, trace, step, clause):
    return False
