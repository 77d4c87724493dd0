"""C18: sampled populations, locations, velocities and angles respect their bounds and distributions."""
import os
import random

import numpy as np

import simrun
import vh

LEVEL = "model_checking"
MODELS = {"quick": [("Sampling", "Sampling_MC.cfg")], "thorough": [("Sampling", "Sampling_Deep.cfg")]}
GENERATORS = {"quick": [{"module": "GenSampling", "cfg": "GenSampling.cfg", "simulate": 260, "depth": 14}],
              "thorough": [{"module": "GenSampling", "cfg": "GenSampling.cfg", "simulate": 4000, "depth": 14}]}
TRACE = "TraceSampling"
ASSUMPTIONS = ["counts and means are compared with their expectation within 8 standard deviations",
               "bounds are met to 2e-12 of their value (the tabulated diameters are powers of ten of logarithms)"]


def scenarios(rng, tier, gen):
    out = [{"kind": "calls", "seed": rng.randint(0, 10**9), "ops": g["h"], "model": rng.choice(["Moon", "Mars", "Projectile", "powerlaw"])} for g in gen]
    for i in range(12 if tier == "quick" else 120):
        out.append({"kind": "populate", "seed": rng.randint(0, 10**9), "mesh": ["ico3", "arb", "hires"][i % 3],
                    "lims": "both" if i % 6 == 5 else rng.choice(["default", "small", "both"])})
    rng.shuffle(out)
    return out


def setup(cm, scratch):
    import cratermaker.utils.montecarlo_utils as mc
    from cratermaker.components.production import Production
    from cratermaker.components.projectile import Projectile
    return {"cm": cm, "scratch": scratch, "mc": mc, "Production": Production.maker, "Projectile": Projectile.maker, "surf": {}, "n": 0}


MESH = {"ico2": dict(surface="icosphere", gridlevel=2), "ico3": dict(surface="icosphere", gridlevel=3), "arb": dict(surface="arbitrary_resolution", pix=400e3),
        "hires": dict(surface="hireslocal", pix=60e3, local_location=(30.0, 40.0), local_radius=500e3, superdomain_scale_factor=8)}


def sim(ctx, mesh, seed):
    ctx["n"] += 1
    with vh.quiet():
        return simrun.make(ctx["cm"], os.path.join(ctx["scratch"], f"m{ctx['n']}"), production="powerlaw", rng_seed=seed, reset=True, **MESH[mesh])


def surface(ctx, mesh):
    if mesh not in ctx["surf"]:
        ctx["surf"][mesh] = sim(ctx, mesh, 5).surface
    return ctx["surf"][mesh]


def run(ctx, scn, ev):
    r = random.Random(scn["seed"])
    if scn["kind"] == "populate":
        populate(ctx, scn, r, ev)
        return {}
    p = ctx["Production"]("powerlaw", rng_seed=scn["seed"]) if scn["model"] == "powerlaw" else ctx["Production"]("neukum", version=scn["model"], rng_seed=scn["seed"])
    for o in scn["ops"]:
        e = {"under": -1, "over": -1, "z": [], "same": True, "n": 0, "want": 0}
        e.update(globals()["do_" + o["op"]](ctx, p, o, r))
        e["op"] = o["op"]
        ev.append(e)
    return {"model": scn["model"]}


def beyond(x, lo, hi):
    """how far the values leave [lo, hi], in 1e-12 of the bound"""
    x = np.asarray(x, dtype=float).ravel()
    if x.size == 0:
        return {"under": -1, "over": -1}
    if not np.all(np.isfinite(x)):
        return {"under": 10**9, "over": 10**9}

    def f(d, b):
        return -1 if d <= 0 else int(min(np.ceil(d / (abs(b) if b else 1.0) * 1e12), 10**9))
    return {"under": f(lo - x.min(), lo), "over": f(x.max() - hi, hi)}


def z(k, mean, sd):
    return int(np.clip((k - mean) / sd * 1000, -2e9, 2e9)) if sd > 0 else 0


def count_z(k, n, p):
    # the normal approximation is kept safe for rare events by a continuity allowance
    sd = np.sqrt(n * p * (1 - p))
    d = max(abs(k - n * p) - 3, 0.0)
    return z(d, 0, sd + 0.5)


def size_of(o, r):
    s = {"one": 1, "few": r.randint(2, 9), "many": r.randint(300, 2000), "matrix": (r.randint(2, 30), r.randint(2, 30)), "none": None}[o["shape"]]
    return s, int(np.prod(s)) if s is not None else 1


def shaped(x, s):
    return np.shape(x) == ((s,) if isinstance(s, int) else s)


def twice(o, fn, gen):
    """values, and whether the same seed gives them again"""
    if o["seeded"]:
        seed = gen.randint(0, 10**6)
        a, b = fn(rng_seed=seed), fn(rng_seed=seed)
    else:
        k = gen.randint(0, 10**6)
        a, b = fn(rng=np.random.default_rng(k)), fn(rng=np.random.default_rng(k))
    return a, bool(np.array_equal(a, b))


def N(p, d, a, b):
    return float(np.asarray(p.function(diameter=float(d), time_start=float(a), time_end=float(b))).item())


def do_sample(ctx, p, o, r):
    lim = getattr(p, "sfd_range", (10.0, 1e6))
    lo = 10 ** r.uniform(np.log10(lim[0]), np.log10(lim[1]) - 0.5)
    hi = {"narrow": lo * r.uniform(1.05, 1.5), "wide": lo * 100, "tiny": lo * (1 + 1e-4), "full": max(lim[1], lo * 2)}[o["range"]]
    a, b = {"all": (r.uniform(500, 4400), 0.0), "old": (4450.0, 4000.0), "young": (r.uniform(1, 100), 0.0), "short": (None, None)}[o["span"]]
    if a is None:
        b = r.uniform(10, 4300)
        a = b * (1 + 10 ** r.uniform(-4, -1))
        a = min(a, 4490.0)
    exp = {"one": 1.0, "few": 6.0, "many": 900.0, "matrix": 300.0, "none": 0.02}[o["shape"]]
    if getattr(p, "generator_type", "") == "projectile":  # integrates numerically for every diameter
        exp = min(exp, 60.0)
    area = exp / N(p, lo, a, b)
    kw = {"time_start": a, "time_end": b, "diameter_range": r.choice([tuple, list, np.array])((lo, hi)), "area": area}
    single = o["form"] == "single" and N(p, lo, a, b) < 900
    if single:  # per square metre
        del kw["area"]
        exp, area = N(p, lo, a, b), 1.0
    if o["form"] == "number":
        ref = lo * r.choice([1.0, 1.3])
        kw["diameter_number"] = (ref, N(p, ref, a, 0.0) * area)
        kw["diameter_number_end"] = (ref, N(p, ref, b, 0.0) * area)
        del kw["time_start"], kw["time_end"]
    timed = o["seeded"]
    kw["compute_time"] = timed
    d, t = p.sample(**kw)
    d, t = np.asarray(d), np.asarray(t)
    e = {"n": int(d.size), "want": int(d.size), "nt": int(t.size), "timed": bool(timed), **beyond(d, lo, hi), "desc": bool(np.all(np.diff(t) <= 0))}
    # a time given as a number comes back within the accuracy of that conversion
    slack = 1e-6 if o["form"] == "number" else 0.0
    x = beyond(t, b - slack, a + slack)
    e.update(tunder=x["under"], tover=x["over"])
    zs = [z(d.size, exp, np.sqrt(exp) + 1)]
    if d.size:
        mid = np.sqrt(lo * hi)
        top = N(p, hi, a, b)
        pr = (N(p, mid, a, b) - top) / (N(p, lo, a, b) - top)
        if o["range"] in ("narrow", "wide"):
            # between the 50 tabulated diameters the distribution is interpolated
            zs.append(count_z(int(np.sum(d > mid)), d.size, float(np.clip(pr, 1e-9, 1 - 1e-9))))
        if t.size:
            tm = (a + b) / 2
            pt = N(p, lo, a, tm) / N(p, lo, a, b)
            zs.append(count_z(int(np.sum(t > tm)), t.size, float(np.clip(pt, 1e-9, 1 - 1e-9))))
    e["z"] = zs
    return e


def do_size(ctx, p, o, r):
    k = r.randint(2, 30)
    lo = 10 ** r.uniform(-2, 5)
    hi = lo * {"narrow": 1.3, "wide": 100.0, "tiny": 1 + 1e-5, "full": 1e4}[o["range"]]
    d = np.logspace(np.log10(lo), np.log10(hi), k)
    cdf = d ** -r.uniform(0.5, 4) * 10 ** r.uniform(-9, 9)
    if o["par"] == "low":
        i = np.argsort([r.random() for _ in range(k)])
        d, cdf = d[i], cdf[i]
    elif o["par"] == "high":
        d, cdf = d[::-1].copy(), cdf[::-1].copy()
    s, n = size_of(o, r)
    keep = (d.copy(), cdf.copy())
    if o["form"] == "number":
        mu = {"one": 1.0, "few": 5.0, "many": 700.0, "matrix": 90.0, "none": 0.05}[o["shape"]]
        x, same = twice(o, lambda **g: ctx["mc"].get_random_size(d, cdf, mu=mu, **g), r)
        e = {"n": int(x.size), "want": int(x.size), "z": [z(x.size, mu, np.sqrt(mu) + 1)]}
    else:
        x, same = twice(o, lambda **g: ctx["mc"].get_random_size(d, cdf, size=s, **g), r)
        e = {"n": int(x.size), "want": n if s is None or shaped(x, s) else -1, "z": []}
    e["same"] = same and np.array_equal(keep[0], d) and np.array_equal(keep[1], cdf)
    e.update(beyond(x, d.min(), d.max()))
    # as many above a tabulated diameter as the table says
    if x.size and k > 2:
        i = np.argsort(d)
        ds, cs = d[i], cdf[i]
        j = r.randint(1, k - 2)
        pr = (cs[j] - cs[-1]) / (cs[0] - cs[-1])
        if (ds[j] / ds[j - 1] - 1) > 1e-6:
            e["z"].append(count_z(int(np.sum(x > ds[j])), x.size, float(np.clip(pr, 1e-9, 1 - 1e-9))))
    return e


def do_angle(ctx, p, o, r):
    s, n = size_of(o, r)
    s, n = (1, 1) if s is None else (s, n)
    x, same = twice(o, lambda **g: ctx["mc"].get_random_impact_angle(size=s, **g), r)
    v = np.sin(np.radians(x)).ravel() ** 2
    return {"n": int(x.size), "want": n if shaped(x, s) else -1, "same": same, **beyond(x, 0.0, 90.0), "z": [z(v.mean(), 0.5, np.sqrt(1 / 12 / n))]}


def do_direction(ctx, p, o, r):
    s, n = size_of(o, r)
    s, n = (1, 1) if s is None else (s, n)
    x, same = twice(o, lambda **g: ctx["mc"].get_random_impact_direction(size=s, **g), r)
    q = np.radians(x).ravel()
    return {"n": int(x.size), "want": n if shaped(x, s) else -1, "same": same, **beyond(x, 0.0, 360.0),
            "z": [z(np.mean(f(q)), 0, np.sqrt(0.5 / n)) for f in (np.sin, np.cos)]}


def do_velocity(ctx, p, o, r):
    s, n = size_of(o, r)
    s, n = (1, 1) if s is None else (s, n)
    vesc = r.uniform(500.0, 12000.0)
    vm = {"low": vesc * r.uniform(0.3, 0.95), "mid": vesc * r.uniform(1.05, 3), "high": vesc * r.uniform(3, 10), "equal": vesc}[o["par"]]
    if o["form"] == "single":
        x, same = twice(o, lambda **g: ctx["mc"].get_random_velocity(vm, size=s, **g), r)
        e = beyond(x, 0.0, 20 * vm)
        e["z"] = [z(np.mean(x), vm, vm * np.sqrt((3 * np.pi / 8 - 1) / n))]
    else:
        x, same = twice(o, lambda **g: ctx["mc"].get_random_velocity(vm, vescape=vesc, size=s, **g), r)
        if vm > vesc:
            e = beyond(x, vesc, 30 * vm)
            enc = np.sqrt(vm**2 - vesc**2)
            e["z"] = [z(np.mean(np.sqrt(np.maximum(x**2 - vesc**2, 0))), enc, enc * np.sqrt((3 * np.pi / 8 - 1) / n))]
        else:
            e = beyond(x, 0.0, vesc)
            e["z"] = []
    return {**e, "n": int(x.size), "want": n if shaped(x, s) else -1, "same": same}


def do_location(ctx, p, o, r):
    s, n = size_of(o, r)
    s, n = (1, 1) if s is None else (s, n)
    x, same = twice(o, lambda **g: ctx["mc"].get_random_location(size=s, **g), r)
    lon, lat = x["lon"].ravel(), np.radians(x["lat"].ravel())
    e1, e2 = beyond(lon, -180.0, 180.0), beyond(x["lat"], -90.0, 90.0)
    zs = [z(np.mean(np.sin(lat)), 0, np.sqrt(1 / 3 / n))] + [z(np.mean(f(np.radians(lon))), 0, np.sqrt(0.5 / n)) for f in (np.sin, np.cos)]
    zs.append(z(np.mean(np.sin(lat) ** 2), 1 / 3, np.sqrt(4 / 45 / n)))
    return {"n": int(lon.size), "want": n if shaped(x, s) else -1, "same": same, "under": max(e1["under"], e2["under"]), "over": max(e1["over"], e2["over"]), "z": zs}


def off_face(g, faces, lon, lat):
    """how many locations are not within their face"""
    p = np.array([np.cos(np.radians(lat)) * np.cos(np.radians(lon)), np.cos(np.radians(lat)) * np.sin(np.radians(lon)), np.sin(np.radians(lat))]).T
    xyz = np.array([g.node_x.values, g.node_y.values, g.node_z.values]).T
    conn = g.face_node_connectivity.values
    off = 0
    for f, q in zip(faces, p, strict=True):
        v = xyz[conn[f][conn[f] >= 0]]
        c = v.mean(axis=0)
        nrm = np.cross(v, np.roll(v, -1, axis=0))
        s = np.sign(nrm @ c)
        off += bool(np.any(s * (nrm @ q) < -1e-9))
    return int(off)


def do_onface(ctx, p, o, r):
    s = surface(ctx, r.choice(["ico2", "arb", "hires"]))
    nf = s.n_face
    k = {"one": 1, "few": 5, "many": 200, "matrix": 60, "none": 1}[o["shape"]]
    idx = {"low": [r.randrange(nf)] * k, "mid": [r.randrange(nf) for _ in range(k)], "high": list(range(min(nf, k))), "equal": [nf - 1] * k}[o["par"]]
    arg = idx[0] if o["shape"] == "none" else np.array(idx)
    fn = lambda **g: ctx["mc"].get_random_location_on_face(s.uxgrid, arg, **g)
    same = True
    if o["seeded"]:
        x, same = twice(o, fn, r)
    else:
        x = s.get_random_location_on_face(arg)
    idx = idx[:1] if o["shape"] == "none" else idx
    lon, lat = np.atleast_1d(x["lon"]), np.atleast_1d(x["lat"])
    e1, e2 = beyond(lon, -180.0, 360.0), beyond(lat, -90.0, 90.0)
    n = len(lon)
    distinct = len({(float(a), float(b)) for a, b in zip(lon, lat, strict=True)})
    return {"n": distinct, "want": len(idx), "same": same, "off": off_face(s.uxgrid, idx, lon, lat) if n == len(idx) else n,
            "under": max(e1["under"], e2["under"]), "over": max(e1["over"], e2["over"])}


def do_norm(ctx, p, o, r):
    s, n = size_of(o, r)
    s, n = (1, 1) if s is None else (s, n)
    loc, scale = r.uniform(-100, 4000), 10 ** r.uniform(-3, 3)
    lo, hi = {"low": (None, None), "mid": (loc - 2 * scale, loc + 0.5 * scale), "high": (loc + scale, loc + 3 * scale), "equal": (None, loc + 2 * scale)}[o["par"]]
    kw = {k: v for k, v in (("lower_bound", lo), ("upper_bound", hi)) if v is not None or o["form"] == "time"}
    x, same = twice(o, lambda **g: ctx["mc"].bounded_norm(loc=loc, scale=scale, size=s, **kw, **g), r)
    lo, hi = loc - scale if lo is None else lo, loc + scale if hi is None else hi
    e = beyond(np.asarray(x) - loc + 10 * scale, lo - loc + (10 - 1e-11) * scale - abs(loc) * 1e-15, hi - loc + (10 + 1e-11) * scale + abs(loc) * 1e-15)
    from scipy.stats import truncnorm
    m = truncnorm((lo - loc) / scale, (hi - loc) / scale, loc=loc, scale=scale)
    return {**e, "n": int(np.size(x)), "want": n if shaped(x, s) else -1, "same": same, "z": [z(np.mean(x), m.mean(), m.std() / np.sqrt(n))]}


def do_projectile(ctx, p, o, r):
    """the velocities, angles, directions and places of projectiles that are not told them"""
    kind = r.choice(["asteroids", "comets", "generic"])
    target = r.choice(["Moon", "Mars", "Mercury"])
    k = 30
    kw = {} if kind != "generic" else {"mean_velocity": r.uniform(3e3, 40e3)}
    pr = ctx["Projectile"](kind, target=target, rng_seed=r.randint(0, 10**6), sample=True, **kw)
    xs = [pr.new_projectile() for _ in range(k)]
    ve = float(pr.target.escape_velocity)
    vm = float(pr.mean_velocity)
    b = [beyond([x.velocity for x in xs], *((ve, 30 * vm) if vm > ve else (0.0, ve))), beyond([x.angle for x in xs], 0.0, 90.0), beyond([x.direction for x in xs], 0.0, 360.0),
         beyond([x.location[0] for x in xs], -180.0, 180.0), beyond([x.location[1] for x in xs], -90.0, 90.0)]
    n = min(len({float(getattr(x, a)) for x in xs}) for a in ("velocity", "angle", "direction"))
    q = np.radians([x.direction for x in xs])
    zs = [z(np.mean(np.sin(np.radians([x.angle for x in xs])) ** 2), 0.5, np.sqrt(1 / 12 / k)), z(np.mean(np.sin(q)), 0, np.sqrt(0.5 / k)), z(np.mean(np.cos(q)), 0, np.sqrt(0.5 / k)),
          z(np.mean(np.sin(np.radians([x.location[1] for x in xs]))), 0, np.sqrt(1 / 3 / k))]
    return {"n": n, "want": k, "under": max(x["under"] for x in b), "over": max(x["over"] for x in b), "z": zs}


def bins(v):
    """the bins of faces by area of a surface or region"""
    a = np.asarray(v.face_area)
    idx = [np.asarray(i) for i in v.face_bin_indices]
    allf = np.concatenate(idx) if idx else np.empty(0, int)
    once = sorted(allf.tolist()) == list(range(len(a)))
    ratio = max((float(a[i].max() / a[i].min()) for i in idx), default=1.0)
    told = all(np.isclose(v.face_bin_area[j], a[i].sum(), rtol=1e-12) and np.isclose(v.face_bin_min_areas[j], a[i].min()) and np.isclose(v.face_bin_max_areas[j], a[i].max())
               and np.isclose(v.face_bin_min_sizes[j], np.asarray(v.face_size)[i].min()) and np.isclose(v.face_bin_max_sizes[j], np.asarray(v.face_size)[i].max())
               for j, i in enumerate(idx))
    return {"once": bool(once), "ratio": int(min(ratio * 1e6, 2e9)), "told": bool(told)}


def do_bins(ctx, p, o, r):
    s = surface(ctx, r.choice(["ico2", "arb", "hires"]))
    return {**bins(s), "n": 0, "want": 0}


def populate(ctx, scn, r, ev):
    s = sim(ctx, scn["mesh"], scn["seed"])
    sizes = s.surface.face_bin_min_sizes
    if scn["lims"] != "default":
        s.smallest_crater = min(sizes) * r.uniform(0.5, 2.5)
    if scn["lims"] == "both":
        s.largest_crater = max(s.smallest_crater * 1.3, r.choice([max(sizes) * r.uniform(1.5, 6), min(sizes) * r.uniform(2.6, 8)]))
    lo, hi = s.smallest_crater, s.largest_crater
    a = r.choice([1500.0, 3000.0])
    exp = 500.0
    s.production.N1_coef = s.production.N1_coef * exp / sum(N(s.production, max(m, lo), a, 0) * A for m, A in zip(sizes, s.surface.face_bin_area, strict=True))
    with vh.quiet():
        cs = s.populate(time_start=a, time_end=a * 0.25)
    d, t = np.array([c.diameter for c in cs]), np.array([c.time for c in cs])
    if np.isinf(hi):
        hi = float(d.max()) if d.size else 1.0
    face = [int(np.atleast_1d(s.surface.find_nearest_face(c.location))[0]) for c in cs]
    whichbin = np.empty(s.surface.n_face, int)
    for j, i in enumerate(s.surface.face_bin_indices):
        whichbin[i] = j
    bad, zs = 0, []
    conn = s.surface.uxgrid.face_node_connectivity.values
    fe = s.surface.face_face_connectivity if hasattr(s.surface, "face_face_connectivity") else None
    where = []
    for c, f in zip(cs, face, strict=True):
        # the nearest face centre may belong to a neighbour of the face the crater lies on
        cand = [f] + ([int(x) for x in np.asarray(fe[f]) if x >= 0] if fe is not None else [])
        on = [g for g in cand if off_face(s.surface.uxgrid, [g], [c.location[0]], [c.location[1]]) == 0]
        bad += not on
        where.append(on[0] if on else f)
    del conn
    b = whichbin[where] if len(where) else np.empty(0, int)
    under = -1
    for j, m in enumerate(sizes):
        k = int(np.sum(b == j))
        low = max(m, lo)
        if low < hi:
            n = N(s.production, low, a, a * 0.25) * s.surface.face_bin_area[j]
            zs.append(z(max(abs(k - n) - 3, 0), 0, np.sqrt(n) + 0.5))
        if k:
            under = max(under, beyond(d[b == j], low, hi)["under"])
    x, y = beyond(t, a * 0.25, a), beyond(d, lo, hi)
    ev.append({"op": "populate", "n": len(cs), "want": len(cs), "nt": len(cs), "timed": True, "under": max(under, y["under"]), "over": y["over"], "z": zs, "same": True,
               "tunder": x["under"], "tover": x["over"], "desc": bool(np.all(np.diff(t) <= 0)), "off": bad, "bins": len(sizes)})
    ev.append({"op": "bins", "n": 0, "want": 0, "under": -1, "over": -1, "z": [], "same": True, **bins(s.surface)})


def corrupt(t, rng):
    e = rng.choice(t["ev"])
    c = rng.choice(["under", "n", "z"])
    if c == "z":
        e["z"] = e["z"] + [9000]
    elif c == "n":
        e["n"] += 1
    else:
        e["under"] = 5
    return t


def vacuity(traces):
    ops, vals, bn = {}, 0, 0
    for t in traces:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
            vals += e["n"]
            bn = max(bn, e.get("bins", 0))
    need = {"sample": 30, "size": 30, "angle": 15, "direction": 15, "velocity": 30, "location": 15, "onface": 30, "norm": 15, "projectile": 15, "bins": 15, "populate": 6}
    if any(ops.get(k, 0) < v for k, v in need.items()) or bn < 2:
        raise vh.MachineryError(f"too little sampled: {ops}, {bn} bins")
    return f"{ops}, {vals} values, populations over up to {bn} face bins"


def matches(k, trace, step, clause):
    return False
