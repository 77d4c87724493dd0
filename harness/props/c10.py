"""C10: crater lists survive every table format."""
import bisect
import csv
import os
import random
import shutil

import numpy as np
import simrun
import vh

LEVEL = "model_checking"
MODELS = {"quick": [("CraterTables", "CraterTables_MC.cfg")], "thorough": [("CraterTables", "CraterTables_Deep.cfg")]}
GENERATORS = {"quick": [{"module": "GenTables", "cfg": "GenTables.cfg", "simulate": 120, "depth": 18, "limit": 120}],
              "thorough": [{"module": "GenTables", "cfg": "GenTables.cfg", "simulate": 2500, "depth": 18, "limit": 2500}]}
TRACE = "TraceTables"
ASSUMPTIONS = ["numbers that agree to 1e-12 are the same number (lengths are stored in km in crater-count files)",
               "the order of the craters in a list is not part of the list, except in tables written by hand"]
SCENARIO_TIMEOUT = 240


def scenarios(rng, tier, gen):
    hs = [g["h"] for g in gen]

    def score(h):
        ops = [o["op"] for o in h]
        return len(set(ops)) + min(3, ops.count("save")) + 2 * rng.random()
    rng.shuffle(hs)
    hs.sort(key=lambda h: -score(h))
    n = 60 if tier == "quick" else 1500
    return [{"kind": "hist", "h": h, "seed": rng.randint(0, 10**6), "morph": i % 3 != 2} for i, h in enumerate(hs[:n])]


def setup(cm, scratch):
    d = os.path.join(scratch, "base")
    sim = simrun.make(cm, d, reset=True, rng_seed=3, surface="icosphere", gridlevel=2)
    return {"cm": cm, "scratch": scratch, "n": 0, "sim": sim}


class Ids:
    def __init__(self):
        self.nums, self.ids, self.s, self.n = [], [], {}, 0

    def __call__(self, v):
        if isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, bool):
            v = float(v)
            if not np.isfinite(v):
                return self(repr(v))
            i = bisect.bisect_left(self.nums, v)
            for j in (i - 1, i):
                if 0 <= j < len(self.nums) and abs(self.nums[j] - v) <= 1e-12 * max(abs(v), 1e-30):
                    return self.ids[j]
            self.n += 1
            self.nums.insert(i, v)
            self.ids.insert(i, self.n)
            return self.n
        k = type(v).__name__ + ":" + str(v)
        if k not in self.s:
            self.n += 1
            self.s[k] = self.n
        return self.s[k]


COMPLEX = {"affected_face_indices", "affected_node_indices", "morphology", "crater_region", "ejecta_region"}


def crater(ids, c):
    out = {}
    for k, v in c.as_dict(skip_complex_data=True).items():
        if v is None or k in COMPLEX or (isinstance(v, str) and v == ""):
            continue
        out[k] = [ids(x) for x in v] if isinstance(v, (tuple, list)) else [ids(v)]
    out["id"] = [ids(int(c.id))]
    if c.measured_diameter is not None:
        out["measured_diameter"] = [ids(c.measured_diameter)]   # that of a circle of the same area
    return out


def lst(ids, cs):
    return [crater(ids, c) for c in cs]


LOCS = {"pole": [(0.0, 90.0), (13.0, -90.0)], "seam": [(180.0, 4.0), (-180.0, 12.5), (359.5, 1.0)], "zero": [(0.0, 0.0), (0.0, -3.5)]}
NAMES = {"text": ["Tycho", "Copernicus B"], "number": ["12", "1.50", "1e3"], "quote": ['A, "b"', "x;y"], "nan": ["nan", "None", "inf"]}


def make(C, r, o):
    kw = {}
    kw["location"] = r.choice(LOCS[o["loc"]]) if o["loc"] in LOCS else (r.uniform(-180, 180), r.uniform(-89, 89))
    s = o["shape"]
    if s == "circ":
        kw["diameter"] = r.choice([r.uniform(1e3, 1e5), 1000.0, 25000])
    elif s == "rad":
        kw["radius"] = r.uniform(1e3, 1e5)
    elif s == "proj":
        kw.update(projectile_diameter=r.uniform(100, 3000))
    elif s == "trans":
        kw.update(transient_diameter=r.uniform(1e3, 3e4))
    else:
        kw.update(semimajor_axis=r.uniform(5e4, 1e5), semiminor_axis=r.uniform(1e4, 5e4), orientation=r.uniform(0, 180))
    if o["time"]:
        kw["time"] = r.choice([r.uniform(0, 4000), 100, 0.0])
    if o["name"] in NAMES:
        kw["name"] = r.choice(NAMES[o["name"]])
    p = o["prod"]
    if p in ("time1", "timeseq"):
        kw["production_time"] = r.uniform(10, 4000)
    if p == "time2":
        kw["production_time"] = (r.uniform(10, 4000), r.uniform(0, 10))
    if p == "nd2":
        kw["production_ND"] = (r.uniform(1e2, 1e4), r.uniform(1, 100))
    if p == "nd3":
        kw["production_ND"] = (r.uniform(1e2, 1e4), r.uniform(1, 100), r.uniform(0, 3))
    if p in ("seq", "timeseq"):
        kw["production_sequence"] = r.randint(0, 9)
    m = o["meas"]
    if m in ("diam", "all"):
        kw["measured_diameter"] = r.uniform(1e3, 1e5)
    if m == "ell":
        kw.update(measured_semimajor_axis=r.uniform(5e4, 1e5), measured_semiminor_axis=r.uniform(1e4, 5e4), measured_orientation=r.uniform(0, 180))
    if m in ("loc", "all"):
        kw["measured_location"] = (r.uniform(-180, 180), r.uniform(-90, 90))
    if m in ("rim", "all"):
        kw["measured_rim_height"] = r.uniform(1, 100)
        kw["measured_floor_depth"] = -r.uniform(1, 100)
    if m in ("deg", "all"):
        kw["degradation_state"] = r.uniform(0, 10)
    return C.maker(**kw)


def run(ctx, scn, ev):
    ctx["n"] += 1
    d = os.path.join(ctx["scratch"], f"s{ctx['n']}")
    try:
        return go(ctx, scn, ev, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def raw_csv(ids, f):
    out = []
    with open(f, newline="") as h:
        for row in csv.DictReader(h):
            e = {}
            for k, v in row.items():
                if v is None or v == "":
                    continue
                if k not in ("name", "morphology_type"):
                    try:
                        v = float(v)
                    except ValueError:
                        pass
                e[k] = ids(v)
            out.append(e)
    return out


def raw_scc(ids, f):
    t = open(f).read().split("crater = {")[1].split("\n")
    cols = [x.strip() for x in t[0].split(",")]
    out = []
    for line in t[1:]:
        if line.strip() == "}":
            break
        v = dict(zip(cols, (x.strip() for x in line.split("\t"))))
        out.append([ids(float(v["diam"]) * 1e3), ids(float(v["lon"])), ids(float(v["lat"]))])
    return out


def go(ctx, scn, ev, d):
    cm, r = ctx["cm"], random.Random(scn["seed"])
    os.makedirs(d)
    for x in ("surface", "cratermaker.yaml"):
        s = os.path.join(ctx["scratch"], "base", x)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, x))
    sim = simrun.make(cm, d, reset=False, rng_seed=scn["seed"])
    c, C = sim.counting, (sim.Crater if scn["morph"] else sim.counting.Crater)
    ids, saved = Ids(), set()
    c._emplaced, c._observed = [], {}

    def put(x):
        if r.random() < .75:
            c._emplaced.append(x)
        if r.random() < .5:
            c._observed[x.id] = x

    def reads(k):
        for how in ("interval", "file", "all"):
            e = {"op": "read", "k": k, "how": how}
            for i, w in enumerate(("observed", "emplaced")):
                f = os.path.join(d, "counting", f"{w}_craters{k:06d}.nc")
                if how == "file":
                    b = C.from_file(f, interval=k) if os.path.exists(f) else []
                elif how == "interval":
                    ds = c.read_saved_output(interval=k)[i]
                    b = C.from_xarray(ds, interval=r.choice([k, None])) if ds is not None else []
                else:
                    ds = c.read_saved_output()[i]
                    b = C.from_xarray(ds, interval=k) if ds is not None else []
                e[w] = lst(ids, b)
            ev.append(e)

    for o in scn["h"]:
        op = o["op"]
        if op == "add":
            put(make(C, r, o))
        elif op == "dup" and c._emplaced:
            c._emplaced.append(r.choice(c._emplaced))
        elif op == "clear":
            if o["which"] in ("emplaced", "both"):
                c._emplaced = []
            if o["which"] in ("observed", "both"):
                c._observed = {}
        elif op == "save":
            c.save(interval=o["k"])
            saved.add(o["k"])
            ev.append({"op": "save", "k": o["k"], "emplaced": lst(ids, c._emplaced), "observed": lst(ids, c._observed.values())})
            reads(o["k"])
            reads(r.randint(0, 3))
        elif op in ("csv", "scc"):
            shutil.rmtree(os.path.join(d, "export"), ignore_errors=True)
            c.export(driver=r.choice([op.upper(), op]), interval=None if o["all"] else o["k"])
            for k in (range(4) if o["all"] else [o["k"]]):
                for w in ("emplaced", "observed"):
                    f = os.path.join(d, "export", f"{w}_craters{k:06d}.csv" if op == "csv" else f"{w}{k:06d}.scc")
                    e = {"op": op, "k": k, "which": w, "back": [], "raw": []}
                    if os.path.exists(f):
                        b = C.from_file(f)
                        if op == "csv":
                            e["back"], e["raw"] = lst(ids, b), raw_csv(ids, f)
                        else:
                            e["back"] = [[ids(x.diameter), ids(x.location[0]), ids(x.location[1])] for x in b]
                            e["raw"] = raw_scc(ids, f)
                    ev.append(e)
        elif op == "hand":
            ev.append(hand(C, r, ids, d))
    return {}


def hand(C, r, ids, d):
    given, rows = [], []
    for _ in range(r.randint(1, 5)):
        lon, lat = round(r.uniform(-179, 179), 3), round(r.uniform(-89, 89), 3)
        g, row = {}, {}
        dia = round(r.uniform(1e3, 1e5), 1)
        row["diameter"], g["diameter"] = dia, [ids(dia)]
        row["longitude"], row["latitude"], g["location"] = lon, lat, [ids(lon), ids(lat)]
        if r.random() < .5:
            row["name"] = r.choice(sum(NAMES.values(), []))
            g["name"] = [ids(row["name"])]
        q = r.random()
        if q < .3:
            D, N = round(r.uniform(1e2, 1e4), 1), round(r.uniform(1, 99), 2)
            row["production_D"], row["production_N"] = D, N
            s = 0.0
            if r.random() < .5:
                s = row["production_N_stdev"] = round(r.uniform(0, 5), 2)
            g["production_ND"] = [ids(D), ids(N), ids(s)]
        elif q < .6:
            t, s = round(r.uniform(1, 4000), 1), 0.0
            row["production_time"] = t
            if r.random() < .5:
                s = row["production_time_stdev"] = round(r.uniform(0, 5), 2)
            g["production_time"] = [ids(t), ids(s)]
        if r.random() < .4:
            row["production_sequence"] = r.randint(0, 9)
            g["production_sequence"] = [ids(row["production_sequence"])]
        if r.random() < .3:
            row["time"] = round(r.uniform(0, 4000), 1)
            g["time"] = [ids(row["time"])]
        if r.random() < .3:
            row["measured_diameter"] = round(r.uniform(1e3, 1e5), 1)
            g["measured_diameter"] = [ids(row["measured_diameter"])]
        if r.random() < .3:
            row["measured_longitude"], row["measured_latitude"] = round(r.uniform(-179, 179), 3), round(r.uniform(-89, 89), 3)
            g["measured_location"] = [ids(row["measured_longitude"]), ids(row["measured_latitude"])]
        given.append(g)
        rows.append(row)
    cols = sorted({k for row in rows for k in row})
    r.shuffle(cols)
    f = os.path.join(d, "hand.csv")
    with open(f, "w", newline="") as h:
        w = csv.writer(h)
        w.writerow(cols)
        for row in rows:
            w.writerow([row.get(k, "") for k in cols])
    return {"op": "hand", "given": given, "back": lst(ids, C.from_file(f))}


def corrupt(t, rng):
    es = [e for e in t["ev"] if (e["op"] == "read" and (e["emplaced"] or e["observed"])) or (e["op"] in ("csv", "scc") and e["back"])]
    if not es:
        return None
    e = rng.choice(es)
    l = e["back"] if e["op"] != "read" else (e["emplaced"] or e["observed"])
    q = rng.randint(0, 2)
    if q == 0:
        l.pop()
    elif e["op"] == "scc":
        l[0] = [l[0][0], l[0][2] + 1000, l[0][1]]
    elif q == 1:
        l[0]["location"] = l[0]["location"][::-1] + [1]
    else:
        del l[0]["projectile_mass"]
    return t


def vacuity(traces):
    n = {}
    for t in traces:
        for e in t["ev"]:
            k = e["op"]
            if k == "read":
                k += " " + e["how"] + (" nonempty" if e["emplaced"] or e["observed"] else "")
            elif k in ("csv", "scc"):
                k += " nonempty" if e["back"] else ""
            n[k] = n.get(k, 0) + 1
    for k in ("read interval nonempty", "read file nonempty", "read all nonempty", "csv nonempty", "scc nonempty", "hand"):
        if n.get(k, 0) < 3:
            raise vh.MachineryError(f"too few events: {k}: {n}")
    return "events: " + ", ".join(f"{k} {v}" for k, v in sorted(n.items()))


def matches(k, trace, step, clause):
    return False
