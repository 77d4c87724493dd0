"""C04: earlier results are discarded only with consent."""
import builtins
import contextlib
import hashlib
import os
import random
import re
import shutil

import simrun
import vh

LEVEL = "model_checking"
MODELS = {"quick": [("Consent", "Consent_MC.cfg")], "thorough": [("Consent", "Consent_Deep.cfg")]}
GENERATORS = {"quick": [{"module": "GenConsent", "cfg": "GenConsent.cfg", "simulate": 150, "depth": 12, "limit": 150}],
              "thorough": [{"module": "GenConsent", "cfg": "GenConsent.cfg", "simulate": 2500, "depth": 12, "limit": 2500}]}
TRACE = "TraceConsent"
ASSUMPTIONS = ["a file is unchanged when its contents are", "answering 'all' to one file of an export covers that file",
               "files whose names follow the program's own patterns in its own directories are its results"]
SCENARIO_TIMEOUT = 240
BASES = {"ico": dict(surface="icosphere", gridlevel=2), "hires": dict(surface="hireslocal", pix=60e3, local_location=(20.0, 30.0), local_radius=400e3, superdomain_scale_factor=20)}
FOREIGN = ["notes.txt", "data/surface000001.nc", "surface/README.txt", "surface/mysurface000001.nc", "surface/grid2.nc", "surface/surface000001.nc.bak",
           "surface/old/surface000001.nc", "surface/emplaced_craters000001.nc", "surface/picture.png", "counting/craters.csv", "counting/my_observed_craters000001.nc",
           "counting/surface000001.nc", "counting/emplaced_craters000001.csv", "export/notes.txt", "export/paper.pdf", "surface_images/notes.txt", "surface_images/plot.pdf",
           "counting_images/caption.txt", "production/fit.dat", "old/export/surface000001.vtp", "picture.png", "emplaced_craters000001.nc"]
EXT = {"VTK": ["vtp", "vtk"], "GPKG": ["gpkg"], "GeoTIFF": ["tif"], "CSV": ["csv"], "SCC": ["scc"]}


def scenarios(rng, tier, gen):
    hs = [g["h"] for g in gen]

    def score(h):
        return len({(o["op"], o["ask"]) for o in h}) + 2 * rng.random()
    rng.shuffle(hs)
    hs.sort(key=lambda h: -score(h))
    n = 56 if tier == "quick" else 900
    return [{"kind": "hist", "h": h, "base": "hires" if i % 5 == 4 else "ico", "seed": rng.randint(0, 10**6)} for i, h in enumerate(hs[:n])]


KW = dict(projectile_velocity=2e4, projectile_angle=45.0, projectile_density=2500.0, projectile_direction=0.0)


def work(sim, k, r):
    sim._interval = k
    sim.emplace([sim.Crater.maker(diameter=r.uniform(2e5, 9e5), location=(r.uniform(-180, 180), r.uniform(-80, 80)), time=r.uniform(0, 100), **KW)])
    sim.surface.save(interval=k)
    sim.counting.save(interval=k)
    for c in (sim.surface, sim.counting):
        with open(os.path.join(c.plot_dir, f"image{k:06d}.png"), "wb") as f:
            f.write(r.randbytes(20))


def setup(cm, scratch):
    r = random.Random(5)
    for b, kw in BASES.items():
        d = os.path.join(scratch, "base_" + b)
        sim = simrun.make(cm, d, reset=True, rng_seed=3, **kw)
        for k in range(3):
            work(sim, k, r)
        sim.to_config()
        for drv in ("VTK", "GPKG", "GeoTIFF"):
            sim.surface.export(driver=drv, interval=1)
        for drv in ("CSV", "SCC", "VTK"):
            sim.counting.export(driver=drv, interval=1)
    return {"cm": cm, "scratch": scratch, "n": 0}


def run(ctx, scn, ev):
    ctx["n"] += 1
    d = os.path.join(ctx["scratch"], f"s{ctx['n']}")
    try:
        return go(ctx, scn, ev, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def listing(d, ids):
    out = {}
    for a, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(a, f)
            with open(p, "rb") as fh:
                h = hashlib.sha1(fh.read()).hexdigest()
            out[os.path.relpath(p, d)] = ids.setdefault(h, len(ids) + 1)
    return out


def cls(f, foreign):
    if f in foreign:
        return "foreign"
    d, b = os.path.split(f)
    if f == "cratermaker.yaml":
        return "config"
    if d == "surface":
        return "grid" if b == "grid.nc" else "surface" if re.fullmatch(r"(local_)?surface\d+\.nc", b) else "other"
    if d == "counting":
        return "counting" if re.fullmatch(r"(observed|emplaced)_craters\d+\.nc", b) else "other"
    return {"surface_images": "simg", "counting_images": "cimg", "export": "export"}.get(d, "other")


@contextlib.contextmanager
def answers(script, d, before, rec):
    """the questions are answered from the script; the last answer is repeated"""
    it = list(script)

    def ask(text=""):
        a = it.pop(0) if len(it) > 1 else it[0]
        rec.append({"f": [f for f in before if os.path.join(d, f) + "'" in text], "ans": a.lower() if a.lower() in ("y", "a") else "n", "old": "Old run" in text, "text": text})
        return a
    old = builtins.input
    builtins.input = ask
    try:
        yield
    finally:
        builtins.input = old


def go(ctx, scn, ev, d):
    cm, r = ctx["cm"], random.Random(scn["seed"])
    d = os.path.realpath(d)
    shutil.copytree(os.path.join(ctx["scratch"], "base_" + scn["base"]), d)
    foreign = set()
    ids = {}

    def sprinkle():
        for f in r.sample(FOREIGN, 6):
            p = os.path.join(d, f)
            if not os.path.exists(p):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as fh:
                    fh.write(r.randbytes(16))
                foreign.add(f)
    sprinkle()
    sim = simrun.make(cm, d, reset=False)
    for o in scn["h"]:
        op, ask = o["op"], o["ask"]
        if r.random() < .3:
            sprinkle()
        for c in (sim, sim.surface, sim.counting, getattr(sim.surface, "local", None)):
            if c is not None:
                c.ask_overwrite = ask
        before = listing(d, ids)
        rec, e = [], {"op": op, "ask": ask, "ask0": ask, "raised": False, "keepflags": True}
        special = set()
        exc = None
        with answers(o["ans"], d, before, rec):
            try:
                if op == "sreset":
                    sim.surface.reset()
                elif op == "creset":
                    sim.counting.reset()
                elif op == "simreset":
                    sim.reset()
                elif op in ("open", "regrid"):
                    kw, reset = {}, {"surface": None, "counting": True, "sim": False}[o["how"]] if op == "open" else False
                    e["op"] = "openreset" if reset else "none"
                    if op == "open" and reset is not False:      # a reset run does not use the stored settings
                        kw = dict(BASES["hires"], pix=sim.surface.pix) if scn["base"] == "hires" else dict(surface="icosphere", gridlevel=sim.surface.gridlevel)
                    if op == "regrid":
                        e["op"] = "regrid"
                        if scn["base"] == "ico":
                            kw = dict(surface="icosphere", gridlevel=3 if sim.surface.gridlevel == 2 else 2)
                        else:
                            kw = dict(BASES["hires"], pix=70e3 if abs(sim.surface.pix - 60e3) < 1e3 else 60e3)
                        if scn["base"] == "ico" and r.random() < .2:
                            kw = dict(surface="icosphere", gridlevel=sim.surface.gridlevel, regrid=True)
                    new = cm.Simulation(simdir=d, ask_overwrite=ask, reset=reset, **kw)
                    new.save_actions = new.surface.save_actions = new.counting.save_actions = None
                    sim = new
                elif op == "export":
                    arg = {"on": True, "on1": None, "off": False}[o["arg"]]
                    e["ask"] = ask if arg is None else arg
                    k = o["k"] if o["k"] != 9 else None
                    drv = o["driver"]
                    ext = EXT[drv]
                    e["stake"] = sorted(f for f in before if cls(f, foreign) == "export" and f.rsplit(".", 1)[-1] in ext)
                    c = {"surface": sim.surface, "counting": sim.counting, "sim": sim}[o["what"]]
                    if c is sim:
                        special = {f"surface/surface{sim.interval:06d}.nc", f"counting/observed_craters{sim.interval:06d}.nc", f"counting/emplaced_craters{sim.interval:06d}.nc"}
                    c.export(driver=drv, interval=k, ask_overwrite=arg)
                else:
                    work(sim, o["k"] if o["k"] != 9 else 3, r)
            except Exception as x:
                exc = x
                e["raised"] = True
                if op == "work" or not any(q["ans"] == "n" for q in rec):
                    if op != "export":
                        raise
        if op == "open" and o["how"] == "surface":
            if rec and rec[0]["old"] and rec[0]["ans"] in ("y", "a"):
                e["op"] = "openreset"
        if op in ("open", "regrid"):
            e["keepflags"] = not e["raised"] and not any(q["old"] and q["ans"] == "a" for q in rec)
        if op == "work":
            e["keepflags"] = False
        # refusing to resume a run is no refusal to anything
        e["prompts"] = [{"f": q["f"], "ans": q["ans"]} for q in rec if not (q["old"] and q["ans"] == "n")]
        after = listing(d, ids)
        e.update(d=before, e=after, own={f: ("other" if f in special else cls(f, foreign)) for f in set(before) | set(after)},
                 flags=[bool(c.ask_overwrite) for c in (sim, sim.surface, sim.counting)],
                 first=["surface/surface000000.nc", "surface/local_surface000000.nc"])
        ev.append(e)
        if e["raised"]:
            # carry on from what is on disk
            try:
                sim = simrun.make(cm, d, reset=False)
            except Exception:
                if exc is None or op not in ("open", "regrid"):
                    raise
                break
    return {}


def corrupt(t, rng):
    es = [e for e in t["ev"] if e["op"] in ("sreset", "creset", "simreset") and e["ask"] and e["prompts"] and e["prompts"][0]["ans"] != "n"]
    fs = [e for e in t["ev"] if any(v == "foreign" for v in e["own"].values())]
    if es and rng.random() < .6:
        e = rng.choice(es)
        e["prompts"] = []
        return t if any(f not in e["e"] or e["e"][f] != v for f, v in e["d"].items() if e["own"][f] in ("surface", "counting", "simg", "cimg")) else None
    if fs:
        e = rng.choice(fs)
        f = next(f for f, v in e["own"].items() if v == "foreign" and f in e["d"])
        e["e"].pop(f, None)
        return t
    return None


def vacuity(traces):
    n = {}
    for t in traces:
        for e in t["ev"]:
            k = e["op"] + (" asked" if e["prompts"] else "") + (" refused" if any(q["ans"] == "n" for q in e["prompts"]) else "")
            n[k] = n.get(k, 0) + 1
    for k in ("sreset asked", "creset asked", "simreset asked", "export asked", "openreset asked", "regrid asked"):
        if sum(v for x, v in n.items() if x.startswith(k)) < 2:
            raise vh.MachineryError(f"too few events: {k}: {n}")
    return "events: " + ", ".join(f"{k} {v}" for k, v in sorted(n.items()))


def matches(k, trace, step, clause):
    return False
