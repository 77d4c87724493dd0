"""Driving and recording whole simulations (C01, C03)."""
import contextlib
import os
import random

import numpy as np

Q = 1e5          # times are recorded in units of 1e-5 My
MESH = {"ico2": dict(surface="icosphere", gridlevel=2), "ico3": dict(surface="icosphere", gridlevel=3)}


class Stop(BaseException):
    """the process ends here"""


def tq(t):
    if t is None:
        return -1
    t = float(t)
    return int(round(t * Q)) if np.isfinite(t) and abs(t) < 2e4 else -2


def make(cm, d, **kw):
    os.makedirs(d, exist_ok=True)
    s = cm.Simulation(simdir=d, ask_overwrite=False, **kw)
    for o in (s, s.surface, s.counting):
        if o is not None:
            o.save_actions = None
    return s


def config(seed, mesh="ico2", prod="powerlaw", counting=True, **kw):
    c = dict(MESH[mesh], rng_seed=seed, reset=True, do_counting=counting)
    c.update(production=prod)
    if prod == "powerlaw":
        c["N1_coef"] = 1.0 if mesh == "ico2" else 0.5
    c.update(kw)
    return c


def n1(sim, a, b):
    return float(np.asarray(sim.production.function(diameter=1000.0, time_start=float(a), time_end=float(b))).item())


class Recorder:
    """Records what a simulation does while it runs; can end it at a chosen point."""

    def __init__(self, sim, ev):
        self.sim, self.ev = sim, ev
        self.req = None            # (ts, te) of the current request
        self.start = None
        self.stop_at = None        # (phase, interval)
        self.snap = {}             # interval -> what was in memory when it was saved

    def clock(self):
        s = self.sim
        d = {"interval": int(s.interval), "time": tq(s.time) if s._time is not None else -1, "elapsed": tq(s.elapsed_time)}
        if self.start is not None and s._time is not None:
            tot = n1(s, self.start, 0.0) * s.production.N_conversion_factor
            d["n1"] = int(round(1e7 * float(s.elapsed_n1) / tot))
            d["N1"] = int(round(1e7 * n1(s, self.start, s.time) * s.production.N_conversion_factor / tot)) if s.time < self.start else 0
        else:
            d["n1"] = d["N1"] = 0
        return d

    def pn(self):
        """how much of the request's crater number is still to come (ppm)"""
        ts, te = self.req
        t = float(self.sim.time)
        if t <= te:
            return 0
        return int(round(1e6 * n1(self.sim, t, te) / n1(self.sim, ts, te)))

    def snapshot(self):
        s = self.sim
        return {"el": (np.array(s.surface.face_elevation), np.array(s.surface.node_elevation)),
                "emplaced": [c.id for c in s.counting.emplaced] if s.counting is not None else [],
                "observed": sorted(s.counting.observed) if s.counting is not None else [],
                "tags": _tags(s), "rng": _rng(s)}

    def wants(self, phase):
        if self.stop_at is None:
            return False
        p, k = self.stop_at
        return p == phase and int(self.sim.interval) == k

    @contextlib.contextmanager
    def hooks(self):
        me = self
        from cratermaker import Simulation
        o_save, o_emp, o_pop = Simulation.save, Simulation.emplace, Simulation.populate
        scls = type(self.sim.surface)
        o_ss, own = scls.save, scls.__dict__.get("save")

        def save(sim, *a, **k):
            if sim is not me.sim:
                return o_save(sim, *a, **k)
            if me.start is None:
                me.start = float(sim.time)
            r = o_save(sim, *a, **k)
            me.ev.append({"op": "save", "pn": me.pn(), **me.clock()})
            if sim.counting is not None:
                me.ev.append({"op": "emplaced", "t": sorted((tq(c.time) for c in sim.counting.emplaced), reverse=True), "n": len(sim.counting.emplaced)})
            me.snap[int(sim.interval)] = me.snapshot()
            if me.wants("window"):
                raise Stop
            return r

        def ssave(surf, *a, **k):
            if surf is me.sim.surface and me.wants("half"):
                raise Stop
            return o_ss(surf, *a, **k)

        def emplace(sim, craters=None, *a, **k):
            if sim is me.sim and isinstance(craters, list):
                me.ev.append({"op": "craters", "t": [tq(c.time) for c in craters]})
            r = o_emp(sim, craters, *a, **k)
            return r

        def populate(sim, *a, **k):
            r = o_pop(sim, *a, **k)
            if sim is me.sim and me.wants("formed"):
                raise Stop
            return r
        Simulation.save, Simulation.emplace, Simulation.populate, scls.save = save, emplace, populate, ssave
        try:
            yield self
        finally:
            Simulation.save, Simulation.emplace, Simulation.populate = o_save, o_emp, o_pop
            if own is None:
                del scls.save
            else:
                scls.save = own

    def run(self, ts, te, kw, dt=0, n=0):
        """one request; returns 'ok', 'refused' or 'stopped'"""
        s = self.sim
        self.req = (ts, te)
        if s._time is None and not self.snap:
            self.start = None
        elif self.start is None:
            self.start = ts
        pn0 = 1000000
        if s._time is not None and ts >= s.time and ts > te:
            pn0 = self.pn()
        self.ev.append({"op": "run", "ts": tq(ts), "te": tq(te), "dt": tq(dt) if dt else 0, "n": n, "pn": pn0})
        try:
            s.run(**kw)
        except Stop:
            self.ev.append({"op": "stop"})
            return "stopped"
        except (ValueError, RuntimeError, TypeError) as e:
            self.ev.append({"op": "refused", "exc": f"{type(e).__name__}: {str(e)[:100]}", **self.clock()})
            return "refused"
        self.ev.append({"op": "end", **self.clock()})
        return "ok"

    def disk(self):
        """every saved state, read back"""
        s = self.sim
        nums = s.surface.get_saved_interval_numbers()[0]
        out = []
        for i in nums or []:
            ds = s.surface.read_saved_output(interval=i)
            f = {k: float(np.asarray(ds[k]).ravel()[0]) if k in ds else -1.0 for k in ("interval", "time", "elapsed_time")}
            out.append({"num": int(i), "interval": int(f["interval"]), "time": tq(f["time"]), "elapsed": tq(f["elapsed_time"])})
        self.ev.append({"op": "disk", "f": out})


def _rng(s):
    return repr(s.rng.bit_generator.state)


def _tags(s):
    try:
        return np.array(s.surface.uxds["crater_id"]) if s.counting is not None and "crater_id" in s.surface.uxds else np.array(0)
    except Exception:
        return np.array(0)


def request(r, form, ts, te, sim, **kw):
    """the keyword arguments asking for ts .. te in one of the documented ways"""
    if form == "age" and te == 0:
        kw["age"] = ts
    elif form == "end" and sim._time is not None and float(sim.time) == ts:
        kw["time_end"] = te
    elif form in ("ND", "DN") and ts > 0:
        D = r.choice([1.0, 20.0, 300.0])
        f = lambda t, d: float(np.asarray(sim.production.function(diameter=d * 1000.0, time_start=float(t))).item()) if t > 0 else 0.0
        E = r.choice([D, 1.0, 50.0])
        if form == "ND":
            kw["N_D"] = (D, f(ts, D) * 1e12)
            if te > 0 or r.random() < 0.5:
                kw["N_D_end"] = (E, f(te, E) * 1e12)
        else:
            kw["diameter_number"] = (D * 1000, f(ts, D) * sim.surface.area)
            if te > 0 or r.random() < 0.5:
                kw["diameter_number_end"] = (E * 1000, f(te, E) * sim.surface.area)
    else:
        kw["time_start"] = ts
        if te != 0 or r.random() < 0.5:
            kw["time_end"] = te
    return kw


COMPONENTS = ("target", "scaling", "production", "morphology", "projectile", "surface", "counting")
_NOT_A_SETTING = {"rng", "rng_state", "save_actions", "ask_overwrite", "simdir", "is_new", "interval", "time", "elapsed_time", "elapsed_n1",
                  "output_image_file_extension", "quasimc_craters", "smallest_crater", "largest_crater", "smallest_projectile", "largest_projectile"}


def settings(sim):
    """the value of every setting a user can assign on the simulation and its components"""
    out = {}
    for comp in (None,) + COMPONENTS:
        o = sim if comp is None else getattr(sim, comp)
        if o is None:
            continue
        pre = "" if comp is None else comp + "."
        if comp is not None:
            out[comp] = repr(getattr(o, "component_name", None) or getattr(o, "name", None))
        for k in sorted(dir(type(o))):
            p = getattr(type(o), k, None)
            if not isinstance(p, property) or p.fset is None or k in _NOT_A_SETTING:
                continue
            if comp == "projectile" and o.sample and k in ("velocity", "angle", "direction", "location"):
                continue
            v = getattr(o, k)
            if isinstance(v, (list, tuple, np.ndarray)):
                v = np.asarray(v).tolist()
            elif isinstance(v, np.generic):
                v = v.item()
            elif isinstance(v, os.PathLike):
                v = str(v)
            elif not isinstance(v, (int, float, str, bool, type(None))):
                continue
            out[pre + k] = repr(v)
    return out
