"""C17: production functions are monotone and additive, inverted correctly, and answer by their current settings only."""
import random

import numpy as np

import vh

LEVEL = "model_checking"
MODELS = {"quick": [("Production", "Production_MC.cfg")], "thorough": [("Production", "Production_Deep.cfg")]}
GENERATORS = {"quick": [{"module": "GenProduction", "cfg": "GenProduction.cfg", "simulate": 500, "depth": 20}],
              "thorough": [{"module": "GenProduction", "cfg": "GenProduction.cfg", "simulate": 8000, "depth": 20}]}
TRACE = "TraceProduction"
ASSUMPTIONS = ["numbers are compared to eight digits and ordered to twelve",
               "an inverse answer may be off by the tolerance of its search, 1e-8 My or 1e-8 m",
               "diameters are positive and times within the stated range of the model (0 to 4500 My where it states none)"]


def scenarios(rng, tier, gen):
    out = [{"kind": "history", "seed": rng.randint(0, 10**9), "model": g["h"]["model"], "ops": g["h"]["h"]} for g in gen]
    for s in out:  # what is asked after the last change of settings counts most
        s["ops"] = s["ops"] + [{"op": "table", "where": "mid"}, {"op": "age", "where": "mid"}, {"op": "fresh"}]
    return out


def setup(cm, scratch):
    from cratermaker.components.production import Production
    return {"maker": Production.maker}


def f0(x):
    return float(np.asarray(x, dtype=float).reshape(-1)[0]) if np.asarray(x).size == 1 else float("nan")


def rel(x, ref, scale):
    if not np.isfinite(x) or not np.isfinite(ref):
        return -1
    if ref == 0:
        return scale if x == 0 else 2 * scale
    return int(min(max(round(x / ref * scale), -2 * 10**9), 2 * 10**9))


def ranks(arr):
    """dense ranks of the numbers, zero having rank 0, values closer than 1e-12 the same"""
    a = np.asarray(arr, dtype=float)
    vals = np.unique(np.append(a.ravel(), 0.0))
    if not np.all(np.isfinite(a)):
        raise ValueError("a number is not finite")
    rk, group, prev = {}, 0, None
    for v in vals:
        if prev is not None and v - prev > 1e-12 * max(abs(v), abs(prev)):
            group += 1
        rk[v] = group
        prev = v
    z = rk[0.0]
    return np.vectorize(lambda v: rk[v] - z)(a).astype(int).tolist()


def now(p, model):
    if model == "neukum":
        return {"version": str(p.version)}
    return {"generator_type": str(p.generator_type), "slope": int(round(p.slope * 1e6)), "N1_coef": int(round(p.N1_coef * 1e9))}


def span(p):
    lo, hi = p.valid_time
    return (0.0 if lo is None else float(lo)), (4500.0 if hi is None else float(hi)), hi is not None


def diam(p, r, where):
    lo, hi = getattr(p, "sfd_range", (10.0, 1e6))
    if where == "lo":
        return lo * 10 ** r.uniform(0, 0.5)
    if where == "hi":
        return hi * 10 ** r.uniform(-0.5, 0)
    if where == "below":
        return max(lo * 10 ** r.uniform(-2, 0), 1.0)
    if where == "above":
        return min(hi * 10 ** r.uniform(0, 0.6), 9.9e5)
    if where == "edge":
        return r.choice([lo, hi, 1000.0, lo * (1 + 1e-9), hi * (1 - 1e-9)])
    return 10 ** r.uniform(np.log10(lo), np.log10(hi))


def time(p, r, where):
    lo, hi, _ = span(p)
    if where == "lo":
        return lo + 10 ** r.uniform(-3, 1)
    if where in ("hi", "above"):
        return hi - 10 ** r.uniform(-3, 2.5)
    if where == "edge":
        return r.choice([hi, 1.0, 1000.0, 3800.0])
    return r.uniform(lo + 1, hi)


def run(ctx, scn, ev):
    r = random.Random(scn["seed"])
    model = scn["model"]
    p = ctx["maker"](model, **({"version": r.choice(["Moon", "Mars", "Projectile"])} if model == "neukum" and r.random() < 0.6 else {}))
    head = {"settings": now(p, model), "model": model}
    for o in scn["ops"]:
        one(ctx, p, model, o, r, ev)
    return head


def N(p, d, a, b=None):
    return f0(p.function(diameter=float(d), time_start=float(a), **({} if b is None else {"time_end": float(b)})))


def one(ctx, p, model, o, r, ev):
    op, w = o["op"], o.get("where", "mid")
    lo, hi, ranged = span(p)
    if op == "set":
        key, val = o["key"], o["val"]
        e = {"op": "set", "key": key, "val": val, "text": False, "done": True}
        x = val
        if key in ("slope", "N1_coef"):
            if val == "text":
                x, e["text"], e["val"] = "steep", True, 0
            else:
                q = r.randint(500000, 4500000) if key == "slope" else r.randint(1, 10**8)
                if val == "small":
                    q = r.randint(400000, 900000) if key == "slope" else r.randint(1, 100)
                q = -q if val == "neg" else q
                e["val"], x = q, q / (1e6 if key == "slope" else 1e9)
        try:
            setattr(p, key, x)
        except (ValueError, TypeError):
            e["done"] = False
        e["now"] = now(p, model)
    elif op == "table":
        ds = sorted({diam(p, r, r.choice(["lo", "hi", "below", "above", "mid", "mid", w])) for _ in range(26)})
        sl, sh = getattr(p, "sfd_range", (10.0, 1e6))
        ds = sorted(set(ds) | {sl * 0.999, sl, sl * 1.001, sh * 0.999, sh, sh * 1.001})
        ds = [d for i, d in enumerate(ds) if i == 0 or d > ds[i - 1] * (1 + 1e-6)]
        b = r.choice([0.0, 0.0, time(p, r, "mid") * 0.3, 0.5])
        ts = [b] + sorted({b + (hi - b) * r.random() ** r.choice([1, 3]) for _ in range(10)}) + [hi]
        tbl = np.asarray(p.function(diameter=np.array(ds), time_start=np.array(ts), time_end=np.full(len(ts), b)))
        te = sorted(ts, reverse=True)
        ends = np.asarray(p.function(diameter=np.array(ds[::4]), time_start=np.full(len(te), hi), time_end=np.array(te)))
        ch = np.asarray(p.chronology(time_start=np.array(ts), time_end=np.full(len(ts), b)))
        e = {"op": "table", "tbl": ranks(tbl), "ends": ranks(ends), "zero": 1, "chron": ranks(ch)}
    elif op == "span":
        d = diam(p, r, w)
        c, b, a = sorted([time(p, r, r.choice(["lo", "hi", "mid", w])) for _ in range(3)])
        if r.random() < 0.3:
            c = 0.0
        if r.random() < 0.1:
            b = a
        tot = N(p, d, hi, lo)
        g = {"ac": (a, c), "ab": (a, b), "bc": (b, c), "aa": (a, a), "bb": (b, b), "cc": (c, c)}
        ct = f0(p.chronology(time_start=hi, time_end=lo))
        e = {"op": "span", "v": {k: rel(N(p, d, *x), tot, 10**8) for k, x in g.items()},
             "c": {k: rel(f0(p.chronology(time_start=x[0], time_end=x[1])), ct, 10**8) for k, x in g.items()}, "at": repr((d, a, b, c))}
    elif op == "forms":
        e = forms(p, o["what"], w, r)
    elif op == "age":
        d, a = diam(p, r, w), time(p, r, r.choice(["lo", "hi", "mid", w]))
        b = r.choice([None, None, 0.0, a * 0.5])
        n = N(p, d, a, b)
        if r.random() < 0.4:  # a number of the user's, not one the function gave
            n = N(p, d, hi, b) * r.random() ** 3
            a = None
        e = {"op": "age", "done": True, "fwd": 0, "err": 10**9, "inr": True, "at": repr((d, n, a, b))}
        try:
            x = p.age_from_D_N(diameter=d, cumulative_number_density=n, **({} if b is None else {"time_end": b}))
        except Exception as ex:
            e["done"], e["exc"] = False, repr(ex)[:150]
        else:
            x = f0(x)
            e["fwd"] = rel(f0(p.function(diameter=d, time_start=x, time_end=b, validate_inputs=False)), n, 10**8)
            # one step of the search's tolerance in the number
            tol = abs(f0(p.function(diameter=d, time_start=x + 2e-8, time_end=b, validate_inputs=False)) - n) <= \
                2 * abs(f0(p.function(diameter=d, time_start=x + 2e-8, time_end=b, validate_inputs=False))
                        - f0(p.function(diameter=d, time_start=x, time_end=b, validate_inputs=False)))
            e["err"] = int(min(abs(x - a) * 1e9, 10**9)) if a is not None else (0 if tol else 10**9)
            e["inr"] = bool(lo - 1e-6 <= x <= (hi if ranged else 1e6) + 1e-6)
    elif op == "dia":
        d, a = diam(p, r, w), time(p, r, r.choice(["lo", "hi", "mid"]))
        b = r.choice([None, None, 0.0, a * 0.5])
        n = N(p, d, a, b)
        e = {"op": "dia", "done": True, "fwd": 0, "err": 10**9, "at": repr((d, n, a, b))}
        try:
            x = f0(p.D_from_N_age(cumulative_number_density=n, time_start=a, **({} if b is None else {"time_end": b})))
        except Exception as ex:
            e["done"], e["exc"] = False, repr(ex)[:150]
        else:
            e["fwd"] = rel(N(p, x, a, b) if x > 0 else 0.0, n, 10**8)
            e["err"] = int(min(abs(x - d) * 1e9, 10**9))
    elif op == "fresh":
        q = ctx["maker"](model, **({"version": p.version} if model == "neukum"
                                   else {"generator_type": p.generator_type, "slope": p.slope, "N1_coef": p.N1_coef}))
        v = []
        for _ in range(4):
            d, a = diam(p, r, "mid"), time(p, r, "mid")
            n = N(q, d, a)
            v += [rel(N(p, d, a), n, 10**9), rel(f0(p.csfd(d)), f0(q.csfd(d)), 10**9),
                  rel(f0(p.chronology(time_start=a)), f0(q.chronology(time_start=a)), 10**9),
                  rel(f0(p.D_from_N_age(n, a)), f0(q.D_from_N_age(n, a)), 10**9)]
        e = {"op": "fresh", "rel": v}
    else:
        e = refuse(p, o["why"], r, lo, hi, ranged)
    ev.append(e)


def forms(p, what, w, r):
    k = r.randint(1, 4)
    ds = sorted(float(round(diam(p, r, r.choice([w, "mid"])))) or 1.0 for _ in range(k))
    ds = [max(d, 1.0) for d in ds]
    ts = [float(round(max(time(p, r, r.choice([w, "mid"])), 2.0))) for _ in range(k)]
    bs = [float(int(t * r.choice([0, 0, 0.4]))) for t in ts]
    r.shuffle(ds)
    out = []
    I = lambda xs: [int(x) for x in xs]

    def form(name, ref, fn):
        x = {"name": name, "ok": True, "v": [], "want": len(ref)}
        try:
            got = np.asarray(fn(), dtype=float).ravel()
            x["v"] = [rel(float(g), float(h), 10**9) for g, h in zip(got, ref)] if len(got) == len(ref) else [0] * len(got)
        except Exception as ex:
            x["ok"], x["exc"], x["v"] = False, repr(ex)[:150], [10**9] * len(ref)
        out.append(x)
    one_ = lambda fn: [f0(fn(i)) for i in range(k)]
    if what == "number":
        t, b = ts[0], bs[0]
        ref = one_(lambda i: p.function(diameter=ds[i], time_start=t, time_end=b))
        for nm, c in (("list", list), ("tuple", tuple), ("array", np.array), ("int list", I), ("int array", lambda x: np.array(I(x)))):
            form(nm, ref, lambda: p.function(diameter=c(ds), time_start=t, time_end=b))
        form("positional", ref, lambda: p.function(ds, t, b))
        form("age", ref, lambda: p.function(diameter=ds, age=t, time_end=b))
        form("unchecked", ref, lambda: p.function(diameter=np.array(ds), time_start=t, time_end=b, validate_inputs=False))
        form("numpy scalars", ref[:1], lambda: p.function(diameter=np.float64(ds[0]), time_start=np.float64(t), time_end=np.float64(b)))
        form("ints", ref[:1], lambda: p.function(diameter=int(ds[0]), time_start=int(t), time_end=int(b)))
        form("numpy ints", ref[:1], lambda: p.function(diameter=np.int64(ds[0]), time_start=np.int64(t), time_end=np.int64(b)))
        mat = [f0(p.function(diameter=d, time_start=ts[j], time_end=bs[j])) for d in ds for j in range(k)]
        for nm, c in (("matrix list", list), ("matrix array", np.array), ("matrix tuple", tuple)):
            form(nm, mat, lambda: p.function(diameter=c(ds), time_start=c(ts), time_end=c(bs)))
        row = one_(lambda i: p.function(diameter=ds[0], time_start=ts[i], time_end=bs[i]))
        form("times list", row, lambda: p.function(diameter=ds[0], time_start=list(ts), time_end=list(bs)))
        form("times array", row, lambda: p.function(diameter=ds[0], time_start=np.array(ts), time_end=np.array(bs)))
        form("unchecked times", row, lambda: p.function(diameter=ds[0], time_start=np.array(ts), time_end=np.array(bs), validate_inputs=False))
        m = min(ts) / 2
        form("one end", one_(lambda i: p.function(diameter=ds[0], time_start=ts[i], time_end=m)), lambda: p.function(diameter=ds[0], time_start=ts, time_end=m))
        zero = one_(lambda i: p.function(diameter=ds[i], time_start=t, time_end=0.0))
        form("no end", zero, lambda: p.function(diameter=ds, time_start=t))
        form("none end", zero, lambda: p.function(diameter=ds, time_start=t, time_end=None))
        form("unchecked no end", zero, lambda: p.function(diameter=np.array(ds), time_start=t, validate_inputs=False))
        form("times no end", one_(lambda i: p.function(diameter=ds[0], time_start=ts[i], time_end=0.0)), lambda: p.function(diameter=ds[0], time_start=ts))
    elif what == "chron":
        ref = one_(lambda i: p.chronology(time_start=ts[i], time_end=bs[i]))
        for nm, c in (("list", list), ("tuple", tuple), ("array", np.array), ("int list", I)):
            form(nm, ref, lambda: p.chronology(time_start=c(ts), time_end=c(bs)))
        form("unchecked", ref, lambda: p.chronology(time_start=np.array(ts), time_end=np.array(bs), validate_inputs=False))
        form("age", ref, lambda: p.chronology(age=ts, time_end=bs))
        form("no end", one_(lambda i: p.chronology(time_start=ts[i], time_end=0.0)), lambda: p.chronology(time_start=ts))
    elif what == "csfd":
        ref = one_(lambda i: p.csfd(ds[i]))
        for nm, c in (("list", list), ("tuple", tuple), ("array", np.array), ("int list", I), ("int array", lambda x: np.array(I(x)))):
            form(nm, ref, lambda: p.csfd(c(ds)))
        form("int", ref[:1], lambda: p.csfd(int(ds[0])))
    elif what == "age":
        ns = [N(p, ds[i], ts[i]) for i in range(k)]
        ref = one_(lambda i: p.age_from_D_N(diameter=ds[i], cumulative_number_density=ns[i]))
        for nm, c in (("list", list), ("tuple", tuple), ("array", np.array)):
            form(nm, ref, lambda: p.age_from_D_N(diameter=c(ds), cumulative_number_density=c(ns)))
        form("mixed", ref, lambda: p.age_from_D_N(diameter=np.array(ds), cumulative_number_density=list(ns)))
        form("unchecked", ref, lambda: p.age_from_D_N(diameter=np.array(ds), cumulative_number_density=np.array(ns), validate_inputs=False))
        form("int", ref[:1], lambda: p.age_from_D_N(diameter=int(ds[0]), cumulative_number_density=np.float64(ns[0])))
        m = min(ts) / 2
        ne = [N(p, ds[i], ts[i], m) for i in range(k)]
        form("end", one_(lambda i: p.age_from_D_N(ds[i], ne[i], time_end=m)), lambda: p.age_from_D_N(diameter=ds, cumulative_number_density=ne, time_end=m))
    else:
        dd = [min(d, 9e5) for d in ds]
        ns = [N(p, dd[i], ts[0], bs[0]) for i in range(k)]
        ref = one_(lambda i: p.D_from_N_age(ns[i], ts[0], bs[0]))
        for nm, c in (("list", list), ("tuple", tuple), ("array", np.array)):
            form(nm, ref, lambda: p.D_from_N_age(c(ns), ts[0], bs[0]))
        form("age", ref, lambda: p.D_from_N_age(cumulative_number_density=ns, time_start=None, age=ts[0], time_end=bs[0]))
        form("unchecked", ref, lambda: p.D_from_N_age(ns, ts[0], bs[0], validate_inputs=False))
        n2 = [N(p, dd[i], ts[i], bs[i]) for i in range(k)]
        ref = one_(lambda i: p.D_from_N_age(n2[i], ts[i], bs[i]))
        for nm, c in (("times list", list), ("times array", np.array), ("times tuple", tuple)):
            form(nm, ref, lambda: p.D_from_N_age(c(n2), c(ts), c(bs)))
        n3 = [N(p, dd[i], ts[i]) for i in range(k)]
        form("times no end", one_(lambda i: p.D_from_N_age(n3[i], ts[i])), lambda: p.D_from_N_age(n3, ts))
        m = min(ts) / 2
        form("one end", one_(lambda i: p.D_from_N_age(n3[i], ts[i], m)), lambda: p.D_from_N_age(n3, ts, m))
    return {"op": "forms", "what": what, "f": out}


def refuse(p, why, r, lo, hi, ranged):
    d, t = diam(p, r, "mid"), time(p, r, "mid")
    e = {"op": "refuse", "why": "span", "ranged": ranged, "lo": int(lo * 1000), "hi": int(hi * 1000), "a": 0, "b": 0, "done": True}
    call = None
    if why in ("order", "late", "early"):
        a, b = {"order": (t, t + r.uniform(0.01, 100)), "late": (hi + r.uniform(0.01, 1000), 0.0), "early": (t, lo - r.uniform(0.01, 100))}[why]
        if why == "order" and ranged:
            a, b = a * 0.5, a * 0.5 + r.uniform(0.01, a * 0.4)
        e["a"], e["b"] = int(np.floor(a * 1000)) if why == "order" else int(np.ceil(a * 1000)), int(np.floor(b * 1000)) if why == "early" else int(np.ceil(b * 1000))
        if r.random() < 0.4:
            a, b = [t, a], [0.0, b]
        call = r.choice([lambda: p.function(diameter=d, time_start=a, time_end=b), lambda: p.chronology(time_start=a, time_end=b),
                         lambda: p.function(diameter=[d, 2 * d], age=a, time_end=b)])
    elif why == "negD":
        e["why"] = why
        x = r.choice([-d, [d, -d], np.array([-d])])
        call = lambda: p.function(diameter=x, time_start=t)
    elif why == "negN":
        e["why"] = why
        call = r.choice([lambda: p.age_from_D_N(d, -1e-12), lambda: p.age_from_D_N([d, d], [1e-12, -1e-12])])
    else:
        e["why"] = why
        top = f0(p.function(diameter=d, time_start=hi if ranged else 1e6, validate_inputs=False))
        call = lambda: p.age_from_D_N(d, top * 1.5)
    try:
        call()
    except Exception as ex:
        e["done"], e["exc"] = False, repr(ex)[:100]
    return e


def corrupt(t, rng):
    for e in t["ev"]:
        if e["op"] == "table" and rng.random() < 0.5:
            i = len(e["tbl"]) // 2
            e["tbl"][i][-1] += 10**6
            return t
        if e["op"] in ("age", "dia") and e["fwd"]:
            e["fwd"] += 500
            e["err"] = 10**6
            return t
        if e["op"] == "span":
            e["v"]["ac"] += 50
            return t
    return None


def vacuity(traces):
    ops, ch, ok, no = {}, 0, 0, 0
    for t in traces:
        seen = False
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
            if e["op"] == "set" and e["done"]:
                seen = True
            if e["op"] == "table" and seen:
                ch += 1
            if e["op"] == "refuse":
                no += not e["done"]
            if e["op"] == "forms":
                ok += sum(f["ok"] for f in e["f"])
    for k in ("set", "table", "span", "forms", "age", "dia", "fresh", "refuse"):
        if ops.get(k, 0) < 20:
            raise vh.MachineryError(f"too few {k} events: {ops.get(k, 0)}")
    return f"{ops}; {ch} tables after a change of settings, {ok} forms answered, {no} questions refused"


def matches(k, trace, step, clause):
    return False
