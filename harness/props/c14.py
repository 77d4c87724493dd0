"""C14: the emplacement queue."""
import os
import random

import numpy as np

LEVEL = "model_checking"
MODELS = {"quick": [("Emplace", "Emplace_MC.cfg"), ("Emplace", "Emplace_Free.cfg")], "thorough": [("Emplace", "Emplace_Deep.cfg")]}
GENERATORS = {"quick": [{"module": "GenEmplace", "cfg": "GenEmplace.cfg", "simulate": 150, "depth": 80, "limit": 60}],
              "thorough": [{"module": "GenEmplace", "cfg": "GenEmplace.cfg", "simulate": 3000, "depth": 80, "limit": 1500}]}
TRACE = "TraceEmplace"
ASSUMPTIONS = ["crater sizes within a factor of 1.5 of the smallest formable size are not judged as too small or large enough",
               "subpixel degradation is off when the surface is compared with one-by-one emplacement (it acts once per call)"]


def scenarios(rng, tier, gen):
    out = []
    for g in gen:
        out.append({"kind": "queue", "h": g["h"], "seed": rng.randint(0, 10**6)})
    for i in range(14 if tier == "quick" else 250):
        out.append({"kind": "mesh", "mesh": ["ico2", "ico3", "hires"][i % 3 if i % 4 else 0], "h": rng.choice(gen)["h"] if gen else {"lens": [3, 3]},
                    "seed": rng.randint(0, 10**6)})
    out.append({"kind": "mesh", "mesh": "ico3", "h": {"lens": [14], "small": [3]}, "seed": rng.randint(0, 10**6)})
    rng.shuffle(out)
    return out


def setup(cm, scratch):
    return {"cm": cm, "scratch": scratch, "m": {}}


MESH = {"ico2": ("icosphere", dict(gridlevel=2)), "ico3": ("icosphere", dict(gridlevel=3)),
        "hires": ("hireslocal", dict(pix=60e3, local_location=(10, 40), local_radius=400e3, superdomain_scale_factor=20))}


def mesh(ctx, k):
    """two surfaces with the same mesh, each with its own morphology model"""
    if k not in ctx["m"]:
        from cratermaker.components.morphology import Morphology
        name, kw = MESH[k]
        pair = []
        for x in "ab":
            d = os.path.join(ctx["scratch"], k + x)
            s = ctx["cm"].Surface.maker(name, simdir=d, reset=True, ask_overwrite=False, **kw)
            m = Morphology.maker(surface=s, simdir=d, ask_overwrite=False, do_subpixel_degradation=False)
            pair.append(m)
        ctx["m"][k] = pair
    return ctx["m"][k]


def ix(i, n):
    return set(int(x) for x in (np.arange(n)[i] if isinstance(i, slice) else np.asarray(i)))


def run_queue(ctx, scn, ev):
    """the queue itself, driven with an arbitrary overlap relation"""
    from cratermaker.components.morphology import Morphology
    r = random.Random(scn["seed"])
    h = scn["h"]
    over = [list(p) for p in h["over"]]
    n = sum(h["lens"])
    cs = {i: ctx["cm"].Crater.maker(diameter=1000.0 + i, location=(0, 0)) for i in range(1, n + 1)}
    num = {id(c): i for i, c in cs.items()}
    # one element per overlapping pair, on faces or on nodes, and one private face each
    nodes, faces = {i: set() for i in cs}, {i: {1000 + i} for i in cs}
    for k, (i, j) in enumerate(over):
        w = nodes if r.random() < 0.5 else faces
        for x in (i, j):
            w[x].add(k)
    shared = []
    for i in cs:
        for j in cs:
            if i < j and (nodes[i] & nodes[j] or faces[i] & faces[j]):
                shared.append([i, j])
    q = Morphology.CraterQueueManager(lambda c: (nodes[num[id(c)]], faces[num[id(c)]]))
    ev.append({"op": "empty", "empty": bool(q.is_empty)})
    left = list(cs)
    while True:
        k = r.randint(0 if not q.is_empty else 1, 3)
        for i in left[:k]:
            q.push(cs[i])
            ev.append({"op": "push", "i": i})
        left = left[k:]
        b = q.peek_next_batch()
        if r.random() < 0.3:
            b = q.peek_next_batch()
        ev.append({"op": "peek", "b": [num.get(id(c), -1) for c in b]})
        ev.append({"op": "empty", "empty": bool(q.is_empty)})
        if not b and not left:
            break
        if len(ev) > 200:
            break
        q.pop_batch(b)
        ev.append({"op": "pop", "b": [num.get(id(c), -1) for c in b]})
    return {"over": shared}


def run(ctx, scn, ev):
    if scn["kind"] == "queue":
        return run_queue(ctx, scn, ev)
    from cratermaker.components.morphology import Morphology
    cm = ctx["cm"]
    r = random.Random(scn["seed"])
    A, B = mesh(ctx, scn["mesh"])
    counting = r.random() < 0.5
    collapse = r.random() < 0.5
    for m in (A, B):
        m.surface.reset(ask_overwrite=False)
        m.counting.reset(ask_overwrite=False)
        m.do_counting = counting
        m.do_slope_collapse = collapse
    s = A.surface
    F, N = s.n_face, s.n_node
    size = np.sqrt(np.asarray(s.face_area))
    center = s.local_location if scn["mesh"] == "hires" else (r.uniform(-180, 180), r.uniform(-80, 80))

    def area(c):
        g = s.extract_region(c.location, c.ejecta_rmax)
        return (ix(g.face_indices, F), ix(g.node_indices, N)) if g is not None else (set(), set())

    def new(small):
        while True:
            if scn["mesh"] == "hires":
                loc = s.compute_location_from_distance_bearing(r.uniform(0, 0.9) * 400e3, r.uniform(0, 360), center)
                loc = (float(np.ravel(loc)[0]), float(np.ravel(loc)[1]))
            else:
                loc = (r.uniform(-180, 180), float(np.degrees(np.arcsin(r.uniform(-1, 1)))))
            f = int(s.find_nearest_face(loc))
            d = float(s.compute_distances(np.array([[np.asarray(s.face_lon)[f], np.asarray(s.face_lat)[f]]]), loc)[0])
            x = size[f]
            if scn["mesh"] == "hires" and x > 200e3:
                continue
            # radius needed so that the region reaches a face centre and is larger than the face (buffer unknown: 1 to 1.5)
            hi = max(d, x / np.sqrt(np.pi))
            lo = hi / 1.5
            rad = r.uniform(0.05, 0.95) * lo if small else r.uniform(1.1, 2.2) * max(hi, 0.5 * x)
            t = r.choice([None, 3000.0, 1000.0, 10.0])
            return dict(diameter=2 * rad, location=loc, time=t)
    lens, small, handed = scn["h"]["lens"], set(scn["h"].get("small", [])), 0
    known, over, areas = {}, [], {}
    seen = 0
    shared = {"hand": []}
    orig = Morphology.CraterQueueManager.peek_next_batch

    def peek(self):
        b = orig(self)
        todo = list(shared["hand"])
        try:
            nums = []
            for c in b:
                k = next((k for k, i in todo if i == c.id and k not in nums), -1)
                nums.append(k)
            if -1 not in nums:
                ev.append({"op": "batch", "b": nums})
        except Exception:
            pass
        return b
    Morphology.CraterQueueManager.peek_next_batch = peek
    try:
        prev = []
        for n in lens:
            ids = list(range(handed + 1, handed + n + 1))
            kws = [new(i in small) for i in ids]
            objs = []
            for kw in kws:
                if prev and r.random() < 0.15:
                    objs.append(r.choice(prev))     # a crater that was emplaced before
                else:
                    objs.append(cm.Crater.maker(**kw))
            for i, o in zip(ids, objs):
                areas[i] = area(_promote(B, o))
                known[i] = o.id
            over = [[i, j] for i in areas for j in areas if i < j and (areas[i][0] & areas[j][0] or areas[i][1] & areas[j][1])]
            sm = [i for i, o in zip(ids, objs) if _small(s, size, o) == "small"]
            un = [i for i, o in zip(ids, objs) if _small(s, size, o) == "unsure"]
            ev.append({"op": "hand", "n": n, "small": sm, "unsure": un, "over": over})
            shared["hand"] = [(i, known[i]) for i in ids]
            form = r.choice(["list", "list", "tuple", "promoted", "mixed"])
            give = list(objs)
            if form in ("promoted", "mixed"):
                give = [(_promote(A, o) if form == "promoted" or r.random() < 0.5 else o) for o in objs]
            if n == 1 and r.random() < 0.6:
                give = give[0]
                if r.random() < 0.5 and objs[0] not in prev:
                    ret = A.emplace(**kws[0])
                    if isinstance(ret, list) and len(ret) == 1 and ret[0].diameter == kws[0]["diameter"]:
                        known[ids[0]] = ret[0].id    # other parameters were drawn at random
                        shared["hand"] = [(ids[0], ret[0].id)]
                else:
                    A.emplace(give)
            else:
                A.emplace(tuple(give) if form == "tuple" else give)
            if r.random() < 0.2:
                A.emplace([])
            for o in objs:
                B.emplace(o)
            got = [c.id for c in A.counting.emplaced]
            order, more = [], 0
            left = [(i, known[i]) for i in ids]
            for g in got[seen:]:
                k = next((k for k, i in left if i == g), None)
                if k is None:
                    k = next((k for k, i in shared["hand"] if i == g), None)
                    if k is None:
                        more += 1
                        continue
                else:
                    left.remove((k, g))
                order.append(k)
            if len(got) < seen:
                more += 1
            seen = len(got)
            same = True
            for v in ("face_elevation", "node_elevation"):
                x, y = np.asarray(getattr(A.surface, v)), np.asarray(getattr(B.surface, v))
                same = same and np.allclose(x, y, rtol=1e-7, atol=1e-6)
            ev.append({"op": "done", "order": order, "more": more, "same": bool(same)})
            handed += n
            prev += objs
    finally:
        Morphology.CraterQueueManager.peek_next_batch = orig
    return {"over": []}


def _promote(m, o):
    from cratermaker.components.morphology.basicmoon import BasicMoonCrater
    return BasicMoonCrater.maker(o, morphology=m)


def _small(s, size, o):
    f = int(s.find_nearest_face(o.location))
    d = float(s.compute_distances(np.array([[np.asarray(s.face_lon)[f], np.asarray(s.face_lat)[f]]]), o.location)[0])
    hi = max(d, size[f] / np.sqrt(np.pi))
    return "small" if o.radius < hi / 1.5 else ("ok" if o.radius > hi * 1.001 else "unsure")


def corrupt(t, rng):
    if t["ev"] and t["ev"][0]["op"] == "empty":
        k = [e for e in t["ev"] if e["op"] == "peek" and e["b"]]
        if not k:
            return None
        rng.choice(k)["b"] = []
        return t
    d = [e for e in t["ev"] if e["op"] == "done" and e["order"]]
    if not d:
        return None
    e = rng.choice(d)
    if rng.random() < 0.5:
        e["order"] = e["order"] + e["order"][:1]
    else:
        e["same"] = False
    return t


def matches(k, trace, step, clause):
    return False
