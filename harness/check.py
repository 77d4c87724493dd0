"""check.py <property> [quick|thorough] [--replay FILE]

Decides one property: model-checks its TLA+ specification, generates behaviours from it, replays them in the
real code, and validates the recorded traces against the specification with TLC.
"""
import concurrent.futures as cf
import copy
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vh  # noqa: E402

PY = "/opt/venv/bin/python"
EVID = os.path.join(vh.VERIF, "evidence")


def worker_env():
    e = dict(os.environ)
    e.update(PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
             PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8", LC_ALL="C.UTF-8", HOME=e.get("HOME", "/root"))
    e["PYTHONPATH"] = vh.REPO
    e["NUMBA_CACHE_DIR"] = os.path.join(e["VH_SCRATCH"], "numba") if False else e.get("NUMBA_CACHE_DIR", "")
    if not e["NUMBA_CACHE_DIR"]:
        del e["NUMBA_CACHE_DIR"]
    return e


def replay(prop, scns, scratch, nproc, budget=0):
    """Run the scenarios in worker processes; returns traces in scenario order."""
    nproc = max(1, min(nproc, len(scns)))
    shards = [scns[i::nproc] for i in range(nproc)]
    env = worker_env()
    if budget:
        env["VH_BUDGET"] = str(budget)
    procs = []
    for i, sh in enumerate(shards):
        inp, outp = os.path.join(scratch, f"in{i}.json"), os.path.join(scratch, f"out{i}.json")
        with open(inp, "w") as f:
            json.dump(sh, f)
        if os.path.exists(outp):
            os.unlink(outp)
        log = open(os.path.join(scratch, f"w{i}.log"), "w")
        procs.append((i, outp, log, subprocess.Popen([PY, os.path.join(vh.VERIF, "harness/worker.py"), prop, inp, outp, os.path.join(scratch, f"w{i}")],
                                                      env=env, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)))
    res = []
    for i, outp, log, p in procs:
        p.wait()
        log.close()
        if p.returncode != 0 or not os.path.exists(outp):
            with open(log.name) as f:
                raise vh.MachineryError(f"worker {i} failed rc={p.returncode}\n" + f.read()[-4000:])
        with open(outp) as f:
            res.append(json.load(f))
    out = []
    for k in range(max(len(r) for r in res)):
        for r in res:
            if k < len(r):
                out.append(r[k])
    return out


def selftest(mod, traces, scratch):
    """Corrupt recorded traces; the specification must reject every corruption (binding check)."""
    if not hasattr(mod, "corrupt"):
        return 0
    rng = random.Random(7)
    bads = []
    for t in traces:
        if len(bads) >= 12:
            break
        c = mod.corrupt(copy.deepcopy(strip(t)), rng)
        if c is not None:
            bads.append(c)
    if not bads:
        raise vh.MachineryError("self-test: no trace could be corrupted")
    bad, _ = vh.tlc_traces(mod.TRACE, mod.TRACE + ".cfg", bads, scratch)
    missed = [i for i in range(len(bads)) if i not in {b[0] for b in bad}]
    if missed:
        raise vh.MachineryError(f"self-test: corrupted traces accepted: {[bads[i] for i in missed][:1]}")
    return len(bads)


def strip(t):
    """What TLC sees: everything but the scenario."""
    return {k: v for k, v in t.items() if k != "scn"}


def samples(traces):
    """A few of the cases actually checked (one per scenario kind, truncated)."""
    out, seen = [], set()
    for t in traces:
        k = t["scn"].get("kind", "?") if isinstance(t["scn"], dict) else "?"
        if k in seen or len(out) >= 6:
            continue
        seen.add(k)
        out.append({"kind": k, "scenario": json.dumps(t["scn"])[:600], "recorded": json.dumps(t["ev"])[:900]})
    return out


def load_known(prop):
    f = os.path.join(vh.VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    with open(f) as fh:
        return [k for k in json.load(fh).get("findings", []) if k["property"] == prop]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    rfile = None
    if "--replay" in sys.argv:
        rfile = sys.argv[sys.argv.index("--replay") + 1]
        args = [a for a in args if a != rfile]
        tier = "quick"
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f"vh_{prop}_")
    os.environ["VH_SCRATCH"] = scratch
    mod = importlib.import_module("props." + prop.lower())
    vh.ensure_version()
    rc = 2
    try:
        rc = decide(prop, mod, tier, rfile, scratch, t0)
    except vh.MachineryError as ex:
        print(f"ERROR property={prop}: {ex}")
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def note(t0, what):
    if os.environ.get("VH_TIMES"):
        sys.stderr.write(f"[{time.time() - t0:6.1f}] {what}\n")


def decide(prop, mod, tier, rfile, scratch, t0):
    sd = vh.seed()
    rng = random.Random(sd * 1000003 + sum(map(ord, prop)))
    nproc = getattr(mod, "NPROC", 8)
    states = trans = 0
    mc_info = []
    with cf.ThreadPoolExecutor(4) as ex:
        futs = []
        if not rfile:
            for module, cfg in mod.MODELS.get(tier, mod.MODELS["quick"]):
                futs.append((module, cfg, ex.submit(vh.tlc_check, module, cfg, workers=2, timeout=850 if tier == "quick" else 7200)))
        if rfile:
            with open(rfile) as f:
                scns = [json.load(f)["scn"]]
        else:
            gen = []
            for g in getattr(mod, "GENERATORS", {}).get(tier, getattr(mod, "GENERATORS", {}).get("quick", [])):
                s, r = vh.tlc_scenarios(g["module"], g["cfg"], g.get("simulate"), g.get("depth"), sd, workers=4)
                states += r["distinct"]
                trans += r["generated"]
                mc_info.append(f"{g['module']}/{g['cfg']}: {len(s)} behaviours generated")
                if g.get("limit") and len(s) > g["limit"]:
                    s = random.Random(sd).sample(s, g["limit"])
                gen += [dict(kind=g.get("kind", "gen"), h=x) for x in s]
            scns = mod.scenarios(rng, tier, gen)
        note(t0, f"{len(scns)} scenarios")
        traces = replay(prop, scns, scratch, nproc, getattr(mod, "BUDGET", {}).get(tier, 0))
        note(t0, "replayed")
        for module, cfg, fu in futs:
            r = fu.result()
            states += r["distinct"]
            trans += r["generated"]
            mc_info.append(f"{module}/{cfg}: {r['distinct']} distinct states, {r['generated']} generated, depth {r['depth']}, {r['secs']:.1f}s")
    note(t0, "models checked")
    seen = [strip(t) for t in traces]
    bad, r = vh.tlc_traces(mod.TRACE, mod.TRACE + ".cfg", seen, scratch)
    note(t0, "traces validated")
    nself = 0 if rfile or bad else selftest(mod, traces, scratch)
    vac = ""
    if hasattr(mod, "vacuity") and not rfile and not bad:
        vac = mod.vacuity(traces)       # description, or raises MachineryError
    known = load_known(prop)
    new, kn = [], {}
    for i, step, clause in bad:
        hit = None
        for k in known:
            if mod.matches(k, traces[i], step, clause):
                hit = k
                break
        if hit:
            kn.setdefault(hit["id"], (hit, 0))
            kn[hit["id"]] = (hit, kn[hit["id"]][1] + 1)
        else:
            new.append((i, step, clause))
    for k, n in kn.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    rdir = os.path.join(EVID, "replay")
    viol = []
    for n, (i, step, clause) in enumerate(new[:5]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}_{n}.json")
        ev = traces[i]["ev"][step] if step < len(traces[i]["ev"]) else {}
        with open(path, "w") as f:
            json.dump({"property": prop, "clause": clause, "step": step, "event": ev, "scn": traces[i]["scn"], "trace": seen[i]}, f, indent=1)
        viol.append({"replay": path, "clause": clause, "event": json.dumps(ev)[:400]})
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  clause: {clause}; step {step}; event {json.dumps(ev)[:250]}")
    if len(new) > 5:
        print(f"... and {len(new) - 5} more violating traces")
    nev = sum(len(t["ev"]) for t in traces)
    kinds = {}
    for t in traces:
        k = t["scn"].get("kind", "?") if isinstance(t["scn"], dict) else "?"
        kinds[k] = kinds.get(k, 0) + 1
    if not rfile:
        ev = {
            "property": prop, "tier": tier, "seed": sd, "level": mod.LEVEL,
            "coverage": {
                "states": states, "transitions": trans,
                "traces_validated_against_impl": len(traces), "samples": samples(traces),
                "models": mc_info, "events_validated": nev, "scenario_kinds": kinds,
                "trace_states": r["distinct"], "corrupted_traces_rejected": nself, "vacuity": vac,
            },
            "wall_s": round(time.time() - t0, 2),
            "violations": viol,
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
        }
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(traces)} traces / {nev} events validated, {states} model states, {len(new)} violations, {len(kn)} known, {time.time() - t0:.1f}s")
    return 1 if new else 0


if __name__ == "__main__":
    main()
