"""Worker process: replays scenarios of one property in the real code and records traces."""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vh  # noqa: E402


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def main():
    prop, inp, outp, scratch = sys.argv[1:5]
    mod = importlib.import_module("props." + prop.lower())
    with open(inp) as f:
        scns = json.load(f)
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    with vh.quiet():
        cm = vh.import_cm()
        ctx = mod.setup(cm, scratch)
    signal.signal(signal.SIGALRM, _alarm)
    limit = getattr(mod, "SCENARIO_TIMEOUT", 120)
    budget = float(os.environ.get("VH_BUDGET", "0") or 0)
    t0 = time.time()
    out = []
    for i, scn in enumerate(scns):
        if budget and time.time() - t0 > budget:
            break
        random.seed(12345)
        signal.alarm(limit)
        ts = time.time()
        os.chdir(scratch)
        ev = []
        try:
            with vh.quiet():
                tr = mod.run(ctx, scn, ev) or {}
        except Timeout:
            tr = {}
            ev.append({"op": "crash", "exc": "timeout"})
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as ex:  # noqa: BLE001 - an escaped exception is an observation
            tr = {}
            tb = traceback.extract_tb(ex.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-3:]
            ev.append({"op": "crash", "exc": f"{type(ex).__name__}: {str(ex)[:160]} @ {' '.join(where)}"})
        finally:
            signal.alarm(0)
        tr["ok"] = not (ev and ev[-1]["op"] == "crash")
        if not tr["ok"]:
            ev = ev[-1:]            # an escaped exception is the only observation of this scenario
        if os.environ.get("VH_TIMES"):
            sys.stderr.write(f"TIME {time.time() - ts:.3f} {json.dumps(scn)[:100]}\n")
        tr["scn"] = scn
        tr["ev"] = ev
        out.append(tr)
    with open(outp, "w") as f:
        json.dump(out, f)
    # leave without running interpreter teardown of heavy libraries
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
