"""Write /verif/MANIFEST.json from the properties and the drivers present."""
import importlib.util, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    f = os.path.join(V, "harness", "props", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": pid, "reason": "specification and driver not built yet"})
        continue
    spec = importlib.util.spec_from_file_location("m", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    checks.append({
        "property": pid,
        "quick_cmd": f"bin/check {pid} quick",
        "thorough_cmd": f"bin/check {pid} thorough",
        "technique": getattr(m, "TECHNIQUE", f"TLA+ ({m.MODELS['quick'][0][0]}) model-checked with TLC; behaviours replayed in the real code; recorded traces validated by TLC ({m.TRACE})"),
        "level": m.LEVEL,
        "level_note": getattr(m, "LEVEL_NOTE", "exhaustive within the bounds of the .cfg files; the binding to the code is by replayed and recorded traces, so the implementation is explored on the generated and seeded scenarios"),
    })
out = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo. The Rust extension cannot be built offline: the Python code is driven with numpy stand-ins (harness/standins.py), part of the specification's environment. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(out, fh, indent=1)
    fh.write("\n")
