"""plant.py ID PROPERTY FILE 'needs' 'what' < sed-like python edits

Usage (dev only): prepare /tmp/plant/<ID>/{edit.py,demo.py}; edit.py defines EDITS=[(file, old, new)].
Confirms in a scratch worktree that the tests still pass, the demo passes without and fails with the change, and
stores patch.diff, demo.sh, demo files and meta.json in /verif/seeded/<ID>/.
"""
import json, os, shutil, subprocess, sys, importlib.util
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(pid, skip_tests=False):
    src = f"/tmp/plant/{pid}"
    sp = importlib.util.spec_from_file_location("e", src + "/edit.py"); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    dst = f"{V}/seeded/{pid}"; os.makedirs(dst, exist_ok=True)
    assert sh("git -C /repo status --porcelain --untracked-files=no").stdout == "", "dirty /repo"
    shutil.copy(f"{V}/harness/standins.py", dst + "/standins.py")
    shutil.copy(src + "/demo.py", dst + "/demo.py"); "simplemake" in open(src + "/demo.py").read() and shutil.copy("/verif/tools/simplemake.py", dst + "/simplemake.py")
    with open(dst + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nw=$(mktemp -d); trap \'rm -rf "$w"\' EXIT\nexport PYTHONPATH=/repo:"$d" MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1 TMPDIR="$w"\ncd "$w" && timeout 280 /opt/venv/bin/python "$d/demo.py"\n')
    os.chmod(dst + "/demo.sh", 0o755)
    def restore(): sh("git -C /repo checkout -- .")
    try:
        r = sh(f"bash {dst}/demo.sh", cwd="/repo")
        if r.returncode != 0: print("DEMO FAILS ON CLEAN TREE\n" + r.stdout[-1500:]); return 1
        for f, a, b in m.EDITS:
            t = open("/repo/" + f).read(); assert t.count(a) == 1, (f, a, t.count(a))
            open("/repo/" + f, "w").write(t.replace(a, b))
        open(dst + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        r = sh(f"bash {dst}/demo.sh", cwd="/repo")
        if r.returncode == 0: print("DEMO PASSES WITH PATCH"); return 1
        print("demo fails:", r.stdout.strip().splitlines()[-1][:200] if r.stdout.strip() else r.returncode)
        if not skip_tests:
            sh("bash /opt/vp/test.sh /tmp/plant_t.json")
            a = json.load(open("/tmp/plant_t.json")); b = json.load(open("/opt/vp/BASELINE.json"))
            miss = [x for x in b["stable"] if x not in a["passed"]]
            if miss: print("TESTS BROKEN", miss); return 1
        c = sh(f"{V}/bin/check {m.PROP} quick", cwd=V)
        got = c.returncode == 1 and f"VIOLATION property={m.PROP}" in c.stdout
        print("CAUGHT" if got else f"MISSED rc={c.returncode}", "|", (c.stdout.strip().splitlines() or [""])[-1][:200])
        if got: print("   ", [l for l in c.stdout.splitlines() if "clause" in l][0][:200])
        json.dump({"property": m.PROP, "needs": m.NEEDS, "what_it_breaks": m.WHAT}, open(dst + "/meta.json", "w"), indent=1)
        return 0
    finally:
        restore()
if __name__ == "__main__":
    sys.exit(main(sys.argv[1], "--notest" in sys.argv))
