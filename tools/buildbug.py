"""build.py FILE.py [ids]: build seeded bugs defined in FILE.py"""
import sys, os, subprocess, shutil, json, importlib.util
spec = importlib.util.spec_from_file_location("bugs", sys.argv[1]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
want = sys.argv[2:]
SH = '''#!/bin/bash
# exit 0 if the property held in the demonstrated situation, 1 otherwise
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="${MPLCONFIGDIR:-/opt/venv/mplconfig}" PYTHONPATH="$PWD/src"
exec /opt/venv/bin/python "$D/demo.py"
'''
from concurrent.futures import ThreadPoolExecutor
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def build(b):
    i = b["id"]; w = f"/tmp/bw/{i}"
    shutil.rmtree(w, ignore_errors=True)
    sh(f"cp -a /repo {w}")
    out = f"/tmp/bw/{i}.out"; shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    for f, old, new in b["edits"]:
        p = f"{w}/src/barotropic/{f}"; s = open(p).read()
        if s.count(old) != 1: return i, f"edit text found {s.count(old)} times in {f}: {old[:60]!r}"
        open(p, "w").write(s.replace(old, new))
    d = sh(f"git -C {w} diff").stdout
    open(f"{out}/patch.diff", "w").write(d)
    open(f"{out}/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(f"{out}/demo.sh", "w").write(SH); os.chmod(f"{out}/demo.sh", 0o755)
    json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{out}/meta.json", "w"), indent=1)
    r0 = sh(f"cd /repo && timeout 300 bash {out}/demo.sh")
    if r0.returncode: return i, f"demo fails on clean tree: {r0.stdout[-500:]} {r0.stderr[-1500:]}"
    r1 = sh(f"cd {w} && timeout 300 bash {out}/demo.sh")
    if r1.returncode == 0: return i, f"demo passes with the bug: {r1.stdout[-300:]}"
    t = sh(f"unshare -Urm bash -c 'mount --bind {w} /repo && cd /repo && bash /opt/vp/build.sh && bash /opt/vp/test.sh {out}/t.json'")
    try:
        res = json.load(open(f"{out}/t.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    except Exception as e: return i, f"tests: {e} {t.stdout[-800:]} {t.stderr[-500:]}"
    os.remove(f"{out}/t.json")
    tail = t.stdout.strip().splitlines()
    fails = [l for l in tail if ("failed" in l and "passed" in l and " 0 failed" not in l) or l.startswith("FAILED")] or ([] if any("100 passed, 0 failed" in l for l in tail) else ["no summary"])
    if fails: return i, f"existing tests fail: {fails[:3]}"
    dst = f"/verif/seeded/{i}"; shutil.rmtree(dst, ignore_errors=True); shutil.copytree(out, dst)
    return i, "ok | demo: " + (r1.stdout + r1.stderr).strip().splitlines()[-1][:150]
todo = [b for b in mod.BUGS if not want or b["id"] in want]
with ThreadPoolExecutor(4) as ex:
    for i, m in ex.map(build, todo): print(i, "::", m, flush=True)
