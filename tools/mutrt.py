"""mutrt.py PROP < edits: runs the run-time contracts of PROP (layer B alone) on scratch copies of the source, one per edit.

stdin: a Python list of (file under src/orquestra/quantum, old, new); every edit is tried alone."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

prop = sys.argv[1]
CODE = """
import json, sys
from vc import rtcore
r = rtcore.run_property(sys.argv[1], 1, "quick")
known = {("C07", "nested_modifiers"), ("C07", "exp_of_T"), ("C08", "inverse_with_fractional_powers"), ("C05", "constants_and_symbols_of_the_same_name"), ("C05", "symbols_with_assumptions"), ("C18", "controlled_u3")}
d = {}
for f in r["fails"]:
    if f.get("klass") and (sys.argv[1], f["contract"]) in known: continue
    d.setdefault(f["contract"], []).append(f["message"])
print("RES", json.dumps({k: [len(v), v[0][:90]] for k, v in d.items()}))
"""


def one(edit):
    f, old, new = edit
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree(os.environ.get("SRC", "/repo/src"), d + "/src")
        p = f"{d}/src/orquestra/quantum/{f}"
        s = open(p).read()
        if old not in s:
            return f"== {f} {old[:60]!r} NOT FOUND"
        open(p, "w").write(s.replace(old, new, 1))
        env = dict(os.environ, PYTHONPATH=d + "/src:/verif", VERIF_PROCS="2", PYTHONHASHSEED="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-B", "-W", "ignore", "-c", CODE, prop], env=env, cwd=d, capture_output=True, text=True, timeout=600)
            res = [l for l in r.stdout.splitlines() if l.startswith("RES")]
            out = res[0][4:] if res else "crash " + r.stderr[-200:]
        except subprocess.TimeoutExpired:
            out = "timeout"
        return f"== {f} {old[:90]!r} -> {new[:90]!r}\n    " + ("MISSED" if out == "{}" else out)
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "3"))) as ex:
    for out in ex.map(one, eval(sys.stdin.read())):
        print(out, flush=True)
