"""mut.py PROP [NAMES...] < edits: runs the layer-A obligations of PROP on scratch copies of the source.

stdin: a Python list of (file under src/orquestra/quantum, old, new); every edit is tried alone."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

prop, names = sys.argv[1], sys.argv[2:]


def one(edit):
    f, old, new = edit
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree(os.environ.get("SRC", "/repo/src"), d + "/src")
        p = f"{d}/src/orquestra/quantum/{f}"
        s = open(p).read()
        assert old in s, (f, old)
        open(p, "w").write(s.replace(old, new, 1))
        env = dict(os.environ, PYTHONPATH=d + "/src", VC_PROCS="2", PYTHONHASHSEED="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
        r = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "vc.pyvc.driver", prop, "quick", d + "/o.json", *names], env=env, cwd="/verif", capture_output=True, text=True, timeout=900)
        out = [f"== {f} {old[:60]!r} -> {new[:60]!r}"]
        if r.returncode:
            out.append("   crash " + r.stderr[-600:])
        else:
            for o in json.load(open(d + "/o.json"))["obligations"]:
                if o["status"] != "discharged":
                    out.append(f"    {o['name']} {o['status']} " + o["detail"][:160].replace("\n", " | "))
        return "\n".join(out)
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(4) as ex:
    for out in ex.map(one, eval(sys.stdin.read())):
        print(out + ("" if "\n" in out else "\n    MISSED"), flush=True)
