"""refac.py < edits: runs the layer-A obligations on scratch copies with behaviour-preserving edits; prints what is not discharged.

stdin: a Python list of (properties, file under src/orquestra/quantum, [(old, new), ...])."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor


def one(edit):
    props, f, edits = edit
    d = tempfile.mkdtemp(prefix="ref")
    try:
        shutil.copytree("/repo/src", d + "/src")
        p = f"{d}/src/orquestra/quantum/{f}"
        s = open(p).read()
        for old, new in edits:
            if old not in s:
                return f"== {f} {old[:70]!r} NOT FOUND"
            s = s.replace(old, new, 1)
        open(p, "w").write(s)
        env = dict(os.environ, PYTHONPATH=d + "/src", VC_PROCS="3", PYTHONHASHSEED="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
        out = [f"== {f} {edits[0][0][:60]!r} -> {edits[0][1][:60]!r}"]
        for prop in props.split():
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "vc.pyvc.driver", prop, "quick", d + "/o.json", *sys.argv[1:]], env=env, cwd="/verif", capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                out.append(f"   {prop} TIMEOUT")
                continue
            if r.returncode:
                out.append(f"   {prop} crash " + r.stderr[-600:])
            else:
                for o in json.load(open(d + "/o.json"))["obligations"]:
                    if o["status"] != "discharged":
                        out.append(f"   {prop} {o['name']} {o['status']} " + o["detail"][:300].replace("\n", " | "))
        return "\n".join(out)
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "2"))) as ex:
    for out in ex.map(one, eval(sys.stdin.read())):
        print(out + ("" if "\n" in out else "   QUIET"), flush=True)
