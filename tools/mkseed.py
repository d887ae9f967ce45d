"""mkseed.py ID PROP FILE <<< python literal dict(edits=[(file, old, new)], demo=str, needs=str, breaks=str)
builds the patch in a scratch copy, checks that it applies, the tests pass and the demo separates."""
import json, os, shutil, subprocess, sys, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/seedwork"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def fresh():
    if os.path.exists(WORK):
        shutil.rmtree(WORK)
    os.makedirs(WORK)
    sh(f"git -C /repo archive HEAD | tar -x -C {WORK}")

def main(spec):
    sid, prop = spec["id"], spec["property"]
    fresh()
    sh("git init -q; git add -A; git -c user.email=a@b -c user.name=x commit -qm base", cwd=WORK)
    for f, old, new in spec["edits"]:
        p = os.path.join(WORK, f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", cwd=WORK).stdout
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=prop, needs=spec["needs"], what_it_breaks=spec["breaks"]), open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.py", "w").write(spec["demo"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    # demo on unchanged tree
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
    # with patch: PYTHONPATH shadows the editable install
    env = dict(os.environ, PYTHONPATH=WORK + "/src", PYTHONDONTWRITEBYTECODE="1")
    w = sh("/opt/venv/bin/python -B -c 'import orquestra.quantum as q; print(q.__path__)'", cwd=WORK, env=env).stdout.strip()
    r1 = sh(f"bash {d}/demo.sh", cwd=WORK, env=env)
    t = sh("/opt/venv/bin/python -B -m pytest -q -p no:cacheprovider -x -n0 tests 2>&1 | tail -4" if False else
           "/opt/venv/bin/python -B -m pytest -q -p no:cacheprovider tests 2>&1 | tail -4", cwd=WORK, env=env)
    ok = r0.returncode == 0 and r1.returncode != 0 and "failed" not in t.stdout and "error" not in t.stdout.lower() and WORK in w
    print(sid, "OK" if ok else "BAD", "demo clean", r0.returncode, "patched", r1.returncode, "|", t.stdout.strip().splitlines()[-1:], "" if ok else (w, r0.stdout[-500:] + r0.stderr[-500:], r1.stderr[-300:], t.stdout[-800:]))
    if not ok and not spec.get("keep"):
        shutil.rmtree(d)
    shutil.rmtree(WORK)

for spec in ast.literal_eval(sys.stdin.read()) if False else eval(sys.stdin.read()):
    try:
        main(spec)
    except AssertionError as e:
        print("ASSERT", e)
