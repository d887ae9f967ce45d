"""Check of one property: python -m vc.main C01"""
import argparse
import json
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def parse_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                head, _, desc = line[len("finding:"):].partition("::")
                d = dict(x.split("=", 1) for x in head.split())
                d["desc"] = desc.strip()
                out.append(d)
    return out


def write_replay(prop, tag, obj):
    d = os.path.join(VERIF, "out", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{tag}.json")
    json.dump(obj, open(p, "w"), indent=1, default=str)
    return p


def undecided(prop, why):
    return dict(obligations=[dict(name="all", status="undecided", backend="", paths=0, queries=0, time_s=0, detail=why)],
                trusted=[], functions=[], drops=[], vacuity=[], assumptions=[])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--replay")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--no-rt", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    if a.replay:
        return replay(a.replay)

    # layer A in its own process
    proof_file = os.path.join(VERIF, "vc", "proof", prop.lower() + ".py")
    proof_proc = None
    pr_out = os.path.join(VERIF, "out", f"proof-{prop}-{os.getpid()}.json")
    if os.path.exists(proof_file) and not a.no_proof:
        os.makedirs(os.path.dirname(pr_out), exist_ok=True)
        proof_proc = subprocess.Popen(
            [sys.executable, "-B", "-W", "ignore", "-m", "vc.pyvc.driver", prop, tier, pr_out],
            cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )

    rt = None
    if not a.no_rt:
        from vc import rtcore

        rt = rtcore.run_property(prop, seed, tier, a.only)
    proof = None
    if proof_proc is not None:
        try:
            txt, _ = proof_proc.communicate(timeout=max(60, (780 if tier == "quick" else 3400) - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            proof_proc.kill()
            txt = "the verifier ran out of time"
            proof = undecided(prop, txt)
        if proof is None and (proof_proc.returncode != 0 or not os.path.exists(pr_out)):
            # the obligations could not be generated from the current source
            print(txt[-4000:])
            proof = undecided(prop, f"the verifier stopped (rc={proof_proc.returncode}): {txt[-1500:]}")
        if proof is None:
            proof = json.load(open(pr_out))
            os.unlink(pr_out)
        if a.v:
            print(txt)

    known = [k for k in parse_known() if k["property"] == prop]
    violations = []
    seen_known = {}
    per_contract = {}
    for f in (rt or {"fails": []})["fails"]:
        hit = next((k for k in known if k["contract"] == f["contract"] and k["class"] == f["klass"]), None)
        if hit is not None:
            seen_known.setdefault(hit["class"], (hit, f))
        else:
            per_contract.setdefault(f["contract"], []).append(f)
    for name, fs in per_contract.items():
        f = fs[0]
        p = write_replay(prop, name, dict(kind="runtime-contract", property=prop, tier=tier, n_failing=len(fs), **f))
        violations.append((p, ""))
        print(f"[{prop}] contract {name} fails on case {f['index']} ({len(fs)} failing): {f['message'][:1500]}\n   input: {json.dumps(f['notes'])[:1500]}")
    failed_obl = []
    if proof is not None:
        for o in proof["obligations"]:
            if o["status"] != "discharged":
                failed_obl.append(o)
        if not proof["obligations"]:
            failed_obl = undecided(prop, "no obligations were generated")["obligations"]
        for o in failed_obl:
            print(f"[{prop}] obligation {o['name']}: {o['status']}: {str(o.get('detail'))[:1500]}")
        if failed_obl:
            with_input = [o for o in failed_obl if o.get("replayed")]
            if with_input:
                p = write_replay(prop, "obligation", dict(kind="obligation", property=prop, failed=with_input))
                violations.append((p, ""))
            elif not violations:
                p = write_replay(prop, "obligation", dict(kind="obligation", property=prop, failed=failed_obl))
                violations.append((p, " no-failing-input-found"))
    for hit, f in seen_known.values():
        print(f"KNOWN-FINDING: property={prop} {hit['desc']}")
    for p, suffix in violations:
        print(f"VIOLATION property={prop} replay={p}{suffix}")

    write_evidence(prop, tier, seed, rt, proof, len(violations), time.time() - t0, list(seen_known), failed_obl)
    n_o = len(proof["obligations"]) if proof else 0
    n_b = sum(bool(o.get("bounded")) for o in proof["obligations"]) if proof else 0
    print(f"{prop}: obligations {n_o - len(failed_obl)}/{n_o} discharged{f' ({n_b} of them bounded)' if n_b else ''}; run-time contract evaluations "
          f"{rt['evaluations'] if rt else 0} (skipped {rt['skipped'] if rt else 0}, distinct {rt['distinct'] if rt else 0})"
          f"{' CUT:' + ','.join(rt['cut']) if rt and rt['cut'] else ''}; {time.time() - t0:.1f}s")
    if a.v and rt:
        print(json.dumps(rt["contracts"], indent=1))
    return 1 if violations else 0


def write_evidence(prop, tier, seed, rt, proof, nviol, wall, known, failed):
    man = {}
    try:
        man = {c["property"]: c for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]}
    except Exception:
        pass
    level = man.get(prop, {}).get("level", "other")
    cov = {}
    assumptions = []
    if proof:
        every = proof["obligations"]
        obl = [o for o in every if not o.get("bounded")]
        cov.update(
            obligations=len(obl),
            discharged=sum(o["status"] == "discharged" for o in obl),
            bounded_obligations=[dict(name=o["name"], bound=o["bounded"], status=o["status"]) for o in every if o.get("bounded")],
            checker_cmd=f"cd /verif && VERIF_TIER={tier} ./run.sh {prop}",
            trusted_base=proof["trusted"],
            obligation_list=[{k: o.get(k) for k in ("name", "text", "status", "backend", "paths", "queries", "proves", "time_s")} for o in obl],
            functions_under_contract=proof["functions"],
            extraction_drops=proof.get("drops", []),
            solver_time_s=round(sum(o.get("time_s") or 0 for o in obl), 2),
            backends=sorted({o.get("backend") or "" for o in obl}),
            vacuity_checks=proof.get("vacuity", []),
        )
        assumptions += proof.get("assumptions", [])
    if rt:
        cov.update(
            evaluations=rt["evaluations"],
            distinct_nontrivial=rt["distinct"],
            rule="seeded/enumerated inputs per run-time contract (bounded layer B, never counted as proved); a case is "
            "non-trivial unless the contract marked it degenerate; distinct by the recorded input description",
            samples=rt["samples"][:8] or [{"none": 1}],
            runtime_contracts=rt["contracts"],
            budget_cut=rt["cut"],
        )
    cov["explanation"] = man.get(prop, {}).get("level_note", "contracts discharged deductively plus bounded run-time contracts")
    if known:
        cov["known_findings_observed"] = known
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(
        dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
             wall_s=round(wall, 2), violations=nviol),
        open(os.path.join(d, prop + ".json"), "w"), indent=1, default=str,
    )


def replay(path):
    d = json.load(open(path))
    if d["kind"] == "runtime-contract":
        from vc import rtcore

        rtcore.load(d["property"])
        c = rtcore.REG[d["property"]][d["contract"]]
        st, ctx, msg = rtcore.run_case(c, d["seed"], d["index"], d["tier"])
        print(st, msg, json.dumps(ctx.notes, indent=1))
        return 1 if st == "fail" else 0
    print(json.dumps(d, indent=1))
    return 1


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
