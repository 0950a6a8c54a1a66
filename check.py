#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough] : decides one property on /repo's current working tree.

Runs with python3-vt (the verifier's Python); concrete runs use /opt/venv on a scratch build.
Exit 0: held on everything explored.  Exit 1: a line VIOLATION property=.. replay=..
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
LEVELS = json.load(open(os.path.join(HERE, "tools", "levels.json")))
sys.dont_write_bytecode = True


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p))["findings"]:
            if e["property"] == prop:
                out.append(e)
    return out


def rac_start(prop, tier, seed, work):
    """build the scratch tree and run the concrete clauses in the background"""
    tree, out = os.path.join(work, "tree"), os.path.join(work, "rac.json")
    budget = {"quick": 7, "thorough": 150}[tier]
    code = (f"import sys,subprocess,json,os\nsys.path.insert(0,{os.path.join(HERE, 'rac')!r})\nimport build\nos.makedirs({tree!r})\n"
            f"e=build.build({tree!r})\n"
            f"if e: json.dump({{'error':'build failed: '+e}},open({out!r},'w'))\n"
            f"else: subprocess.run([{VENV!r},{os.path.join(HERE, 'rac', 'run.py')!r},'--tree',{tree!r},'--prop',{prop!r},'--seed',{str(seed)!r},"
            f"'--budget',{str(budget)!r},'--workers','{4 if tier == 'quick' else 6}','--out',{out!r}],stdout=subprocess.DEVNULL,stderr=open({os.path.join(work, 'rac.err')!r},'w'))\n")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    return subprocess.Popen([sys.executable, "-c", code], env=env), out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"verif-{a.prop}-")
    try:
        rc = decide(a.prop, tier, seed, work, t0, not a.no_proof)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(prop, tier, seed, work, t0, with_proof):
    proc, out = rac_start(prop, tier, seed, work)
    proof = None
    if with_proof and os.path.exists(os.path.join(HERE, "pyvc", "drive.py")):
        from pyvc import drive
        proof = drive.prove_property(prop, tier)
    proc.wait()
    rac = json.load(open(out)) if os.path.exists(out) else {"error": "the concrete runs produced no result: " + open(os.path.join(work, "rac.err")).read()[-800:]
                                                           if os.path.exists(os.path.join(work, "rac.err")) else "no result"}
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    violations = []
    known = known_findings(prop)

    def is_known(text):
        return any(k.get("match") and k["match"] in text for k in known)

    def replay(name, d):
        p = os.path.join(rdir, f"{prop}-{name}.json")
        json.dump(d, open(p, "w"), indent=1)
        return p
    concrete = []
    if rac.get("error"):
        concrete.append((replay("build", {"property": prop, "error": rac["error"]}), rac["error"]))
    done = set()
    for c in rac.get("fails", []):
        if is_known(c["clause"] + " " + c["message"]) or c["clause"] in done:
            continue
        done.add(c["clause"])
        c = dict(c, property=prop)
        p = replay(c["clause"], {"property": prop, "case": c, "how": "rac/build.py TREE; rac/run.py --tree TREE --replay THIS (with /opt/venv/bin/python)"})
        concrete.append((p, c["clause"] + ": " + c["message"]))
    failed = [o for o in proof["failed"] if not is_known(o["name"])] if proof else []
    lines = []
    if failed:
        for o in failed[:8]:
            print(f"FAILED OBLIGATION {o['name']}: {o['text'][:400]}")
    if concrete:
        for p, msg in concrete:
            print("COUNTEREXAMPLE", msg[:600])
        p = concrete[0][0]
        if failed:
            d = json.load(open(p))
            d["failed_obligations"] = failed[:8]
            json.dump(d, open(p, "w"), indent=1)
        lines.append(f"VIOLATION property={prop} replay={p}")
    elif failed:
        p = replay("obligation", {"property": prop, "failed_obligations": failed[:20],
                                  "how": f"python3-vt -m pyvc.drive {prop} (in /verif)"})
        lines.append(f"VIOLATION property={prop} replay={p} no-failing-input-found")
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    evidence(prop, tier, seed, t0, rac, proof, len(lines))
    for l in lines:
        print(l)
    if not lines:
        if proof:
            print(f"{prop}: {proof['discharged']} of {proof['obligations']} obligations discharged, {len(proof['undecided'])} contracts undecided; "
                  f"{sum(rac.get('counts', {}).values())} concrete cases (bounded)")
        else:
            print(f"{prop}: {sum(rac.get('counts', {}).values())} concrete cases")
    return 1 if lines else 0


def evidence(prop, tier, seed, t0, rac, proof, nviol):
    cov = {}
    n = sum(rac.get("counts", {}).values())
    cov["bounded_runs"] = {"label": "bounded: concrete executions of the contract clauses on the real build, never counted as proved",
                           "evaluations": n, "per_clause": rac.get("counts", {}), "skipped": rac.get("nskip", 0),
                           "rule": "each case is a seeded random configuration of the library (priors, spaces, nesting, dimensions, targets, samplers) run through "
                                   "the real code and compared with an independent oracle"}
    level = "exploration"
    assumptions = []
    if proof:
        level = LEVELS.get(prop, LEVELS["default"])["level"]
        cov.update(proof["evidence"])
        assumptions = proof["assumptions"]
        cov["obligations"], cov["discharged"] = proof["obligations"], proof["discharged"]
    else:
        cov["evaluations"] = n
        cov["distinct_nontrivial"] = n
        cov["rule"] = cov["bounded_runs"]["rule"]
    cov["samples"] = rac.get("samples", []) if not proof else proof["evidence"].get("samples", [])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    main()
