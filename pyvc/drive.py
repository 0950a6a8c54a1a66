"""decides a property: every proof and contract that names it is discharged anew from /repo's current source

python3-vt -m pyvc.drive C01 [-r ROOT] [-v]"""
import glob
import json
import os
import re
import select
import signal
import sys
import threading
import time
from .verifier import SMALL

HERE = os.path.dirname(os.path.abspath(__file__))
WORKERS = int(os.environ.get("PYVC_WORKERS", "5"))
BUDGET = {"quick": 100, "thorough": 420}
OVERALL = {"quick": 420, "thorough": 620}
SECOND = {"quick": 240, "thorough": 200}


def contract_files():
    return sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(os.path.dirname(HERE), "contracts", "*.py")) if not f.endswith("__init__.py"))


def load(root):
    """(verifier, problems): every contract file that can be read against the current source"""
    from .verifier import Verifier
    from .engine import PyRaise, RetX
    from .values import Unsupported, PathAbort
    from .contract import install
    V = Verifier(root)
    V.contract_defs, V.proof_defs, V.file_of = {}, [], {}
    bad = []
    for f in contract_files():
        n0, c0 = len(V.proof_defs), set(V.contract_defs)
        try:
            V.module("contracts." + f)
        except (Unsupported, PathAbort) as e:
            bad.append((f, f"unsupported: {e} (at {V.where})"))
        except PyRaise as e:
            bad.append((f, f"{e.exc.cls.name} while loading (at {e.where})"))
        except SyntaxError as e:
            bad.append((f, f"source not readable: {e}"))
        except Exception as e:
            bad.append((f, f"internal error {type(e).__name__}: {e} (at {V.where})"))
    install(V)
    return V, bad


def props_of_file(f):
    """property names a contract file mentions (used when it cannot be loaded)"""
    with open(os.path.join(os.path.dirname(HERE), "contracts", f + ".py")) as fh:
        return set(re.findall(r"\"(C\d\d)\"", fh.read()))


def in_child(fn, w):
    """run fn in this forked process with a deep stack and send its result"""
    out = {}

    def go():
        try:
            out["r"] = fn()
        except BaseException as e:
            out["r"] = {"error": f"internal error {type(e).__name__}: {e}"}
    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    with os.fdopen(w, "w") as f:
        json.dump(out.get("r", {"error": "no result"}), f)
    os._exit(0)


def run_all(V, todo, budget, end):
    """run jobs (key, opts, thunk, small, patience) in forked children, WORKERS at a time"""
    res, live, queue = {}, {}, list(todo)
    while queue or live:
        while queue and len(live) < WORKERS:
            key, opts, thunk, small, patience = queue.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)

                def job():
                    V.under_set = set(opts.get("under", ()))
                    V.small, V.patience = small, patience
                    return V.run_proof(key[0], thunk, budget)
                in_child(job, w)
            os.close(w)
            live[r] = (pid, key, time.time(), [])
        rs, _, _ = select.select(list(live), [], [], 1.0)
        for r in rs:
            b = os.read(r, 1 << 20)
            if b:
                live[r][3].append(b)
                continue
            os.close(r)
            pid, key, t, buf = live.pop(r)
            os.waitpid(pid, 0)
            try:
                res[key] = json.loads(b"".join(buf))
            except ValueError:
                res[key] = {"error": "the verifier process ended without a result"}
        now = time.time()
        for r, (pid, key, t, buf) in list(live.items()):
            if now - t > budget + 40 or now > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                res[key] = {"error": "time limit"}
        if now > end:
            for key, *_ in queue:
                res[key] = {"error": "time limit"}
            queue = []
    return res


def second_look(V, todo, res, prop, tier, end):
    """proofs with an undecided part: once more with longer solver limits, and with every size fixed to a few small values.
    A counterexample at small sizes is a counterexample; small sizes without one are a bounded check only."""
    again = []
    for name, props, opts, thunk in todo:
        r = res.get(name, {"error": "not run"})
        open_ = [o for o in r.get("obligations", []) if concerns(o["name"], prop) and o["status"] == "unknown"]
        if open_ or r.get("error"):
            if open_ and not r.get("error"):
                again.append(((name, "patient"), opts, thunk, None, 5))
            again += [((name, k), opts, thunk, k, 1) for k in range(len(SMALL))]
    if not again:
        return {}
    return run_all(V, again, BUDGET[tier], end)


def concerns(name, prop):
    """obligations named 'C02,C04: ...' belong to those properties, others to every property of the proof"""
    m = re.match(r"((?:C\d\d,?)+):", name)
    return not m or prop in m.group(1).split(",")


def prove_property(prop, tier, root=None):
    root = root or os.environ.get("PYVC_REPO", "/repo")
    t0 = time.time()
    box = {}

    def go():
        box["v"] = load(root)
    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    threading.stack_size(0)
    if "v" not in box:
        return dict(failed=[], undecided=["loading the contracts failed"], obligations=0, discharged=0, evidence={"samples": []}, assumptions=[])
    V, bad = box["v"]
    todo = [p for p in V.proofs if prop in p[1]]
    end = t0 + OVERALL[tier]
    res = {k[0]: r for k, r in run_all(V, [((name, None), opts, thunk, None, 1) for name, props, opts, thunk in todo], BUDGET[tier], end).items()}
    more = second_look(V, todo, res, prop, tier, max(end, time.time() + SECOND[tier]))
    for (name, kind), r in more.items():
        if kind == "patient" and not r.get("error"):
            res[name] = r
    failed, undecided, nob, ndis = [], [], 0, 0
    under, inlined, by, solver, samples, used = [], set(), {}, 0.0, [], set()
    detail = []
    for f, why in bad:
        if prop in props_of_file(f):
            undecided.append(f"contract file {f}: {why}")
            nob += 1
    for name, props, opts, thunk in todo:
        r = res.get(name, {"error": "not run"})
        obs = [o for o in r.get("obligations", []) if concerns(o["name"], prop)]
        bad_o = [o for o in obs if o["status"] != "proved"]
        nob += len(obs)
        ndis += len(obs) - len(bad_o)
        small = [(k, more[name, k]) for k in range(len(SMALL)) if (name, k) in more]
        done = [x for k, x in small if not x.get("error") and any(concerns(o["name"], prop) for o in x.get("obligations", []))]
        known = {o["name"] for o in bad_o if o["status"] == "refuted"}
        for k, x in small:
            for o in x.get("obligations", []):
                if o["status"] == "refuted" and concerns(o["name"], prop) and o["name"] not in known:
                    known.add(o["name"])
                    failed.append({"name": f"{name}: {o['name']}", "text": f"at {o['where']}, sizes among {SMALL[k]}: {o['text']}"})
        for o in bad_o:
            if o["status"] == "refuted":
                failed.append({"name": f"{name}: {o['name']}", "text": f"at {o['where']}: {o['text']}"})
            elif o["name"] not in known:
                tried = [q["status"] for x in done for q in x["obligations"] if q["name"] == o["name"]]
                if len(tried) > 1 and all(s == "proved" for s in tried):
                    undecided.append(f"{name}: {o['name']} (holds for the small sizes tried: bounded)")
                else:
                    failed.append({"name": f"{name}: {o['name']}", "text": f"at {o['where']}: neither proved nor refuted: {o['text']}"})
        if r.get("error"):
            stuck = sorted({q["name"] for x in done for q in x["obligations"] if q["status"] == "unknown" and concerns(q["name"], prop)} - known)
            undecided.append(f"{name}: {r['error']}" + (f"; at the small sizes tried: {len(done)} complete, without answer: {stuck}" if small else ""))
            nob += 1
        elif not obs:
            undecided.append(f"{name}: no obligation was generated")
            nob += 1
        for c, ok in (r.get("covers") or {}).items():
            if not ok:
                undecided.append(f"{name}: '{c}' is not reachable, the proof is vacuous")
                nob += 1
        under += [q for q in opts.get("under", ()) if q not in under]
        inlined |= set(r.get("inlined", []))
        used |= set(r.get("contracts", []))
        solver += r.get("solver_s", 0)
        for k, v in (r.get("by") or {}).items():
            by[k] = by.get(k, 0) + v
        detail.append({"contract": name, "obligations": len(obs), "discharged": len(obs) - len(bad_o), "paths": r.get("paths"),
                       "solver_s": r.get("solver_s"), "wall_s": r.get("time"), "error": r.get("error"), "reachability": r.get("covers")})
        samples += [f"{name}: {o['name']} [{o['status']}, {o['paths']} path(s)]" for o in obs[:3]]
    ev = {"checker_cmd": f"cd /verif && python3-vt -m pyvc.drive {prop} -v",
          "functions_under_contract": under, "functions_executed_symbolically": sorted(inlined), "called_by_contract": sorted(used),
          "by_back_end": by, "solver_time_s": round(solver, 2), "contracts": detail, "undecided": undecided,
          "trusted_base": ["pyvc (this directory's verification-condition generator for the Python/Cython subset)", "z3 5.3.2", "cvc5 1.4.2",
                           "pyvc.ring: normalisation of real polynomials, logarithms and finite sums", "pyvc.models: contracts of built-ins, numpy, random, bisect, copy, joblib"],
          "samples": samples[:20]}
    return dict(failed=failed, undecided=undecided, obligations=nob, discharged=ndis, evidence=ev, assumptions=ASSUMPTIONS)


ASSUMPTIONS = [
    "machine floats are treated as exact real numbers; infinities only as explicit values, NaN not at all",
    "random draws: any value of the distribution's support (uniform draws on [0,1) are assumed in the open interval)",
    "parameter and target names are pairwise distinct strings without the separators the library adds",
    "numpy, random, math, bisect, copy, collections, functools, joblib (run sequentially), scipy.spatial.KDTree and shapely behave as pyvc/models.py states",
    "memory views passed to Cython functions do not overlap arrays those functions create; buffers hold C doubles",
    "no asynchronous exception, no other thread touches the objects; callbacks and user functions are arbitrary pure functions unless stated",
]


def main():
    a = sys.argv[1:]
    root, tier = None, "quick"
    if "-r" in a:
        i = a.index("-r"); root = a[i + 1]; del a[i:i + 2]
    if "-t" in a:
        i = a.index("-t"); tier = a[i + 1]; del a[i:i + 2]
    v = "-v" in a
    if v:
        a.remove("-v")
    for p in a:
        t = time.time()
        r = prove_property(p, tier, root)
        print(f"{p}: {r['discharged']}/{r['obligations']} obligations, {len(r['failed'])} failed, {len(r['undecided'])} undecided, {time.time()-t:.1f}s")
        for o in r["failed"]:
            print("   FAILED", o["name"], o["text"][:500])
        for u in r["undecided"]:
            print("   UNDECIDED", u)
        if v:
            for d in r["evidence"].get("contracts", []):
                print("   ", d)


if __name__ == "__main__":
    main()
