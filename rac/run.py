"""Runs contract clauses of one property concretely on a scratch build of the real package.

run.py --tree DIR --prop C01 --seed 1 --budget 15 --workers 4 --out OUT.json
run.py --tree DIR --replay FILE
"""
import argparse
import json
import os
import random
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))


def setup(tree):
    sys.path.insert(0, tree)
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ["PYTHONPATH"] = tree + os.pathsep + HERE + os.pathsep + os.environ.get("PYTHONPATH", "")
    os.environ["OMP_NUM_THREADS"] = os.environ["OPENBLAS_NUM_THREADS"] = "1"
    os.environ["VERIF_TREE"] = tree
    warnings.simplefilter("ignore")


def clauses(prop):
    import props1
    import props2
    out = []
    for m in (props1, props2):
        for c in m.CLAUSES.get(prop, []):
            out.append(c if isinstance(c, tuple) else (c, 1.0))
    return out


def one(fn, seed):
    """-> None, ('bad', message) or ('skip', message)"""
    import numpy as np
    import gen
    random.seed(seed)
    np.random.seed(seed % (2 ** 32))
    rng = random.Random(seed * 7919 + 13)
    try:
        with np.errstate(all="ignore"):
            fn(rng)
    except gen.Bad as e:
        return "bad", str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1]
        msg = f"{type(e).__name__}: {e} at {os.path.basename(last.filename)}:{last.lineno} in {last.name}"
        if os.path.dirname(os.path.abspath(last.filename)) == HERE and isinstance(e, (AttributeError, ImportError)):
            return "skip", msg
        return "bad", "uncaught " + msg
    return None


def worker(prop, seed, w, budget, conn):
    import numpy as np
    cl = clauses(prop)
    t0 = time.time()
    rng = random.Random(f"{prop}-{seed}-{w}")
    cnt, spent, fails, skips = {}, {}, [], []
    i = 0
    while time.time() - t0 < budget and not fails:
        # first one of each, then by share of time
        todo = [c for c in cl if c[0].__name__ not in cnt]
        if todo:
            fn = todo[(w + i) % len(todo)][0]
        else:
            fn = min(cl, key=lambda c: spent[c[0].__name__] / c[1])[0]
        s = rng.randrange(1, 2 ** 31)
        t1 = time.time()
        r = one(fn, s)
        n = fn.__name__
        cnt[n] = cnt.get(n, 0) + 1
        spent[n] = spent.get(n, 0) + time.time() - t1
        if r is not None and r[0] == "bad":
            fails.append({"clause": n, "seed": s, "message": r[1]})
        elif r is not None:
            skips.append({"clause": n, "seed": s, "message": r[1]})
        i += 1
    conn.send({"counts": cnt, "fails": fails, "skips": skips[:3], "nskip": len(skips), "last": [n, s]})
    conn.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--tree", required=True)
    ap.add_argument("--prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=15)
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    setup(a.tree)
    if a.replay:
        d = json.load(open(a.replay))["case"]
        r = None
        for fn, _ in clauses(d["property"]):
            if fn.__name__ == d["clause"]:
                r = one(fn, d["seed"])
                break
        print("REPRODUCED " + r[1] if r and r[0] == "bad" else f"not reproduced {r}")
        sys.exit(1 if r and r[0] == "bad" else 0)
    res = {"property": a.prop, "counts": {}, "fails": [], "skips": [], "nskip": 0, "error": None, "samples": []}
    try:
        clauses(a.prop)
        import bayesbay
        assert os.path.abspath(bayesbay.__file__).startswith(os.path.abspath(a.tree)), bayesbay.__file__
    except Exception as e:
        res["error"] = "the package cannot be imported: " + traceback.format_exc()[-1500:]
        json.dump(res, open(a.out, "w"))
        return
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    ps = []
    for w in range(a.workers):
        r, s = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(a.prop, a.seed, w, a.budget, s))
        p.start()
        s.close()
        ps.append((p, r))
    for p, r in ps:
        try:
            d = r.recv()
        except EOFError:
            res["error"] = "a worker process died (memory corruption or out of memory) while running the clauses"
            continue
        for k, v in d["counts"].items():
            res["counts"][k] = res["counts"].get(k, 0) + v
        res["fails"] += d["fails"]
        res["skips"] += d["skips"]
        res["nskip"] += d["nskip"]
        res["samples"].append({"clause": d["last"][0], "seed": d["last"][1]})
        p.join()
    json.dump(res, open(a.out, "w"), indent=1)


if __name__ == "__main__":
    main()
