"""command line: python3-vt -m pyvc.run [-r ROOT] CONTRACTFILE... [-k substring]   (development aid)"""
import os
import sys
import threading
import time
import faulthandler
from .verifier import Verifier


def build(root, files):
    V = Verifier(root)
    V.contract_defs, V.proof_defs = {}, []
    for f in files:
        V.module("contracts." + f)
    from .contract import install
    install(V)
    return V


def main():
    a = sys.argv[1:]
    root, pat, budget = "/repo", None, 120
    if "-r" in a:
        i = a.index("-r"); root = a[i + 1]; del a[i:i + 2]
    if "-k" in a:
        i = a.index("-k"); pat = a[i + 1]; del a[i:i + 2]
    if "-t" in a:
        i = a.index("-t"); budget = float(a[i + 1]); del a[i:i + 2]
    t = time.time()
    V = build(root, a)
    print(f"loaded in {time.time()-t:.2f}s")
    for name, props, opts, thunk in V.proofs:
        if pat and (pat[1:] != name if pat[0] == '=' else pat not in name):
            continue
        V.under_set = set(opts.get("under", ()))
        V.small = int(os.environ["PYVC_SMALL"]) if "PYVC_SMALL" in os.environ else None
        r = V.run_proof(name, thunk, budget)
        bad = [o for o in r["obligations"] if o["status"] != "proved"]
        print(f"{'OK ' if not bad and not r['error'] else 'BAD'} {name}: {len(r['obligations'])} obligations, {r['paths']} paths, {r['time']}s (solver {r['solver_s']}s) {r['by']} covers={r['covers']}")
        if r["error"]:
            print("    ERROR", r["error"])
        for o in bad:
            print("   ", o["status"], o["name"], "@", o["where"], o["text"][:600].replace("\n", "\n       "))


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    faulthandler.enable()
    th = threading.Thread(target=main)
    th.start()
    th.join()
