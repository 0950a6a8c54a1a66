"""mutate1.py ROOT PROOF...: first failed obligation among the proofs, or what stayed undecided (development aid)"""
import os
import sys
import threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import drive


def main():
    drive.WORKERS = 1
    root, names = sys.argv[1], sys.argv[2:]
    V, bad = drive.load(root)
    if bad:
        print("LOAD", bad[0])
        return
    import time
    todo = [p for p in V.proofs if p[0] in names]
    und = []
    end = time.time() + 700
    for name, props, opts, thunk in sorted(todo, key=lambda p: names.index(p[0])):
        r = drive.run_all(V, [((name, None), opts, thunk, None, 1)], 60, end)[name, None]
        obs = [o for o in r.get("obligations", []) if o["status"] != "proved"]
        for o in obs:
            if o["status"] == "refuted":
                print("REFUTED", name, o["name"])
                return
        if r.get("error") or obs:
            und.append((name, opts, thunk, (r.get("error") or "unknown " + obs[0]["name"]), bool(obs)))
    unk = None
    for name, opts, thunk, why, hasobs in und:
        err = 0
        for k in (0, 1, 2):
            r = drive.run_all(V, [((name, k), opts, thunk, k, 1)], 60, end)[name, k]
            for o in r.get("obligations", []):
                if o["status"] == "refuted":
                    print("SMALL", name, o["name"], "<-", why)
                    return
                if o["status"] == "unknown":
                    unk = (name, o["name"])
            err += bool(r.get("error"))
    if unk:
        print("UNKNOWN", *unk)
    elif und:
        print("UNDECIDED", und[0][0], und[0][3], "and", len(und) - 1, "more")
    else:
        print("SURVIVED")


threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main)
t.start()
t.join()
