"""smallcover.py: obligations that too few of the bounded runs reach, or leave without answer (development aid)"""
import os, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    from pyvc import drive
    drive.WORKERS = 6
    V, bad = drive.load("/repo")
    want = sys.argv[1:]
    todo = [p for p in V.proofs if not want or any(w in p[0] for w in want)]
    res = drive.run_all(V, [((n, k), o, t, k, 1) for n, p, o, t in todo for k in (None, 0, 1, 2, 3)], 100, time.time() + 1500)
    for n, *_ in todo:
        g = {o["name"] for o in res[n, None].get("obligations", [])}
        small = [{o["name"]: o["status"] for o in res[n, k].get("obligations", [])} for k in range(4)]
        errs = [res[n, k].get("error") for k in range(4)]
        if any(errs):
            print(n, "ERRORS", [(k, e[:80]) for k, e in enumerate(errs) if e])
        for o in sorted(g):
            got = [s.get(o, "-") for s in small]
            if got.count("proved") < 2 or "unknown" in got or "refuted" in got:
                print(n, "|", o, "|", got)


threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main)
t.start()
t.join()
