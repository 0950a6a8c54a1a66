"""whole.py ROOT: every contract against the sources in ROOT, with the second look; prints what would alarm and what stays undecided (development aid)"""
import os
import sys
import threading
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    from pyvc import drive
    root = sys.argv[1]
    drive.WORKERS = int(os.environ.get("WORKERS", "5"))
    V, bad = drive.load(root)
    t0 = time.time()
    for b in bad:
        print("LOAD", b)
    res = {k[0]: r for k, r in drive.run_all(V, [((n, None), o, t, None, 1) for n, p, o, t in V.proofs], 100, time.time() + 1500).items()}
    open_ = [p for p in V.proofs if res[p[0]].get("error") or any(o["status"] == "unknown" for o in res[p[0]]["obligations"])]
    again = []
    for name, props, opts, thunk in open_:
        if not res[name].get("error"):
            again.append(((name, "patient"), opts, thunk, None, 5))
        again += [((name, k), opts, thunk, k, 1) for k in range(len(drive.SMALL))]
    more = drive.run_all(V, again, 100, time.time() + 1200) if again else {}
    for name, props, opts, thunk in V.proofs:
        r = res[name]
        p = more.get((name, "patient"), {})
        if p and not p.get("error"):
            r = p
        small = [more[name, k] for k in range(len(drive.SMALL)) if (name, k) in more]
        for x in small:
            for o in x.get("obligations", []):
                if o["status"] == "refuted":
                    print("ALARM (small)", name, "|", o["name"], "|", o["text"][:200])
        if r.get("error"):
            print("UNDECIDED", name, "|", r["error"][:150], "| small errors", [x["error"][:60] for x in small if x.get("error")])
        for o in r.get("obligations", []):
            if o["status"] == "refuted":
                print("ALARM", name, "|", o["name"], "|", o["text"][:200])
            elif o["status"] == "unknown":
                tried = [q["status"] for x in small if not x.get("error") for q in x["obligations"] if q["name"] == o["name"]]
                quiet = len(tried) > 1 and all(s == "proved" for s in tried)
                print("undecided, bounded" if quiet else "ALARM (unknown)", name, "|", o["name"], "|", tried, o["text"][:200])
        for c, ok in (r.get("covers") or {}).items():
            if not ok:
                print("VACUOUS", name, c)
    print(f"{len(V.proofs)} proofs, {time.time()-t0:.0f} s")


threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main)
t.start()
t.join()
