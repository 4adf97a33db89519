#!/usr/bin/env python3
"""How robust the comparison with reference definitions is: statuses after behaviour-preserving rewrites (-k) of the sources,
or of mutants (-m).   equivstat.py [-k kinds] [-v]"""
import argparse, os, sys, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
sys.setrecursionlimit(20000)
import refactor as RF


def job(a):
    kind, seed = a
    from checker.engine import Program
    from checker.equiv import Validator
    ref = Program(os.path.join(V, "checker", "ref"))
    cur = Program(overlay=RF.build(kind, seed)) if kind != "none" else Program()
    v = Validator(ref, cur)
    out = []
    for q, f in ref.functions.items():
        if f.parent is not None:
            continue
        try:
            r = v.compare(q)
            out.append((q, r.status, r.what, r.line))
        except Exception as e:
            import traceback
            out.append((q, "ERROR", [traceback.format_exc()[-600:]], None))
    return kind, seed, out


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("-k"); ap.add_argument("-s", type=int, default=1); ap.add_argument("-v", type=int, default=10)
    o = ap.parse_args()
    kinds = o.k.split(",") if o.k else ["none"] + list(RF.T)
    rnd = {"extract", "extractexpr", "method", "hoist", "noop", "temptest"}
    jobs = [(k, s) for k in kinds for s in range(o.s if any(x in rnd for x in k.split("+")) else 1)]
    from multiprocessing import Pool
    with Pool(8, maxtasksperchild=1) as pool:
        for k, s, out in pool.imap(job, jobs, chunksize=1):
            c = collections.Counter(x[1] for x in out)
            print("==", k, s, dict(c), flush=True)
            n = 0
            for q, st, w, l in out:
                if st in ("differs", "ERROR", "gone") and n < o.v:
                    n += 1
                    print("    ", st, q, l, " | ".join(str(x)[:300] for x in w[:2]))
