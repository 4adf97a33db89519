#!/usr/bin/env python3
"""Hand written refactorings (no change of behaviour) in the style of a maintainer, to measure false alarms.

hand.py [-n name]        status of every function against its reference, after each of them
hand.py -p C01,..        run checks instead.   Nothing is written in /repo (overlay)."""
import argparse
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")
S = os.path.join(REPO, "src", "py_eddy_tracker")
H = []


def R(name, file, *pairs):
    H.append((name, file, pairs))


def overlay(h):
    name, file, pairs = h
    p = os.path.join(S, file)
    s = open(p).read()
    for old, new in pairs:
        assert s.count(old) == 1, (name, s.count(old), old)
        s = s.replace(old, new)
    compile(s, p, "exec")
    return {p: s}


def load():
    import hand
    import hand_cases  # noqa
    import hand_cases2  # noqa
    import hand_cases3  # noqa
    import hand_cases4  # noqa
    import hand_cases5  # noqa
    import hand_cases6  # noqa

    return hand.H


def job(a):
    i, pids = a
    h = load()[i]
    try:
        ov = overlay(h)
    except AssertionError as e:
        return h[0], [("OUTDATED", str(e)[:300])]
    from checker.engine import Program

    out = []
    if pids:
        import check as ck
        from checker.rules import known_findings

        kf = known_findings()
        prog = Program(overlay=ov)
        for pid in pids:
            try:
                c = ck.run(pid, "quick", prog)
                for f in c.findings:
                    if (pid, f["key"]) not in kf:
                        out.append((pid, f["file"], f["line"], f["key"], f["what"]))
            except Exception as e:
                out.append((pid, "CRASH " + repr(e)))
        return h[0], out
    from checker.equiv import Validator

    ref = Program(os.path.join(V, "checker", "ref"))
    cur = Program(overlay=ov)
    v = Validator(ref, cur)
    for q, f in ref.functions.items():
        if f.parent is None:
            r = v.compare(q)
            if r.status != "same":
                out.append((q, r.status, r.line, " | ".join(str(x)[:220] for x in r.what[:3])))
    return h[0], out


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("-n")
    ap.add_argument("-p")
    o = ap.parse_args()
    from multiprocessing import Pool

    hs = load()
    ids = [i for i, h in enumerate(hs) if not o.n or o.n in h[0]]
    pids = o.p.split(",") if o.p else None
    if o.p == "all":
        pids = sorted(f[2:5].upper() for f in os.listdir(os.path.join(V, "checker")) if f.startswith("p_c"))
    bad = 0
    with Pool(8, maxtasksperchild=1) as pool:
        for n, out in pool.imap(job, [(i, pids) for i in ids], chunksize=1):
            print("==", n, "quiet" if not out else "")
            for x in out:
                print("   ", *x)
            bad += bool(out)
    print(bad, "of", len(ids))
