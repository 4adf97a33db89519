#!/usr/bin/env python3
"""Share of single point changes that the comparison with the reference definitions reports.  equivmut.py [sub] -n N   (development tool)"""
import argparse, ast, os, random, sys, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
sys.setrecursionlimit(20000)
import mutate as M


def job(a):
    q, path, src, desc = a
    from checker.engine import Program
    from checker.equiv import Validator
    ref = Program(os.path.join(V, "checker", "ref"))
    try:
        cur = Program(overlay={path: src})
        r = Validator(ref, cur).compare(q)
        return desc, r.status, r.what
    except Exception as e:
        return desc, "ERROR", [repr(e)]


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("sub", nargs="?", default=""); ap.add_argument("-n", type=int, default=300); ap.add_argument("-s", type=int, default=0)
    ap.add_argument("-v", default="same,open,ERROR")
    o = ap.parse_args()
    from checker.engine import Program
    prog = Program()
    jobs = []
    for q, f in sorted(prog.functions.items()):
        if f.parent is not None or o.sub not in q or ".gui" in q:
            continue
        tree = ast.parse(open(f.path).read())
        path = ([f.cls.node.name] if f.cls else []) + [f.node.name]
        fn = M.find(tree, path)
        if not isinstance(fn, ast.FunctionDef):
            continue
        for d, ln, k, g in M.mutants(fn, set(f.module.imports) | set(f.module.functions)):
            jobs.append((q, f, tree, path, k, g, f"{f.short}:{ln} {d}"))
    random.Random(o.s).shuffle(jobs)
    out = []
    for q, f, tree, path, k, g, d in jobs:
        try:
            s = ast.unparse(M.apply(tree, path, k, g)); ast.parse(s)
        except Exception:
            continue
        out.append((q, f.path, s, d))
        if len(out) >= o.n:
            break
    c = collections.Counter()
    from multiprocessing import Pool
    with Pool(8, maxtasksperchild=10) as pool:
        for d, st, w in pool.imap_unordered(job, out, chunksize=1):
            c[st] += 1
            if st in o.v.split(","):
                print(st, d, "|", (w[0] if w else "")[:200])
    print(dict(c))
