#!/usr/bin/env python3
"""Changes of the order and of the place of statements: which ones the comparison takes as the same.  swapmut.py [sub] -n N  (development tool)"""
import argparse, ast, copy, os, random, sys, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
sys.setrecursionlimit(20000)
import mutate as M
from equivmut import job


def rd(n):
    return {ast.unparse(x) for x in ast.walk(n) if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load)}


def wr(n):
    out = {ast.unparse(x) for x in ast.walk(n) if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Store)}
    for x in ast.walk(n):
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
            out.add(ast.unparse(x.value))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "pop", "remove", "update", "sort", "fill", "extend"):
            out.add(ast.unparse(x.func.value))
    return out


def dep(a, b):
    return wr(a) & (rd(b) | wr(b)) or wr(b) & rd(a)


def bodies(fn):
    for n in ast.walk(fn):
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, b


def mutants(fn):
    """(description, line, k): k identifies what to do on a copy"""
    for bi, (n, b) in enumerate(bodies(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or ast.unparse(s).startswith("logger."):
                continue
            if i + 1 < len(b) and not isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)) and dep(s, b[i + 1]):
                yield f"swap: {ast.unparse(s)[:60]!r} / {ast.unparse(b[i+1])[:60]!r}", s.lineno, ("swap", bi, i)
            if isinstance(s, (ast.Break, ast.Continue)) or isinstance(s, ast.Return) and s.value is None:
                yield f"pass: {ast.unparse(s)}", s.lineno, ("pass", bi, i)
                if isinstance(s, ast.Break):
                    yield "continue instead of break", s.lineno, ("cont", bi, i)
                if isinstance(s, ast.Continue):
                    yield "break instead of continue", s.lineno, ("brk", bi, i)
            if isinstance(s, (ast.If, ast.For, ast.While)) and len(s.body) > 1 and not isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Break, ast.Raise)):
                yield f"out of {type(s).__name__}: {ast.unparse(s.body[-1])[:60]!r}", s.body[-1].lineno, ("out", bi, i)
            if isinstance(s, (ast.If, ast.For, ast.While)) and len(s.body) > 1 and not isinstance(s, ast.While):
                yield f"before {type(s).__name__}: {ast.unparse(s.body[0])[:60]!r}", s.body[0].lineno, ("before", bi, i)
            if isinstance(s, (ast.If, ast.For, ast.While)) and i + 1 < len(b) and not isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Break, ast.Raise)) and not getattr(s, "orelse", None):
                yield f"into {type(s).__name__}: {ast.unparse(b[i+1])[:60]!r}", b[i + 1].lineno, ("into", bi, i)


def apply(tree, path, k):
    t = copy.deepcopy(tree)
    fn = M.find(t, path)
    op, bi, i = k
    b = [x for x in bodies(fn)][bi][1]
    if op == "swap":
        b[i], b[i + 1] = b[i + 1], b[i]
    elif op == "pass":
        b[i] = ast.Pass()
    elif op == "cont":
        b[i] = ast.Continue()
    elif op == "brk":
        b[i] = ast.Break()
    elif op == "out":
        b.insert(i + 1, b[i].body.pop())
    elif op == "before":
        b.insert(i, b[i].body.pop(0))
    elif op == "into":
        b[i].body.append(b.pop(i + 1))
    return ast.fix_missing_locations(t)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("sub", nargs="?", default=""); ap.add_argument("-n", type=int, default=300); ap.add_argument("-s", type=int, default=0)
    ap.add_argument("-v", default="same,ERROR"); ap.add_argument("-j", type=int, default=6)
    o = ap.parse_args()
    from checker.engine import Program
    prog = Program()
    jobs = []
    for q, f in sorted(prog.functions.items()):
        if f.parent is not None or o.sub not in q:
            continue
        tree = ast.parse(open(f.path).read())
        path = ([f.cls.node.name] if f.cls else []) + [f.node.name]
        fn = M.find(tree, path)
        if isinstance(fn, ast.FunctionDef):
            jobs += [(q, f, tree, path, k, f"{f.short}:{ln} {d}") for d, ln, k in mutants(fn)]
    print(len(jobs), "changes")
    random.Random(o.s).shuffle(jobs)
    out = []
    for q, f, tree, path, k, d in jobs[: o.n]:
        try:
            s = ast.unparse(apply(tree, path, k)); compile(s, "x", "exec")
        except SyntaxError:
            continue
        out.append((q, f.path, s, d))
    c = collections.Counter()
    from multiprocessing import Pool
    with Pool(o.j, maxtasksperchild=10) as pool:
        for d, st, w in pool.imap_unordered(job, out, chunksize=1):
            c[st] += 1
            if st in o.v.split(","):
                print(st, d, "|", (w[0] if w else "")[:200], flush=True)
    print(dict(c))
