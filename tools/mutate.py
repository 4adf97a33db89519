#!/usr/bin/env python3
"""Single point changes in the functions a check analyses; prints those it does not report.

python3 tools/mutate.py C04 [function substring] [-n MAX] [-a]      development tool: no check uses it"""
import argparse
import ast
import copy
import os
import random
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")

PAIRS = [("lon", "lat"), ("in", "out"), ("previous", "current"), ("_s", "_e"), ("x", "y"), ("i", "j"), ("u", "v"), ("self", "other"), ("min", "max"),
         ("next_obs", "previous_obs"), ("next_cost", "previous_cost"), ("start", "stop"), ("start", "end"), ("0", "1"), ("first", "last"), ("speed", "effective"),
         ("minimum", "maximum"), ("any", "all"), ("ones", "zeros"), ("cos", "sin"), ("below", "above"), ("longitude", "latitude")]


def swapname(n):
    for a, b in PAIRS:
        for x, y in ((a, b), (b, a)):
            if n == x:
                yield y
            elif len(x) > 1 and x in n:
                yield n.replace(x, y, 1)
            elif len(x) == 1 and (n.startswith(x + "_") or n.startswith(x) and n[1:].isdigit() and x in "xyuv"):
                yield y + n[1:]
            elif len(x) == 1 and n.endswith("_" + x) or x.isdigit() and n.endswith(x):
                yield n[:-1] + y


def mutants(fn, scope):
    """(description, line, function to apply on a deep copy through the node path)"""
    out = []
    nodes = list(ast.walk(fn))
    flip = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
    rev = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
    bop = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Mod: ast.FloorDiv}
    locs = {n.id for n in nodes if isinstance(n, ast.Name)}
    doc = fn.body[0] if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
    logs = set()
    for n in nodes:
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).startswith(("logger.", "print")):
            logs |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Raise):
            logs |= {id(x) for x in ast.walk(n)} - {id(n)}
    for k, n in enumerate(nodes):
        if doc is not None and n in (doc, doc.value) or id(n) in logs:
            continue
        ln = getattr(n, "lineno", 0)

        def add(d, f, k=k, ln=ln):
            out.append((d, ln, k, f))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0])
            if o in flip:
                add(f"{ast.unparse(n)}: {o.__name__}->{flip[o].__name__}", lambda m, o=o: m.ops.__setitem__(0, flip[o]()))
            if o in rev:
                add(f"{ast.unparse(n)}: reversed", lambda m, o=o: m.ops.__setitem__(0, rev[o]()))
        if isinstance(n, ast.BinOp) and type(n.op) in bop and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add(f"{ast.unparse(n)}: {type(n.op).__name__}", lambda m: setattr(m, "op", bop[type(m.op)]()))
            if isinstance(n.op, (ast.Mult, ast.Add)):
                add(f"{ast.unparse(n)}: keep left only", lambda m: "L")
        if isinstance(n, ast.AugAssign) and type(n.op) in bop:
            add(f"{ast.unparse(n)}: op", lambda m: setattr(m, "op", bop[type(m.op)]()))
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            add(f"const {n.value}->{n.value + 1}", lambda m: setattr(m, "value", m.value + 1))
            if n.value == 1:
                add(f"const {n.value}->0", lambda m: setattr(m, "value", 0))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(f"const {n.value}->not", lambda m: setattr(m, "value", not m.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            add(f"const {n.value}->*1.1", lambda m: setattr(m, "value", m.value * 1.1 + 1e-9))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str):
            for s in list(swapname(n.value))[:2]:
                add(f"str {n.value!r}->{s!r}", lambda m, s=s: setattr(m, "value", s))
        if isinstance(n, ast.If):
            add(f"if {ast.unparse(n.test)[:60]}: negated", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)))
            add(f"if {ast.unparse(n.test)[:60]}: -> True", lambda m: setattr(m, "test", ast.Constant(True)))
            add(f"if {ast.unparse(n.test)[:60]}: -> False", lambda m: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, ast.BoolOp):
            add(f"{ast.unparse(n)[:60]}: first dropped", lambda m: m.values.pop(0) if len(m.values) > 2 else setattr(m, "values", [m.values[1], m.values[1]]))
            add(f"{ast.unparse(n)[:60]}: last dropped", lambda m: m.values.pop() if len(m.values) > 2 else setattr(m, "values", [m.values[0], m.values[0]]))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
            add(f"{ast.unparse(n)[:60]}: operator dropped", lambda m: "O")
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                add(f"{ast.unparse(n)[:70]}: args swapped", lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1]))
            for i, kw in enumerate(n.keywords):
                if kw.arg:
                    add(f"{ast.unparse(n)[:70]}: {kw.arg} dropped", lambda m, i=i: m.keywords.pop(i))
        if isinstance(n, ast.Attribute):
            for s in list(swapname(n.attr))[:2]:
                add(f".{n.attr}->.{s} in {ast.unparse(n)[:50]}", lambda m, s=s: setattr(m, "attr", s))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for s in list(swapname(n.id))[:3]:
                if s in locs or s in scope:
                    add(f"{n.id}->{s}", lambda m, s=s: setattr(m, "id", s))
        if isinstance(n, ast.Slice):
            for w in ("lower", "upper"):
                if getattr(n, w) is not None:
                    add(f"slice {ast.unparse(n)}: {w} dropped", lambda m, w=w: setattr(m, w, None))
        if isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.With)):
            for w in ("body", "orelse"):
                b = getattr(n, w, None) or []
                for i, s in enumerate(b):
                    if s is doc or id(s) in logs or isinstance(s, (ast.FunctionDef, ast.Pass)):
                        continue
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func).startswith(("logger.", "print")):
                        continue
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Raise, ast.Return)):
                        def dele(m, w=w, i=i):
                            b = getattr(m, w)
                            b[i] = ast.Pass()
                        out.append((f"deleted: {ast.unparse(s)[:90]}", s.lineno, k, dele))
                    if i + 1 < len(b) and isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)) and isinstance(b[i + 1], (ast.Assign, ast.AugAssign, ast.Expr)):
                        def sw(m, w=w, i=i):
                            b = getattr(m, w)
                            b[i], b[i + 1] = b[i + 1], b[i]
                        st = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)} & {x.id for x in ast.walk(b[i + 1]) if isinstance(x, ast.Name)}
                        if st:
                            out.append((f"swapped: {ast.unparse(s)[:50]} // {ast.unparse(b[i+1])[:50]}", s.lineno, k, sw))
        if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) >= 2:
            add(f"{ast.unparse(n)[:60]}: swapped", lambda m: m.value.elts.__setitem__(slice(0, 2), m.value.elts[1::-1]))
    return out


def apply(tree, fn_path, k, f):
    t = copy.deepcopy(tree)
    fn = find(t, fn_path)
    nodes = list(ast.walk(fn))
    m = nodes[k]
    r = f(m)
    if r in ("L", "O"):
        rep = m.left if r == "L" else m.operand

        class R(ast.NodeTransformer):
            def visit(self, n):
                if n is m:
                    return rep
                return super().generic_visit(n)

        R().visit(t)
    ast.fix_missing_locations(t)
    return t


def find(tree, path):
    b = tree
    for p in path:
        for s in ast.walk(b) if p == path[-1] and b is not tree else b.body:
            if isinstance(s, (ast.ClassDef, ast.FunctionDef)) and s.name == p and s is not b:
                b = s
                break
    return b


def job(a):
    import check as ck
    from checker.engine import Broken, Program
    pids, path, src, desc = a
    try:
        prog = Program(overlay={path: src})
    except Exception as e:
        return desc, "build"
    res = []
    for pid in pids:
        try:
            c = ck.run(pid, "quick", prog)
            if c.findings:
                res.append(pid)
        except Broken:
            res.append(pid + "!")
        except Exception as e:
            res.append(pid + "?" + repr(e)[:80])
    return desc, res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("sub", nargs="?", default="")
    ap.add_argument("-n", type=int, default=400)
    ap.add_argument("-a", action="store_true", help="print detected ones too")
    ap.add_argument("-f", help="any function (comma separated short names) instead of those analysed")
    o = ap.parse_args()
    import check as ck
    from checker.engine import Program
    prog = Program()
    pids = [f[2:-3].upper() for f in sorted(os.listdir(os.path.join(V, "checker"))) if f.startswith("p_")] if o.pid == "all" else o.pid.split(",")
    quals = set()
    for p in pids:
        quals |= ck.run(p, "quick", prog).functions
    if o.f:
        quals = {prog.func(x).qual for x in o.f.split(",")}
    jobs = []
    for q in sorted(quals):
        f = prog.functions[q]
        if o.sub and o.sub not in q:
            continue
        tree = ast.parse(open(f.path).read())
        path = ([f.cls.node.name] if f.cls else []) + [f.node.name]
        fn = find(tree, path)
        if not isinstance(fn, ast.FunctionDef):
            print("not found", q)
            continue
        scope = set(f.module.imports) | set(f.module.functions)
        ms = mutants(fn, scope)
        random.Random(0).shuffle(ms)
        for d, ln, k, g in ms:
            try:
                s = ast.unparse(apply(tree, path, k, g))
                ast.parse(s)
            except Exception as e:
                continue
            jobs.append((pids, f.path, s, f"{f.short}:{ln} {d}"))
    random.Random(1).shuffle(jobs)
    jobs = jobs[: o.n]
    from multiprocessing import Pool
    det = tot = 0
    surv = []
    with Pool(8, maxtasksperchild=12) as pool:
        for d, r in pool.imap_unordered(job, jobs, chunksize=1):
            tot += 1
            if r:
                det += 1
                if o.a or any("?" in x for x in r if isinstance(r, list)):
                    print("+", d, r)
            else:
                surv.append(d)
    for d in sorted(surv):
        print("-", d)
    print(f"{det}/{tot} reported")


if __name__ == "__main__":
    main()
