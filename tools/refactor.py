#!/usr/bin/env python3
"""Behaviour preserving rewrites of /repo's sources, on which every check has to stay quiet.

python3 tools/refactor.py [-k TRANSFORM,...] [-p C01,...] [-s SEED]   (8 processes)
Development tool: no check uses it.  Nothing is written in /repo (sources are given to the analyser as an overlay)."""
import argparse
import ast
import copy
import importlib
import os
import random
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")


def sources():
    out = {}
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(".py") and f != "_version.py" or "scripts" in d:
                s = open(p, errors="replace").read()
                if f.endswith(".py") or "python" in s.split("\n")[0]:
                    out[p] = s
    return out


def names(node, ctx=None):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))}


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            yield n


def is_njit(f):
    return any("njit" in ast.dump(d) or "jit" in ast.dump(d) for d in f.decorator_list)


class BlockMap(ast.NodeTransformer):
    """Apply self.block(list) on every statement list inside functions"""

    infunc = 0

    def visit_FunctionDef(self, n):
        self.infunc += 1
        self.func = n
        self.generic_visit(n)
        self.infunc -= 1
        n.body = self.do(n.body)
        return n

    def generic_visit(self, n):
        super().generic_visit(n)
        if self.infunc and not isinstance(n, ast.FunctionDef):
            for a in ("body", "orelse", "finalbody"):
                b = getattr(n, a, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(n, a, self.do(b))
        return n

    def do(self, b):
        return self.block(b)


# ---------------------------------------------------------------- transforms


def t_unparse(tree, rng):
    return tree


def t_rename(tree, rng):
    """rename local variables"""

    class R(ast.NodeTransformer):
        def __init__(self, m):
            self.m = m

        def visit_Name(self, n):
            n.id = self.m.get(n.id, n.id)
            return n

        def visit_FunctionDef(self, n):
            if n is not self.top:
                loc = {a.arg for a in n.args.args + n.args.kwonlyargs}
                if loc & set(self.m):
                    sub = R({k: v for k, v in self.m.items() if k not in loc})
                    sub.top = n
                    n.body = [sub.visit(s) for s in n.body]
                    return n
            self.generic_visit(n)
            return n

        def visit_ExceptHandler(self, n):
            if n.name in self.m:
                n.name = self.m[n.name]
            self.generic_visit(n)
            return n

    tops = [f for f in ast.walk(tree) if isinstance(f, ast.FunctionDef)]
    nested = {g for f in tops for g in ast.walk(f) if g is not f and isinstance(g, ast.FunctionDef)}
    for f in tops:
        if f in nested:
            continue
        args = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
        if f.args.vararg:
            args.add(f.args.vararg.arg)
        if f.args.kwarg:
            args.add(f.args.kwarg.arg)
        gl = {x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        imp = {(a.asname or a.name) for n in ast.walk(f) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        loc = names(f, ast.Store) - args - gl - imp
        if any(isinstance(n, ast.Name) and n.id in ("locals", "vars") for n in ast.walk(f)):
            continue
        r = R({n: n + "_r" for n in loc})
        r.top = f
        r.visit(f)
    return tree


class _Hoist(ast.NodeTransformer):
    """Replace nested calls / subscripts by temporaries, in evaluation order"""

    def __init__(self, rng, prob, n0):
        self.rng, self.prob, self.n, self.pre = rng, prob, n0, []

    def tmp(self, e):
        self.n += 1
        name = f"tmp_{self.n}"
        self.pre.append(ast.Assign([ast.Name(name, ast.Store())], e))
        return ast.Name(name, ast.Load())

    def visit_Lambda(self, n):
        return n

    visit_ListComp = visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_Lambda

    def visit_IfExp(self, n):
        n.test = self.visit(n.test)
        return n

    def visit_BoolOp(self, n):
        n.values[0] = self.visit(n.values[0])
        return n

    def visit_Compare(self, n):
        n.left = self.visit(n.left)
        if len(n.comparators) == 1:
            n.comparators = [self.visit(x) for x in n.comparators]
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute):
            if not (isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super"):
                n.func.value = self.visit(n.func.value)
        st = any(isinstance(a, ast.Starred) for a in n.args)
        n.args = [a if isinstance(a, ast.Starred) else self.visit(a) for a in n.args]
        for k in n.keywords:
            if k.arg:
                k.value = self.visit(k.value)
        if self.top is n or self.rng.random() > self.prob:
            return n
        if isinstance(n.func, ast.Name) and n.func.id in ("super", "locals", "globals"):
            return n
        return self.tmp(n)

    def visit_Subscript(self, n):
        n.value = self.visit(n.value)
        if not isinstance(n.slice, (ast.Slice, ast.Tuple)):
            n.slice = self.visit(n.slice)
        if self.top is n or not isinstance(n.ctx, ast.Load) or self.rng.random() > self.prob * 0.7:
            return n
        return self.tmp(n)

    def visit_BinOp(self, n):
        n.left = self.visit(n.left)
        n.right = self.visit(n.right)
        if self.top is n or self.rng.random() > self.prob * 0.4:
            return n
        return self.tmp(n)


def t_hoist(tree, rng):
    """temporaries for nested expressions"""

    class B(BlockMap):
        cnt = 0

        def block(self, b):
            out = []
            for s in b:
                h = _Hoist(rng, 0.6, B.cnt)
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Return, ast.Expr)) and s.value is not None and not isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                    if isinstance(s, ast.AugAssign) or isinstance(s, ast.Assign) and not all(isinstance(t, ast.Name) for t in s.targets) and False:
                        pass
                    h.top = s.value
                    s.value = h.visit(s.value)
                elif isinstance(s, ast.If):
                    h.top = s.test
                    s.test = h.visit(s.test)
                elif isinstance(s, ast.For):
                    h.top = s.iter
                    s.iter = h.visit(s.iter)
                B.cnt = h.n
                out += h.pre + [s]
            return out

    return B().visit(tree)


def t_inline(tree, rng):
    """substitute a temporary used once by the statement that follows"""

    class B(BlockMap):
        def block(self, b):
            out = list(b)
            i = 0
            while i + 1 < len(out):
                s, n = out[i], out[i + 1]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(n, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)):
                    v = s.targets[0].id
                    uses = [x for x in ast.walk(n) if isinstance(x, ast.Name) and x.id == v]
                    allu = [x for x in ast.walk(self.func) if isinstance(x, ast.Name) and x.id == v]
                    par = any(isinstance(x, (ast.ListComp, ast.Lambda, ast.GeneratorExp, ast.DictComp, ast.IfExp, ast.BoolOp)) for x in ast.walk(n))
                    simple = not any(isinstance(x, (ast.Yield, ast.Await)) for x in ast.walk(s.value))
                    if len(uses) == 1 and isinstance(uses[0].ctx, ast.Load) and len(allu) == 2 and not par and simple and n.value is not None and uses[0] in list(ast.walk(n.value)):

                        class R(ast.NodeTransformer):
                            def visit_Name(self, x):
                                return s.value if x is uses[0] else x

                        n.value = R().visit(n.value)
                        del out[i]
                        continue
                i += 1
            return out

    return B().visit(tree)


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.UnaryOp(ast.Not(), e)


def t_swapif(tree, rng):
    """if c: A else: B  ->  if not c: B else: A"""

    class S(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
                n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
            return n

        def visit_IfExp(self, n):
            self.generic_visit(n)
            return ast.IfExp(neg(n.test), n.orelse, n.body)

    return S().visit(tree)


def ends(b):
    return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def t_guard(tree, rng):
    """if c: ...return; rest -> if c: ... else: rest, and the opposite"""

    class B(BlockMap):
        def block(self, b):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
                    s.orelse = b[i + 1:]
                    return b[: i + 1]
                if isinstance(s, ast.If) and s.orelse and ends(s.body) and i + 1 == len(b):
                    r = s.orelse
                    s.orelse = []
                    return b + r
            return b

    return B().visit(tree)


def t_continue(tree, rng):
    """for ..: if c: body -> if not c: continue; body ; and the opposite"""

    class F(ast.NodeTransformer):
        def visit_For(self, n):
            self.generic_visit(n)
            l = n.body[-1]
            if isinstance(l, ast.If) and not l.orelse:
                n.body = n.body[:-1] + [ast.If(neg(l.test), [ast.Continue()], [])] + l.body
                return n
            for i, s in enumerate(n.body):
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and i + 1 < len(n.body):
                    n.body = n.body[:i] + [ast.If(neg(s.test), n.body[i + 1:], [])]
                    break
            return n

    return F().visit(tree)


def t_enumerate(tree, rng):
    """for i, x in enumerate(y) -> for i in range(len(y)): x = y[i]   (y a plain name or attribute)"""

    class F(ast.NodeTransformer):
        def visit_For(self, n):
            self.generic_visit(n)
            it = n.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and len(it.args) == 1 and isinstance(it.args[0], (ast.Name, ast.Attribute)) and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
                y = it.args[0]
                i, x = n.target.elts
                n.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [y], [])], [])
                n.target = i
                n.body = [ast.Assign([x], ast.Subscript(copy.deepcopy(y), ast.Name(i.id, ast.Load()), ast.Load()))] + n.body
            return n

    return F().visit(tree)


def t_while(tree, rng):
    """for i in range(n) -> while loop"""

    class B(BlockMap):
        def block(self, b):
            out = []
            for s in b:
                if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) in (1, 2) and isinstance(s.target, ast.Name):
                    has = any(isinstance(x, ast.Continue) for x in ast.walk(s))
                    mod = names(ast.Module(s.body, []), ast.Store)
                    bound = s.iter.args[-1]
                    if not has and s.target.id not in mod and not (names(bound) & mod):
                        lo = s.iter.args[0] if len(s.iter.args) == 2 else ast.Constant(0)
                        i = s.target.id
                        out.append(ast.Assign([ast.Name(i, ast.Store())], lo))
                        out.append(ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [bound]), s.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], []))
                        continue
                out.append(s)
            return out

    return B().visit(tree)


def t_aug(tree, rng):
    """a[i] += v -> a[i] = a[i] + v ; and for scalars counters"""

    class F(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Subscript):
                l = copy.deepcopy(n.target)
                l.ctx = ast.Load()
                return ast.Assign([n.target], ast.BinOp(l, n.op, n.value))
            if isinstance(n.target, ast.Name) and isinstance(n.value, ast.Constant):
                return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
            return n

    return F().visit(tree)


def t_compare(tree, rng):
    """a < b -> b > a;  a != b -> not a == b"""
    fl = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    class F(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in fl and not any(isinstance(x, ast.Call) for x in ast.walk(n)):
                return ast.Compare(n.comparators[0], [fl[type(n.ops[0])]()], [n.left])
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.IsNot):
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotIn):
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
            return n

    return F().visit(tree)


def t_commute(tree, rng):
    """a * b -> b * a, a + b -> b + a for numbers (names, attributes, subscripts)"""
    ok = (ast.Name, ast.Attribute, ast.Subscript)

    class F(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Mult) and isinstance(n.left, ok) and isinstance(n.right, ok + (ast.BinOp, ast.Constant)):
                n.left, n.right = n.right, n.left
            return n

    return F().visit(tree)


def t_comp(tree, rng):
    """x = [e for a in b] -> loop"""

    class B(BlockMap):
        k = 0

        def block(self, b):
            out = []
            for s in b:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.ListComp, ast.DictComp)) and len(s.value.generators) == 1:
                    g = s.value.generators[0]
                    x = s.targets[0].id
                    tn = names(g.target)
                    used = names(self.func) - tn
                    cnt = sum(1 for z in ast.walk(self.func) if isinstance(z, ast.Name) and z.id in tn and isinstance(z.ctx, ast.Store))
                    if x not in names(s.value) and cnt == len(tn):
                        if isinstance(s.value, ast.ListComp):
                            init = ast.List([], ast.Load())
                            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(x, ast.Load()), "append", ast.Load()), [s.value.elt], []))]
                        else:
                            init = ast.Dict([], [])
                            body = [ast.Assign([ast.Subscript(ast.Name(x, ast.Load()), s.value.key, ast.Store())], s.value.value)]
                        for c in reversed(g.ifs):
                            body = [ast.If(c, body, [])]
                        out += [ast.Assign([ast.Name(x, ast.Store())], init), ast.For(g.target, g.iter, body, [])]
                        continue
                out.append(s)
            return out

    return B().visit(tree)


def t_noop(tree, rng):
    """statements that do nothing"""

    class B(BlockMap):
        def block(self, b):
            out = []
            for s in b:
                if rng.random() < 0.3 and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    out.append(rng.choice([ast.Pass(), ast.Expr(ast.Constant(0)), ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(None)), ast.If(ast.Constant(False), [ast.Pass()], [])]))
                out.append(s)
            return out

    return B().visit(tree)


def t_reorder(tree, rng):
    """swap adjacent independent assignments of simple names"""

    def pure(e):
        return not any(isinstance(x, (ast.Yield, ast.NamedExpr, ast.Await)) for x in ast.walk(e)) and all(
            isinstance(x.func, ast.Name) and x.func.id in ("len", "list", "dict", "zeros", "empty", "ones", "arange", "array", "range", "int", "float", "cos", "sin", "radians")
            for x in ast.walk(e) if isinstance(x, ast.Call))

    class B(BlockMap):
        def block(self, b):
            out = list(b)
            i = 0
            while i + 1 < len(out):
                s, n = out[i], out[i + 1]
                if all(isinstance(x, ast.Assign) and all(isinstance(t, ast.Name) for t in x.targets) and pure(x.value) for x in (s, n)):
                    a, c = {t.id for t in s.targets}, {t.id for t in n.targets}
                    if not (a & c) and not (a & names(n.value)) and not (c & names(s.value)):
                        out[i], out[i + 1] = n, s
                        i += 1
                i += 1
            return out

    return B().visit(tree)


def t_split(tree, rng):
    """a, b = x, y -> two assignments when independent; and chained comparisons are expanded"""

    class B(BlockMap):
        def block(self, b):
            out = []
            for s in b:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.targets[0].elts) == len(s.value.elts) and all(isinstance(t, ast.Name) for t in s.targets[0].elts):
                    w = [t.id for t in s.targets[0].elts]
                    if all(not (set(w[:i]) & names(v)) for i, v in enumerate(s.value.elts)):
                        out += [ast.Assign([t], v) for t, v in zip(s.targets[0].elts, s.value.elts)]
                        continue
                out.append(s)
            return out

    return B().visit(tree)


def t_temptest(tree, rng):
    """if c: -> flag = c; if flag:  ; return e -> r = e; return r"""

    class B(BlockMap):
        k = 0

        def block(self, b):
            out = []
            for s in b:
                if isinstance(s, ast.If) and rng.random() < 0.5:
                    B.k += 1
                    n = f"flag_{B.k}"
                    out.append(ast.Assign([ast.Name(n, ast.Store())], s.test))
                    s.test = ast.Name(n, ast.Load())
                elif isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                    B.k += 1
                    n = f"result_{B.k}"
                    out.append(ast.Assign([ast.Name(n, ast.Store())], s.value))
                    s.value = ast.Name(n, ast.Load())
                out.append(s)
            return out

    return B().visit(tree)


def t_nestif(tree, rng):
    """if a and b: X (no else) -> if a: if b: X"""

    class F(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
                v = n.test.values
                rest = v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:])
                return ast.If(v[0], [ast.If(rest, n.body, [])], [])
            return n

    return F().visit(tree)


def _flow(stmts):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.Break, ast.Continue, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.Import, ast.ImportFrom, ast.Delete, ast.NamedExpr)):
                return True
            if isinstance(n, ast.Name) and n.id in ("super", "locals", "vars"):
                return True
    return False


def _definite(stmts):
    """names surely assigned by statements"""
    d = set()
    for s in stmts:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                d |= names(t, ast.Store)
        elif isinstance(s, ast.AugAssign):
            d |= names(s.target, ast.Store)
        elif isinstance(s, ast.If) and s.orelse:
            d |= _definite(s.body) & _definite(s.orelse)
        elif isinstance(s, ast.With):
            d |= _definite(s.body)
    return d


def t_extract(tree, rng):
    """move a run of statements of a function to a new module-level helper"""
    helpers = []
    k = [0]
    nestedset = {g for f in functions(tree) for g in ast.walk(f) if g is not f and isinstance(g, ast.FunctionDef)}
    modnames = names(ast.Module([s for s in tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))], []), ast.Store)
    for f in list(functions(tree)):
        if f in nestedset or any(isinstance(x, ast.FunctionDef) for x in f.body) or any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in ast.walk(f)):
            continue
        if f.decorator_list and not is_njit(f) and not any("property" in ast.dump(d) or "classmethod" in ast.dump(d) or "staticmethod" in ast.dump(d) for d in f.decorator_list):
            continue
        args = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs} | ({f.args.vararg.arg} if f.args.vararg else set()) | ({f.args.kwarg.arg} if f.args.kwarg else set())
        local = args | names(f, ast.Store)
        blocks = [f.body] + [b for n in ast.walk(f) if isinstance(n, (ast.For, ast.If, ast.While, ast.With)) for b in (n.body, getattr(n, "orelse", [])) if b]
        rng.shuffle(blocks)
        done = False
        for b in blocks:
            cands = [(i, j) for i in range(len(b)) for j in range(i + 1, min(len(b), i + 6) + 1)]
            rng.shuffle(cands)
            for i, j in cands[:12]:
                run = b[i:j]
                if isinstance(run[0], ast.Expr) and isinstance(run[0].value, ast.Constant) or _flow(run):
                    continue
                if len(run) == 1 and isinstance(run[0], (ast.Pass, ast.Expr)) and j - i < 2:
                    continue
                st = names(ast.Module(run, []), ast.Store)
                # comprehension variables are local to the run
                outside = [n for n in ast.walk(f) if isinstance(n, ast.Name)]
                inside = {id(n) for s in run for n in ast.walk(s) if isinstance(n, ast.Name)}
                used_out = {n.id for n in outside if id(n) not in inside and isinstance(n.ctx, ast.Load)}
                outv = sorted(st & used_out)
                if not set(outv) <= _definite(run):
                    continue
                loads = names(ast.Module(run, []), ast.Load)
                aug = {n.target.id for s in run for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
                inv = sorted(((loads & local) | aug))
                # inputs must be surely defined before: keep those assigned inside only when also read before
                pre = args | {n.id for n in outside if isinstance(n.ctx, ast.Store) and id(n) not in inside}
                firstdef = set()
                ok = True
                for v in list(inv):
                    if v not in pre:
                        inv.remove(v)
                    elif v in st and v not in args and v not in aug:
                        ok = False
                # variables of the enclosing scope maybe not yet defined: take only straight-line definitions
                sure = args | _definite([s for s in f.body if s.lineno < run[0].lineno]) | {n.id for x in ast.walk(f) if isinstance(x, ast.For) and x.lineno < run[0].lineno and x.end_lineno >= run[-1].end_lineno for n in ast.walk(x.target) if isinstance(n, ast.Name)}
                for x in ast.walk(f):
                    if isinstance(x, (ast.If, ast.For, ast.While, ast.With)) and x.lineno < run[0].lineno and x.end_lineno >= run[-1].end_lineno:
                        for bb in (x.body, getattr(x, "orelse", [])):
                            if bb and bb[0].lineno <= run[0].lineno and bb[-1].end_lineno >= run[-1].end_lineno:
                                sure |= _definite([s for s in bb if s.lineno < run[0].lineno])
                        if isinstance(x, ast.With):
                            for it in x.items:
                                if it.optional_vars is not None:
                                    sure |= names(it.optional_vars)
                if not ok or not set(inv) <= sure or len(outv) > 5:
                    continue
                k[0] += 1
                hn = f"_helper_{k[0]}"
                ret = [ast.Return(ast.Tuple([ast.Name(v, ast.Load()) for v in outv], ast.Load()) if len(outv) > 1 else ast.Name(outv[0], ast.Load()))] if outv else []
                pr = {v: ("slf" if v == "self" else v) for v in inv}
                body = copy.deepcopy(run)
                if "self" in inv:
                    for s in body:
                        for n in ast.walk(s):
                            if isinstance(n, ast.Name) and n.id == "self":
                                n.id = "slf"
                h = ast.FunctionDef(hn, ast.arguments([], [ast.arg(pr[v]) for v in inv], None, [], [], None, []), body + ret, [ast.Name("njit", ast.Load())] if is_njit(f) else [], None)
                call = ast.Call(ast.Name(hn, ast.Load()), [ast.Name(v, ast.Load()) for v in inv], [])
                if len(outv) > 1:
                    new = ast.Assign([ast.Tuple([ast.Name(v, ast.Store()) for v in outv], ast.Store())], call)
                elif outv:
                    new = ast.Assign([ast.Name(outv[0], ast.Store())], call)
                else:
                    new = ast.Expr(call)
                b[i:j] = [new]
                helpers.append(h)
                done = True
                break
            if done:
                break
    pos = next((i for i, s in enumerate(tree.body) if isinstance(s, (ast.FunctionDef, ast.ClassDef))), len(tree.body))
    for i, s in enumerate(tree.body):
        if isinstance(s, ast.If) and "__main__" in ast.dump(s.test):
            pos = min(pos, i)
    tree.body[pos:pos] = helpers
    return tree


def t_extractexpr(tree, rng):
    """move the value of an assignment to a helper function"""
    helpers, k = [], [0]
    nestedset = {g for f in functions(tree) for g in ast.walk(f) if g is not f and isinstance(g, ast.FunctionDef)}
    for f in list(functions(tree)):
        if f in nestedset or any(isinstance(x, (ast.FunctionDef, ast.Import, ast.ImportFrom)) for x in ast.walk(f) if x is not f):
            continue
        if f.decorator_list and not is_njit(f) and not any("property" in ast.dump(d) or "classmethod" in ast.dump(d) for d in f.decorator_list):
            continue
        args = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs} | ({f.args.vararg.arg} if f.args.vararg else set()) | ({f.args.kwarg.arg} if f.args.kwarg else set())
        local = args | names(f, ast.Store)
        c = [n for n in ast.walk(f) if isinstance(n, (ast.Assign, ast.Return, ast.If)) and (n.test if isinstance(n, ast.If) else n.value) is not None]
        rng.shuffle(c)
        for n in c[:2]:
            e = n.test if isinstance(n, ast.If) else n.value
            if isinstance(e, (ast.Constant, ast.Name)) or any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Yield, ast.NamedExpr)) or isinstance(x, ast.Name) and x.id in ("super", "locals", "globals") for x in ast.walk(e)):
                continue
            k[0] += 1
            inv = sorted(names(e) & local)
            body = copy.deepcopy(e)
            for x in ast.walk(body):
                if isinstance(x, ast.Name) and x.id == "self":
                    x.id = "slf"
            hn = f"_value_{k[0]}"
            helpers.append(ast.FunctionDef(hn, ast.arguments([], [ast.arg("slf" if v == "self" else v) for v in inv], None, [], [], None, []), [ast.Return(body)], [ast.Name("njit", ast.Load())] if is_njit(f) else [], None))
            call = ast.Call(ast.Name(hn, ast.Load()), [ast.Name(v, ast.Load()) for v in inv], [])
            if isinstance(n, ast.If):
                n.test = call
            else:
                n.value = call
    pos = next((i for i, s in enumerate(tree.body) if isinstance(s, (ast.FunctionDef, ast.ClassDef))), len(tree.body))
    for i, s in enumerate(tree.body):
        if isinstance(s, ast.If) and "__main__" in ast.dump(s.test):
            pos = min(pos, i)
    tree.body[pos:pos] = helpers
    return tree


def t_method(tree, rng):
    """move a run of statements of a method to a new method of the class"""
    k = [0]
    for c in [n for n in tree.body if isinstance(n, ast.ClassDef)]:
        new = []
        for f in [m for m in c.body if isinstance(m, ast.FunctionDef)]:
            if not f.args.args or f.args.args[0].arg != "self" or any(isinstance(x, (ast.FunctionDef, ast.Import, ast.ImportFrom)) for x in ast.walk(f) if x is not f):
                continue
            if any("staticmethod" in ast.dump(d) or "setter" in ast.dump(d) for d in f.decorator_list):
                continue
            sub = ast.Module([f], [])
            before = copy.deepcopy(f)
            f2 = copy.deepcopy(f)
            f2.decorator_list = []
            m = ast.Module([f2], [])
            t_extract(m, rng)
            hs = [x for x in m.body if x.name != f.name]
            if not hs:
                continue
            h = hs[0]
            ps = [a.arg for a in h.args.args]
            k[0] += 1
            nn = f"_part_{c.name}_{k[0]}"
            for x in ast.walk(f2):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == h.name:
                    x.func = ast.Attribute(ast.Name("self", ast.Load()), nn, ast.Load())
                    x.args = [a for a in x.args if a.id != "self"]
            h.name = nn
            for s in h.body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and x.id == "slf":
                        x.id = "self"
            h.args.args = [ast.arg("self")] + [a for a in h.args.args if a.arg != "slf"]
            f.body = f2.body
            new.append(h)
        c.body += new
    return tree


T = {n[2:]: f for n, f in list(globals().items()) if n.startswith("t_")}


def build(kind, seed):
    ov = {}
    for p, s in sources().items():
        rng = random.Random(f"{kind}{seed}{p}")
        tree = ast.parse(s)
        try:
            for k in kind.split("+"):
                tree = T[k](tree, rng)
                ast.fix_missing_locations(tree)
                tree = ast.parse(ast.unparse(tree))
        except Exception as e:
            print("transform failed", kind, p, repr(e))
            raise
        ov[p] = ast.unparse(tree)
    return ov


def job(a):
    kind, seed, pids = a
    from checker.engine import Broken, Program
    from checker.rules import known_findings
    import check as ck
    out = []
    try:
        ov = build(kind, seed)
        prog = Program(overlay=ov)
    except Exception as e:
        import traceback
        return [(kind, seed, "*", "BUILD " + traceback.format_exc()[-800:])]
    kf = known_findings()
    for pid in pids:
        try:
            c = ck.run(pid, "quick", prog)
            for f in c.findings:
                if (pid, f["key"]) in kf:
                    continue
                src = ov.get(os.path.join(REPO, f["file"]), "").split("\n")
                out.append((kind, seed, pid, f"{f['file']}:{f['line']} {f['key']}: {f['what']}  || {src[f['line']-1].strip()[:140] if f['line'] and f['line'] <= len(src) else ''}"))
        except Broken as e:
            out.append((kind, seed, pid, f"BROKEN {e}"))
        except Exception as e:
            import traceback
            out.append((kind, seed, pid, "ERROR " + traceback.format_exc()[-500:]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-k", default=None)
    ap.add_argument("-p", default=None)
    ap.add_argument("-s", type=int, default=1, help="number of seeds for random transforms")
    ap.add_argument("-o", help="write transformed sources in a directory")
    ap.add_argument("-v", type=int, default=6, help="lines by property")
    o = ap.parse_args()
    kinds = o.k.split(",") if o.k else list(T)
    pids = o.p.split(",") if o.p else [f[2:-3].upper() for f in sorted(os.listdir(os.path.join(V, "checker"))) if f.startswith("p_")]
    if o.o:
        for p, s in build(kinds[0], 0).items():
            q = os.path.join(o.o, os.path.relpath(p, REPO))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, "w").write(s)
        return
    rnd = {"extract", "extractexpr", "method", "hoist", "noop", "temptest"}
    jobs = [(k, s, pids) for k in kinds for s in range(o.s if any(x in rnd for x in k.split("+")) else 1)]
    from multiprocessing import Pool
    tot = 0
    with Pool(8, maxtasksperchild=4) as pool:
        for (k, s, _), r in zip(jobs, pool.imap(job, jobs, chunksize=1)):
            byp = {}
            for x in r:
                byp.setdefault(x[2], []).append(x[3])
            tot += len(r)
            print(f"== {k} #{s}: {len(r)} alarms", {p: len(v) for p, v in byp.items()})
            for p, v in byp.items():
                for l in v[: o.v]:
                    print("    ", p, l)
    print("total", tot)


if __name__ == "__main__":
    main()
