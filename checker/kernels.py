"""Functions compiled by numba: options, calls, globals, parallel loops"""
import ast

from .engine import own_nodes

NAN = {"isnan", "isfinite", "isinf", "nanmean", "nansum", "nanmin", "nanmax", "nanstd", "nanmedian", "nanpercentile", "isneginf", "isposinf", "nan_to_num", "isclose", "allclose"}


def decorator(f):
    """The decorator that compiles f (node), or None"""
    for d in f.node.decorator_list:
        e = d.func if isinstance(d, ast.Call) else d
        n = e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else ""
        if n in ("njit", "jit", "vectorize", "guvectorize", "stencil", "cfunc"):
            return d
    return None


def option(d, name):
    if isinstance(d, ast.Call):
        for k in d.keywords:
            if k.arg == name:
                return k.value
    return None


def on(v):
    """An option is set: True, or a non empty set of flags, or a value not known"""
    if v is None:
        return False
    if isinstance(v, ast.Constant):
        return bool(v.value)
    if isinstance(v, (ast.Set, ast.Tuple, ast.List)):
        return bool(v.elts)
    return True


def nanflags(v):
    """The flags of fastmath let the compiler forget about NaN and infinities"""
    if not on(v):
        return False
    if isinstance(v, ast.Set) and all(isinstance(x, ast.Constant) for x in v.elts):
        return bool({x.value for x in v.elts} & {"fast", "nnan", "ninf"})
    return True


def signatures(d):
    """[(signature, number of arguments)] written in the decorator"""
    out = []
    if isinstance(d, ast.Call) and d.args:
        a = d.args[0]
        for s in a.elts if isinstance(a, (ast.List, ast.Tuple)) else [a]:
            if isinstance(s, ast.Constant) and isinstance(s.value, str) and s.value.endswith(")"):
                out.append((s, count(s.value)))
    return out


def count(s):
    """Number of arguments of a signature: those of the last pair of brackets"""
    deep, i = 0, len(s) - 1
    while i >= 0:
        deep += {")": 1, "(": -1}.get(s[i], 0)
        if deep == 0:
            break
        i -= 1
    inner = s[i + 1:-1]
    if not inner.strip():
        return 0
    n, deep = 1, 0
    for ch in inner:
        deep += {"(": 1, "[": 1, ")": -1, "]": -1}.get(ch, 0)
        if ch == "," and deep == 0:
            n += 1
    return n


def tests_nan(f):
    """Nodes of f that ask whether a value is NaN or infinite"""
    out = []
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call):
            w = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
            if w in NAN:
                out.append(n)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            if isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and ast.dump(l) == ast.dump(r):
                out.append(n)
            for x in (l, r):
                if isinstance(x, ast.UnaryOp):
                    x = x.operand
                if isinstance(x, (ast.Name, ast.Attribute)) and (x.id if isinstance(x, ast.Name) else x.attr) in ("inf", "Inf", "infty", "nan", "NaN"):
                    out.append(n)
    return out


def names_loaded(f):
    own = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {x.arg for x in ast.walk(f.node) if isinstance(x, ast.arg)}
    for n in own_nodes(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in own:
            yield n


def carried(loop):
    """(name or array, node) of what an iteration of a parallel loop takes from, or leaves to, another one"""
    out = []
    i = loop.target.id if isinstance(loop.target, ast.Name) else None
    body = ast.Module(loop.body, [])
    red, plain, first = {}, {}, {}
    # scalars: read before they are written in the iteration, and written there
    from .scopes import Flow

    written = {}
    for n in ast.walk(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            written.setdefault(n.id, n)
    aug = {}
    for n in ast.walk(body):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            aug.setdefault(n.target.id, []).append(n)
    fn = ast.FunctionDef(name="body", args=ast.arguments(posonlyargs=[], args=[ast.arg(i)] if i else [], kwonlyargs=[], kw_defaults=[], defaults=[]), body=loop.body, decorator_list=[])
    fl = Flow(fn)
    for x, n in {**fl.maybe, **fl.never}.items():
        a = aug.get(x, [])
        stores = [m for m in ast.walk(body) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store) and m.id == x]
        loads = [m for m in ast.walk(body) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load) and m.id == x]
        if a and len(stores) == len(a) and not loads and all(isinstance(m.op, (ast.Add, ast.Mult, ast.Sub)) for m in a):
            continue
        out.append((x, n))
    # arrays: written at a place which is not that of the iteration
    local = set(written)
    for n in ast.walk(body):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
            b = n.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name) and b.id in local and b.id not in fl.maybe:
                continue
            idx = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            inner = {i} | {t.target.id for t in ast.walk(body) if isinstance(t, ast.For) and isinstance(t.target, ast.Name) and False}
            if not any(isinstance(x, ast.Name) and x.id in inner or isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Sub)) and isinstance(x.left, ast.Name) and x.left.id == i and isinstance(x.right, ast.Constant) for x in idx):
                out.append((ast.unparse(n), n))
    # arrays read at the place of another iteration, and written
    stored = {ast.unparse(n.value) for n in ast.walk(body) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store)}
    for n in ast.walk(body):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and ast.unparse(n.value) in stored:
            idx = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            if not any(isinstance(x, ast.Name) and x.id == i for x in idx) and not (isinstance(n.value, ast.Name) and n.value.id in local):
                out.append((ast.unparse(n), n))
    return out


def parallel_loops(f):
    for n in own_nodes(f.node):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call):
            w = n.iter.func
            w = w.attr if isinstance(w, ast.Attribute) else w.id if isinstance(w, ast.Name) else ""
            if w == "prange":
                yield n
