"""What a function changes in, keeps from, and returns of what it is given.

changes(prog, f): {(parameter, attributes)}: parts of a parameter that are written, by a store, by an augmented assignment of an
array, or by a function called.  keeps(prog, f): parts of a parameter which become a part of another object.  gives(prog, f): parts of a
parameter which are returned as they are."""
import ast

from .effects import EXTERNAL, INPLACE, LISTS, META, bind, path
from . import terms
from .terms import T
from .vocab import USUAL

ARRAY_ATTR = {"shape", "size", "dtype", "ndim", "T", "sum", "any", "all", "astype", "mean", "min", "max", "ravel", "reshape", "mask", "cumsum", "argsort", "std", "filled"}
STORAGE = {"observations", "obs", "vars", "variables_description", "x_c", "y_c", "x_bounds", "y_bounds", "dimensions", "global_attrs", "datasets", "virtual_obs"}


def targets(prog, g, t):
    ft = t.a[0]
    out = []
    for f in ((ft.a[1], ft.a[2]) if ft.op == "ite" else (ft,)):
        h, _, _ = g.resolve(f)
        if h is not None:
            out.append(h)
        elif f.op == "attr" and f.a[1] not in USUAL:
            out += [x for x in prog.by_method.get(f.a[1], ()) if not x.prop]
    return out


def array_names(f):
    """Names used as arrays by the text of the function: subscripted, inverted, used as index, or asked for what only arrays have"""
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript):
            if isinstance(n.value, ast.Name):
                out.add(n.value.id)
        elif isinstance(n, ast.Attribute) and n.attr in ARRAY_ATTR and isinstance(n.value, ast.Name):
            out.add(n.value.id)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Invert) and isinstance(n.operand, ast.Name):
            out.add(n.operand.id)
    return out


def starts(g, t, seen=None):
    """Terms a value may be, through choices and loops"""
    seen = set() if seen is None else seen
    if t in seen:
        return []
    seen.add(t)
    if t.op == "ite":
        return starts(g, t.a[1], seen) + starts(g, t.a[2], seen)
    if t.op == "last":
        return starts(g, t.a[1], seen)
    if t.op == "mu":
        lp = g.loops.get(t.a[0])
        out = []
        if lp is not None and t.a[1] in lp.back:
            for x in lp.back[t.a[1]]:
                if isinstance(x, T):
                    out += starts(g, x, seen)
        return out
    return [t]


def roots(g, t):
    out = []
    for s in starts(g, t):
        for r, p in path(s):
            if r is s:
                out.append((r, p))
            else:
                out += [(r2, (q + p)[:3]) for r2, q in roots(g, r)] if r.op in ("ite", "mu", "last") else [(r, p)]
    return out


def is_array(g, t, arrays):
    """An array that the caller holds too: a field, or a parameter used as an array (an element of an array is a number)"""
    for s in starts(g, t):
        if s.op == "field" or s.op == "attr" and s.a[1] in terms.FIELDS | STORAGE:
            return True
        if s.op == "sub" and isinstance(s.a[1], T) and s.a[1].op == "slice":
            return True
        n = [k for k, v in g.params.items() if v is s]
        if n and n[0] in arrays:
            return True
    return False


def changes(prog, f):
    memo = prog.__dict__.setdefault("_changes", {})
    if f.qual in memo:
        return memo[f.qual]
    memo[f.qual] = {}
    out = {}
    g = prog.vfg(f)
    names = {t: n for n, t in g.params.items()}
    arrays = array_names(f)

    def put(t, e, more=()):
        for r, p in roots(g, t):
            if r in names:
                out.setdefault((names[r], (p + tuple(more))[:2]), e)

    for e in g.events:
        if e.kind in ("store_sub", "delitem") and isinstance(e.base, T):
            put(e.base, e)
        elif e.kind == "store_attr" and isinstance(e.base, T):
            put(e.base, e, ("[" + e.idx if e.idx in terms.FIELDS else e.idx,))
        elif e.kind == "inplace" and isinstance(e.base, T) and is_array(g, e.base, arrays):
            put(e.base, e)
        elif e.kind == "call":
            t = e.term
            fs = targets(prog, g, t)
            for h in fs:
                for p, v in bind(h, t):
                    for (q, how), _ in changes(prog, h).items():
                        if q == p and isinstance(v, T):
                            put(v, e, how)
            if not fs:
                ft = t.a[0]
                if ft.op == "attr" and ft.a[1] in INPLACE and ft.a[1] not in ("read", "readline", "close", "seek", "update"):
                    put(ft.a[0], e, ("[]",) if ft.a[1] in LISTS else ())
                elif ft.op == "attr" and ft.a[1] == "update":
                    put(ft.a[0], e, ("[]",))
                elif ft.op == "global":
                    for i in EXTERNAL.get(ft.a[0], ()):
                        if i < len(t.a[1]):
                            put(t.a[1][i], e)
                for k, v in t.a[2]:
                    if k == "out" and isinstance(v, T):
                        for x in v.a if v.op == "tuple" else (v,):
                            if isinstance(x, T):
                                put(x, e)
    memo[f.qual] = out
    return out


def augmented(prog, f):
    """Parts of the parameters which an augmented assignment of an array changes"""
    out = {}
    g = prog.vfg(f)
    names = {t: n for n, t in g.params.items()}
    arrays = array_names(f)
    ps = f.params()
    for e in g.events:
        if e.kind == "inplace" and isinstance(e.base, T) and is_array(g, e.base, arrays):
            for r, p in roots(g, e.base):
                if r in names:
                    n = names[r]
                    out.setdefault((ps.index(n) if n in ps else n, p[:2]), (n, e))
    return out


def keeps(prog, f):
    """Parts of a parameter stored as they are in another object"""
    out = {}
    g = prog.vfg(f)
    names = {t: n for n, t in g.params.items()}
    for e in g.events:
        if e.kind not in ("store_attr", "store_sub") or not isinstance(e.val, T):
            continue
        dest = {(names.get(r), p) for r, p in roots(g, e.base)}
        where = e.idx if e.kind == "store_attr" else None
        if where is None:
            ps = [p for _, p in dest if p and p[-1] in STORAGE and p[-1] not in ("obs", "observations")]
            if not ps:
                continue
            where = ps[0][-1]
        if where not in STORAGE:
            continue
        for r, p in roots(g, e.val):
            if r in names and p and p[-1] in STORAGE | {"["} and all(d[0] != names[r] for d in dest):
                out.setdefault((names[r], p[:2], where), e)
    return out


def selection(t):
    """Rows selected by a mask or an array of rows: always a copy"""
    return t.op == "sub" and isinstance(t.a[1], T) and t.a[1].op not in ("slice", "const", "tuple")


def gives(prog, f):
    """Parts of a parameter which are returned as they are"""
    out = {}
    g = prog.vfg(f)
    names = {t: n for n, t in g.params.items()}
    for e in g.returns():
        if not isinstance(e.val, T):
            continue
        for v in e.val.a if e.val.op in ("tuple", "list") else (e.val,):
            if isinstance(v, T):
                for r, p in (x for s in starts(g, v) if not selection(s) for x in roots(g, s)):
                    if r in names and (not p or p[-1] in STORAGE or p[-1].startswith("[")):
                        out.setdefault((names[r], p[:2]), e)
    return out
