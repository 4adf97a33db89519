"""What a function of the repository may change in what it is given, and what it looks at.

writes(prog, f): {(parameter, path)}: arrays, lists, attributes reached from a parameter that f, or a function f calls,
stores into. Methods that cannot be resolved are those of that name anywhere in the repository.
"""
import ast

from .terms import T, walk

INPLACE = {
    "append", "extend", "insert", "pop", "remove", "sort", "add", "update", "discard", "clear", "fill", "put", "resize",
    "reverse", "partition", "setdefault", "popitem", "popleft", "appendleft", "itemset", "harden_mask", "soften_mask", "setncattr",
    "setncatts", "__next__", "seek", "write", "close", "read", "readline",
}
LISTS = {"append", "extend", "insert", "pop", "remove", "add", "update", "discard", "clear", "setdefault", "popitem", "popleft", "appendleft"}
EXTERNAL = {"numpy.copyto": (0,), "numpy.put": (0,), "numpy.random.shuffle": (0,), "numpy.place": (0,), "numpy.putmask": (0,), "numpy.fill_diagonal": (0,)}
META = ("size", "shape", "dtype", "ndim", "__class__", "name", "names", "fields")


def path(t):
    """[(root, attributes)] of the object a term is a part of"""
    if t.op == "ite":
        return path(t.a[1]) + path(t.a[2])
    p = ()
    while t.op in ("attr", "sub", "field"):
        if t.op == "attr":
            if t.a[1] in META:
                return []
            p = (t.a[1],) + p
        elif t.op == "field" and len(t.a) > 1 and isinstance(t.a[1], str):
            p = ("[" + t.a[1],) + p
        t = t.a[0]
        if t.op == "ite":
            return [(r, q + p) for r, q in path(t)]
    return [(t, p[:3])]


# what the values of a variable also have
NP_METHODS = {"copy", "sum", "mean", "std", "min", "max", "all", "any", "sort", "tolist", "astype", "reshape", "repeat", "cumsum", "argsort"}


def of_variable(t):
    while t.op == "sub":
        t = t.a[0]
    return t.op == "field"


def targets(prog, g, t):
    """Functions of the repository a call may reach"""
    ft = t.a[0]
    out = []
    for f in ((ft.a[1], ft.a[2]) if ft.op == "ite" else (ft,)):
        h, _, _ = g.resolve(f)
        if h is not None:
            out.append(h)
        elif f.op == "attr" and not (f.a[1] in NP_METHODS and of_variable(f.a[0])):
            out += [x for x in prog.by_method.get(f.a[1], ()) if not x.prop]
    return out


def bind(f, t):
    """(parameter, value) of a call"""
    ft = t.a[0]
    ps = f.params()
    out = []
    if f.cls is not None and not f.static and f.parent is None:
        if ft.op == "attr":
            out.append((ps[0], ft.a[0])) if ps else None
        ps = ps[1:]
    out += list(zip(ps, t.a[1]))
    kw = f.node.args.kwarg
    out += [(k, v) for k, v in t.a[2] if k in ps or kw is not None and not k.startswith("#")]
    return out


def changed(prog, g, t):
    """Terms which a call may write in"""
    ft = t.a[0]
    out = []
    fs = targets(prog, g, t)
    for f in fs:
        w = writes(prog, f)
        for p, v in bind(f, t):
            for q, how in w:
                if q == p and isinstance(v, T):
                    out.append((v, how))
    if fs and ft.op == "attr" and ft.a[1] in LISTS and g.resolve(ft)[0] is None:
        # or a list
        out.append((ft.a[0], ("[]",)))
    if not fs:
        if ft.op == "attr" and ft.a[1] in INPLACE:
            out.append((ft.a[0], ("[]",) if ft.a[1] in LISTS else ()))
        elif ft.op == "global":
            for i in EXTERNAL.get(ft.a[0], ()):
                if i < len(t.a[1]):
                    out.append((t.a[1][i], ()))
        for k, v in t.a[2]:
            if k == "out" and isinstance(v, T):
                out += [(x, ()) for x in (v.a if v.op == "tuple" else (v,)) if isinstance(x, T)]
    return out


def writes(prog, f):
    memo = prog.__dict__.setdefault("_writes", {})
    r = memo.get(f.qual)
    if r is not None:
        return r
    memo[f.qual] = frozenset()
    out = set()
    g = prog.vfg(f)
    names = {t: n for n, t in g.params.items()}

    def put(t, more=()):
        for r, p in path(t):
            if r in names:
                out.add((names[r], (p + tuple(more))[:3]))

    for e in g.events:
        if e.kind in ("store_sub", "delitem") and isinstance(e.base, T):
            put(e.base)
        elif e.kind == "store_attr" and isinstance(e.base, T):
            put(e.base, (e.idx,))
        elif e.kind == "call":
            for v, how in changed(prog, g, e.term):
                put(v, how)
    memo[f.qual] = frozenset(out)
    return memo[f.qual]


def mentions(prog, f):
    """Names of the attributes f looks at, or those of the functions it calls by name"""
    memo = prog.__dict__.setdefault("_mentions", {})
    if f.qual in memo:
        return memo[f.qual]
    by = prog.__dict__.get("_byname")
    if by is None:
        by = {}
        for q, h in prog.functions.items():
            by.setdefault(q.rsplit(".", 1)[-1], []).append(h)
        prog._byname = by
    seen, todo, out = set(), [f], set()
    while todo:
        h = todo.pop()
        if h.qual in seen:
            continue
        seen.add(h.qual)
        for n in ast.walk(h.node):
            w = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            if w is None:
                continue
            if isinstance(n, ast.Attribute):
                out.add(w)
            todo += by.get(w, ())
            if len(seen) > 60:
                memo[f.qual] = None  # too much
                return None
        for n in ast.walk(h.node):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                out.add("[" + n.value)
    memo[f.qual] = out
    return out
