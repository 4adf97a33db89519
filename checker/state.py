"""State that survives a call: mutable defaults, tables of the module or of the class, caches"""
import ast

from .scopes import family, receiver

MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
MAKERS = ("list", "dict", "set", "bytearray", "defaultdict", "OrderedDict", "Counter", "deque", "array", "zeros", "ones", "empty", "full", "arange")
INPLACE = {"append", "extend", "insert", "pop", "remove", "sort", "add", "update", "discard", "clear", "setdefault", "popitem", "reverse", "fill", "resize", "put", "partition", "itemset", "appendleft", "setflags"}
CACHES = ("lru_cache", "cache", "cached_property", "cachedmethod", "memoize")


def mutable(e):
    if isinstance(e, MUTABLE):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        return n in MAKERS
    return False


def defaults(f):
    """[(parameter, default)] of parameters whose default is an object that can change"""
    a = f.node.args
    ps = a.posonlyargs + a.args
    out = [(p.arg, d) for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults) if mutable(d)]
    return out + [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None and mutable(d)]


def rebound(f):
    """Names a function binds itself"""
    return {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {
        x.arg for x in ast.walk(f.node) if isinstance(x, ast.arg)}


def root(e):
    """(expression at the root of a chain of accesses, attributes and items followed)"""
    path = []
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        path.append(e.attr if isinstance(e, ast.Attribute) else "[]")
        e = e.value
    return e, path[::-1]


def mutated(f):
    """(expression of the object changed, node) of each change in place of a function"""
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.BitOr)):
                # a list is extended in place
                yield n.target, n
            for t in ts:
                for x in ast.walk(t):
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        yield x.value, n
                    elif isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        yield x, n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in INPLACE:
            yield n.func.value, n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args:
            yield n.args[0], n


def shared(prog, f):
    """[(name, node)] tables of modules and of classes that f changes"""
    out = []
    own = rebound(f)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Global):
            out += [(x, n) for x in n.names]
    r = receiver(f)
    fam = family(prog, f.cls) if f.cls is not None else ()
    mine = {n.attr for h in prog.functions.values() if h.cls in fam and receiver(h) and not h.classm for n in ast.walk(h.node)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == receiver(h)} if fam else set()
    alias = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        alias.setdefault(x.id, []).append((n.lineno, n.value if t is x and isinstance(n.value, (ast.Name, ast.Attribute)) else None))
        elif isinstance(n, (ast.For, ast.comprehension, ast.With, ast.AnnAssign, ast.NamedExpr)):
            for x in ast.walk(n.target) if not isinstance(n, ast.With) else [y for i in n.items if i.optional_vars is not None for y in ast.walk(i.optional_vars)]:
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    alias.setdefault(x.id, []).append((x.lineno, None))

    def bound_to(name, line):
        """What the last binding of a name, before that line, gives it"""
        bs = [b for b in alias.get(name, ()) if b[0] < line]
        return max(bs, key=lambda b: b[0])[1] if bs else None

    def table(e, deep=0):
        b, path = root(e)
        if isinstance(b, ast.Name):
            if b.id in own:
                v = bound_to(b.id, b.lineno) if deep < 3 else None
                if v is not None:
                    t = table(v, deep + 1)
                    if t is not None:
                        return t
                if b.id == r and path and f.cls is not None:
                    if f.classm:
                        return f"{f.cls.name}.{path[0]}"
                    holders = [k for k in fam if path[0] in k.attrs and mutable(k.attrs[path[0]])]
                    # a table of the class, that no instance replaces
                    if holders and path[0] not in mine and not (len(path) == 1 and isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Store)):
                        return f"{holders[0].name}.{path[0]}"
                return None
            q = prog.resolve_expr(f.module, b)
            if q is None:
                return None
            if q in prog.classes:
                return f"{b.id}.{path[0]}" if path else None
            m, _, n = q.rpartition(".")
            if q in prog.functions:
                return f"{n}.{path[0]}" if path else None
            if q in prog.modules and path and path[0] in prog.modules[q].consts:
                return path[0]
            if m in prog.modules and n in prog.modules[m].consts:
                return n
        if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "type" and path:
            return f"type.{path[0]}"
        return None

    for e, n in mutated(f):
        if isinstance(e, ast.Attribute) and isinstance(e.ctx, (ast.Store, ast.Del)):
            b = e.value
            t = None
            if isinstance(b, ast.Name) and b.id == r and f.classm:
                t = f"{f.cls.name}.{e.attr}"
            elif isinstance(b, ast.Name) and b.id not in own and prog.resolve_expr(f.module, b) in prog.classes:
                t = f"{b.id}.{e.attr}"
            elif isinstance(b, ast.Attribute) and b.attr == "__class__" or isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "type":
                t = f"type.{e.attr}"
            elif not (isinstance(b, ast.Name) and b.id == r):
                t = table(b)
        else:
            t = table(e)
        if t is not None:
            out.append((t, n))
    return out


def caches(f):
    out = []
    for d in f.node.decorator_list:
        e = d.func if isinstance(d, ast.Call) else d
        n = e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else ""
        if n in CACHES:
            out.append((n, d))
    return out


# ------------------------------------------------------------------ memos


def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def absent(t):
    """Things a test finds absent: the test is true when they were never computed"""
    if isinstance(t, ast.BoolOp):
        for v in t.values:
            yield from absent(v)
    elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        c = t.operand
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "hasattr" and len(c.args) == 2 and isinstance(c.args[1], ast.Constant):
            yield ast.unparse(c.args[0]) + "." + str(c.args[1].value), c
        elif isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.In):
            yield ast.unparse(strip(c.comparators[0])), c
    elif isinstance(t, ast.Compare) and len(t.ops) == 1:
        if isinstance(t.ops[0], ast.Is) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and isinstance(t.left, (ast.Attribute, ast.Subscript)):
            yield ast.unparse(t.left), t
        elif isinstance(t.ops[0], ast.NotIn):
            yield ast.unparse(strip(t.comparators[0])), t


def strip(e):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "keys":
        return e.func.value
    return e


def memos(prog, f):
    """[(what is kept, parameters it depends on and which do not choose it, node)]"""
    a = f.node.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    r = receiver(f) or ("self" if "self" in params else None)
    params.discard(r)
    # names computed from parameters
    dep = {p: {p} for p in params}
    for _ in range(3):
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                v = set().union(*[dep.get(x, set()) for x in names(n.value)]) if names(n.value) else set()
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in params:
                            dep.setdefault(x.id, set()).update(v)

    def of(e):
        return set().union(*[dep.get(x, set()) for x in names(e)]) if names(e) else set()

    out = []
    for s in ast.walk(f.node):
        if not isinstance(s, ast.If):
            continue
        what = [(w, t) for w, t in absent(s.test) if w.split(".")[0].split("[")[0] == r]
        if not what:
            continue
        key = of(s.test)
        # the name of the object that keeps, and the tests around
        kept = None
        uses = set()
        for n in ast.walk(ast.Module(s.body, [])):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    b, path = root(t)
                    if isinstance(b, ast.Name) and b.id == r and path:
                        u = ast.unparse(t)
                        for w, _ in what:
                            if u == w or u.startswith(w + "[") or u.startswith(w + "."):
                                kept = kept or (w, n)
                                if isinstance(t, ast.Subscript):
                                    key |= of(t.slice)
                                uses |= of(n.value)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == r and any(
                    isinstance(p, ast.Expr) and p.value is n for p in ast.walk(ast.Module(s.body, []))):
                # a method called for what it computes and keeps
                kept = kept or (what[0][0], n)
                for x in list(n.args) + [k.value for k in n.keywords]:
                    uses |= of(x)
        if kept is not None:
            out.append((kept[0], uses - key, kept[1]))
    return out
