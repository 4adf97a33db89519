"""Command line options: what is declared, what is read; calls: arguments that exist"""
import ast

from .vocab import USUAL

PARSERS = ("add_argument",)
# names of methods of the libraries as well
ELSEWHERE = {"grid", "hist", "contains", "copy", "merge", "plot", "scatter", "update", "get", "read", "write", "close", "display", "index", "sort", "fill", "load", "set"}


def fname(c):
    return c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None


def calls_in(node):
    return [n for n in ast.walk(node) if isinstance(n, ast.Call)]


def dest(c):
    for k in c.keywords:
        if k.arg == "dest" and isinstance(k.value, ast.Constant):
            return k.value.value
    names = [a.value for a in c.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
    if not names:
        return None
    long = [n for n in names if n.startswith("--")]
    n = (long or names)[0]
    return n.lstrip("-").replace("-", "_")


def action(c):
    for k in c.keywords:
        if k.arg == "action" and isinstance(k.value, ast.Constant):
            return k.value.value
    return None


def by_name(prog):
    r = prog.__dict__.get("_fn_by_name")
    if r is None:
        r = prog._fn_by_name = {}
        for f in prog.functions.values():
            r.setdefault(f.node.name, []).append(f)
    return r


def called(prog, f, name):
    """Functions a name used in f designates, the closest first"""
    out = by_name(prog).get(name, ())
    near = [h for h in out if h.module is f.module]
    return near or list(out)


def declares(prog, f, seen=None):
    """[(dest, add_argument call)] of the parsers which f builds, itself or through functions called"""
    seen = set() if seen is None else seen
    if f.qual in seen:
        return []
    seen.add(f.qual)
    out = []
    for c in calls_in(f.node):
        n = fname(c)
        if n in PARSERS:
            d = dest(c)
            if d is None:
                out.append((None, c))
            elif action(c) not in ("help", "version"):
                out.append((d, c))
        elif n in ("memory_arg", "contour_intern_arg", "add_base_argument"):
            for h in by_name(prog).get(n, ()):
                out += declares(prog, h, seen)
        elif n == "EddyParser":
            for h in by_name(prog).get("add_base_argument", ()):
                out += declares(prog, h, seen)
        else:
            for h in called(prog, f, n):
                if h.module is f.module and any(fname(x) in PARSERS for x in calls_in(h.node)):
                    out += declares(prog, h, seen)
    return out


def is_parse(prog, f, c):
    """The call gives the options read from the command line"""
    n = fname(c)
    if n in ("parse_args", "parse_known_args") and not (isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Call) and fname(c.func.value) == "super"):
        return True
    for h in called(prog, f, n) if isinstance(c.func, ast.Name) else ():
        if h.module is f.module:
            for r in ast.walk(h.node):
                if isinstance(r, ast.Return) and isinstance(r.value, ast.Call) and fname(r.value) == "parse_args":
                    return True
    return False


def reads(prog, f, names, seen=None):
    """(attributes read of the variables `names`, everything is read)"""
    seen = set() if seen is None else seen
    if (f.qual, tuple(sorted(names))) in seen:
        return {}, False
    seen.add((f.qual, tuple(sorted(names))))
    out, whole = {}, False
    names = set(names)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
            names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in names and isinstance(n.ctx, ast.Load):
            if n.attr.startswith("_"):
                whole = True
            else:
                out.setdefault(n.attr, n)
        elif isinstance(n, ast.Call):
            w = fname(n)
            given = [(i, a) for i, a in enumerate(n.args)] + [(k.arg, k.value) for k in n.keywords]
            for i, a in given:
                if isinstance(a, ast.Name) and a.id in names:
                    if w == "getattr":
                        if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                            out.setdefault(n.args[1].value, n)
                        else:
                            whole = True
                        continue
                    if w in ("vars", "str", "repr", "print", "info", "debug"):
                        whole |= w == "vars"
                        continue
                    hs = called(prog, f, w)
                    if not hs:
                        whole = True
                    for h in hs:
                        ps = h.params()
                        if isinstance(n.func, ast.Attribute) and h.cls is not None:
                            ps = ps[1:]
                        p = i if isinstance(i, str) else ps[i] if isinstance(i, int) and i < len(ps) else None
                        if p:
                            o, w2 = reads(prog, h, {p}, seen)
                            out.update(o)
                            whole |= w2
    return out, whole


def tools(prog):
    """(function, {dest: call}, {attribute: node}, everything is read) of each command line tool"""
    out = []
    for f in sorted(prog.functions.values(), key=lambda f: f.qual):
        if f.parent is not None or f.short.startswith("EddyParser"):
            continue
        vs, used = set(), {}
        parse = False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for c in calls_in(n.value):
                    if is_parse(prog, f, c):
                        parse = True
                        vs |= {t.id for t in n.targets if isinstance(t, ast.Name)}
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Call) and is_parse(prog, f, n.value):
                parse = True
                used.setdefault(n.attr, n)
        if not parse:
            continue
        r, whole = reads(prog, f, vs)
        used.update(r)
        d = {}
        for k, c in declares(prog, f):
            d.setdefault(k, c)
        out.append((f, d, used, whole))
    return out


def late(prog):
    """[(function, add_argument call)] declared after the command line was parsed"""
    out = []
    for f in prog.functions.values():
        stop = None
        for s in f.node.body:
            for c in calls_in(s):
                if fname(c) in PARSERS and stop is not None:
                    out.append((f, c))
            if any(fname(c) == "parse_args" for c in calls_in(s)) and not f.short.startswith("EddyParser"):
                stop = s
    return out


# ------------------------------------------------------------------ calls


def callee(prog, f, c):
    """(functions a call may reach, number of arguments given by the receiver)"""
    fn = c.func
    q = prog.resolve_expr(f.module, fn)
    local = {x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
    if isinstance(fn, ast.Name) and (fn.id in local or any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == fn.id for x in ast.walk(f.node))):
        return [], 0
    if isinstance(fn, ast.Name) and fn.id in f.nested:
        return [f.nested[fn.id]], 0
    if q in prog.functions:
        h = prog.functions[q]
        # Class.method(...): the receiver is given, unless it is a class method
        return [h], 1 if h.cls is not None and "classmethod" in h.decorators else 0
    if q in prog.classes:
        h = prog.method(prog.classes[q], "__init__")
        return ([h], 1) if h is not None else ([], 0)
    if isinstance(fn, ast.Attribute):
        b, n = fn.value, fn.attr
        if isinstance(b, ast.Name) and b.id in ("self", "cls") and f.cls is not None:
            hs = []
            for k in prog.classes.values():
                if f.cls in prog.mro(k):
                    h = prog.method(k, n)
                    if h is not None and h not in hs:
                        hs.append(h)
            return hs, None
        if n in USUAL or isinstance(b, ast.Call) and fname(b) == "super" or q is not None:
            return [], 0
        hs = [h for h in prog.by_method.get(n, ()) if not h.prop]
        return hs, None
    return [], 0


def bad_call(h, c, given):
    """What is wrong with the arguments of call c for function h, or None"""
    a = h.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if given is None:
        given = 0 if h.static or h.cls is None else 1
    if given:
        ps = ps[given:]
    kws = {x.arg for x in a.kwonlyargs} | set(ps)
    for k in c.keywords:
        if k.arg is not None and k.arg not in kws and a.kwarg is None:
            return f"argument {k.arg} does not exist"
    star = any(isinstance(x, ast.Starred) for x in c.args)
    n = len([x for x in c.args if not isinstance(x, ast.Starred)])
    if n > len(ps) and a.vararg is None:
        return f"{n} arguments given, {len(ps)} at most"
    both = [k.arg for k in c.keywords if k.arg in ps[:n]]
    if both:
        return f"argument {both[0]} given twice"
    if not star and not any(k.arg is None for k in c.keywords):
        nd = len(a.defaults)
        need = ps[: len(ps) - nd] if nd else ps
        have = set(ps[:n]) | {k.arg for k in c.keywords}
        miss = [p for p in need if p not in have]
        miss += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in have]
        if miss:
            return f"argument {miss[0]} is missing"
    return None


def reach(prog, f):
    """f and the functions of its module it calls, helpers of helpers included"""
    out, todo = [], [f]
    while todo:
        h = todo.pop()
        if h in out:
            continue
        out.append(h)
        for c in calls_in(h.node):
            todo += [k for k in called(prog, h, fname(c)) if k.module is h.module]
    return out


def given(prog, f):
    """{name of a function of the package: ({arguments given by a call or more}, a call)} for a tool and its helpers; None when the arguments
    are not known"""
    out = {}
    for h in reach(prog, f):
        for c in calls_in(h.node):
            hs, n = callee(prog, h, c)
            if not hs:
                continue
            k = hs[0]
            was = out.setdefault(k.node.name, (set(), c))
            if was[0] is None:
                continue
            if any(isinstance(a, ast.Starred) for a in c.args) or any(x.arg is None for x in c.keywords):
                out[k.node.name] = None, c
                continue
            ps = k.params()
            if n is None:
                n = 0 if k.static or k.cls is None else 1
            was[0].update(ps[n:n + len(c.args)])
            was[0].update(x.arg for x in c.keywords)
    return out


def calls(prog):
    """(function, call, callees, what is wrong or None) of each call to functions of the repository"""
    for f in sorted(prog.functions.values(), key=lambda f: f.qual):
        own = []
        stack = list(f.node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, ast.FunctionDef):
                stack.extend(n.decorator_list)
                continue
            if isinstance(n, ast.Call):
                own.append(n)
            stack.extend(ast.iter_child_nodes(n))
        for c in sorted(own, key=lambda c: (c.lineno, c.col_offset)):
            hs, given = callee(prog, f, c)
            if not hs:
                continue
            if any("property" in d for h in hs for d in h.decorators):
                continue
            # a decorator which changes the signature
            if any(not d.startswith(("njit", "numba", "staticmethod", "classmethod", "abstractmethod", "vectorize")) for h in hs for d in h.decorators):
                continue
            bad = [bad_call(h, c, given) for h in hs]
            if given is None and hs[0].cls is not None and not (isinstance(c.func.value, ast.Name) and c.func.value.id in ("self", "cls")):
                # found by its name only: may be the method of something else
                if f.short.startswith(("gui.", "appli.gui.")) or c.func.attr in ELSEWHERE:
                    continue
            yield f, c, hs, None if any(b is None for b in bad) else bad[0]
