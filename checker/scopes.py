"""Names and attributes: what binds them, what reads them, on which paths"""
import ast
import builtins

from .engine import PKG

BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__class__", "__qualname__", "__module__", "__package__", "__spec__"}
# classes of the language, with the attributes of their instances
PLAIN = {"object": dir(object), "list": dir(list), "dict": dir(dict), "tuple": dir(tuple), "set": dir(set), "str": dir(str), "Exception": dir(Exception), "argparse.ArgumentParser": None}


# ------------------------------------------------------------------ names


def bound(node, out=None):
    """Names bound in the scope of node, and those declared global or nonlocal there"""
    out = (set(), set()) if out is None else out
    for n in ast.iter_child_nodes(node):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out[0].add(n.name)
            for d in n.decorator_list:
                bound(ast.Expr(d), out)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    out[0].add(w.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out[0].add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out[0].add(a.asname or a.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out[0].add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            out[1].update(n.names)
        elif isinstance(n, ast.MatchAs) and n.name:
            out[0].add(n.name)
        bound(n, out)
    return out


def arguments(a):
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}


def module_names(m):
    r = m.__dict__.get("_bound")
    if r is None:
        r = set(bound(m.tree)[0])
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                r.update(n.names)
        m._bound = r
    return r


def unresolved(m):
    """[(name, node, innermost function or None)] read in module m and bound nowhere"""
    out = []
    top = module_names(m) | BUILTIN

    def visit(n, scopes, fn, incls):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = n.args
            for d in list(a.defaults) + [k for k in a.kw_defaults if k is not None] + getattr(n, "decorator_list", []):
                visit(d, scopes, fn, incls)
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                if x.annotation is not None and not isinstance(x.annotation, ast.Constant):
                    visit(x.annotation, scopes, fn, incls)
            outer = [s for s in scopes if s[1] != "class"]
            b, g = bound(n) if not isinstance(n, ast.Lambda) else bound(ast.Expr(n.body))
            s = (b - g | arguments(a), "function")
            body = n.body if isinstance(n.body, list) else [n.body]
            for x in body:
                visit(x, outer + [s], n if not isinstance(n, ast.Lambda) else fn, False)
            return
        if isinstance(n, ast.ClassDef):
            for x in n.bases + n.decorator_list + [k.value for k in n.keywords]:
                visit(x, scopes, fn, incls)
            s = (bound(n)[0], "class")
            for x in n.body:
                visit(x, scopes + [s], fn, True)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            s = (set(), "function")
            for g in n.generators:
                visit(g.iter, scopes + [s], fn, incls)
                for w in ast.walk(g.target):
                    if isinstance(w, ast.Name):
                        s[0].add(w.id)
                for c in g.ifs:
                    visit(c, scopes + [s], fn, incls)
            for x in ([n.elt] if not isinstance(n, ast.DictComp) else [n.key, n.value]):
                visit(x, scopes + [s], fn, incls)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            if n.id not in top and not any(n.id in s[0] for s in scopes):
                out.append((n.id, n, fn))
            return
        for c in ast.iter_child_nodes(n):
            visit(c, scopes, fn, incls)

    for s in m.tree.body:
        visit(s, [], None, False)
    return out


# ------------------------------------------------------------------ assigned before use


class Flow:
    """Locals of one function read before anything may have bound them (never), or bound on some paths only (maybe)"""

    def __init__(self, node):
        b, g = bound(node)
        self.locals = b - g - arguments(node.args)
        self.never, self.maybe = {}, {}
        self.loops = []
        a = arguments(node.args)
        self.block(node.body, (set(a), set(a)))

    def use(self, e, st):
        """Names read by an expression, comprehensions included"""
        if e is None or st is None:
            return
        D, M = st
        todo = [(e, frozenset())]
        while todo:
            n, own = todo.pop()
            if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                own = own | {w.id for g in n.generators for w in ast.walk(g.target) if isinstance(w, ast.Name)}
            if isinstance(n, ast.NamedExpr):
                todo.append((n.value, own))
                D.add(n.target.id)
                M.add(n.target.id)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in own:
                if n.id not in M:
                    self.never.setdefault(n.id, n)
                elif n.id not in D:
                    self.maybe.setdefault(n.id, n)
                continue
            todo.extend((c, own) for c in ast.iter_child_nodes(n))

    def bind(self, t, st):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                st[0].add(n.id)
                st[1].add(n.id)
        for n in ast.walk(t):
            if isinstance(n, (ast.Attribute, ast.Subscript)):
                self.use(n, st)

    @staticmethod
    def join(*ss):
        ss = [s for s in ss if s is not None]
        if not ss:
            return None
        return set.intersection(*[s[0] for s in ss]), set.union(*[s[1] for s in ss])

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        cp = lambda z: (set(z[0]), set(z[1]))
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.use(d, st)
            st[0].add(s.name)
            st[1].add(s.name)
            return st
        if isinstance(s, ast.Assign):
            self.use(s.value, st)
            for t in s.targets:
                self.bind(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            self.use(s.value, st)
            self.bind(s.target, st)
            return st
        if isinstance(s, ast.AnnAssign):
            self.use(s.value, st)
            if s.value is not None:
                self.bind(s.target, st)
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.use(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
                    st[0].discard(t.id)
                    st[1].discard(t.id)
                else:
                    self.use(t, st)
            return st
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.use(c, st)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1][0 if isinstance(s, ast.Break) else 1].append(cp(st))
            return None
        if isinstance(s, ast.If):
            self.use(s.test, st)
            if isinstance(s.test, ast.Constant):
                return self.block(s.body if s.test.value else s.orelse, st)
            return self.join(self.block(s.body, cp(st)), self.block(s.orelse, cp(st)))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            if isinstance(s, ast.While):
                self.use(s.test, st)
            else:
                self.use(s.iter, st)
            entry = cp(st)
            # names bound in the body may be bound at the next iteration
            again = bound(s)[0]
            inner = cp(st)
            inner[1].update(self.reach_again(s, again))
            if not isinstance(s, ast.While):
                self.bind(s.target, inner)
            self.loops.append(([], []))
            end = self.block(s.body, inner)
            br, co = self.loops.pop()
            end = self.join(end, *co)
            if forever:
                return self.join(*br)
            out = self.join(entry, end)
            out = self.block(s.orelse, out) if s.orelse else out
            return self.join(out, *br)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            before = cp(st)
            end = self.block(s.body, cp(st))
            may = bound(ast.Module(s.body, []))[0]
            at = (set(before[0]), before[1] | may)
            outs = []
            if end is not None:
                end = self.block(s.orelse, end)
            outs.append(end)
            for h in s.handlers:
                self.use(h.type, cp(at))
                hs = cp(at)
                if h.name:
                    hs[0].add(h.name)
                    hs[1].add(h.name)
                outs.append(self.block(h.body, hs))
            out = self.join(*outs)
            if s.finalbody:
                self.block(s.finalbody, cp(at))
                out = self.block(s.finalbody, out) if out is not None else None
            return out
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                n = a.asname or a.name.split(".")[0]
                st[0].add(n)
                st[1].add(n)
            return st
        for c in ast.iter_child_nodes(s):
            self.use(c, st)
        return st

    @staticmethod
    def reach_again(s, names):
        """Names the body may leave bound for its next iteration"""
        return names


# ------------------------------------------------------------------ attributes


def external(prog, k):
    """Bases of k (or of its bases) which are neither in the package nor plain classes of the language"""
    out = set()
    for c in prog.mro(k):
        for b in c.node.bases:
            q = prog.resolve_expr(c.module, b) or ast.unparse(b)
            if q not in prog.classes and q not in PLAIN:
                out.add(q)
            elif q in PLAIN and PLAIN[q] is None:
                out.add(q)
    return out


def slots(c):
    """Slots declared by a class, or None"""
    v = c.attrs.get("__slots__")
    if v is None:
        return None
    try:
        v = ast.literal_eval(v)
    except ValueError:
        return None
    return {v} if isinstance(v, str) else set(v)


def receiver(f):
    """Name of the object a method is called on"""
    if f.cls is None or f.static:
        return None
    h = f
    while h.parent is not None:
        h = h.parent
    ps = h.params()
    return ps[0] if ps else None


def family(prog, k):
    """k, its bases and its subclasses"""
    out = set(prog.mro(k))
    for c in prog.classes.values():
        if k in prog.mro(c):
            out.add(c)
            out.update(prog.mro(c))
    return out


def attributes(prog, k):
    """Names of the attributes instances of k or of its subclasses may have"""
    out = set(dir(object)) | {"__dict__", "__slots__"}
    fam = family(prog, k)
    for c in fam:
        out |= set(c.methods) | set(c.attrs) | set(c.setters) | (slots(c) or set())
        for b in c.node.bases:
            out.update(PLAIN.get(ast.unparse(b)) or ())
        for n in c.node.body:
            if isinstance(n, ast.ClassDef):
                out.add(n.name)
    todo = [(f, receiver(f)) for f in prog.functions.values() if receiver(f) is not None and f.cls in fam]
    seen = set()
    while todo:
        f, r = todo.pop()
        if (f.qual, r) in seen:
            continue
        seen.add((f.qual, r))
        todo += passed(prog, f, r)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                out.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
    return out


def passed(prog, f, r):
    """[(function, name of its parameter)] functions of the package to which f gives the object named r"""
    out = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            out += given(prog, f, r, n)
    return out


def given(prog, f, r, n):
    if not any(isinstance(x, ast.Name) and x.id == r for x in [*n.args, *[k.value for k in n.keywords]]):
        return []
    q = prog.resolve_expr(f.module, n.func)
    h = prog.functions.get(q)
    if h is None and isinstance(n.func, ast.Attribute):
        # through the object or its class
        if isinstance(n.func.value, ast.Name) and n.func.value.id == r and f.cls is not None:
            h = prog.method(f.cls, n.func.attr)
        elif q is not None:
            k, _, a = q.rpartition(".")
            h = prog.method(prog.classes[k], a) if k in prog.classes else None
    if h is None:
        for g in prog.functions.values():
            if g.parent is f and isinstance(n.func, ast.Name) and g.name == n.func.id:
                h = g
    if h is None:
        return []
    ps = h.params()
    if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == r and not h.static and h.cls is not None:
        ps = ps[1:]
    out = [(h, p) for p, x in zip(ps, n.args) if isinstance(x, ast.Name) and x.id == r]
    return out + [(h, k.arg) for k in n.keywords if isinstance(k.value, ast.Name) and k.value.id == r and k.arg]


def fields(prog):
    """Names of the fields of observations, inner and public"""
    m = prog.modules[PKG]
    out = set()
    for k, d in prog.var_descr_nodes(m, m.consts["VAR_DESCR"]):
        out.add(k)
        if isinstance(d, ast.Call):
            out.update(x.value.value for x in d.keywords if x.arg in ("nc_name",) and isinstance(x.value, ast.Constant))
        elif isinstance(d, ast.Dict):
            out.update(v.value for q, v in zip(d.keys, d.values) if isinstance(q, ast.Constant) and q.value == "nc_name" and isinstance(v, ast.Constant))
    return out


def dynamic(prog, k):
    return [c for c in prog.mro(k) if "__getattr__" in c.methods or "__getattribute__" in c.methods]


def reads_of_self(prog):
    """(function, class, attribute, node) of each attribute read on the receiver of a method"""
    for f in sorted(prog.functions.values(), key=lambda f: f.qual):
        if f.parent is not None or f.cls is None:
            continue
        r = receiver(f)
        if r is None:
            continue
        again = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if r in again:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == r:
                yield f, f.cls, n.attr, n


def writes_of_self(prog):
    for f in sorted(prog.functions.values(), key=lambda f: f.qual):
        if f.parent is not None or f.cls is None or f.classm:
            continue
        r = receiver(f)
        if r is None:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == r:
                yield f, f.cls, n.attr, n


def initialised(prog, f, k, seen=(), r=None):
    """Attributes of self (or of its parameter r) set on every path of f, called on an instance of k"""
    if f.qual in seen:
        return set()
    seen = seen + (f.qual,)
    r = r or receiver(f)

    def targets(t):
        return {n.attr for n in ast.walk(t) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == r}

    def called(e):
        out = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                for h, p in given(prog, f, r, n):
                    out |= initialised(prog, h, k, seen, p)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                b = n.func.value
                h = None
                if isinstance(b, ast.Name) and b.id == r:
                    h = prog.method(k, n.func.attr)
                elif isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super":
                    ms = prog.mro(k)
                    at = ms.index(f.cls) if f.cls in ms else -1
                    for c in ms[at + 1:]:
                        if n.func.attr in c.methods:
                            h = c.methods[n.func.attr]
                            break
                if h is not None and not h.static and not h.classm and not h.prop:
                    out |= initialised(prog, h, k, seen)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[0], ast.Name) and n.args[0].id == r and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
        return out

    def block(body, done):
        for s in body:
            if done is None:
                return None
            done = stmt(s, done)
        return done

    def both(*xs):
        xs = [x for x in xs if x is not None]
        return set.intersection(*xs) if xs else None

    exits = []

    def stmt(s, done):
        if isinstance(s, ast.If):
            done = done | called(s.test)
            return both(block(s.body, set(done)), block(s.orelse, set(done)))
        if isinstance(s, (ast.For, ast.While)):
            block(s.body, set(done))
            return done | called(s.iter if isinstance(s, ast.For) else s.test)
        if isinstance(s, ast.With):
            for i in s.items:
                done = done | called(i.context_expr)
            return block(s.body, done)
        if isinstance(s, ast.Try):
            end = block(s.body, set(done))
            if end is not None:
                end = block(s.orelse, end)
            outs = [end] + [block(h.body, set(done)) for h in s.handlers]
            out = both(*outs)
            return block(s.finalbody, out) if out is not None else None
        if isinstance(s, ast.Return):
            exits.append(done | (called(s.value) if s.value is not None else set()))
            return None
        if isinstance(s, (ast.Raise, ast.Break, ast.Continue)):
            return None
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return done
        return done | called(s) | targets(s)

    end = block(f.node.body, set())
    return both(end, *exits) or set()


def imports(prog):
    """(module, node, name, what is wrong or None) of each name imported from the package"""
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        isinit = m.path.endswith("__init__.py")
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.ImportFrom):
                continue
            base = n.module or ""
            if n.level:
                parts = m.name.split(".")
                if not isinit:
                    parts = parts[:-1]
                if n.level > 1:
                    parts = parts[: -(n.level - 1)]
                base = ".".join(parts + ([n.module] if n.module else []))
            if base.split(".")[0] != PKG:
                continue
            for a in n.names:
                if base not in prog.modules:
                    ok = not base.startswith(PKG) or base == f"{PKG}._version"
                else:
                    ok = a.name in module_names(prog.modules[base]) or f"{base}.{a.name}" in prog.modules or a.name in ("*", "_version")
                yield m, n, a.name, None if ok else f"{base} has no {a.name}"
