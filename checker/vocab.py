"""What a function names: the functions of the project it calls (and the arguments it gives them), the parameters and
command line options it reads, the attributes of the project it touches, the constants it holds.  Helpers which exist on
one side only are part of the function.  A function which names less than its reference, and nothing that the reference does
not name, has lost something: it is not a way to write the same thing.  Only asked when the value-flow graphs differ."""
import ast

TRIVIAL = (0, 1, 2, -1, None, True, False, "", Ellipsis)
# methods of the project whose names are those of usual methods too
USUAL = {"append", "copy", "update", "sort", "format", "index", "insert", "get", "load", "save", "write", "close", "display", "plot", "extend", "join", "read", "keys", "values", "items"}


def log_call(n):
    return isinstance(n, ast.Call) and ast.unparse(n.func).startswith(("logger.", "logging.", "print", "warnings."))


def walk(n, skip=()):
    """Nodes without what is only for the reader"""
    if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or log_call(n.value)):
        return
    if isinstance(n, ast.arg) and n.annotation is not None:
        return
    yield n
    for f, v in ast.iter_fields(n):
        if f in ("annotation", "returns", "decorator_list"):
            continue
        for c in v if isinstance(v, list) else [v]:
            if isinstance(c, ast.AST):
                yield from walk(c)


class Vocabulary:
    def __init__(self, prog, other):
        self.prog, self.other = prog, other
        self.by = {}
        for q, f in prog.functions.items():
            self.by.setdefault(q.rpartition(".")[2], []).append(f)
        self.common = {q.rpartition(".")[2] for q in prog.functions if q in other.functions}
        self.own = {}
        for q, f in prog.functions.items():
            if q not in other.functions:
                self.own.setdefault(q.rpartition(".")[2], []).append(f)
        self.consts = {}
        for m in prog.modules.values():
            for n, v in m.consts.items():
                o = other.modules.get(m.name)
                if o is None or n not in o.consts:
                    self.consts.setdefault(n, []).append(v)
        for q, k in prog.classes.items():
            o = other.classes.get(q)
            for n, v in k.attrs.items():
                if o is None or n not in o.attrs:
                    self.consts.setdefault(n, []).append(v)

    def params(self, name):
        """Parameters of the functions of that name, when they agree"""
        ps = {tuple(a.arg for a in f.node.args.posonlyargs + f.node.args.args) for f in self.by.get(name, ())}
        if len(ps) != 1:
            return None
        f = self.by[name][0]
        ps = list(ps.pop())
        if ps and ps[0] in ("self", "cls"):
            ps = ps[1:]
        a = f.node.args
        d = dict(zip(reversed([x.arg for x in a.args]), reversed(a.defaults)))
        d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        return ps, d

    def of(self, f):
        """(names of weight, all names)"""
        todo, seen = [f.node], set()
        heavy, every = {}, set()

        def put(k, n):
            heavy.setdefault(k, n.lineno)

        top = {a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs} - {"self", "cls"}
        for a in (f.node.args.vararg, f.node.args.kwarg):
            if a is not None:
                top.add(a.arg)
        while todo:
            node = todo.pop()
            if id(node) in seen:
                continue
            seen.add(id(node))
            local = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
            local |= {a.arg for x in ast.walk(node) if isinstance(x, (ast.FunctionDef, ast.Lambda)) for a in x.args.posonlyargs + x.args.args + x.args.kwonlyargs}
            local |= {x.name for x in ast.walk(node) if isinstance(x, ast.ExceptHandler) and x.name}
            parsed = {
                t.id
                for x in ast.walk(node)
                if isinstance(x, ast.Assign) and "parse_args" in ast.unparse(x.value)
                for t in x.targets
                if isinstance(t, ast.Name)
            }
            for n in walk(node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    if node is f.node and n.id in top:
                        put(("parameter", n.id), n)
                    elif n.id not in local:
                        every.add(n.id)
                        self.named(n.id, n, put, todo)
                elif isinstance(n, ast.Attribute):
                    every.add("." + n.attr)
                    if isinstance(n.value, ast.Name) and n.value.id in parsed:
                        put(("option", n.attr), n)
                    else:
                        self.named(n.attr, n, put, todo)
                elif isinstance(n, ast.Constant):
                    v = n.value
                    if not (v is None or v is Ellipsis or isinstance(v, bool) or v in TRIVIAL):
                        put(("constant", float(v) if isinstance(v, (int, float)) else str(v)), n)
                    every.add(repr(v))
                elif isinstance(n, ast.keyword):
                    every.add("=" + str(n.arg))
                if isinstance(n, ast.Call):
                    self.arguments(n, put)
        return heavy, every

    def named(self, name, n, put, todo):
        if name in self.own:
            todo.extend(f.node for f in self.own[name])
        if name in self.consts:
            todo.extend(self.consts[name])
        if name in self.common and name not in USUAL:
            put(("function", name), n)

    def arguments(self, n, put):
        name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
        if name not in self.common or name in USUAL or any(isinstance(a, ast.Starred) for a in n.args):
            return
        p = self.params(name)
        if p is None:
            return
        ps, d = p
        given = dict(zip(ps, n.args))
        given.update({k.arg: k.value for k in n.keywords if k.arg})
        for k, v in given.items():
            if k in d and ast.dump(v) == ast.dump(d[k]):
                continue
            put(("argument", name, k), n)


def lost(ref, cur, fr, fc):
    """(line, description) when the current function names less than the reference"""
    R, C = Vocabulary(ref, cur), Vocabulary(cur, ref)
    hr, er = R.of(fr)
    hc, ec = C.of(fc)
    new = {n for n in ec - er if n.lstrip(".") not in C.own and n.lstrip(".") not in C.consts}
    gone = [k for k in hr if k not in hc]
    more = [k for k in hc if k not in hr]
    return gone, more, new


def decide(ref, cur, fr, fc):
    gone, more, new = lost(ref, cur, fr, fc)
    if gone and not more and not new:
        return fc.node.lineno, ["no longer named: " + ", ".join(" ".join(str(x) for x in k) for k in gone[:4])]
    return None
