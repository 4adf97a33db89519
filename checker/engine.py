"""Program model of /repo and the construction of gated value-flow graphs.

Nothing here executes repository code: sources are parsed with `ast`, names are resolved
through imports, classes and their bases, and each function body is turned into

  * terms   (terms.py) - what every expression is made of, in SSA form, joins gated (ite),
  * events  - ordered effects (calls, stores, returns, raises, yields) with the condition
              under which they happen and the loops they are in.

Functions that are not in the frozen inventory of the tree the rules were written for
(new helpers) are expanded at their call sites, so extracting a helper leaves the graph
as it was.
"""
import ast
import json
import os

from . import terms as TT
from .terms import (
    FALSE, NONE, T, TRUE, add, and_, attr, cmp_, const, field, floordiv, isc, isnum, ite, inv, length, mk, mod, mul,
    neg, not_, num, or_, power, sub, walk, xor, subst, subterms,
)

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "py_eddy_tracker"
HERE = os.path.dirname(os.path.abspath(__file__))


class Broken(Exception):
    """The analysis cannot give an answer (vanished anchor, unreadable source)"""


class Func:
    def __init__(self, module, node, cls=None, parent=None):
        self.module, self.node, self.cls, self.parent = module, node, cls, parent
        name = node.name
        if parent is not None:
            self.qual = f"{parent.qual}.<locals>.{name}"
        elif cls is not None:
            self.qual = f"{cls.qual}.{name}"
        else:
            self.qual = f"{module.name}.{name}"
        self.name = name
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        self.nested = {}

    @property
    def short(self):
        return self.qual[len(PKG) + 1:] if self.qual.startswith(PKG + ".") else self.qual

    @property
    def static(self):
        return "staticmethod" in self.decorators

    @property
    def classm(self):
        return "classmethod" in self.decorators

    @property
    def prop(self):
        return any(d == "property" or d.endswith("cached_property") for d in self.decorators)

    @property
    def path(self):
        return self.module.path

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def is_gen(self):
        if not hasattr(self, "_gen"):
            self._gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(self.node))
        return self._gen


def own_nodes(fn):
    """Nodes of a function, without those of nested functions"""
    st = list(ast.iter_child_nodes(fn))
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        st.extend(ast.iter_child_nodes(n))


class Class:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.qual = f"{module.name}.{node.name}"
        self.methods, self.attrs, self.bases = {}, {}, []
        self.setters = {}

    def __repr__(self):
        return self.qual


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src, path)
        self.imports, self.functions, self.classes, self.consts = {}, {}, {}, {}


class Program:
    def mappings(self):
        """Names of attributes which are mappings: their items are asked for somewhere"""
        r = self.__dict__.get("_mappings")
        if r is None:
            r = self._mappings = {
                n.func.value.attr
                for m in self.modules.values()
                for n in ast.walk(m.tree)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("items", "keys", "values") and not n.args and isinstance(n.func.value, ast.Attribute)
            }
        return r

    def __init__(self, repo=None, overlay=None):
        self.repo = repo or REPO
        overlay = overlay or {}
        self.modules, self.functions, self.classes, self.by_method = {}, {}, {}, {}
        root = os.path.join(self.repo, "src", PKG)
        if not os.path.isdir(root):
            raise Broken(f"no package under {root}")
        files = []
        for d, dn, fs in os.walk(root):
            dn.sort()
            for f in sorted(fs):
                if f.endswith(".py") and f != "_version.py":
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, os.path.dirname(root))[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    files.append((rel, p))
        sc = os.path.join(self.repo, "src", "scripts")
        if os.path.isdir(sc):
            for f in sorted(os.listdir(sc)):
                p = os.path.join(sc, f)
                with open(p, encoding="utf-8", errors="replace") as h:
                    first = h.readline()
                if "python" in first:
                    files.append((f"{PKG}.scripts.{f}", p))
        for name, path in files:
            try:
                if path in overlay:
                    m = Module(name, path, overlay[path])
                else:
                    with open(path, encoding="utf-8") as h:
                        m = Module(name, path, h.read())
            except SyntaxError as e:
                raise Broken(f"{path}: {e}")
            self.modules[name] = m
        for m in self.modules.values():
            self._load(m)
        for c in self.classes.values():
            c.bases = []
            for b in c.node.bases:
                q = self.resolve_expr(c.module, b)
                if q in self.classes:
                    c.bases.append(self.classes[q])
        for c in self.classes.values():
            for n, f in c.methods.items():
                self.by_method.setdefault(n, []).append(f)
        inv_path = os.path.join(HERE, "inventory.json")
        self.inventory = {}
        if os.path.exists(inv_path):
            with open(inv_path) as h:
                self.inventory = json.load(h)
        self._fields()
        self._vfg = {}

    # -------------------------------------------------------------- loading

    def _load(self, m):
        isinit = os.path.basename(m.path) == "__init__.py"
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    m.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = m.name.split(".")
                    if not isinit:
                        parts = parts[:-1]
                    if n.level > 1:
                        parts = parts[: -(n.level - 1)]
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    m.imports[a.asname or a.name] = f"{base}.{a.name}"
        for s in m.tree.body:
            self._load_stmt(m, s)
        # tables and classes completed when the module is loaded
        body = [s for s in m.tree.body if isinstance(s, ast.For) or isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Attribute, ast.Subscript))]
        if body:
            n = ast.FunctionDef(
                name="__setup__", body=body, decorator_list=[], returns=None,
                args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]))
            ast.copy_location(n, body[0])
            self._addf(Func(m, n))

    def _load_stmt(self, m, s):
        if isinstance(s, ast.FunctionDef):
            self._addf(Func(m, s))
        elif isinstance(s, ast.ClassDef):
            c = Class(m, s)
            m.classes[s.name] = c
            self.classes[c.qual] = c
            for b in s.body:
                if isinstance(b, ast.FunctionDef):
                    f = Func(m, b, c)
                    if any(d.endswith(".setter") for d in f.decorators):
                        f.qual += ".setter"
                        c.setters[b.name] = f
                        self.functions[f.qual] = f
                        continue
                    c.methods[b.name] = f
                    self._addf(f)
                elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
                    c.attrs[b.targets[0].id] = b.value
                elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and b.value is not None:
                    c.attrs[b.target.id] = b.value
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            m.consts[s.targets[0].id] = s.value
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            m.consts[s.target.id] = s.value
        elif isinstance(s, ast.If) and ast.unparse(s.test) in ("__name__ == '__main__'", "'__main__' == __name__"):
            # what a script does
            n = ast.FunctionDef(
                name="__main__", body=s.body, decorator_list=[], returns=None,
                args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]))
            ast.copy_location(n, s)
            self._addf(Func(m, n))
        elif isinstance(s, (ast.If, ast.Try)):
            for b in s.body:
                self._load_stmt(m, b)

    def by_name(self, name):
        by = self.__dict__.get("_short")
        if by is None or by[0] != len(self.functions):
            by = self._short = (len(self.functions), {})
            for f in self.functions.values():
                by[1].setdefault(f.name, []).append(f)
        return by[1].get(name, ())

    def _addf(self, f):
        self.functions[f.qual] = f
        if f.cls is None and f.parent is None:
            f.module.functions[f.name] = f
        for n in own_nodes(f.node):
            if isinstance(n, ast.FunctionDef):
                g = Func(f.module, n, f.cls, f)
                f.nested[n.name] = g
                self._addf(g)

    def _fields(self):
        m = self.modules.get(PKG)
        v = m.consts.get("VAR_DESCR") if m else None
        keys = set()
        if v is not None:
            for k, d in self.var_descr_nodes(m, v):
                keys.add(k)
        if len(keys) < 40:
            raise Broken("VAR_DESCR table not found in the package")
        TT.FIELDS.clear()
        TT.FIELDS.update(keys)
        TT.ALIAS.clear()
        self.alias_sites = []
        for c in self.classes.values():
            for f in c.methods.values():
                if not f.prop or f.name in keys:
                    continue
                st = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                if len(st) == 1 and isinstance(st[0], ast.Return):
                    x = st[0].value
                    n = None
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                        n = x.attr
                    elif isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant):
                        n = x.slice.value
                    if n in keys:
                        TT.ALIAS[f.name] = n
                        self.alias_sites.append((f, n))
        # `tracks`, `observations`, ... written before their alias is known elsewhere
        TT.ALIAS.pop("obs", None)

    @staticmethod
    def var_descr_nodes(m, v):
        if isinstance(v, ast.Call):  # dict(a=..., b=...)
            for k in v.keywords:
                if k.arg:
                    yield k.arg, k.value
        elif isinstance(v, ast.Dict):
            for k, d in zip(v.keys, v.values):
                if isinstance(k, ast.Constant):
                    yield k.value, d

    # -------------------------------------------------------------- resolution

    def resolve_expr(self, m, e):
        """Qualified dotted name of an expression made of names and attributes, or None"""
        if isinstance(e, ast.Name):
            n = e.id
            if n in m.functions:
                return m.functions[n].qual
            if n in m.classes:
                return m.classes[n].qual
            if n in m.imports:
                return self.canon(m.imports[n])
            if n in m.consts:
                return f"{m.name}.{n}"
            return None
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            return None if b is None else self.canon(f"{b}.{e.attr}")
        return None

    def canon(self, q):
        """Follow re-exports"""
        for _ in range(5):
            if q in self.functions or q in self.classes:
                return q
            if "." not in q:
                return q
            mod_, n = q.rsplit(".", 1)
            m = self.modules.get(mod_)
            if m is None:
                return q
            if n in m.imports and n not in m.functions and n not in m.classes and n not in m.consts:
                q = m.imports[n]
                continue
            return q
        return q

    def mro(self, c):
        out = []

        def rec(k):
            if k in out:
                out.remove(k)
            out.append(k)
            for b in k.bases:
                rec(b)

        rec(c)
        return out

    def method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None, None

    def subclasses(self, c):
        return [k for k in self.classes.values() if c in self.mro(k)]

    def func(self, short, required=True):
        """Function by its name under the package ('generic.distance', 'dataset.grid.RegularGridDataset.interp')"""
        f = self.functions.get(f"{PKG}.{short}")
        if f is None and "." in short:
            # moved to a base class or re-exported from another module
            head, n = short.rsplit(".", 1)
            c = self.classes.get(f"{PKG}.{head}")
            if c is not None:
                f = self.method(c, n)
            else:
                m = self.modules.get(f"{PKG}.{head}")
                if m is not None and n in m.imports:
                    f = self.functions.get(self.canon(m.imports[n]))
        if f is None:
            cand = [g for g in self.functions.values() if g.name == short.rsplit(".", 1)[-1] and g.qual not in self.inventory]
            if len(cand) == 1:
                f = cand[0]
        if f is None and required:
            raise Broken(f"function {short} is no longer in the repository")
        return f

    def cls(self, short):
        c = self.classes.get(f"{PKG}.{short}")
        if c is None:
            cand = [k for k in self.classes.values() if k.name == short.rsplit(".", 1)[-1]]
            if len(cand) == 1:
                return cand[0]
            raise Broken(f"class {short} is no longer in the repository")
        return c

    def known(self, f):
        return f.qual in self.inventory

    def vfg(self, f, inline=(), cls=None):
        if isinstance(f, str):
            f = self.func(f)
        key = (f.qual, tuple(sorted(inline)), cls.qual if cls else None)
        g = self._vfg.get(key)
        if g is None:
            g = VFG(self, f, frozenset(inline), cls)
            self._vfg[key] = g
        return g


class Loop:
    def __init__(self, uid, kind, node):
        self.uid, self.kind, self.node = uid, kind, node
        self.iter = None  # iterated term(s)
        self.bound = None  # number of iterations when known
        self.start = num(0)
        self.step = num(1)
        self.back = {}  # name -> (initial term, term at the end of the iteration)
        self.breaks = []
        self.leaves = []  # conditions of the returns
        self.breakenv = []  # values when it is left by each break
        self.guard = ()
        self.loops = ()
        self.test = None

    def exit(self):
        """Condition under which the loop is left, seen from one iteration"""
        out = [and_(*[x for x in g if x not in self.guard]) for g in self.breaks] + self.leaves
        if self.kind == "while" and self.bound is None and self.test is not None:
            out.append(not_(self.test))
        return or_(*out)

    def __repr__(self):
        return f"<loop {self.uid} over {self.iter}>"


class Ev:
    __slots__ = ("kind", "guard", "loops", "line", "path", "seq", "base", "idx", "val", "term", "depth", "fn", "stale")

    def __init__(self, kind, **k):
        self.kind = kind
        for n in ("guard", "loops", "line", "path", "seq", "base", "idx", "val", "term", "depth", "fn", "stale"):
            setattr(self, n, k.get(n))

    @property
    def cond(self):
        return and_(*self.guard)

    def terms(self):
        return [t for t in (self.base, self.idx, self.val, self.term, *self.guard) if isinstance(t, T)]

    def __repr__(self):
        g = " if " + repr(self.cond) if self.guard else ""
        lp = "".join(f" @L{u}" for u in self.loops)
        if self.kind in ("store_sub", "store_attr", "store_field", "inplace"):
            return f"{self.line}: {self.kind} {self.base!r} [{self.idx!r}] <- {self.val!r}{g}{lp}"
        if self.kind == "call":
            return f"{self.line}: call {self.term!r}{g}{lp}"
        return f"{self.line}: {self.kind} {self.val!r}{g}{lp}"


ALLOC_NP = {
    "zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "array", "arange", "copy",
    "ma.zeros", "ma.ones", "ma.empty", "ma.array", "ma.masked_all", "concatenate",
}
NP_METHOD = {
    # array methods that have a function form: canonicalised to numpy.<name>(x, ...)
    "max", "min", "sum", "mean", "std", "any", "all", "argmax", "argmin", "argsort", "cumsum", "nonzero", "ravel",
    "reshape", "round", "ptp", "repeat", "searchsorted", "astype",
}
CONSUME = {"pop", "popitem", "popleft", "__next__", "readline", "get_nowait"}
ALLOC_METHODS = {"copy", "astype", "new_like"}
BIN = {ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow, ast.Mod, ast.FloorDiv, ast.BitAnd, ast.BitOr, ast.BitXor}

BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)


class Dead(Exception):
    pass


class Frame:
    """One function activation (the analysed function or an expanded helper)"""

    def __init__(self, fn, cls, env, outer=None):
        self.fn, self.cls, self.env, self.outer = fn, cls, env, outer
        self.times = {}
        self.returns = []  # (guard tuple, term)
        self.raised = False
        self.base_guard = ()
        self.globals_ = set()


class VFG:
    MAXDEPTH = 6

    def __init__(self, prog, fn, inline=frozenset(), cls=None):
        self.prog, self.fn, self.inline = prog, fn, inline
        self.events, self.loops = [], {}
        self.late = ()
        self.evals = []  # (value, time, conditions, loops) of the operators and subscripts
        self.guard, self.loopstack = (), ()
        self.nuid = 0
        self.newn = 0
        self.stale = []
        self.readlog = []  # names read inside loops
        self.noreturn = False
        self.undefined, self.nocheck = [], False
        self.depth = 0
        self.expanded = []
        self.stack = [fn]
        self.lines = {}
        c = cls or fn.cls
        env = {}
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        self.params = {}
        for i, n in enumerate(names):
            env[n] = mk("param", n, i)
        for x in a.kwonlyargs:
            env[x.arg] = mk("param", x.arg, -1)
        if a.vararg:
            env[a.vararg.arg] = mk("param", "*" + a.vararg.arg, -2)
        if a.kwarg:
            env[a.kwarg.arg] = mk("param", "**" + a.kwarg.arg, -3)
        self.params = dict(env)
        outer = None
        if fn.parent is not None:
            # free variables of the enclosing function: opaque, by name
            outer = Frame(fn.parent, c, _FreeEnv())
        self.frame = Frame(fn, c, env, outer)
        live = self.block(fn.node.body)
        self.falls = live
        self.end_guard = self.guard if live else None

    # ------------------------------------------------------------- helpers

    def ev(self, kind, node, **k):
        e = Ev(
            kind, guard=self.guard, loops=self.loopstack, line=getattr(node, "lineno", None),
            path=self.frame.fn.path, seq=len(self.events), depth=self.depth, fn=self.frame.fn,
            stale=tuple(self.stale), **k,
        )
        self.events.append(e)
        return e

    def uid(self):
        self.nuid += 1
        return f"{self.fn.name}.{self.nuid}"

    def new(self, t):
        self.newn += 1
        return mk("new", f"{self.fn.qual}#{self.newn}", t)

    @property
    def env(self):
        return self.frame.env

    # ------------------------------------------------------------- statements

    def block(self, stmts):
        """Execute statements; False when control never reaches the end"""
        for s in stmts:
            if not self.stmt(s):
                return False
        return True

    def stmt(self, s):
        self.stale = []
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            for n in ast.iter_child_nodes(s):
                if isinstance(n, ast.expr):
                    self.x(n)
            return True
        r = m(s)
        if self.noreturn:
            self.noreturn = False
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return)):
                return False
        return True if r is None else r

    def s_Expr(self, s):
        self.x(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Import = s_ImportFrom = s_Global

    def s_FunctionDef(self, s):
        f = self.frame.fn.nested.get(s.name)
        self.env[s.name] = mk("func", f.qual if f else s.name)

    def s_ClassDef(self, s):
        self.env[s.name] = mk("opaque", f"class {s.name}")

    def s_Assign(self, s):
        # parallel assignment a, b = x, y
        if isinstance(s.value, ast.Lambda) and not isinstance(s.targets[0], ast.Name):
            # kept for later: the names which the loops around change have then their last value
            self.late = {
                n.id
                for u in self.loopstack
                for n in ast.walk(self.loops[u].node)
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)
            }
        v = self.x(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.x(s.value), s)

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.x(ast.copy_location(ast.Name(t.id, ast.Load()), t))
        elif isinstance(t, ast.Attribute):
            old = self.load_attr(self.x(t.value), t.attr, t)
        else:
            b, i = self.x(t.value), self.xslice(t.slice)
            old = sub(b, i)
            if not (b.op == "attr" and b.a[1] == "vars"):
                # what is loaded on demand is the same before and after
                self.evals.append((old, len(self.events), self.guard, self.loopstack))
        v = self.binop(type(s.op), old, self.x(s.value))
        self.evals.append((v, len(self.events), self.guard, self.loopstack))
        if isinstance(t, ast.Name):
            self.ev("inplace", s, base=old, idx=type(s.op).__name__, val=v, term=t.id)
            self.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.x(t.value)
            a = attr(b, t.attr)
            self.ev("inplace", s, base=a, idx=type(s.op).__name__, val=v)
            self.store_attr(b, t.attr, v, s)
        else:
            self.store_sub(b, i, v, s, aug=True)

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            if v.op in ("list", "set") and t.id in changed_names(self.frame.fn.node, self.prog):
                v = self.new(v)
            self.env[t.id] = v
            self.frame.times[t.id] = len(self.events)
            for n, w, B in self.stale:
                if w.op not in ("param", "const", "num") and any(x is w for x in walk(v)):
                    # a value made of a copy
                    self.frame.times[t.id] = B
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    after = len(t.elts) - i - 1
                    self.assign(e.value, mk("sub", v, mk("slice", num(i), num(-after) if after else NONE, NONE)), s)
                elif star and i > star[0]:
                    self.assign(e, sub(v, num(i - len(t.elts))), s)
                else:
                    self.assign(e, sub(v, num(i)), s)
        elif isinstance(t, ast.Attribute):
            self.store_attr(self.x(t.value), t.attr, v, s)
        elif isinstance(t, ast.Subscript):
            self.store_sub(self.x(t.value), self.xslice(t.slice), v, s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s)

    def store_attr(self, b, n, v, node):
        if n == "observations":
            n = "obs"
        n = TT.ALIAS.get(n, n)
        self.ev("store_attr", node, base=b, idx=n, val=v)
        self.env[("heap", b, n)] = v

    def store_sub(self, b, i, v, node, aug=False):
        if isc(i) and isinstance(i.a[0], str) and i.a[0] in TT.FIELDS:
            # obs["x"] = v  -> whole field store
            b2 = field(b, i.a[0])
            if b2.op == "sub":  # obs[i]["x"] = v
                self.ev("store_sub", node, base=b2.a[0], idx=b2.a[1], val=v, term=aug)
            else:
                self.ev("store_sub", node, base=b2, idx=TT.mk("slice", NONE, NONE, NONE), val=v, term=aug)
            return
        t = sub(b, i)
        if t.op == "sub":
            self.ev("store_sub", node, base=t.a[0], idx=t.a[1], val=v, term=aug)
        else:
            self.ev("store_sub", node, base=b, idx=i, val=v, term=aug)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.ev("del", s, val=self.env.get(t.id, NONE))
                self.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.ev("delitem", s, base=self.x(t.value), idx=self.xslice(t.slice), val=NONE)
            elif isinstance(t, ast.Attribute):
                self.ev("delattr", s, base=self.x(t.value), idx=t.attr, val=NONE)

    def s_Return(self, s):
        v = self.x(s.value) if s.value is not None else NONE
        fr = self.frame
        fr.returns.append((self.guard, v, self.loopstack))
        if self.depth == 0 or fr is None:
            self.ev("return", s, val=v)
            if v is NONE:
                # it leaves the loops around
                g = self.guard
                for u in reversed(self.loopstack):
                    L = self.loops[u]
                    c = and_(*[x for x in g if x not in L.guard])
                    L.leaves.append(c)
                    g = add_guard(L.guard, mk("last", u, c))
        return False

    def s_Raise(self, s):
        v = self.x(s.exc) if s.exc is not None else NONE
        self.ev("raise", s, val=v)
        self.frame.raised = True
        return False

    def s_Break(self, s):
        if self.loopstack:
            L = self.loops[self.loopstack[-1]]
            L.breaks.append(self.guard)
            L.breakenv.append(dict(self.env))
        return False

    def s_Continue(self, s):
        if self.loopstack:
            L = self.loops[self.loopstack[-1]]
            L.conts.append((self.guard, dict(self.env)))
        return False

    def s_Assert(self, s):
        c = self.cond(s.test)
        self.ev("assert", s, val=c)
        self.guard = add_guard(self.guard, c)

    def cond(self, e):
        return self.truth(self.x(e))

    @staticmethod
    def truth(t):
        if isc(t) and not isinstance(t.a[0], bool):
            return TRUE if t.a[0] else FALSE
        if t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] == "bool" and len(t.a[1]) == 1:
            return t.a[1][0]
        return t

    def s_If(self, s):
        c = self.cond(s.test)
        if c is TRUE:
            return self.block(s.body)
        if c is FALSE:
            return self.block(s.orelse)
        g0, env0 = self.guard, dict(self.env)
        fr, t0 = self.frame, dict(self.frame.times)
        self.guard = add_guard(g0, c)
        i0 = len(self.events)
        la = self.block(s.body)
        i1 = len(self.events)
        ga, enva = self.guard, self.env
        ta, fr.times = fr.times, dict(t0)
        self.frame.env = dict(env0)
        self.guard = add_guard(g0, not_(c))
        lb = self.block(s.orelse)
        gb, envb = self.guard, self.env
        tb = fr.times
        if la and lb:
            fr.times = self.join_times(ta, tb, enva, envb, i0, i1)
        elif la:
            fr.times = ta
        if la and lb:
            self.frame.env = merge(c, enva, envb, self)
            self.guard = join(g0, ga, gb, c)
        elif la:
            self.frame.env, self.guard = enva, ga
        elif lb:
            self.frame.env, self.guard = envb, gb
        else:
            self.guard = gb
            return False
        return True

    def s_With(self, s):
        for it in s.items:
            v = self.x(it.context_expr)
            self.ev("with", s, val=v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, s)
        return self.block(s.body)

    def s_Try(self, s):
        g0, env0 = self.guard, dict(self.env)
        live = self.block(s.body)
        if live:
            live = self.block(s.orelse)
        g1, env1 = self.guard, self.env
        outs = [(live, g1, env1)]
        exc_any = []
        for h in s.handlers:
            nm = ast.unparse(h.type) if h.type is not None else "any"
            c = mk("except", nm, s.body[0].lineno - self.fn.node.lineno if False else nm, self.uid())
            exc_any.append(c)
            self.frame.env = dict(env0)
            self.guard = add_guard(g0, c)
            if h.name:
                self.env[h.name] = mk("opaque", "exception")
            outs.append((self.block(h.body), self.guard, self.env))
        # the normal path is taken when no handler ran
        res_env, res_live = None, False
        if outs[0][0]:
            res_env, res_live = outs[0][2], True
        for c, (lv, g, e) in zip(exc_any, outs[1:]):
            if not lv:
                continue
            if res_env is None:
                res_env, res_live = e, True
            else:
                res_env = merge(c, e, res_env, self)
        self.frame.env = res_env if res_env is not None else env1
        self.guard = g1 if outs[0][0] else g0
        if outs[0][0]:
            for c, (lv, _, _) in zip(exc_any, outs[1:]):
                if not lv:
                    self.guard = add_guard(self.guard, not_(c))
        if s.finalbody:
            f = self.block(s.finalbody)
            res_live = res_live and f
        return res_live

    # ------------------------------------------------------------- loops

    def assigned(self, stmts):
        names, attrs = set(), set()

        def tgt(t):
            if isinstance(t, ast.Name):
                names.add(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    tgt(e)
            elif isinstance(t, ast.Starred):
                tgt(t.value)
            elif isinstance(t, ast.Attribute):
                attrs.add("obs" if t.attr == "observations" else TT.ALIAS.get(t.attr, t.attr))

        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        tgt(t)
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
                    tgt(n.target)
                elif isinstance(n, ast.NamedExpr):
                    tgt(n.target)
                elif isinstance(n, ast.With):
                    for i in n.items:
                        if i.optional_vars is not None:
                            tgt(i.optional_vars)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    pass
        return names, attrs

    def enter_loop(self, L, stmts, fixed):
        """Loop-carried values become mu nodes; `fixed` maps names to induction terms"""
        names, attrs = self.assigned(stmts)
        init = {}
        for n in sorted(names):
            if n in self.env:
                init[n] = self.env[n]
                self.env[n] = fixed[n](init[n]) if n in fixed else mk("mu", L.uid, n)
        for k in [k for k in self.env if isinstance(k, tuple) and k[0] == "heap" and k[2] in attrs]:
            init[k] = self.env[k]
            del self.env[k]
        return init

    def run_loop(self, s, L, header, body, orelse, allow_counter=True):
        """header() binds the targets inside the loop"""
        snap = self.snapshot()
        fixed = {}
        for attempt in range(2):
            env0 = dict(self.env)
            g0, ls0 = self.guard, self.loopstack
            self.loops[L.uid] = L
            L.conts, L.breaks, L.breakenv, L.leaves = [], [], [], []
            L.guard, L.loops = g0, ls0
            self.loopstack = ls0 + (L.uid,)
            init = self.enter_loop(L, body, fixed)
            alive = header()
            if alive is False:
                self.loopstack, self.guard = ls0, g0
                self.frame.env = env0
                break
            gb = self.guard
            e0, r0 = len(self.events), len(self.readlog)
            live = self.block(body)
            end_env = self.env if live else None
            self.stale_turn(e0, r0, self.assigned(body)[0])
            outs = ([(self.guard, end_env)] if live else []) + L.conts
            # value of each carried name at the end of an iteration
            back = {}
            if outs:
                for n in init:
                    v = None
                    for g, e in outs:
                        if n not in e:
                            continue
                        w = e[n]
                        if v is None:
                            v = w
                        elif v is not w:
                            on = and_(*[x for x in g if x not in gb])
                            if on not in empty_loop(w, v, self):
                                v = ite(on, w, v)
                    if v is not None:
                        back[n] = v
            counters = {}
            if allow_counter and attempt == 0:
                for n, v in back.items():
                    if isinstance(n, str):
                        d = add(v, neg(mk("mu", L.uid, n)))
                        if isnum(d) and d is num(1) and all(
                            add(e.get(n, NONE), neg(mk("mu", L.uid, n))) is num(1) for _, e in outs if n in e
                        ):
                            counters[n] = lambda i0, u=L.uid: add(i0, mk("idx", u))
            if counters:
                self.restore(snap)
                fixed = counters
                continue
            for n, v in back.items():
                L.back[n] = (init[n], v)
            # after the loop
            res = dict(env0)
            src = end_env if end_env is not None else (L.conts[-1][1] if L.conts else self.env)
            for n, v in src.items():
                if isinstance(n, tuple):
                    if n in init and init[n] is not v:
                        res.pop(n, None)
                    elif n not in env0:
                        res.pop(n, None)
                    continue
                if n in init:
                    # n may have been left at any iteration
                    if n in fixed:
                        res[n] = mk("mu", L.uid, n)
                        L.back[n] = (init[n], v)
                    elif back.get(n) is mk("mu", L.uid, n):
                        res[n] = init[n]
                    else:
                        res[n] = mk("mu", L.uid, n)
                elif env0.get(n) is not v:
                    res[n] = mk("last", L.uid, v)
            self.broken(L, res, init, fixed)
            for k in list(res):
                if isinstance(k, tuple) and k in init:
                    res.pop(k, None)
            self.frame.env = res
            self.loopstack, self.guard = ls0, g0
            break
        if L.leaves:
            self.guard = add_guard(self.guard, not_(mk("last", L.uid, or_(*L.leaves))))
        if orelse:
            if L.breaks:
                return self.no_break(L, orelse)
            return self.block(orelse)
        # `while True` without break never falls through
        if L.kind == "while" and L.test is TRUE and not L.breaks:
            return False
        return True

    def no_break(self, L, orelse):
        """The else of a loop is only run when it was not left by a break"""
        c = not_(mk("last", L.uid, or_(*[and_(*[x for x in g if x not in L.guard]) for g in L.breaks])))
        g0, env0 = self.guard, dict(self.env)
        self.guard = add_guard(g0, c)
        live = self.block(orelse)
        self.guard = g0
        self.frame.env = merge(c, self.env, env0, self) if live else env0
        return True

    def broken(self, L, res, init, fixed):
        """Values changed by an iteration before it leaves the loop"""
        for g, e in zip(reversed(L.breaks), reversed(L.breakenv)):
            on = and_(*[x for x in g if x not in L.guard])
            for n, v in e.items():
                if not isinstance(n, str):
                    continue
                if n in init:
                    if v is (fixed[n](init[n]) if n in fixed else mk("mu", L.uid, n)):
                        continue
                elif n in res and res[n] is v:
                    continue
                w = res.get(n)
                if w is not None and w.op == "last" and w.a[0] == L.uid:
                    w = w.a[1]
                res[n] = mk("last", L.uid, v if w is None or w is v else ite(on, v, w))
            for n, w in res.items():
                # given by the iteration before
                if isinstance(n, str) and n not in e and n not in init and w.op == "last" and w.a[0] == L.uid:
                    res[n] = mk("last", L.uid, ite(on, mk("former", w.a[1]), w.a[1]))

    def snapshot(self):
        return (
            list(self.events), dict(self.loops), self.guard, self.loopstack, self.nuid, self.newn,
            dict(self.env), list(self.frame.returns), self.frame.raised, len(self.evals),
        )

    def restore(self, s):
        self.events = list(s[0])
        self.loops = dict(s[1])
        self.guard, self.loopstack = s[2], s[3]
        self.frame.env = dict(s[6])
        self.frame.returns = list(s[7])
        self.frame.raised = s[8]
        del self.evals[s[9]:]

    def s_For(self, s):
        L = Loop(self.uid(), "for", s)
        it = self.x(s.iter)

        def header():
            self.bind_iter(L, s.target, it, s)

        return self.run_loop(s, L, header, s.body, s.orelse)

    def bind_iter(self, L, target, it, node):
        L.iter = it
        v = self.iter_elem(L, it)
        self.assign(target, v, node)

    def iter_elem(self, L, it):
        """Value taken by the loop variable(s) at an iteration"""
        i = mk("idx", L.uid)
        whole = it
        if it.op == "new":
            it = it.a[1] if it.a[1].op in ("call",) else it
        if it.op == "call" and it.a[0].op == "global":
            n, a = it.a[0].a[0], it.a[1]
            kw = dict(it.a[2])
            if n in ("range", "numpy.arange", "numba.prange", "numpy.ndindex"):
                if n == "numpy.ndindex":
                    return mk("sub", it, i)
                if len(a) == 1:
                    L.bound = a[0]
                    return i
                st = a[2] if len(a) > 2 else num(1)
                L.start, L.step = a[0], st
                if st is num(1):
                    L.bound = add(a[1], neg(a[0]))
                return add(a[0], mul(st, i))
            if n == "enumerate" and a:
                start = a[1] if len(a) > 1 else kw.get("start", num(0))
                if L.iter is it:
                    L.iter = a[0]
                return mk("tuple", add(start, i), self.iter_elem(L, a[0]))
            if n == "zip" and not any(x.op == "star" for x in a):
                if L.iter is it:
                    L.iter = mk("tuple", *a)
                return mk("tuple", *[self.iter_elem(L, x) for x in a])
            if n == "reversed" and len(a) == 1:
                return sub(mk("sub", a[0], mk("slice", NONE, NONE, num(-1))), i)
        if it.op == "call" and it.a[0].op == "attr" and it.a[0].a[1] == "items":
            k = mk("key", it.a[0].a[0], L.uid)
            return mk("tuple", k, sub(it.a[0].a[0], k))
        if it.op == "attr" and it.a[1] in self.prog.mappings():
            return mk("key", it, L.uid)
        if it.op == "dict" or it.op == "call" and it.a[0].op == "global" and it.a[0].a[0] == "dict" or it.op == "param" and str(it.a[0]).startswith("**"):
            return mk("key", whole, L.uid)
        if it.op == "call" and it.a[0].op == "attr" and it.a[0].a[1] == "keys":
            if L.iter is it:
                L.iter = it.a[0].a[0]
            return mk("key", it.a[0].a[0], L.uid)
        if it.op == "call" and it.a[0].op == "attr" and it.a[0].a[1] == "values":
            return sub(it.a[0].a[0], mk("key", it.a[0].a[0], L.uid))
        return sub(whole, i) if it.op not in ("tuple", "list") else mk("sub", whole, i)

    def s_While(self, s):
        L = Loop(self.uid(), "while", s)

        def header():
            c = self.cond(s.test)
            L.test = c
            if c is FALSE:
                return False
            if c.op == "lt":
                for x in walk(c):
                    if x.op == "idx" and x.a[0] == L.uid:
                        p = add(c.a[0], neg(x))
                        if not any(y is x for y in walk(p)):
                            L.bound = add(c.a[1], neg(p))
            if c is not TRUE and L.bound is None:
                self.guard = add_guard(self.guard, c)

        return self.run_loop(s, L, header, s.body, s.orelse)

    # ------------------------------------------------------------- expressions

    def x(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for n in ast.iter_child_nodes(e):
                if isinstance(n, ast.expr):
                    self.x(n)
            return mk("opaque", type(e).__name__, self.uid())
        t = m(e)
        if isinstance(e, self.EVALS) or t.op == "len":
            self.evals.append((t, len(self.events), self.guard, self.loopstack))
        if t.line is None:
            t.line = getattr(e, "lineno", None)
        return t

    EVALS = (ast.BinOp, ast.Compare, ast.UnaryOp, ast.Subscript)

    def e_Constant(self, e):
        if isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
            return num(e.value)
        return const(e.value)

    def e_Name(self, e):
        return self.name(e.id)

    def name(self, n):
        fr = self.frame
        while fr is not None:
            if n in fr.env:
                v = fr.env[n]
                if n in fr.times:
                    self.note_stale(n, v, fr.times[n])
                    if self.loopstack and isinstance(fr.times[n], int):
                        self.readlog.append((n, v, fr.times[n], len(self.events), fr))
                return v
            if isinstance(fr.env, _FreeEnv) and n in _locals_of(fr.fn):
                return mk("free", n)
            fr = fr.outer
        m = self.frame.fn.module
        q = self.prog.resolve_expr(m, ast.Name(n, ast.Load()))
        if q is not None:
            return self.glob(q)
        if n not in BUILTINS and n not in ("__file__", "__name__") and not self.nocheck:
            self.undefined.append((n, self.frame.fn))
        return mk("global", n)

    def stale_turn(self, e0, r0, names):
        """Copies taken before a loop, and read by an iteration after a store of the one before"""
        log = self.readlog[r0:]
        if not any(e.kind == "store_sub" for e in self.events[e0:]):
            return
        for n, v, t0, at, fr in log:
            if fr is not self.frame or t0 > e0 or n in names or at >= len(self.events):
                continue
            B = self.stale_base(v, e0)
            e = next((e for e in self.events[at:] if e.kind != "call"), self.events[at])
            if B is not None and not any(x[2] is B for x in e.stale):
                e.stale = (*e.stale, (n, v, B))

    def stale_base(self, v, t0, skip=(0, 0)):
        for k in range(t0, len(self.events)):
            e = self.events[k]
            if e.kind != "store_sub" or skip[0] <= k < skip[1]:
                continue
            B = e.base
            for y in walk(v):
                if y.op == "sub" and y.a[0] is B and y.a[1].op != "slice":
                    i, j = y.a[1], e.idx
                    if i.op in ("const", "num") and i is not j:
                        continue
                    return B
        return None

    def note_stale(self, n, v, t0):
        """A copy taken from an array (v, at t0) is read after a store in this array"""
        B = self.stale_base(v, t0) if isinstance(t0, int) else t0
        if B is not None:
            self.stale.append((n, v, B))

    def join_times(self, ta, tb, ea, eb, i0, i1):
        """Times of assignment after an if; a name that is stale on one side stays stale"""
        i2 = len(self.events)
        out = {}
        some = any(e.kind == "store_sub" for e in self.events[i0:])
        for k in {**ta, **tb}:
            a, b = ta.get(k, tb.get(k)), tb.get(k, ta.get(k))
            for t in (a, b):
                if not isinstance(t, int):
                    out[k] = t
            if k in out:
                continue
            if not some:
                out[k] = min(a, b)
                continue
            va, vb = ea.get(k), eb.get(k)
            s = self.stale_base(va, a, (i1, i2)) if isinstance(va, T) else None
            s = s or (self.stale_base(vb, b, (i0, i1)) if isinstance(vb, T) else None)
            out[k] = s if s is not None else i2
        return out

    def glob(self, q):
        if "." in q:
            mod_, n = q.rsplit(".", 1)
            mm = self.prog.modules.get(mod_)
            if mm is not None and n in mm.consts:
                v = mm.consts[n]
                if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and isinstance(v.operand, ast.Constant):
                    return num(-v.operand.value)
                if isinstance(v, ast.Constant) and v.value is not None:
                    return self.e_Constant(v)
                if q not in self.prog.inventory.get("__consts__", [q]):
                    # a new module-level value: expand it
                    c = _const_term(v)
                    if c is not None:
                        return c
        if q in ("numpy.True_",):
            return TRUE
        if q in ("numpy.abs", "numpy.fabs", "abs", "math.fabs"):
            q = "numpy.absolute"
        if q.startswith("math.") and q[5:] in ("sin", "cos", "sqrt", "radians", "degrees", "floor", "ceil", "isnan", "pi", "nan"):
            q = "numpy." + q[5:]
        if q == "numpy.deg2rad":
            q = "numpy.radians"
        if q == "numpy.ma.core.MaskedArray":
            q = "numpy.ma.MaskedArray"
        return mk("global", q)

    def e_Attribute(self, e):
        b = self.x(e.value)
        return self.load_attr(b, e.attr, e)

    def load_attr(self, b, n, node):
        if b.op == "global":
            q = self.prog.canon(f"{b.a[0]}.{n}")
            if b.a[0] in self.prog.modules or b.a[0] in self.prog.classes or b.a[0].split(".")[0] not in BUILTINS:
                return self.glob(q)
        t = attr(b, n)
        if t.op == "attr":
            k = ("heap", b, t.a[1])
            fr = self.frame
            while fr is not None:
                if not isinstance(fr.env, _FreeEnv) and k in fr.env:
                    return fr.env[k]
                fr = fr.outer
            # property of self that is not part of the inventory
            c = self.recv_class(b)
            if c is not None:
                f = self.prog.method(c, n)
                if f is not None and f.prop and self.expandable(f):
                    return self.expand(f, [b], {}, node, c)
                # private class constant introduced later
                k2, v = self.prog.class_attr(c, n)
                if v is not None and f"{k2.qual}.{n}" not in self.prog.inventory.get("__consts__", [f"{k2.qual}.{n}"]):
                    ct = _const_term(v)
                    if ct is not None:
                        return ct
        return t

    def recv_class(self, b):
        if b.op == "param" and b.a[0] in ("self", "cls") and self.frame is not None:
            return self.frame.cls if b.a[1] == 0 else None
        return None

    def e_Subscript(self, e):
        b = self.x(e.value)
        return sub(b, self.xslice(e.slice))

    def xslice(self, s):
        if isinstance(s, ast.Slice):
            return self.e_Slice(s)
        if isinstance(s, ast.Tuple):
            return mk("tuple", *[self.xslice(x) for x in s.elts])
        t = self.x(s)
        return _canon_slice(t)

    def e_Slice(self, s):
        f = lambda v: NONE if v is None else self.x(v)
        return mk("slice", f(s.lower), f(s.upper), f(s.step))

    def e_Tuple(self, e):
        return mk("tuple", *[self.x(x) for x in e.elts])

    def e_List(self, e):
        t = self.new(mk("list", *[self.x(x) for x in e.elts])) if not e.elts else mk("list", *[self.x(x) for x in e.elts])
        return t

    def e_Set(self, e):
        return mk("set", *[self.x(x) for x in e.elts])

    def e_Starred(self, e):
        return mk("star", self.x(e.value))

    def e_Dict(self, e):
        if not e.keys:
            return self.new(mk("dict"))
        ks = []
        for k, v in zip(e.keys, e.values):
            ks.append((NONE if k is None else self.x(k), self.x(v)))
        return self.mkdict(ks)

    def mkdict(self, ks):
        d = self.new(mk("dict", *[mk("tuple", k, v) for k, v in ks]))
        return d

    def e_JoinedStr(self, e):
        out = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.x(v.value)
                if v.format_spec is not None or v.conversion != -1:
                    x = mk("fmt", x, self.x(v.format_spec) if v.format_spec is not None else NONE, const(v.conversion))
                out.append(x)
            elif isinstance(v, ast.Constant):
                out.append(const(v.value))
        return mk("fstr", *out)

    def e_BinOp(self, e):
        return self.binop(type(e.op), self.x(e.left), self.x(e.right))

    def binop(self, op, a, b):
        if op is ast.Add:
            if (a.op in ("list", "tuple") or b.op in ("list", "tuple")) or isc(a) and isinstance(cval_(a), str) or isc(b) and isinstance(cval_(b), str):
                return mk("concat", a, b)
            return add(a, b)
        if op is ast.Sub:
            return add(a, neg(b))
        if op is ast.Mult:
            return mul(a, b)
        if op is ast.Div:
            return mul(a, inv(b))
        if op is ast.Pow:
            return power(a, b)
        if op is ast.Mod:
            if isc(a) and isinstance(cval_(a), str):
                return mk("fstr", a, b)
            return mod(a, b)
        if op is ast.FloorDiv:
            return floordiv(a, b)
        if op is ast.BitAnd:
            return and_(a, b)
        if op is ast.BitOr:
            return or_(a, b)
        if op is ast.BitXor:
            return xor(a, b)
        return mk("bin", op.__name__, a, b)

    def e_UnaryOp(self, e):
        v = self.x(e.operand)
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v))
        if isinstance(e.op, ast.Invert):
            return not_(v)
        return v

    def e_BoolOp(self, e):
        g0 = self.guard
        ts = []
        for v in e.values:
            t = self.truth(self.x(v)) if not isinstance(v, ast.Constant) else self.x(v)
            ts.append(t)
            self.guard = add_guard(self.guard, t if isinstance(e.op, ast.And) else not_(t))
        self.guard = g0
        return and_(*ts) if isinstance(e.op, ast.And) else or_(*ts)

    OPS = {
        ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne", ast.Is: "is",
        ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin",
    }

    def e_Compare(self, e):
        l = self.x(e.left)
        out = []
        for op, r in zip(e.ops, e.comparators):
            r = self.x(r)
            out.append(cmp_(self.OPS[type(op)], l, r))
            l = r
        return and_(*out)

    def e_IfExp(self, e):
        c = self.cond(e.test)
        if c is TRUE:
            return self.x(e.body)
        if c is FALSE:
            return self.x(e.orelse)
        g0 = self.guard
        self.guard = add_guard(g0, c)
        a = self.x(e.body)
        self.guard = add_guard(g0, not_(c))
        b = self.x(e.orelse)
        self.guard = g0
        return ite(c, a, b)

    def e_NamedExpr(self, e):
        v = self.x(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Lambda(self, e):
        saved = dict(self.env)
        ps = []
        nd = len(e.args.args) - len(e.args.defaults)
        dft = [self.x(d) for d in e.args.defaults]
        for i, a in enumerate(e.args.args):
            # a parameter with a default is how a lambda keeps the value of a variable
            p = mk("lparam", a.arg, self.uid()) if i < nd else dft[i - nd]
            if i < nd:
                ps.append(p)
            self.env[a.arg] = p
        late, self.late = self.late, ()
        for n in late:
            if n in self.env and n not in {a.arg for a in e.args.args}:
                self.env[n] = mk("late", self.env[n])
        b = self.x(e.body)
        self.frame.env = saved
        return mk("lambda", tuple(ps), b)

    def e_Yield(self, e):
        v = self.x(e.value) if e.value is not None else NONE
        self.ev("yield", e, val=v)
        return mk("opaque", "yield", self.uid())

    def e_YieldFrom(self, e):
        v = self.x(e.value)
        self.ev("yieldfrom", e, val=v)
        return mk("opaque", "yieldfrom", self.uid())

    # comprehensions: a fresh object filled in a loop
    def comp(self, e, kind):
        obj = self.new(mk(kind))
        saved, g0, ls0 = dict(self.env), self.guard, self.loopstack
        for gen in e.generators:
            L = Loop(self.uid(), "comp", e)
            self.loops[L.uid] = L
            L.conts, L.guard, L.loops = [], self.guard, self.loopstack
            it = self.x(gen.iter)
            self.loopstack = self.loopstack + (L.uid,)
            self.bind_iter(L, gen.target, it, e)
            for c in gen.ifs:
                self.guard = add_guard(self.guard, self.cond(c))
        if kind == "dict":
            self.store_sub(obj, self.x(e.key), self.x(e.value), e)
        else:
            meth = "append" if kind == "list" else "add"
            self.ev("call", e, term=mk("call", mk("attr", obj, meth), (self.x(e.elt),), ()))
        new_env = saved
        self.frame.env, self.guard, self.loopstack = new_env, g0, ls0
        return obj

    def e_ListComp(self, e):
        return self.comp(e, "list")

    def e_GeneratorExp(self, e):
        return self.comp(e, "list")

    def e_SetComp(self, e):
        return self.comp(e, "set")

    def e_DictComp(self, e):
        return self.comp(e, "dict")

    # ------------------------------------------------------------- calls

    def resolve(self, ft):
        """(Func, receiver term or None, class) called by a callee term"""
        p = self.prog
        if ft.op == "func":
            return p.functions.get(ft.a[0]), None, self.frame.cls
        if ft.op == "global":
            q = ft.a[0]
            if q in p.functions:
                f = p.functions[q]
                return f, None, f.cls
            return None, None, None
        if ft.op == "attr":
            b, n = ft.a
            c = self.recv_class(b)
            if c is None and b.op == "super":
                c0 = self.frame.fn.cls
                for k in p.mro(self.frame.cls or c0)[1:] if c0 is not None else []:
                    if n in k.methods:
                        return k.methods[n], b.a[0], self.frame.cls
                return None, None, None
            if c is not None:
                f = p.method(c, n)
                if f is not None:
                    return f, b, c
            cand = [f for f in p.by_method.get(n, [])]
            if len(cand) == 1:
                return cand[0], b, cand[0].cls
            news = [f for f in cand if not p.known(f)]
            if len(cand) > 1 and len(news) == len(cand):
                return None, None, None
        return None, None, None

    def expandable(self, f):
        if f is None or f in self.stack or self.depth >= self.MAXDEPTH or f.is_gen():
            return False
        if f.parent is not None:
            return True
        if f.short in self.inline or f.qual in self.inline:
            return True
        if not self.prog.inventory:
            return False
        return not self.prog.known(f)

    def e_Call(self, e):
        fnode = e.func
        # super()
        if isinstance(fnode, ast.Name) and fnode.id == "super":
            return mk("super", self.env.get("self", self.env.get("cls", NONE)))
        ft = self.x(fnode)
        args = [self.x(a) for a in e.args]
        kw = []
        for k in e.keywords:
            v = self.x(k.value)
            kw.append((k.arg if k.arg is not None else "**", v))
        return self.call(ft, args, kw, e)

    def call(self, ft, args, kw, e):
        f, recv, c = self.resolve(ft)
        if f is not None and self.expandable(f) and not any(a.op == "star" for a in args) and not any(k == "**" for k, _ in kw):
            a = list(args)
            if recv is not None and not f.static:
                a = [recv] + a
            return self.expand(f, a, dict(kw), e, c)
        if ft.op == "ite":  # (f if c else g)(...)
            pass
        # calls that are other spellings of an expression
        t = self.simplify(ft, args, dict(kw), e)
        if t is not None:
            return t
        if f is not None and not any(a.op == "star" for a in args) and not any(k == "**" for k, _ in kw):
            args, kw = self.normal_args(f, recv, args, kw)
        t = mk("call", ft, tuple(args), tuple(sorted(kw, key=lambda x: x[0])))
        if ft.op == "attr" and ft.a[1] in CONSUME or ft.op == "global" and ft.a[0] == "next":
            # the same call gives another value each time
            k = sum(
                1 for x in self.events if x.kind == "call" and x.term.a[0] is ft and x.term.a[1] == t.a[1] and TT.same_kw(x.term.a[2], t.a[2])
                and set(x.guard) <= set(self.guard) and x.loops == self.loopstack[: len(x.loops)]
            )
            if k:
                t = mk("call", ft, t.a[1], t.a[2] + (("#", num(k)),))
        ct = t
        if self.is_alloc(ft):
            t = self.new(t)
        self.ev("call", e, term=ct, val=t)
        # the callee may change attributes of what it is given
        given = list(args) + [v for _, v in kw] + ([ft.a[0]] if ft.op == "attr" else [])
        gone = [k for k in self.env if isinstance(k, tuple) and k[0] == "heap" and k[1] in given]
        if ft.op == "global" and not ft.a[0].startswith(PKG):
            gone = []
        for k in gone:
            del self.env[k]
        return t

    def is_alloc(self, ft):
        if ft.op == "global":
            q = ft.a[0]
            if q.startswith("numpy.") and q[6:] in ALLOC_NP:
                return True
            if q in ("list", "dict", "set"):
                return True
            return q in self.prog.classes
        if ft.op == "attr":
            return ft.a[1] in ALLOC_METHODS or ft.a[1] == "__class__"
        return False

    def normal_args(self, f, recv, args, kw):
        """Arguments of a repository function, all by parameter name"""
        ps = f.params()
        if f.cls is not None and not f.static and (recv is not None or f.classm) and f.parent is None:
            ps = ps[1:]
        if f.node.args.vararg is not None or len(args) > len(ps):
            return args, kw
        out = dict(kw)
        for p, a in zip(ps, args):
            out[p] = a
        return [], list(out.items())

    def simplify(self, ft, args, kw, e):
        n = ft.a[0] if ft.op == "global" else None
        if n is None:
            if ft.op == "attr" and ft.a[1] in NP_METHOD and ft.a[0].op != "super":
                b = ft.a[0]
                t = mk("call", mk("global", "numpy." + ft.a[1]), (b,) + tuple(args), tuple(sorted(kw.items())))
                ct = t
                if ft.a[1] == "astype":
                    t = self.new(t)
                self.ev("call", e, term=ct, val=t)
                return t
            if ft.op == "attr" and ft.a[1] == "format" and isc(ft.a[0]):
                return mk("fstr", ft.a[0], *args, *kw.values())
            if ft.op == "attr" and ft.a[1] == "__len__":
                return length(ft.a[0])
            if ft.op == "lambda" and len(args) == len(ft.a[0]):
                return subst(ft.a[1], dict(zip(ft.a[0], args)))
            if ft.op == "attr" and ft.a[1] == "keys" and not args:
                return None
            return None
        if kw and n not in ("dict", "numpy.clip"):
            return None
        if n == "len" and len(args) == 1:
            return length(args[0])
        if n == "slice":
            a = args + [NONE] * 3
            if len(args) == 1:
                return mk("slice", NONE, args[0], NONE)
            return mk("slice", a[0], a[1], a[2])
        if n == "dict" and not args:
            return self.mkdict([(const(k), v) for k, v in kw.items()]) if kw else self.new(mk("dict"))
        if n in ("list", "set") and not args:
            return self.new(mk(n))
        if n in ("list", "tuple") and len(args) == 1 and args[0].op in ("list", "tuple"):
            return mk(n, *args[0].a)
        if n == "numpy.sqrt" and len(args) == 1:
            return mk("sqrt", args[0])
        if n in ("numpy.power", "pow") and len(args) == 2:
            return power(*args)
        if n in ("numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide") and len(args) == 2:
            op = {"add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult, "divide": ast.Div}[n[6:]]
            return self.binop(op, *args)
        if n in ("numpy.mod", "numpy.remainder") and len(args) == 2:
            return mod(*args)
        if n == "numpy.logical_and" and len(args) == 2:
            return and_(*args)
        if n == "numpy.logical_or" and len(args) == 2:
            return or_(*args)
        if n in ("numpy.logical_not", "numpy.invert") and len(args) == 1:
            return not_(args[0])
        if n in ("numpy.less", "numpy.greater", "numpy.less_equal", "numpy.greater_equal", "numpy.equal", "numpy.not_equal") and len(args) == 2:
            return cmp_({"less": "lt", "greater": "gt", "less_equal": "le", "greater_equal": "ge", "equal": "eq", "not_equal": "ne"}[n[6:]], *args)
        if n == "getattr" and len(args) == 2 and isc(args[1]):
            return self.load_attr(args[0], args[1].a[0], e)
        if n == "setattr" and len(args) == 3 and isc(args[1]):
            self.store_attr(args[0], args[1].a[0], args[2], e)
            return NONE
        if n in ("operator.itemgetter",):
            return None
        if n == "numpy.radians" and len(args) == 1:
            t = mk("call", ft, tuple(args), ())
            self.ev("call", e, term=t, val=t)
            return t
        return None

    def expand(self, f, args, kw, node, cls):
        """Replace a call by the body of the callee"""
        ps = f.node.args
        names = [x.arg for x in ps.posonlyargs + ps.args]
        env = {}
        if f.classm and f.cls is not None and len(args) < len(names) and (not args or args[0].op != "param" or args[0].a[0] not in ("cls", "self")):
            args = [mk("global", (cls or f.cls).qual)] + args
        for n, a in zip(names, args):
            env[n] = a
        if ps.vararg and len(args) > len(names):
            env[ps.vararg.arg] = mk("tuple", *args[len(names):])
        for k, v in kw.items():
            env[k] = v
        defs = dict(zip(names[len(names) - len(ps.defaults):], ps.defaults)) if ps.defaults else {}
        for x, d in zip(ps.kwonlyargs, ps.kw_defaults):
            if d is not None:
                defs[x.arg] = d
        for n, d in defs.items():
            if n not in env:
                env[n] = _const_term(d) or mk("opaque", "default", n)
        for n in names:
            env.setdefault(n, mk("opaque", "missing", n))
        caller = self.frame
        outer = None
        if f.parent is not None:
            outer = caller
            while outer is not None and outer.fn is not f.parent:
                outer = outer.outer
            outer = outer or caller
        # attribute values known by the caller stay known
        for k, v in caller.env.items():
            if isinstance(k, tuple):
                env[k] = v
        fr = Frame(f, cls, env, outer)
        self.frame = fr
        self.stack.append(f)
        self.depth += 1
        g0, ls0 = self.guard, self.loopstack
        self.expanded.append(f.qual)
        nret0 = len(fr.returns)
        live = self.block(f.node.body)
        gend = self.guard
        self.depth -= 1
        self.stack.pop()
        self.frame = caller
        self.loopstack = ls0
        for k in [k for k in caller.env if isinstance(k, tuple)]:
            if k not in fr.env:
                del caller.env[k]
        for k, v in fr.env.items():
            if isinstance(k, tuple):
                caller.env[k] = v
        outs = [(g, v) for g, v, _ in fr.returns]
        if live:
            outs.append((gend, NONE))
        res = None
        for g, v in reversed(outs):
            res = v if res is None else ite(and_(*[x for x in g if x not in g0]), v, res)
        self.guard = g0
        if fr.raised and outs:
            oks = or_(*[and_(*[x for x in g if x not in g0]) for g, _ in outs])
            if oks is not TRUE:
                self.guard = add_guard(g0, oks)
        if fr.raised and not outs:
            caller.raised = True
            self.noreturn = True
        return res if res is not None else NONE

    # ------------------------------------------------------------- queries

    def p(self, name):
        """Parameter by its name (or the position it had in the inventory)"""
        if name in self.params:
            return self.params[name]
        inv = self.prog.inventory.get(self.fn.qual)
        if inv and name in inv:
            i = inv.index(name)
            names = self.fn.params()
            if i < len(names):
                return self.params[names[i]]
        raise Broken(f"{self.fn.short}: parameter {name} not found")

    def calls(self, *names, pred=None):
        """Call events whose callee is one of names (qualified suffix, or .method)"""
        out = []
        for e in self.events:
            if e.kind == "call" and (callee(e.term, *names) if names else True) and (pred is None or pred(e)):
                out.append(e)
        return out

    def stores(self, base=None, pred=None):
        return [
            e for e in self.events
            if e.kind in ("store_sub", "store_attr") and (base is None or e.base is base) and (pred is None or pred(e))
        ]

    def evs(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    def returns(self):
        return self.evs("return")

    def content(self, obj):
        """Elements put in a list: (term, event)"""
        out = []
        for e in self.events:
            if e.kind == "call" and e.term.a[0].op == "attr" and e.term.a[0].a[0] is obj and e.term.a[0].a[1] in ("append", "add"):
                if e.term.a[1]:
                    out.append((e.term.a[1][0], e))
        return out

    def deps(self, t, objects=True, _seen=None):
        """Terms t is computed from, through loop-carried values and the content of fresh objects"""
        seen = set() if _seen is None else _seen
        st = [t]
        out = []
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            out.append(x)
            st.extend(subterms(x))
            if x.op in ("mu", "idx"):
                L = self.loops.get(x.a[0])
                if L is not None:
                    if x.op == "mu" and x.a[1] in L.back:
                        st.extend(L.back[x.a[1]])
            if objects and x.op == "new":
                for e in self.events:
                    if e.kind in ("store_sub", "store_attr") and root_of(e.base) is x:
                        st.append(e.val)
                        if isinstance(e.idx, T):
                            st.append(e.idx)
                    elif e.kind == "call" and e.term.a[0].op == "attr" and e.term.a[0].a[0] is x:
                        st.extend(e.term.a[1])
                        st.extend(v for _, v in e.term.a[2])
        return out


class _FreeEnv(dict):
    pass


_changed = {}


def changed_names(node, prog=None):
    """Names whose content is changed in place in a function, or in one that it gives them to"""
    r = _changed.get(node)
    if r is None:
        r = _changed[node] = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                if n.func.attr in ("append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "add", "update", "discard"):
                    r.add(n.func.value.id)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                r.add(n.value.id)
            if prog is None or not isinstance(n, ast.Call) or not isinstance(n.func, (ast.Name, ast.Attribute)):
                continue
            given = [(i, x.id) for i, x in enumerate(n.args) if isinstance(x, ast.Name)]
            given += [(k.arg, k.value.id) for k in n.keywords if k.arg and isinstance(k.value, ast.Name)]
            for h in prog.by_name(n.func.id if isinstance(n.func, ast.Name) else n.func.attr) if given else ():
                ps = h.params()
                bound = isinstance(n.func, ast.Attribute) and h.cls is not None and not h.static
                for i, x in given:
                    p = i if isinstance(i, str) else ps[i + bound] if i + bound < len(ps) else None
                    if p is not None and p in changed_names(h.node, prog):
                        r.add(x)
    return r


def _locals_of(fn):
    s = set(fn.params())
    for n in own_nodes(fn.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            s.add(n.id)
        elif isinstance(n, ast.FunctionDef):
            s.add(n.name)
    a = fn.node.args
    if a.vararg:
        s.add(a.vararg.arg)
    if a.kwarg:
        s.add(a.kwarg.arg)
    return s


def _const_term(v):
    if isinstance(v, ast.Constant):
        return num(v.value) if isinstance(v.value, (int, float)) and not isinstance(v.value, bool) else const(v.value)
    if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and isinstance(v.operand, ast.Constant):
        return num(-v.operand.value)
    if isinstance(v, (ast.Tuple, ast.List)):
        xs = [_const_term(x) for x in v.elts]
        if all(x is not None for x in xs):
            return mk("tuple" if isinstance(v, ast.Tuple) else "list", *xs)
    if isinstance(v, ast.BinOp):
        a, b = _const_term(v.left), _const_term(v.right)
        if a is not None and b is not None:
            op = {ast.Add: add, ast.Mult: mul}.get(type(v.op))
            if op:
                return op(a, b)
            if isinstance(v.op, ast.Sub):
                return add(a, neg(b))
            if isinstance(v.op, ast.Div):
                return mul(a, inv(b))
    return None


def cval_(t):
    return t.a[0] if t.op == "const" else None


def _canon_slice(t):
    return t


def add_guard(g, c):
    if c is TRUE:
        return g
    out = list(g)
    for x in c.a if c.op == "and" else (c,):
        if x not in out:
            out.append(x)
    return tuple(out)


def join(g0, ga, gb, c):
    """Condition after an if whose two branches both continue"""
    ea = and_(*[x for x in ga if x not in g0])
    eb = and_(*[x for x in gb if x not in g0])
    o = or_(ea, eb)
    if o is TRUE or (ea is c and eb is not_(c)):
        return g0
    return add_guard(g0, o)


def merge(c, ea, eb, vfg):
    out = {}
    for k in list(ea) + [k for k in eb if k not in ea]:
        if k in out:
            continue
        a, b = ea.get(k), eb.get(k)
        if a is b:
            out[k] = a
        elif a is None or b is None:
            if isinstance(k, tuple):
                # attribute set on one side only
                base = mk("attr", k[1], k[2])
                out[k] = ite(c, a or base, b or base)
            else:
                u = mk("undef", str(k))
                out[k] = ite(c, a or u, b or u)
        elif not_(c) in empty_loop(b, a, vfg):
            out[k] = a
        elif c in empty_loop(a, b, vfg):
            out[k] = b
        else:
            out[k] = ite(c, a, b)
    return out


def no_turn(L):
    """Conditions under which a loop has no iteration"""
    out = []
    for b in (L.bound, mk("len", L.iter) if L.bound is None and L.iter is not None else None):
        if b is not None:
            z = num(0)
            out += [TT.cmp_("eq", b, z), TT.cmp_("le", b, z), not_(TT.cmp_("lt", z, b)), TT.cmp_("lt", b, num(1)), not_(TT.cmp_("le", num(1), b)), not_(b)]
    if L.bound is None and L.iter is not None:
        out.append(not_(L.iter))
    return out


def empty_loop(init, v, vfg):
    """v is what a loop makes of init: conditions under which the loop leaves it"""
    if v.op != "mu":
        return ()
    L = vfg.loops.get(v.a[0])
    if L is None or L.kind != "for" and L.bound is None or L.back.get(v.a[1], (None,))[0] is not init:
        return ()
    return no_turn(L)


def callee(t, *names):
    """t is a call to one of names: 'numpy.where', 'generic.distance', '.extract_with_mask', 'len'..."""
    if t.op == "new":
        t = t.a[1]
    if t.op != "call":
        return False
    f = t.a[0]
    for n in names:
        if n.startswith("."):
            if f.op == "attr" and f.a[1] == n[1:]:
                return True
            if f.op == "global" and n[1:] in NP_METHOD and f.a[0] == "numpy" + n:
                return True
        elif f.op == "global" and (f.a[0] == n or f.a[0].endswith("." + n)):
            return True
        elif f.op == "func" and f.a[0].endswith("." + n):
            return True
    return False


def unnew(t):
    return t.a[1] if t.op == "new" else t


def carg(t, name, pos=None):
    """Argument of a call term by name, or by position"""
    t = unnew(t)
    for k, v in t.a[2]:
        if k == name:
            return v
    if pos is not None and len(t.a[1]) > pos:
        return t.a[1][pos]
    return None


def root_of(t):
    """The object a storage location lives in (attributes, fields and subscripts are views)"""
    while t.op in ("attr", "sub", "field") or (t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] in ("numpy.ravel", "numpy.reshape", "numpy.asarray") ):
        t = t.a[0] if t.op != "call" else t.a[1][0]
    return t


def recv(t):
    t = unnew(t)
    return t.a[0].a[0] if t.op == "call" and t.a[0].op == "attr" else None
