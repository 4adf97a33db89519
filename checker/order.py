"""Order of listings: where collections whose order depends on the file system (or on scheduling) are used in an order-sensitive way"""
import ast

from .alias import changes
from .handles import dotted

LIST = {"glob", "iglob", "listdir", "scandir", "walk", "iterdir", "rglob", "imap_unordered", "as_completed"}
SETOPS = {"union", "intersection", "difference", "symmetric_difference"}
# the result does not depend on the order
FREE = {"len", "sorted", "sum", "min", "max", "any", "all", "unique", "isin", "in1d", "Counter", "bool", "lexsort", "argsort", "sort", "union1d", "intersect1d", "setdiff1d"}
# the result is ordered as the argument
SAME = {"list", "set", "frozenset", "dict", "tuple", "array", "asarray", "bytes_", "str_", "enumerate", "reversed", "iter", "map", "filter", "zip", "chain", "str", "concatenate"}
SHOW = {"info", "debug", "warning", "error", "critical", "print", "log", "exception"}


def last(e):
    d = dotted(e)
    if d is not None:
        return d.split(".")[-1]
    return e.attr if isinstance(e, ast.Attribute) else None


class Flow:
    """State: names (or dotted names) that hold a collection without order"""

    def __init__(self, prog, f, makers=frozenset(), given=None, depth=0):
        self.prog, self.f, self.makers, self.depth = prog, f, makers, depth
        self.ranks = set()
        self.bad, self.state, self.gives, self.sources = [], dict(given or {}), None, 0
        self.block(f.node.body)

    # -- expressions: source (a node) of the unordered collection, or None

    def src(self, e):
        d = dotted(e)
        if d is not None:
            return self.state.get(d)
        if isinstance(e, ast.Call):
            n = last(e.func)
            if n in LIST and self.library(e.func, n):
                self.sources += 1
                return e
            if n in ("set", "frozenset") and isinstance(e.func, ast.Name) and e.args:
                return self.src(e.args[0])
            if n in self.makers:
                self.sources += 1
                return e
            if n in SETOPS and isinstance(e.func, ast.Attribute) and self.src(e.func.value) is not None:
                return e
            if n in FREE:
                return None
            if n in SAME:
                for a in e.args:
                    s = self.src(a)
                    if s is not None:
                        return s
            if n == "copy" and isinstance(e.func, ast.Attribute):
                return self.src(e.func.value)
            return None
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            for g in e.generators:
                s = self.src(g.iter)
                if s is not None:
                    return s
            return None
        if isinstance(e, ast.BinOp):
            a, b = self.src(e.left), self.src(e.right)
            return a or b
        if isinstance(e, ast.IfExp):
            return self.src(e.body) or self.src(e.orelse)
        if isinstance(e, ast.Starred):
            return self.src(e.value)
        if isinstance(e, ast.NamedExpr):
            return self.src(e.value)
        if isinstance(e, ast.Subscript):
            s = self.src(e.value)
            if s is not None and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
                # field of a table
                return s
        return None

    def rank(self, i):
        """Order computed from the values"""
        if isinstance(i, ast.Call):
            return last(i.func) in ("argsort", "lexsort", "sorted") and self.library(i.func, last(i.func))
        return isinstance(i, ast.Name) and i.id in self.ranks

    def library(self, fn, n):
        q = self.prog.resolve_expr(self.f.module, fn)
        return not (q in self.prog.functions)

    # -- uses

    def uses(self, e):
        """Order-sensitive uses inside an expression"""
        for n in ast.walk(e):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                s = self.src(n.value)
                if s is not None and not (isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str)) and not self.rank(n.slice):
                    self.say(s, n, "an element is taken by its rank")
            elif isinstance(n, ast.Call):
                w = last(n.func)
                if w in FREE or w in SAME or w in SHOW or w in LIST:
                    continue
                if isinstance(n.func, ast.Attribute) and self.src(n.func.value) is not None:
                    if w in ("pop", "popleft", "index"):
                        self.say(self.src(n.func.value), n, f"{w} depends on the order")
                    continue
                for k, a in [*enumerate(n.args)] + [(k.arg, k.value) for k in n.keywords]:
                    s = self.src(a)
                    if s is not None and w not in ("isinstance", "update", "issubset", "issuperset"):
                        if self.follow(s, n, w, k) and dotted(a) in self.state:
                            del self.state[dotted(a)]

    def follow(self, s, call, w, k):
        """The function called uses its argument whatever its order"""
        hs = [h for h in self.prog.functions.values() if h.name == w and h.parent is None]
        if w in self.prog_classes():
            hs = [h for h in self.prog.functions.values() if h.name == "__init__" and h.cls is not None and h.cls.node.name == w]
        if not hs or self.depth > 3:
            self.say(s, call, f"given to {w} as listed")
            return False
        sorts = True
        for h in hs:
            ps = h.params()
            if h.cls is not None and not h.static:
                ps = ps[1:]
            p = k if isinstance(k, str) else ps[k] if k < len(ps) else None
            if p is None or p not in ps:
                sorts = False
                continue
            x = Flow(self.prog, h, self.makers, {p: call}, self.depth + 1)
            if any(b[0] is call for b in x.bad):
                b = next(b for b in x.bad if b[0] is call)
                self.say(s, call, f"given to {h.short} as listed: {b[2]} (line {b[1].lineno})")
            sorts &= x.sorted_in_place(p)
        return sorts

    def sorted_in_place(self, p):
        """The parameter itself is sorted: it is the object given as long as it is not assigned"""
        again = any(isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Store) for n in ast.walk(self.f.node))
        return p not in self.state and not again

    def prog_classes(self):
        return {c.node.name for c in self.prog.classes.values()}

    def say(self, s, n, what):
        self.bad.append((s, n, what))

    # -- statements

    def bind(self, t, s):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, None)
            return
        d = dotted(t)
        if d is not None:
            if s is None:
                self.state.pop(d, None)
            else:
                self.state[d] = s
        elif isinstance(t, ast.Subscript):
            d = dotted(t.value)
            if d is not None and s is not None and isinstance(t.slice, (ast.Constant, ast.Slice)):
                # table["field"] = listing
                self.state[d] = s

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            self.uses(s.value)
            v = self.src(s.value)
            for t in s.targets:
                self.bind(t, v)
                if isinstance(t, ast.Name):
                    self.ranks.discard(t.id)
                    if self.rank(s.value):
                        self.ranks.add(t.id)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.uses(s.value)
                self.bind(s.target, self.src(s.value))
        elif isinstance(s, ast.AugAssign):
            self.uses(s.value)
            v = self.src(s.value)
            if v is not None:
                self.bind(s.target, v)
        elif isinstance(s, ast.Expr):
            c = s.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute):
                d = dotted(c.func.value)
                if c.func.attr == "sort" and d in self.state:
                    del self.state[d]
                    return
                if c.func.attr in ("extend", "append") and d is not None and c.args:
                    v = self.src(c.args[0])
                    if v is not None and c.func.attr == "extend":
                        self.state[d] = v
                    return
                if last(c.func) == "shuffle" and c.args and dotted(c.args[0]):
                    self.state[dotted(c.args[0])] = c
            if isinstance(c, (ast.Yield,)) and c.value is not None and self.src(c.value) is not None:
                self.gives = c
            self.uses(c)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.uses(s.value)
                v = self.src(s.value)
                if v is not None:
                    self.gives = s
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.uses(s.iter)
            v = self.src(s.iter)
            if v is not None and not self.own(s):
                self.say(v, s, "loop in the order listed")
            self.bind(s.target, None)
            self.block(s.body)
            self.block(s.body)
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            self.uses(s.test)
            self.block(s.body)
            self.block(s.body)
        elif isinstance(s, ast.If):
            self.uses(s.test)
            old = dict(self.state)
            self.block(s.body)
            a, self.state = self.state, old
            self.block(s.orelse)
            ends = lambda b: b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
            if ends(s.orelse):
                self.state = a
            elif not ends(s.body):
                self.state = {**self.state, **a}
        elif isinstance(s, ast.With):
            for i in s.items:
                self.uses(i.context_expr)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.block(s.body)
            for h in s.handlers:
                self.block(h.body)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, (ast.Raise, ast.Assert, ast.Delete)):
            pass

    def own(self, s):
        """Each turn of the loop only changes its element, or adds to sets and dictionaries"""
        names = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        made = set(names)
        for n in ast.walk(s):
            if isinstance(n, ast.Assign):
                made |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        for n in ast.walk(s):
            if isinstance(n, (ast.Break, ast.Return, ast.Yield)):
                return False
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Name):
                        if isinstance(n, ast.AugAssign):
                            return isinstance(n.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Mult))
                        continue
                    b = t
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if not (isinstance(b, ast.Name) and b.id in made):
                        return False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "write", "pop"):
                return False
            if isinstance(n, ast.Call):
                w = last(n.func)
                given = [(i, a) for i, a in enumerate(n.args)] + [(k.arg, k.value) for k in n.keywords]
                for h in self.prog.functions.values():
                    if h.name != w or h.parent is not None:
                        continue
                    ps = h.params()
                    me = h.cls is not None and not h.static
                    hit = {k[0] for k in changes(self.prog, h)}
                    if me and ps and ps[0] in hit and isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Name) and n.func.value.id in made):
                        return False
                    ps = ps[1:] if me else ps
                    for k, a in given:
                        q = k if isinstance(k, str) else ps[k] if isinstance(k, int) and k < len(ps) else None
                        if q in hit and isinstance(a, ast.Name) and a.id not in made:
                            return False
        return True


def functions(prog):
    """{qualified name: Flow}, functions that give unordered collections included in the sources"""
    r = prog.__dict__.get("_order_flow")
    if r is not None:
        return r
    makers = set()
    for _ in range(3):
        r = {f.qual: Flow(prog, f, frozenset(makers)) for f in prog.functions.values() if f.parent is None}
        new = {prog.functions[q].name for q, x in r.items() if x.gives is not None and not prog.functions[q].prop}
        if new <= makers:
            break
        makers |= new
    for q, x in r.items():
        n = prog.functions[q].name
        x.called = any(isinstance(c, ast.Call) and last(c.func) == n for m in prog.modules.values() for c in ast.walk(m.tree))
    prog._order_flow = r
    return r
