"""Rule helpers: patterns on value-flow terms, guards, obligations and reporting."""
import ast
import json
import os
import re
import time

from . import terms as TT
from .engine import PKG, Broken, Frame, Program, VFG, callee, carg, recv, root_of, unnew
from .terms import (
    FALSE, NONE, T, TRUE, add, and_, cmp_, contains, isc, isnum, mk, neg, not_, or_, poly, same, show, subterms, walk,
)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ------------------------------------------------------------------ patterns


def core(t, memo=None):
    """t without the identity of the fresh objects it is made of"""
    memo = {} if memo is None else memo
    if t.id in memo:
        return memo[t.id]
    if t.op == "new":
        r = core(t.a[1], memo)
    elif not any(True for _ in subterms(t)):
        r = t
    else:
        r = TT.rebuild(t.op, tuple(_core_arg(x, memo) for x in t.a))
    memo[t.id] = r
    return r


def _core_arg(x, memo):
    if isinstance(x, T):
        return core(x, memo)
    if isinstance(x, tuple):
        return tuple(_core_arg(y, memo) for y in x)
    return x


_pcache = {}


def expr(g, text, **env):
    """Term of a Python expression read in the context of the function of graph g.

    Names are the parameters of the function, imported names of its module, the terms given
    in env, and wildcards (names starting with an underscore)."""
    key = (id(g), text, tuple(sorted((k, v.id) for k, v in env.items())))
    if key in _pcache:
        return _pcache[key]
    node = ast.parse(text.strip(), mode="eval").body
    v = VFG.__new__(VFG)
    v.evals = []
    v.prog, v.fn, v.inline = g.prog, g.fn, frozenset()
    v.events, v.loops = [], {}
    v.guard, v.loopstack = (), ()
    v.nuid, v.newn, v.depth = 10**6, 10**6, 0
    v.stale, v.noreturn = [], False
    v.undefined, v.nocheck = [], True
    v.expanded, v.stack = [], [g.fn]
    e = dict(g.params)
    inv = g.prog.inventory.get(g.fn.qual) or []
    names = g.fn.params()
    for i, n in enumerate(inv):
        if n not in e and i < len(names):
            e[n] = g.params[names[i]]
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and re.match(r"_[a-z]*\d*$", n.id):
            e[n.id] = mk("wild", n.id)
    e.update(env)
    v.frame = Frame(g.fn, g.fn.cls, e, None)
    v.params = g.params
    v.frame.env = e
    t = core(v.x(node))
    _pcache[key] = t
    return t


AC = {"add", "mul", "and", "or", "eq", "ne", "xor", "set"}


class Bind(dict):
    """Bindings of a match (true even when empty)"""

    def __bool__(self):
        return True


def match(p, t, b=None):
    """Unify pattern p (terms with `wild` leaves) with t; the bindings, or None"""
    for r in _m(p, t, b or {}):
        return Bind(r)
    return None


def _m(p, t, b):
    if p is t:
        yield b
        return
    if p.op == "wild":
        if p.a[0] == "_":
            yield b
            return
        o = b.get(p.a[0])
        if o is None:
            c = dict(b)
            c[p.a[0]] = t
            yield c
        elif o is t:
            yield b
        return
    if t.op == "new":
        yield from _m(p, t.a[1], b)
        return
    if p.op == "new":
        yield from _m(p.a[1], t, b)
        return
    if p.op != t.op:
        return
    if p.op in AC:
        if len(p.a) != len(t.a):
            # a single wildcard may take the rest
            ws = [x for x in p.a if x.op == "wild"]
            if len(t.a) > len(p.a) and len(ws) == 1 and p.op in ("add", "mul", "and", "or"):
                others = [x for x in p.a if x is not ws[0]]
                for c, rest in _acsub(others, list(t.a), b):
                    w = {"add": TT.add, "mul": TT.mul, "and": TT.and_, "or": TT.or_}[p.op](*rest)
                    yield from _m(ws[0], w, c)
            return
        # concrete parts first
        ps = sorted(p.a, key=lambda x: x.op == "wild")
        for c, rest in _acsub(ps, list(t.a), b):
            yield c
        return
    if len(p.a) != len(t.a):
        return
    yield from _mseq(p.a, t.a, b)


def _acsub(ps, ts, b):
    if not ps:
        yield b, ts
        return
    for i, t in enumerate(ts):
        for c in _m(ps[0], t, b):
            yield from _acsub(ps[1:], ts[:i] + ts[i + 1:], c)


def _mseq(ps, ts, b):
    if not ps:
        yield b
        return
    p, t = ps[0], ts[0]
    if isinstance(p, T) and isinstance(t, T):
        for c in _m(p, t, b):
            yield from _mseq(ps[1:], ts[1:], c)
    elif isinstance(p, tuple) and isinstance(t, tuple):
        if len(p) != len(t):
            return
        for c in _mseq(p, t, b):
            yield from _mseq(ps[1:], ts[1:], c)
    elif p == t:
        yield from _mseq(ps[1:], ts[1:], b)


def matches(g, t, *texts, env=None, b=None):
    """t matches one of the expressions"""
    if not isinstance(t, T):
        return None
    ct = core(t)
    for x in texts:
        p = x if isinstance(x, T) else expr(g, x, **(env or {}))
        r = match(p, ct, b)
        if r is not None:
            return r
        if not contains(p, lambda y: y.op == "wild"):
            try:
                if same(p, ct):
                    return Bind(b or {})
            except (RecursionError, ZeroDivisionError):
                pass
    return None


def find(g, t, *texts, env=None):
    """A sub-term of t that matches one of the expressions"""
    if not isinstance(t, T):
        return None
    for x in walk(core(t)):
        r = matches(g, x, *texts, env=env)
        if r is not None:
            return r
    return None


def deep(g, t, *texts, env=None):
    """Something t is computed from matches (through loops and object contents)"""
    for x in g.deps(t):
        if matches(g, x, *texts, env=env) is not None:
            return True
    return False


def implies(cond, *lits):
    """Condition cond (conjunction) contains one of the literals"""
    cs = set(cond.a) if cond.op == "and" else {cond}
    return any(l in cs for l in lits)


def conjuncts(cond):
    return list(cond.a) if cond.op == "and" else [cond]


def guarded(g, e, *texts, env=None):
    """The condition of event e includes one of the expressions (as a conjunct)"""
    for c in conjuncts(e.cond):
        if matches(g, c, *texts, env=env) is not None:
            return True
    return False


def default_of(fn, name):
    """Default value (AST) of a parameter of a function"""
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(names[len(names) - len(a.defaults):], a.defaults)) if a.defaults else {}
    for x, v in zip(a.kwonlyargs, a.kw_defaults):
        if v is not None:
            d[x.arg] = v
    return d.get(name)


# ------------------------------------------------------------------ checks


class Check:
    def __init__(self, pid, prog):
        self.pid, self.prog = pid, prog
        self.obl = []  # (rule, where, ok)
        self.findings = []  # dict
        self.functions = set()
        self.rules = {}
        self.rules_local = {}
        self.verdicts = {}
        self.notes = []

    def rule(self, rid, text, local=True):
        """local=False: the verdict at a function also depends on other functions; "hard": the rule does not rest on patterns"""
        self.rules[rid] = text
        self.rules_local[rid] = local

    def g(self, name, inline=(), cls=None):
        f = self.prog.func(name)
        self.functions.add(f.qual)
        return self.prog.vfg(f, inline, self.prog.cls(cls) if isinstance(cls, str) else cls)

    def ob(self, rid, where, ok, what, at=None, key=None):
        """One obligation: rule rid at a construct, with its verdict"""
        if isinstance(where, VFG):
            where = where.fn
        name = where.short if hasattr(where, "short") else str(where)
        path = getattr(where, "path", None)
        line = None
        if hasattr(where, "node"):
            line = getattr(where.node, "lineno", None)
        if at is not None:
            if isinstance(at, (int,)):
                line = at
            else:
                line = getattr(at, "line", None) or getattr(at, "lineno", None) or line
                path = getattr(at, "path", None) or path
        self.obl.append({"rule": rid, "construct": name, "instance": key or what, "ok": bool(ok)})
        if not ok:
            k = f"{rid}@{name}" + (f"#{key}" if key else "")
            if not any(f["key"] == k and f["what"] == what for f in self.findings):
                rel = os.path.relpath(path, self.prog.repo) if path else "?"
                self.findings.append({"key": k, "rule": rid, "construct": name, "file": rel, "line": line, "what": what})
        return ok

    def hygiene(self):
        """The functions analysed read no name that is bound nowhere, and still return the value they are used for"""
        self.rules["R0"] = "names read are bound, and functions used for their value return one on every path"
        kept = set(self.prog.inventory.get("__returns__", ()))
        for q in sorted(self.functions):
            f = self.prog.functions.get(q)
            if f is None:
                continue
            g = self.prog.vfg(f)
            for n, fn in g.undefined:
                self.ob("R0", f, False, f"name {n} is read and never bound", key="bound")
            if q in kept:
                ok = not g.falls and bool(g.returns()) and not any(isc(r.val, None) for r in g.returns())
                self.ob("R0", f, ok, "no value is returned on some path", key="returns")

    # -- comparison with the reviewed definitions

    def validator(self):
        v = getattr(self.prog, "_validator", None)
        if v is None:
            from .equiv import Validator

            keep = set(TT.FIELDS), dict(TT.ALIAS)
            ref = Program(os.path.join(VERIF, "checker", "ref"))
            TT.FIELDS.clear()
            TT.FIELDS.update(keep[0])
            TT.ALIAS.clear()
            TT.ALIAS.update(keep[1])
            v = self.prog._validator = Validator(ref, self.prog)
        return v

    def compare(self, qual):
        from .equiv import Result

        try:
            return self.validator().compare(qual)
        except Exception as e:  # the comparison gives up: nothing is said
            return Result("open", [f"{type(e).__name__}: {e}"])

    def validate(self, names, rid="V"):
        """Functions and constants named are those of the reviewed reference"""
        if not names:
            return
        self.rule(rid, "functions the property is about compute what their reviewed reference definition computes (equal value-flow graphs), and constants have their reviewed value")
        v = self.validator()
        for n in names:
            q = f"{PKG}.{n}" if n else PKG
            if q in v.ref.functions:
                r = self.compare(q)
                f = self.prog.functions.get(q)
                if f is not None:
                    self.functions.add(q)
            elif v.is_const(q):
                try:
                    r = v.constant(q)
                except Exception as e:
                    from .equiv import Result

                    r = Result("open", [f"{type(e).__name__}: {e}"])
                f = None
            else:
                raise Broken(f"no reference for {n}")
            self.verdicts[n] = r.status
            if r.status in ("open", "gone"):
                self.notes.append(f"{n}: not compared ({r.status}: {'; '.join(str(x) for x in r.what[:2])})"[:300])
                continue
            what = "; ".join(str(x) for x in r.what[:3])
            where = f if f is not None else n
            if f is None and r.status == "differs":
                m, path = v.owner(q)
                where = type("Where", (), dict(short=n, path=path))()
            self.ob(rid, where, r.status == "same", f"differs from its reviewed definition: {what}"[:900], r.line, None)

    def settle(self):
        """Findings inside a function which is shown equal to its reviewed definition are failures of a pattern, not of the code: the
        same rule holds on that definition."""
        if not self.findings:
            return
        st = {}
        for q in self.functions:
            if q in self.prog.functions and self.prog.functions[q].parent is None:
                st[q] = self.compare(q).status
        every = all(s == "same" for s in st.values()) and bool(st)
        keep = []
        for f in self.findings:
            q = f"{PKG}.{f['construct']}"
            local = self.rules_local.get(f["rule"], True)
            if f["rule"] != "V" and local != "hard" and q in st and st[q] == "same" and (every or local) and not f["key"].startswith("R0@"):
                self.notes.append(f"set aside, the function equals its reviewed definition: {f['key']} {f['what']}"[:300])
                for o in self.obl:
                    if not o["ok"] and o["rule"] == f["rule"] and o["construct"] == f["construct"]:
                        o["ok"] = True
                continue
            keep.append(f)
        self.findings = keep

    def need(self, n, what="obligations"):
        if len(self.obl) < n:
            raise Broken(f"{self.pid}: only {len(self.obl)} {what} found, {n} expected at least")


def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


# ------------------------------------------------------------------ rule templates


def _ts(g, texts, env):
    if isinstance(texts, (str, T)):
        texts = [texts]
    return [t if isinstance(t, T) else expr(g, t, **(env or {})) for t in texts]


def mt(g, t, texts, env=None, b=None):
    """match against one text or a list"""
    if isinstance(texts, (str, T)):
        texts = [texts]
    return matches(g, t, *texts, env=env, b=b)


def cond_ok(g, e, when=None, allow=(), env=None):
    """Condition of an event: every `when` is there, and nothing which is neither in when nor allow.

    when=None: any condition is accepted."""
    if when is None:
        return None
    cj = conjuncts(e.cond)
    cj = [x for x in cj if x is not TRUE]
    miss = []
    for w in when:
        if not any(mt(g, x, w, env) is not None for x in cj):
            miss.append("condition missing: " + (w if isinstance(w, str) else str(w)))
    for x in cj:
        if not any(mt(g, x, w, env) is not None for w in list(when) + list(allow)):
            miss.append("additional condition: " + show(x, 5))
    return "; ".join(miss) or None


def stores_at(g, base, idx=None, env=None, kinds=("store_sub", "store_attr")):
    """Store events whose location matches"""
    out = []
    if isinstance(idx, str):
        try:
            k = ast.literal_eval(idx)
        except (ValueError, SyntaxError):
            k = None
        if isinstance(k, str) and k in TT.FIELDS:
            base = [TT.field(b, k) for b in _ts(g, base, env)]
            base, idx = base[0], mk("slice", NONE, NONE, NONE)
    for e in g.events:
        if e.kind not in kinds:
            continue
        if mt(g, e.base, base, env) is None:
            continue
        if idx is not None:
            if e.kind == "store_attr":
                if e.idx != idx:
                    continue
            elif isinstance(idx, T):
                if core(e.idx) is not core(idx):
                    continue
            elif not isinstance(e.idx, T) or mt(g, e.idx, idx, env) is None:
                continue
        out.append(e)
    return out


def must_store(c, rid, g, base, idx, vals, what, when=None, allow=(), env=None, key=None, count=None):
    """A store at (base, idx) exists, and each such store has one of the values, under the condition `when`"""
    ev = stores_at(g, base, idx, env)
    key = key or what
    c.ob(rid, g, bool(ev), f"{what}: never stored", key=key)
    good = []
    for e in ev:
        ok = vals is None or mt(g, e.val, vals, env) is not None
        c.ob(rid, g, ok, f"{what}: value is {show(e.val, 5)}", e, key)
        m = cond_ok(g, e, when, allow, env)
        c.ob(rid, g, m is None, f"{what}: {m}", e, key)
        if ok and m is None:
            good.append(e)
    if count is not None:
        c.ob(rid, g, len(ev) == count, f"{what}: stored {len(ev)} times instead of {count}", key=key)
    return good


def must_return(c, rid, g, vals, what, env=None, when=None, allow=(), all_=True):
    rs = g.returns()
    c.ob(rid, g, bool(rs), f"{what}: nothing is returned", key=what)
    for r in rs:
        ok = mt(g, r.val, vals, env) is not None
        c.ob(rid, g, ok, f"{what}: returns {show(r.val, 5)}", r, what)
        m = cond_ok(g, r, when, allow, env)
        c.ob(rid, g, m is None, f"{what}: {m}", r, what)
    return rs


def must_call(c, rid, g, name, args, what, when=None, allow=(), env=None, key=None, names=None):
    """A call to name exists, and each has arguments matching args {param: texts}"""
    ev = g.calls(*([name] if isinstance(name, str) else name))
    key = key or what
    c.ob(rid, g, bool(ev), f"{what}: never called", key=key)
    good = []
    for e in ev:
        ok = True
        for k, (n, v) in enumerate(args.items()):
            a = carg(e.term, n, k)
            if a is None or mt(g, a, v, env) is None:
                ok = False
                c.ob(rid, g, False, f"{what}: argument {n} is {show(a, 4) if a is not None else 'missing'}", e, key)
            else:
                c.ob(rid, g, True, f"{what}: argument {n}", e, key)
        m = cond_ok(g, e, when, allow, env)
        c.ob(rid, g, m is None, f"{what}: {m}", e, key)
        if ok and m is None:
            good.append(e)
    return good


def order(c, rid, g, first, then, what, key=None):
    """Some event of `first` precedes every event of `then`"""
    for e in then:
        c.ob(rid, g, any(f.seq < e.seq for f in first), what, e, key or what)


def writers(prog, attrname, cls=None):
    """Functions which assign attribute attrname (of any object)"""
    out = []
    for f in prog.functions.values():
        if f.parent is not None:
            continue
        if cls is not None and f.cls is not cls:
            continue
        g = prog.vfg(f)
        for e in g.events:
            if e.kind == "store_attr" and e.idx == attrname:
                out.append((f, e))
    return out


def loop_over(g, L, seqs, env=None):
    """The loop goes over all items of a sequence (directly or by index)"""
    for s in [seqs] if isinstance(seqs, str) else seqs:
        if L.iter is not None and mt(g, L.iter, s, env) is not None:
            return True
        n = f"len({s})"
        if L.bound is not None and mt(g, L.bound, n, env) is not None:
            return True
        t = getattr(L, "test", None)
        if isinstance(t, T) and find(g, t, n, env=env) is not None:
            return True
    return False
