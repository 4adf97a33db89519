"""Comparison of two functions by their value-flow graphs (translation validation).

`Validator(ref, cur).compare(f)` says whether function f of the current sources computes the
same effects (stores, returns, raises, calls kept for their effect) as its reviewed reference
definition, for every input:

  * loops, loop-carried values, fresh objects and parameters get names that only depend on what they are
    (partition refinement), so renaming, hoisting, extraction, loop rewriting or re-ordering leave the names as they are;
  * effects on one location are one gated value, compared for every combination of their
    atomic conditions (impossible combinations of comparisons left out);
  * what remains different is reduced to the smallest differing sub-terms.

The answer is "same", "differs" (with the differing terms, when the difference is local), or
"open": the function was restructured beyond what is compared - nothing is said about it.
"""
import ast
import itertools

from . import terms as TT
from . import vocab
from .alias import augmented
from .astdiff import small_edit
from .effects import bind, changed, mentions, path, targets
from .engine import NP_METHOD, callee, no_turn, root_of
from .known import Known
from .terms import FALSE, NONE, T, TRUE, and_, isc, isnum, mk, not_, or_, poly, show, subterms, walk

ROUNDS = 4
MAXATOMS = 13
LOCAL = 5  # more differences than this: restructured

_ids = {}
_sig = {}  # name -> signature (to look inside when two names differ)


def name_of(kind, sig):
    k = (kind, sig)
    n = _ids.get(k)
    if n is None:
        n = f"{kind}{len(_ids)}"
        _ids[k] = n
        _sig[n] = sig
    return n


PURE_MODULES = ("numpy.", "math.", "numba.", "os.path.", "datetime.", "scipy.")
PURE = {
    "len", "range", "enumerate", "zip", "list", "tuple", "dict", "set", "min", "max", "sum", "abs", "int", "float",
    "str", "bool", "isinstance", "hasattr", "getattr", "sorted", "reversed", "slice", "any", "all", "round", "repr",
    "type", "format", "super", "id", "divmod", "map", "filter", "iter",
}
PURE_METHODS = NP_METHOD | {
    "copy", "astype", "format", "join", "split", "strip", "lower", "upper", "startswith", "endswith", "get", "keys",
    "values", "items", "index", "count", "tolist", "filled", "transpose", "flatten", "area", "encode", "decode", "view", "replace",
}


def is_log(t):
    f = t.a[0]
    if f.op == "attr":
        b = f.a[0]
        if b.op == "global" and b.a[0].rsplit(".", 1)[-1] in ("logger", "logging", "warnings"):
            return True
    return callee(t, "warnings.warn") or callee(t, "print")


def is_pure(t):
    f = t.a[0]
    if f.op == "global":
        n = f.a[0]
        return n in PURE or n.startswith(PURE_MODULES)
    if f.op == "attr":
        return f.a[1] in PURE_METHODS
    return False


class Graph:
    """Canonical effects of one function"""

    def __init__(self, g):
        self.g = g
        self.pos = {}
        self.force = {}  # objects and loop-carried values with a given name
        names = g.fn.params()
        for n, t in g.params.items():
            # whatever their names, the arguments left by name
            left = t.op == "param" and str(t.a[0]).startswith("**")
            self.pos[t] = mk("param", "**" if left else f"p{names.index(n)}" if n in names else n, 0)
        evs = [e for e in g.events if e.kind in ("store_sub", "store_attr", "return", "raise", "yield", "assert", "delitem", "delattr", "with", "call")]
        used = set()
        for e in evs:
            if e.kind == "call":
                if is_log(e.term):
                    continue
                for x in subterms(e.term):
                    used.update(y.id for y in walk(x))
                for x in e.guard:
                    used.update(y.id for y in walk(x))
            else:
                for t in e.terms():
                    used.update(y.id for y in walk(t))
        loopsigs = set()
        for L in g.loops.values():
            for t in (L.iter, L.bound, L.exit(), L.start, L.step, *[v for p in L.back.values() for v in p]):
                if isinstance(t, T):
                    loopsigs.update(y.id for y in walk(t))
        used |= loopsigs
        self.used = used
        self.evs = []
        for e in evs:
            if e.kind == "call" and (is_log(e.term) or is_pure(e.term)):
                continue
            if e.kind == "call" and (e.term.id in used or (isinstance(e.val, T) and e.val.id in used)) and not (e.guard and self.lasting(e.term)):
                continue
            if e.kind == "return" and isc(e.val, None):
                continue
            self.evs.append(e)
        self.refine()

    def lasting(self, t):
        """The call leaves something behind, whatever is done with its value"""
        f = t.a[0]
        if f.op == "global" and f.a[0] in ("zarr.open", "open") or f.op == "global" and f.a[0].endswith(".Dataset"):
            return any(isc(x) and isinstance(x.a[0], str) and x.a[0][:1] in ("w", "a") for x in (*t.a[1], *(v for _, v in t.a[2])))
        return False

    # ------------------------------------------------------------ names

    def refine(self):
        g = self.g
        self.lname, self.mname, self.nname = {}, {}, {}
        self.lsig = {}
        news = {}
        mus = {}

        def collect(t):
            for x in walk(t):
                if x.op == "new":
                    news.setdefault(x.a[0], x)
                elif x.op == "mu":
                    mus[(x.a[0], x.a[1])] = x

        for e in self.evs:
            for t in e.terms():
                collect(t)
        for L in g.loops.values():
            for t in (L.iter, L.bound, L.exit()):
                if isinstance(t, T):
                    collect(t)
            for n, (a, b) in L.back.items():
                for t in (a, b):
                    if isinstance(t, T):
                        collect(t)
                if isinstance(n, str):
                    mus.setdefault((L.uid, n), None)
        onnew = {}
        for e in g.events:
            if e.kind in ("store_sub", "store_attr") and isinstance(e.base, T):
                r = root_of(e.base)
                if isinstance(r, T) and r.op == "new":
                    onnew.setdefault(r.a[0], []).append(e)
            elif e.kind == "call":
                for f in called(e.term.a[0]):
                    if f.op == "attr" and f.a[0].op == "new" and e not in onnew.setdefault(f.a[0].a[0], []):
                        onnew[f.a[0].a[0]].append(e)
        for u in g.loops:
            self.lname[u] = "L"
        for k in mus:
            self.mname[k] = "M"
        for k in news:
            self.nname[k] = "N"
        for r in range(ROUNDS):
            self.memo = {}
            ln = {}
            for u, L in g.loops.items():
                par = tuple(self.lname.get(p, "?") for p in (L.loops or ()))
                if L.bound is not None:
                    sig = (par, "n", self.canon(L.bound))
                elif L.iter is not None:
                    it = L.iter
                    if it.op == "tuple" and it.a and L.kind != "comp":
                        it = it.a[0]
                    if self.no_sequence(it):
                        sig = (par, "in", self.canon(it))
                    else:
                        sig = (par, "n", build("len", (self.canon(it),)))
                else:
                    sig = (par, "while")
                x = L.exit()
                if x is not FALSE:
                    sig += (self.canon(truth(x)),)
                self.lsig[u] = sig
                ln[u] = self.force.get(("L", u)) or name_of("l", sig)
            mn = {}
            for k in mus:
                L = g.loops.get(k[0])
                b = L.back.get(k[1]) if L is not None else None
                if b is None:
                    mn[k] = name_of("m", (self.lname.get(k[0], "?"), "?"))
                elif k in self.force:
                    mn[k] = self.force[k]
                else:
                    mn[k] = name_of("m", (self.lname[k[0]],) + tuple(self.canon(x) if isinstance(x, T) else str(x) for x in b))
            nn = {}
            for k, x in news.items():
                if k in self.force:
                    nn[k] = self.force[k]
                    continue
                s = []
                for e in onnew.get(k, []):
                    if e.kind == "call":
                        s += [(0, t.id, 0) for _, t in split(self.canon(e.term))]
                    else:
                        i = [t.id for _, t in split(self.canon(e.idx))] if isinstance(e.idx, T) else [hash(str(e.idx))]
                        s += [(1, j, t.id) for j in i for _, t in split(self.canon(e.val))]
                c0 = self.canon(x.a[1])
                z = initial(c0)
                s = [y for y in s if y[0] == 0 or y[2] not in z]
                nn[k] = name_of("o", (c0, tuple(sorted(set(s)))))
            self.lname, self.mname, self.nname = ln, mn, nn
        self.memo = {}
        self.news = news

    @staticmethod
    def no_sequence(it):
        """Walked through with no index: dictionary views, generators, sets..."""
        if it.op == "call":
            f = it.a[0]
            if f.op == "attr":
                return f.a[1] in ("items", "keys", "values") or f.a[1].startswith("iter")
            return f.op == "global" and f.a[0] in ("zip", "dict", "set", "map", "filter", "iter", "reversed", "enumerate")
        return it.op in ("tuple", "list", "dict", "set")

    def canon(self, t):
        if not isinstance(t, T):
            return t
        r = self.memo.get(t.id)
        if r is not None:
            return r
        o = t.op
        if t in self.pos:
            r = self.pos[t]
        elif o == "idx":
            r = mk("idx", self.lname.get(t.a[0], t.a[0]))
        elif o == "mu":
            r = mk("mu", "", self.mname.get((t.a[0], t.a[1]), t.a[1]))
        elif o == "last":
            r = mk("last", self.lname.get(t.a[0], "?"), self.canon(t.a[1]))
        elif o == "key":
            r = mk("key", self.canon(t.a[0]), self.lname.get(t.a[1], "?"))
        elif o == "new":
            r = mk("new", self.nname.get(t.a[0], "N"), self.canon(t.a[1]))
            # the content is what matters for objects which are never written
            if t.a[0] not in self.force and r.a[1].op == "call" and not _sig.get(r.a[0], (None, ()))[1]:
                r = r.a[1]
        elif o == "except":
            r = mk("except", t.a[0])
        elif o == "opaque":
            r = mk("opaque", t.a[0])
        elif o == "undef":
            r = mk("undef", "")
        elif o == "lparam":
            r = mk("lparam", "")
        elif not any(True for _ in subterms(t)):
            r = t
        elif o == "dict" and len(t.a) > 1 and all(x.op == "tuple" and isc(x.a[0]) and isinstance(x.a[0].a[0], str) for x in t.a):
            d = {x.a[0].a[0]: x for x in t.a}
            r = mk("dict", *(self.canon(d[k]) for k in sorted(d)))
        elif o == "call" and t.a[0].op == "ite":
            # one method or another
            f = t.a[0]
            r = self.canon(mk("ite", f.a[0], *(mk("call", x, *t.a[1:]) for x in f.a[1:])))
        elif o in ("and", "or", "not", "ite") and any(map(container, t.a[:1] if o == "ite" else t.a)):
            a = [truth(x) for x in (t.a[:1] if o == "ite" else t.a)]
            r = self.canon({"and": and_, "or": or_, "not": not_}[o](*a) if o != "ite" else mk("ite", *a, *t.a[1:]))
        elif o in ("and", "or", "not") and any(boolean_sum(x) is not x for x in t.a):
            r = self.canon({"and": and_, "or": or_, "not": not_}[o](*[boolean_sum(x) for x in t.a]))
        elif o == "attr" and t.a[0].op == "attr" and t.a[0].a[1] == "__class__" and self.unbound(t.a[1]):
            # the same function on the object or on its class
            r = self.canon(mk("attr", t.a[0].a[0], t.a[1]))
        elif o == "call" and t.a[0].op == "global" and t.a[0].a[0] == "next" and len(t.a[1]) == 1 and all(k == "#" for k, _ in t.a[2]):
            r = self.canon(mk("call", mk("attr", t.a[1][0], "__next__"), (), t.a[2]))
        elif o == "call" and t.a[1] and t.a[0].op == "attr" and self.names(t) is not None:
            r = build("call", (self.canon(t.a[0]), (), self.carg(self.names(t))))
        else:
            r = build(o, tuple(self.carg(x) for x in t.a))
        self.memo[t.id] = r
        return r

    def unbound(self, n):
        fs = self.g.prog.by_method.get(n)
        return bool(fs) and all(f.static or f.classm for f in fs)

    def names(self, t):
        """Arguments by name, when every method of that name has the same parameters"""
        if any(x.op == "star" for x in t.a[1]) or any(k in ("**", "*") for k, _ in t.a[2]):
            return None
        fs = [f for f in self.g.prog.by_method.get(t.a[0].a[1], ()) if not f.prop]
        ps = {tuple(f.params() if f.static else f.params()[1:]) for f in fs}
        if not ps or any(f.node.args.vararg for f in fs):
            return None
        out = list(t.a[2])
        for i, v in enumerate(t.a[1]):
            n = {p[i] for p in ps if len(p) > i}
            out.append((n.pop() if len(n) == 1 else f"#{i}", v))
        return tuple(sorted(out, key=lambda kv: kv[0]))

    def carg(self, x):
        if isinstance(x, T):
            return self.canon(x)
        if isinstance(x, tuple):
            return tuple(self.carg(y) for y in x)
        return x

    # ------------------------------------------------------------ effects

    def places(self, e, lp, cond):
        """(condition, place, value) of an effect, one by place it may concern"""
        if e.kind in ("store_sub", "store_attr"):
            base, idx, val = self.canon(e.base), self.canon(e.idx) if isinstance(e.idx, T) else e.idx, self.canon(e.val)
            if e.kind == "store_sub" and e.loops and isinstance(e.idx, T) and e.idx.op == "sub" and e.idx.a[1].op == "idx" and e.idx.a[1].a[0] == e.loops[-1]:
                # for i in seq: a[i] = v
                u = e.loops[-1]

                def varies(t):
                    return any(x.op in ("idx", "mu", "key") and u in x.a for x in walk(t))

                if not any(varies(t) for t in (e.base, e.val, e.cond, e.idx.a[0])):
                    lp, idx = lp[:-1], self.canon(e.idx.a[0])
            for c1, b in split(base):
                for c2, i in split(idx):
                    c = normal(and_(cond, c1, c2))
                    if c is not FALSE:
                        v = val
                        if isnum(v) and bool_array(b):
                            v = TT.const(bool(v.a[0]))
                        elif e.kind == "store_sub" and (v is TRUE or v is FALSE) and not bool_array(b) and not (i.op == "const" and isinstance(i.a[0], str)):
                            # stored in an array, True and 1 are the same
                            v = TT.num(int(v is TRUE))
                        yield c, (e.kind, lp, b, i), v
        elif e.kind == "call":
            for c1, t in split(self.canon(e.term)):
                c = normal(and_(cond, c1))
                if c is not FALSE:
                    yield c, ("call", lp, t, None), TRUE
        elif e.kind == "raise":
            for c1, v in split(self.canon(e.val)):
                v = v.a[0] if v.op == "call" else v
                c = normal(and_(cond, c1))
                if c is not FALSE:
                    yield c, ("raise", lp, v, None), TRUE
        elif e.kind in ("delitem", "delattr"):
            yield cond, (e.kind, lp, self.canon(e.base), self.canon(e.idx) if isinstance(e.idx, T) else e.idx), TRUE
        else:
            yield cond, (e.kind, lp, None, None), self.canon(e.val) if isinstance(e.val, T) else NONE

    def copies(self):
        """What is used through a copy read before it was overwritten: (kind of effect, array) -> loops"""
        out = {}
        for e in self.evs:
            for n, v, B in e.stale:
                if isinstance(B, T):
                    k = (e.kind, core(self.canon(B)))
                    s, line = out.get(k, (frozenset(), e.line))
                    out[k] = (s | {tuple(self.lname.get(u, "?") for u in e.loops)}, line)
        return out

    def times(self):
        """What is read, what is changed: {value: [(time, guard, loops)]}, {change: (what, [(time, guard, loops)])}"""
        F, E = {}, {}
        prog = self.g.prog
        sums = {}
        for t in {y.id: y for e in self.evs for x in e.terms() for y in walk(x)}.values():
            if t.op in ("add", "mul"):
                sums.setdefault(t.op, []).append(set(t.a))
        for t, n, gd, lp in self.g.evals:
            # or a part of a longer sum
            if t.id in self.used or t.op in sums and any(s.issuperset(t.a) for s in sums[t.op]):
                F.setdefault(t, []).append((n - 0.5, gd, lp))
        for e in self.g.events:
            w = []
            if e.kind == "call":
                if is_log(e.term):
                    continue
                if e.term.id in self.used or isinstance(e.val, T) and e.val.id in self.used:
                    F.setdefault(e.term, []).append((e.seq, e.guard, e.loops))
                w = [(v, how, True) for v, how in changed(prog, self.g, e.term)]
                f = e.term.a[0]
                if f.op == "global" and e.term.id not in self.used and not is_pure(e.term) and not targets(prog, self.g, e.term):
                    w += [(v, (), True) for v in (*e.term.a[1], *(v for _, v in e.term.a[2])) if isinstance(v, T)]
                k = ("call", self.canon(e.term))
            elif e.kind in ("store_sub", "delitem") and isinstance(e.base, T):
                w = [(e.base, (), False)]
                k = (e.kind, self.canon(e.base), self.canon(e.idx) if isinstance(e.idx, T) else e.idx)
            elif e.kind == "store_attr" and isinstance(e.base, T):
                w = [(e.base, (e.idx,), False)]
                k = (e.kind, self.canon(e.base), e.idx)
            if w:
                c = E.setdefault(k, (set(), []))
                for v, how, deep in w:
                    c[0].update((r, tuple(p) + tuple(how), deep) for r, p in path(v))
                c[1].append((e.seq, e.guard, e.loops))
        out = {}
        for t, at in F.items():
            c = content(prog, self.g, t)
            if c:
                x = out.setdefault(self.canon(t), (set(), []))
                x[0].update(c)
                x[1].extend(at)
        return out, E

    def relations(self):
        """(value, change of what it reads) -> times of both"""
        F, E = self.times()
        by = {}
        for k, (w, at) in E.items():
            for r, p, deep in w:
                by.setdefault(r, []).append((p, deep, k, at))
        out = {}
        stores = {k[1:]: (k, at) for k, (w, at) in E.items() if k[0] == "store_sub"}
        for t, (c, at) in F.items():
            if t.op == "sub" and (t.a[0], t.a[1]) in stores and not self.iterated(t):
                # an element, and its change
                k, wat = stores[t.a[0], t.a[1]]
                out[t, k] = (at, wat)
            for r, p, m, elem in c:
                for wp, deep, k, wat in by.get(r, ()):
                    if k[0] == "call" and (k[1] is t or t.op == "call" and k[1] in F and same_function(k[1], t)):
                        # values of one function, for two lists of arguments
                        continue
                    if elem and not deep:
                        continue
                    if m == "len":
                        # only what changes the number of elements
                        if wp == (*p, "[]") and k[0] == "call":
                            out[t, k] = (at, wat)
                        continue
                    if p[: len(wp)] == wp:
                        # the value of an attribute is known when it is read
                        if k[0] == "store_attr":
                            continue
                    elif not (wp[: len(p)] == p and (m is None or wp[len(p)] == "[]" or wp[len(p)] in m)):
                        continue
                    elif k[0] == "store_attr" and m is None and self.own_attribute(wp[-1]):
                        continue
                    out[t, k] = (at, wat)
        return out

    def iterated(self, t):
        """The element is the one of the iteration"""
        if t.a[1].op != "idx":
            return False
        for u, L in self.g.loops.items():
            if self.lname.get(u, u) == t.a[1].a[0] and L.kind == "for" and isinstance(L.bound, T):
                return self.canon(L.bound) is self.canon(mk("len", t.a[0]))
        return False

    def own_attribute(self, name):
        """Only this function reads an attribute of that name"""
        prog = self.g.prog
        by = prog.__dict__.get("attribute_readers")
        if by is None:
            by = prog.attribute_readers = {}
            for q, f in prog.functions.items():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Store):
                        by.setdefault(n.attr, set()).add(q)
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                        by.setdefault(n.value, set()).add(q)
        r = by.get(name, ())
        return isinstance(name, str) and name.startswith("_") and all(q == self.g.fn.qual for q in r)

    def signs(self, at, wat, full=False):
        """Before or after, and inside how many of the same loops"""
        out = set()
        for a, ga, lp in at:
            for b, gb, lq in wat:
                s = a < b, sum(1 for u in lp if u in lq)
                if s in out or opposed(ga, gb):
                    continue
                if full and exclusive(self.canon(truth(and_(*ga))), self.canon(truth(and_(*gb)))):
                    continue
                out.add(s)
        return out

    def groups(self):
        """(kind, loops, place) -> [(condition, value, event)] in order"""
        out = {}
        for e in self.evs:
            lp = tuple(self.lname.get(u, "?") for u in e.loops)
            cond = e.cond
            if e.loops:
                # an iteration of a loop over n elements says that n is not 0
                z = {y.id for u in e.loops if u in self.g.loops and (self.g.loops[u].kind == "for" or self.g.loops[u].bound is not None) for x in no_turn(self.g.loops[u]) for y in (not_(x),)}
                if z and any(x.id in z for x in parts(cond)):
                    cond = and_(*[x for x in parts(cond) if x.id not in z])
            cond = self.canon(truth(cond))
            if cond is FALSE:
                continue
            for c, k, v in self.places(e, lp, cond):
                out.setdefault(k, []).append((c, v, e))
        return out


def opposed(ga, gb):
    """Never both"""
    b = {not_(x) for x in gb}
    return any(x in b for x in ga)


SKIP = ("tuple", "list", "dict", "slice", "star", "concat", "is", "isnot", "func", "global", "set", "ite", "attr", "new", "key", "idx", "mu")


def same_function(a, b):
    if a.op != "call" or b.op != "call":
        return False
    f, g = a.a[0], b.a[0]
    return f is g or f.op == "attr" and g.op == "attr" and f.a[1] == g.a[1]


def content(prog, g, t):
    """{(root, path, attributes looked at, is an element)}: objects the content of which makes the value"""
    out = set()
    if t.op == "new":
        t = t.a[1]
    if t.op in SKIP or t.op not in ("call", "sub") and len(t.a) > 12:
        return out

    def put(x, m, elem):
        if not isinstance(x, T) or x.op in ("num", "const", "global", "func", "idx"):
            return
        while x.op == "sub" and x.a[1].op == "slice":
            x = x.a[0]
        # a field of a structured array is a part of it
        e = elem or x.op == "sub" and not (isc(x.a[1]) and isinstance(x.a[1].a[0], str))
        for r, p in path(x):
            if r.op in ("param", "new", "call"):
                out.add((r, tuple(p), m, e))

    if t.op == "len":
        put(t.a[0], "len", False)
        return out
    if t.op == "sub" and t.a[1].op == "slice":
        return out  # a view
    if t.op == "sub":
        if t.a[1].op not in ("num", "const"):
            put(t.a[1], (), False)
        put(t.a[0], (), t.a[1].op != "slice")
    elif t.op == "call":
        if is_pure(t) or not targets(prog, g, t):
            f = t.a[0]
            m = () if is_pure(t) else None
            if f.op == "attr" and f.a[1] not in ("copy", "__class__"):
                put(f.a[0], m, False)
            for x in (*t.a[1], *(v for _, v in t.a[2])):
                put(x, m, False)
        else:
            for f in targets(prog, g, t):
                m = mentions(prog, f)
                for p, v in bind(f, t):
                    put(v, frozenset(m) if m is not None else None, False)
    else:
        for x in subterms(t):
            put(x, (), False)
    return out


MAXLIFT = 4
NOLIFT = ("ite", "and", "or", "not", "ne", "bdd", "mtb", "bd", "lambda", "new", "key", "last", "mu", "idx")
_built = {}


def build(op, a):
    """Normal form of a term whose arguments are in normal form"""
    k = (op, a)
    r = _built.get(k)
    if r is None:
        r = _build(op, a)
        _built[k] = r
    return r


def _build(op, a):
    if op not in NOLIFT:
        gates = [x for x in _flat(a) if x.op == "mtb"]
        if gates:
            at = sorted({y for x in gates for y in x.a[0]}, key=lambda y: y.id)
            if len(at) <= MAXLIFT:
                vals = []
                for env in rows(tuple(at)):
                    vals.append(WILD if env is None else build(op, _picked(a, env)))
                return table(at, vals)
        if any(x is WILD for x in _flat(a)):
            return WILD
        if any(x.op == "undef" for x in _flat(a)):
            return mk("undef", "")
    if op == "mod" and isnum(a[1]) and a[0].op == "add" and a[1].a[0] > 0:
        # (x - 180) % 360 is (x + 180) % 360
        for c in a[0].a:
            if isnum(c) and c.a[0] % a[1].a[0] not in (0, c.a[0]):
                return build("mod", (build("add", tuple(x for x in a[0].a if x is not c) + (TT.num(c.a[0] % a[1].a[0]),)), a[1]))
    if op == "ne":
        return normal(not_(build("eq", a)))
    if op in ("lt", "le", "eq"):
        return compare(op, *a)
    if op in ("in", "notin") and a[1].op in ("tuple", "list") and not any(x.op == "star" for x in a[1].a):
        r = or_(*[compare("eq", a[0], x) for x in a[1].a])
        return normal(r if op == "in" else not_(r))
    if op == "call":
        f, args, kw = a
        if f.op == "global" and f.a[0] in ("min", "max") and len(args) == 2 and not kw:
            x, y = sorted(args, key=lambda z: z.id)
            if f.a[0] == "max":
                x, y = y, x
                return normal(mk("ite", compare("lt", y, x), x, y)) if x is not y else x
            return normal(mk("ite", compare("lt", x, y), x, y)) if x is not y else x
        if f.op == "attr" and f.a[1] == "copy" and not args and not kw and f.a[0].op == "param" and str(f.a[0].a[0]).startswith("**"):
            return build("call", (mk("global", "dict"), (f.a[0],), ()))
        if f.op == "global" and f.a[0] == "abs":
            f = mk("global", "numpy.absolute")
            a = (f, args, kw)
        if f.op == "global" and f.a[0] in ("numpy.absolute", "numpy.fabs", "numpy.cos") and len(args) == 1 and not kw and args[0].op in ("add", "mul"):
            # same value for an argument and its opposite
            a = (f, (unsigned(args[0]),), kw)
        if f.op == "global" and f.a[0] in ("bool", "numpy.bool_") and len(args) == 1 and is_bool(args[0]):
            return args[0]
    if op == "mul" and len(a) > 1 and all(is_bool(x) for x in a):
        return normal(and_(*a))
    if op == "sub" and a[1].op == "slice" and all(x is NONE for x in a[1].a):
        return a[0]
    if op == "sub" and a[0].op == "sub" and a[0].a[1].op == "slice" and a[0].a[1].a[2] is NONE and TT._scalar_idx(a[1]) and a[1].op != "const":
        lo = a[0].a[1].a[0]
        if lo is NONE or isnum(lo) and lo.a[0] >= 0:
            return build("sub", (a[0].a[0], a[1] if lo is NONE else build("add", (a[1], lo))))
    if op == "len" and a[0].op == "sub" and a[0].a[1].op == "slice" and a[0].a[1].a[2] is NONE:
        lo, hi, _ = a[0].a[1].a
        n = 0
        if lo is NONE or isnum(lo) and lo.a[0] >= 0:
            n -= 0 if lo is NONE else lo.a[0]
            if hi is NONE or isnum(hi) and hi.a[0] < 0:
                n += 0 if hi is NONE else hi.a[0]
                return build("add", (build("len", (a[0].a[0],)), TT.num(n)))
    return normal(simp(TT.rebuild(op, a)))


def unsigned(t):
    """t or its opposite, the one chosen whichever is given"""
    try:
        p = poly(t)
    except Exception:
        return t
    if not p or len(p) > 12:
        return t
    first = min(p, key=lambda m: tuple(sorted(x.id for x in m)))
    return t if p[first] > 0 else simp(mk("mul", TT.num(-1), t))


def _flat(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _flat(x)


def _picked(a, env):
    return tuple(
        (pick(x, env) if x.op == "mtb" else x) if isinstance(x, T) else _picked(x, env) if isinstance(x, tuple) else x for x in a
    )


def simp(t):
    """Constant folding of polynomials, so that one value has one term"""
    if t.op in ("add", "mul", "pow"):
        try:
            p = poly(t)
            if len(p) <= 24:
                return TT.unpoly(p)
        except Exception:
            pass
    return t


def bool_array(t):
    """An array of booleans made here"""
    while t.op == "new":
        t = t.a[1]
    if t.op != "call" or t.a[0].op != "global" or t.a[0].a[0] not in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.zeros_like", "numpy.ones_like"):
        return False
    d = dict(t.a[2]).get("dtype")
    return d is not None and (d.op == "const" and d.a[0] in ("bool", "?") or d.op == "global" and d.a[0].rpartition(".")[2] in ("bool", "bool_"))


BOOL_CALLS = tuple("numpy." + x for x in ("isnan", "isfinite", "isinf", "in1d", "isin", "logical_and", "logical_or", "logical_not", "logical_xor", "isclose"))


def boolean_sum(t):
    """(a + b) of truth values, taken as a condition"""
    return or_(*t.a) if t.op == "add" and len(t.a) > 1 and all(is_bool(x) for x in t.a) else t


def called(f):
    if f.op == "ite":
        yield from called(f.a[1])
        yield from called(f.a[2])
    else:
        yield f


def container(t):
    """A list, dictionary... built here"""
    while t.op == "new":
        t = t.a[1]
    return t.op in ("list", "dict", "set")


def truth(t):
    """A container taken as a condition"""
    return not_(TT.cmp_("eq", mk("len", t), TT.num(0))) if container(t) else t


def is_bool(t):
    if t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] in BOOL_CALLS:
        return True
    return t.op in ("lt", "le", "eq", "ne", "in", "notin", "and", "or", "not", "bdd", "bd") or t is TRUE or t is FALSE


def is_int(t):
    if t.op in ("len", "idx"):
        return True
    if t.op == "const":
        return isinstance(t.a[0], int)
    if t.op in ("add", "mul"):
        return all(is_int(x) for x in t.a)
    if t.op == "sub":
        return t.a[0].op == "attr" and t.a[0].a[1] == "shape"
    return t.op == "attr" and t.a[1] in ("size", "ndim")


def compare(op, a, b):
    """Comparison written in one way: what is positive when it holds, leading term first (numbers are ordered: no nan)"""
    if a is WILD or b is WILD:
        return WILD
    if op == "ne":
        return normal(not_(compare("eq", a, b)))
    for x in (a, b):
        if x.op == "const" and not isnum(x) or x.op in ("tuple", "list", "dict", "set", "bdd", "bd"):
            return normal(TT.cmp_(op, a, b))
    if op == "eq" and a is b and not is_int(a):
        # x == x asks for nan
        return TT.cmp_(op, a, b)
    try:
        p = poly(add_(b, a))
    except Exception:
        return normal(TT.cmp_(op, a, b))
    if len(p) > 16:
        return normal(TT.cmp_(op, a, b))
    c = p.pop((), 0)
    if not p:
        return TT.const({"lt": c > 0, "le": c >= 0, "eq": c == 0}[op])
    lead = p[min(p, key=lambda m: [x.id for x in m])]
    k = abs(lead)
    p = {m: v / k for m, v in p.items()}
    c = c / k
    neg = lead < 0
    if neg:
        p = {m: -v for m, v in p.items()}
        c = -c
    pos = TT.unpoly({m: v for m, v in p.items() if v > 0})
    oth = {m: -v for m, v in p.items() if v < 0}
    ints = all(v.denominator == 1 for v in (*p.values(), c)) and all(is_int(x) for m in p for x in m)

    def rest(c):
        q = dict(oth)
        if c:
            q[()] = -c
        return TT.unpoly(q)

    if op == "eq":
        return TT.cmp_("eq", rest(c), pos)
    # neg: pos - rest < 0 is not (pos - rest >= 0)
    if neg:
        op = "le" if op == "lt" else "lt"
    if ints and op == "le":
        op, c = "lt", c + 1
    r = mk(op, rest(c), pos)
    return not_(r) if neg else r


def add_(b, a):
    return TT.add(b, TT.neg(a))


def split(t):
    """(condition, term) for a term that is gated"""
    if isinstance(t, T) and t.op == "mtb":
        at = list(t.a[0])
        out = [
            (boolean(at, [None if env is None else w is v for env, w in zip(rows(tuple(at)), t.a[1])]), v)
            for v in dict.fromkeys(t.a[1])
            if v is not WILD
        ]
    elif isinstance(t, T) and t.op == "bd":
        out = [(normal(where(t, v, {})), v) for v in leaves(t)]
    else:
        return [(TRUE, t)]
    if any(v.op in ("mtb", "bd") for _, v in out):
        out = [(normal(and_(c, d)), w) for c, v in out for d, w in split(v)]
    return out


def where(t, v, memo):
    """Condition under which a decision diagram gives v"""
    if t is v:
        return TRUE
    if t.op != "bd":
        return FALSE
    r = memo.get(t)
    if r is None:
        a, b = where(t.a[1], v, memo), where(t.a[2], v, memo)
        r = memo[t] = a if a is b else mk("bd", t.a[0], a, b)
    return r


# ------------------------------------------------------------------ gated values

BOOL = ("and", "or", "not", "ne", "notin", "bdd")
_src = {}  # canonical condition -> one way to write it
MAXBDD, MAXMT = 8, 6


def normal(t):
    """One term by boolean function, and by gated value, of their atomic conditions"""
    if t.op == "bd" and all(x is TRUE or x is FALSE for x in leaves(t)):
        at = sorted(support(t), key=lambda x: x.id)
        if len(at) <= MAXBDD:
            return boolean(at, [None if env is None else evalb(t, env) for env in rows(tuple(at))])
        return t
    if t.op == "not" and t.a[0].op == "bdd":
        return boolean(t.a[0].a[0], [None if v is None else not v for v in t.a[0].a[1]], t)
    if t.op in ("and", "or") or t.op == "not" and t.a[0].op not in ATOMIC_NEG:
        at = sorted(atoms_of(t, {}), key=lambda x: x.id)
        if len(at) > MAXBDD:
            r = decide(t)
            if r is None:
                return t
            at = sorted(support(r), key=lambda x: x.id)
            if len(at) > MAXBDD:
                _src.setdefault(r, t)
                return r
            t = r
        return boolean(at, [None if env is None else evalb(t, env) for env in rows(tuple(at))], t)
    if t.op == "ite":
        at = {}
        spine(t, at)
        at = sorted(at, key=lambda x: x.id)
        if len(at) > MAXMT:
            r = decide(t)
            if r is not None:
                at = sorted(support(r), key=lambda x: x.id)
                if len(at) > MAXMT:
                    return r
        else:
            r = t
        if r is None:
            c = t.a[0]
            if c.op == "bdd" and not c.a[1][0]:
                n = mk("bdd", c.a[0], tuple(not v for v in c.a[1]))
                _src.setdefault(n, not_(_src[c]))
                return mk("ite", n, t.a[2], t.a[1])
            if c.op == "or":
                return mk("ite", not_(c), t.a[2], t.a[1])
            return t
        t = r
        return table(at, [WILD if env is None else leaf(t, env) for env in rows(tuple(at))], t)
    return t


WILD = mk("opaque", "impossible", 0)
_rows = {}


def rows(at):
    """Assignments of the atoms, None for the impossible ones"""
    r = _rows.get(at)
    if r is None:
        cmps = sum(x.op in ("lt", "le", "eq") for x in at)
        r = []
        for vs in itertools.product((True, False), repeat=len(at)):
            env = dict(zip(at, vs))
            r.append(env if cmps < 2 or possible(env) else None)
        _rows[at] = r
    return r


def boolean(at, vals, src=None):
    at, vals = essential(at, vals, None)
    if not at:
        return TT.const(bool(vals[0]))
    if len(at) == 1 and vals[0] is not None and vals[1] is not None:
        return at[0] if vals[0] else not_(at[0])
    r = mk("bdd", tuple(at), tuple(vals))
    if src is not None:
        _src.setdefault(r, src)
    return r


def table(at, vals, src=None):
    """Gated value: its leaves by assignment of the conditions"""
    flat = []
    for v in vals:
        if v.op == "mtb" or v.op == "bd":
            break
    else:
        flat = vals
    if not flat:
        # leaves which are gated themselves
        more = {}
        for v in vals:
            spine(v, more)
        new = [x for x in more if x not in at]
        if len(at) + len(new) <= MAXMT:
            at2 = sorted([*at, *new], key=lambda x: x.id)
            out = []
            for env in rows(tuple(at2)):
                if env is None:
                    out.append(WILD)
                    continue
                k = 0
                for x in at:
                    k = 2 * k + (0 if env[x] else 1)
                out.append(leaf(vals[k], env))
            at, vals = at2, out
    vals = [WILD if v.op == "undef" else v for v in vals]
    at, vals = essential(at, vals, WILD)
    if not at:
        return vals[0] if vals[0] is not WILD else mk("undef", "")
    real = [v for v in vals if v is not WILD]
    if any(is_bool(v) for v in real) and all(is_bool(v) or v.op in ("mu", "param", "attr", "field", "sub", "call", "mtb") for v in real):
        # a truth value
        more = dict.fromkeys(at)
        for v in set(real):
            atoms_of(v, more)
        more = sorted(more, key=lambda x: x.id)
        if len(more) <= MAXBDD:
            out = []
            for env in rows(tuple(more)):
                if env is None:
                    out.append(None)
                    continue
                k = 0
                for x in at:
                    k = 2 * k + (0 if env[x] else 1)
                out.append(None if vals[k] is WILD else evalb(vals[k], env))
            return boolean(more, out, src)
    at, vals = ties(at, vals)
    if not at:
        return vals[0]
    r = mk("mtb", tuple(at), tuple(vals))
    if src is not None:
        _src.setdefault(r, src)
    return r


ATOMIC_NEG = ("and", "or", "not", "bdd", "ite", "mtb", "bd")


# decision diagrams, for functions of many conditions: bd(condition, if true, if false), conditions by increasing id


class TooBig(Exception):
    pass


_ite = {}
MAXNODES = 4000


def decide(t, memo=None):
    """Decision diagram of a boolean or gated term (None when too big)"""
    try:
        return _decide(t, {}, [0])
    except TooBig:
        return None


def _decide(t, memo, n):
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "bd" or t is TRUE or t is FALSE:
        r = t
    elif t.op == "and":
        r = TRUE
        for x in t.a:
            r = ite_(_decide(x, memo, n), r, FALSE, n)
    elif t.op == "or":
        r = FALSE
        for x in t.a:
            r = ite_(_decide(x, memo, n), TRUE, r, n)
    elif t.op == "not":
        r = ite_(_decide(t.a[0], memo, n), FALSE, TRUE, n)
    elif t.op in ("ne", "notin"):
        r = ite_(mk("bd", not_(t), TRUE, FALSE), FALSE, TRUE, n)
    elif t.op in ("bdd", "mtb"):
        r = _table(t.a[0], t.a[1], n) if t.op == "bdd" else _table(t.a[0], [_value(v, memo, n) for v in t.a[1]], n)
    elif t.op == "ite":
        r = ite_(_decide(t.a[0], memo, n), _value(t.a[1], memo, n), _value(t.a[2], memo, n), n)
    else:
        r = mk("bd", t, TRUE, FALSE)
    memo[t.id] = r
    return r


def _value(t, memo, n):
    """A branch of a gate: another gate, or a value"""
    if t.op in ("ite", "mtb", "bd"):
        return _decide(t, memo, n)
    return t


def _table(atoms, vals, n):
    if not atoms:
        v = vals[0]
        return FALSE if v is None or v is WILD else TT.const(v) if isinstance(v, bool) else v
    h = len(vals) // 2
    return ite_(mk("bd", atoms[0], TRUE, FALSE), _table(atoms[1:], vals[:h], n), _table(atoms[1:], vals[h:], n), n)


def ite_(f, g, h, n):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if f.op != "bd":
        raise TooBig  # a value taken as a condition
    if g is TRUE and h is FALSE:
        return f
    k = (f, g, h)
    r = _ite.get(k)
    if r is not None:
        return r
    n[0] += 1
    if n[0] > MAXNODES:
        raise TooBig
    v = min((x.a[0] for x in k if x.op == "bd"), key=lambda x: x.id)

    def cof(x, hi):
        return x.a[1 if hi else 2] if x.op == "bd" and x.a[0] is v else x

    a = ite_(*(cof(x, True) for x in k), n)
    b = ite_(*(cof(x, False) for x in k), n)
    r = a if a is b else mk("bd", v, a, b)
    _ite[k] = r
    return r


def support(t):
    out, st, seen = {}, [t], set()
    while st:
        x = st.pop()
        if x.op != "bd" or x in seen:
            continue
        seen.add(x)
        out[x.a[0]] = None
        st += [x.a[1], x.a[2]]
    return list(out)


def leaves(t):
    out, st, seen = {}, [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "bd":
            st += [x.a[1], x.a[2]]
        else:
            out[x] = None
    return list(out)


def ties(at, vals):
    """Comparisons that choose between the values they compare: equal values make no difference"""
    again = False
    for i, x in enumerate(at):
        if x.op not in ("lt", "le", "eq"):
            continue
        st = 1 << (len(at) - 1 - i)
        pairs = {(vals[k], vals[k | st]) for k in range(len(vals)) if not k & st}
        pairs = {p for p in pairs if p[0] is not p[1]}
        if x.op == "eq":
            if pairs and all({u, v} == set(x.a) for u, v in pairs):
                vals = list(vals)
                for k in range(len(vals)):
                    if not k & st and vals[k] in x.a:
                        vals[k] = vals[k | st]
                again = True
            continue
        if len(pairs) != 1:
            continue
        (u, v), = pairs
        if u is WILD or v is WILD or u.op in ("const",) and not isnum(u) or v.op == "const" and not isnum(v):
            continue
        try:
            d = simp(add_(v, u))
        except Exception:
            continue
        zero = TT.num(0)
        base = next((c for c in (compare("lt", zero, d), compare("lt", d, zero)) if c.op == "lt"), None)
        if base is None or base is x or base in at:
            continue
        up = base is compare("lt", zero, d)  # the chosen condition says d > 0
        for op in ("lt", "le"):
            for a, b in ((zero, d), (d, zero)):
                c = compare(op, a, b)
                pol = c is x
                if not pol and not_(c) is not x:
                    continue
                # c (x when pol) says d > 0 when b is d
                swap = (pol == (b is d)) != up
                at = list(at)
                at[i] = base
                vals = list(vals)
                if swap:
                    for k in range(len(vals)):
                        if not k & st:
                            vals[k], vals[k | st] = vals[k | st], vals[k]
                # conditions by increasing id
                o = sorted(range(len(at)), key=lambda j: at[j].id)
                if o != list(range(len(at))):
                    n_ = len(at)
                    new = []
                    for bits in itertools.product((0, 1), repeat=n_):
                        old = [0] * n_
                        for pos, j in enumerate(o):
                            old[j] = bits[pos]
                        k = 0
                        for z in old:
                            k = 2 * k + z
                        new.append(vals[k])
                    at, vals = [at[j] for j in o], new
                return ties(at, vals)
    if again:
        at, vals = essential(at, vals, WILD)
    return at, vals


def essential(at, vals, wild):
    """Atoms the function depends on (wild: any value will do)"""
    i = 0
    at, vals = list(at), list(vals)
    while i < len(at):
        n = len(at)
        st = 1 << (n - 1 - i)
        hi = [vals[k] for k in range(len(vals)) if not k & st]
        lo = [vals[k] for k in range(len(vals)) if k & st]
        if all(x is y or x == y or x is wild or y is wild for x, y in zip(hi, lo)):
            at.pop(i)
            vals = [y if x is wild else x for x, y in zip(hi, lo)]
            i = 0
        else:
            i += 1
    return at, vals


def spine(t, at):
    while True:
        if t.op == "ite":
            atoms_of(t.a[0], at)
            spine(t.a[1], at)
            t = t.a[2]
        elif t.op == "mtb":
            for x in t.a[0]:
                at.setdefault(x)
            for v in t.a[1]:
                spine(v, at)
            return
        elif t.op == "bd":
            for x in support(t):
                at.setdefault(x)
            for v in leaves(t):
                spine(v, at)
            return
        else:
            return


def leaf(t, env):
    while True:
        if t.op == "ite":
            t = t.a[1] if evalb(t.a[0], env) else t.a[2]
        elif t.op == "mtb":
            t = pick(t, env)
        elif t.op == "bd":
            t = t.a[1] if env[t.a[0]] else t.a[2]
        else:
            return t


def pick(t, env):
    k = 0
    for x in t.a[0]:
        k = 2 * k + (0 if env[x] else 1)
    return t.a[1][k]


def atoms_of(t, out):
    """Atomic conditions a boolean / gated term depends on"""
    st = [t]
    while st:
        x = st.pop()
        if x.op in ("and", "or", "not"):
            st.extend(x.a)
        elif x.op == "ite":
            st.extend(x.a)
        elif x.op == "bdd":
            for y in x.a[0]:
                out.setdefault(y, None)
        elif x.op == "bd":
            out.setdefault(x.a[0], None)
            st.extend(x.a[1:])
        elif x.op in ("ne", "notin"):
            st.append(not_(x))
        elif x in (TRUE, FALSE):
            pass
        else:
            out.setdefault(x, None)
    return out


def conds_in(t, out, seen=None):
    """Conditions of the gates inside a value, at any depth"""
    for x in walk(t):
        if x.op == "ite":
            atoms_of(x.a[0], out)
        elif x.op == "mtb":
            for y in x.a[0]:
                out.setdefault(y, None)
        elif x.op == "bd":
            out.setdefault(x.a[0], None)
    return out


def evalb(t, env):
    """Truth of a condition under an assignment of its atoms (None when unknown)"""
    if t is TRUE or t is FALSE:
        return t is TRUE
    if t.op == "and":
        return all(evalb(x, env) for x in t.a)
    if t.op == "or":
        return any(evalb(x, env) for x in t.a)
    if t.op == "not":
        return not evalb(t.a[0], env)
    if t.op in ("ne", "notin"):
        return not evalb(not_(t), env)
    if t.op == "ite":
        return evalb(t.a[1], env) if evalb(t.a[0], env) else evalb(t.a[2], env)
    if t.op == "bdd":
        return pick(t, env)
    if t.op == "bd":
        return evalb(t.a[1] if env[t.a[0]] else t.a[2], env)
    return env[t]


def restrict(t, env, memo):
    """Value of t under an assignment of conditions"""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(restrict(x, env, memo) for x in t)
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "ite":
        try:
            r = restrict(t.a[1] if evalb(t.a[0], env) else t.a[2], env, memo)
        except KeyError:
            r = None
    elif t.op == "mtb":
        try:
            r = restrict(pick(t, env), env, memo)
        except KeyError:
            r = None
    elif t.op == "bd" and t.a[0] in env:
        r = restrict(t.a[1] if env[t.a[0]] else t.a[2], env, memo)
    if r is None:
        if t in env:
            r = TT.const(env[t])
        elif t.op in BOOL:
            try:
                r = TT.const(evalb(t, env))
            except KeyError:
                pass
    if r is None and t.op == "bdd":
        r = cofactor(t, env, memo)
    if r is None:
        if not any(True for _ in subterms(t)):
            r = t
        else:
            r = build(t.op, tuple(restrict(x, env, memo) for x in t.a))
    memo[t.id] = r
    return r


def cofactor(t, env, memo):
    """Boolean function some atoms of which are known"""
    subs = [TT.const(env[x]) if x in env else restrict(x, env, memo) for x in t.a[0]]
    at = {}
    for x in subs:
        atoms_of(x, at)
    at = sorted(at, key=lambda x: x.id)
    if len(at) > MAXBDD:
        return None
    know = {x: v for x, v in env.items() if x.op in ("lt", "le", "eq")}
    out = []
    for e in rows(tuple(at)):
        if e is None or know and not possible({**know, **e}):
            out.append(None)
            continue
        k = 0
        for x in subs:
            k = 2 * k + (0 if evalb(x, e) else 1)
        out.append(t.a[1][k])
    return boolean(at, out)


def possible(env):
    """No two comparisons of the assignment contradict each other"""
    rel = {}
    num = {}
    eqc = {}
    for t, v in env.items():
        if t.op in ("lt", "le", "eq"):
            a, b = t.a
            if isnum(a) or isnum(b):
                x, c, sw = (b, a.a[0], True) if isnum(a) else (a, b.a[0], False)
                num.setdefault(x, []).append((t.op, c, sw, v))
            else:
                k, sw = ((a, b), False) if a.id < b.id else ((b, a), True)
                rel.setdefault(k, []).append((t.op, sw, v))
            if t.op == "eq" and v:
                for x, y in ((a, b), (b, a)):
                    if x.op == "const":
                        if y in eqc and eqc[y] is not x:
                            return False
                        eqc[y] = x
    for k, cs in rel.items():
        if len(cs) > 1 and not any(
            all({"lt": q == "<", "le": q in "<=", "eq": q == "="}[op] == v for op, sw, v in cs for q in [{"<": ">", ">": "<"}.get(s, s) if sw else s])
            for s in "<=>"
        ):
            return False
    for x, cs in num.items():
        if len(cs) > 1:
            pts = sorted({c for _, c, _, _ in cs})
            pts = [pts[0] - 1] + [y for u, w in zip(pts, pts[1:] + [pts[-1] + 2]) for y in (u, (u + w) / 2)]
            if not any(all({"lt": c < p if sw else p < c, "le": c <= p if sw else p <= c, "eq": p == c}[op] == v for op, c, sw, v in cs) for p in pts):
                return False
    return True


def assignments(atoms):
    atoms = list(atoms)
    for vs in itertools.product((True, False), repeat=len(atoms)):
        env = dict(zip(atoms, vs))
        if possible(env):
            yield env


def gated(seq, env):
    """What a sequence of (condition, value) leaves under an assignment"""
    r = None
    for c, v, *_ in seq:
        if evalb(c, env):
            r = v
    return r


def initial(t):
    """Values a fresh object is filled with"""
    v = ()
    if t.op == "call" and t.a[0].op == "global":
        n = t.a[0].a[0]
        if n in ("numpy.zeros", "numpy.zeros_like"):
            v = (TT.num(0), FALSE)
        elif n in ("numpy.ones", "numpy.ones_like"):
            v = (TT.num(1), TRUE)
    return {x.id: x for x in v}


def equal_under(x, y, env):
    """x and y are equal when the comparisons of the assignment say so"""
    st = {}
    for t, v in env.items():
        if t.op in ("lt", "le", "eq"):
            k = tuple(sorted(t.a, key=lambda z: z.id))
            st.setdefault(k, {})[t.op] = v
    m = {}
    for (a, b), d in st.items():
        if d.get("eq") or d.get("lt") is False and d.get("le"):
            m[b] = a
    if not m:
        return False
    return TT.subst(x, m) is TT.subst(y, m)


def parts(c):
    return set(c.a) if c.op == "and" else {c}


def without(c, common):
    return and_(*[x for x in c.a if x not in common]) if c.op == "and" else TRUE if c in common else c


def same_gated(A, B, place=None):
    """Two sequences of (condition, value) leave the same value in every case"""
    if A and B:
        common = set.intersection(*[parts(x[0]) for x in (*A, *B)])
        if common - {TRUE}:
            r = _same_gated(*([(normal(without(x[0], common)), *x[1:]) for x in S] for S in (A, B)), place)
            if r[0]:
                return r
    return _same_gated(A, B, place)


def _same_gated(A, B, place=None):
    here = ()
    if place is not None and place[0] == "store_attr":
        here = (TT.attr(place[2], place[3]),)
    elif place is not None and place[0] == "store_sub" and isinstance(place[3], T):
        here = (TT.sub(place[2], place[3]),)
        if place[2].op == "new":
            here += tuple(initial(place[2].a[1]).values())
    at = {}
    for c, v, *_ in A + B:
        atoms_of(c, at)
        conds_in(v, at)
    if len(at) <= 6:
        for _, v, *_ in A + B:
            if v.op in BOOL:
                atoms_of(v, at)
    if len(at) > MAXATOMS:
        try:
            a, b = chain(A), chain(B)
            if a is b:
                return True, None
        except TooBig:
            pass
        if len(A) != len(B):
            return False, None
        out, seen = [], set()
        for a, b in zip(A, B):
            diff(a[0], b[0], out, seen)
            diff(a[1], b[1], out, seen)
        return not out, None
    for env in assignments(at):
        a, b = gated(A, env), gated(B, env)
        if a is b:
            continue
        if a is None or b is None:
            # what was there already
            if here:
                x = restrict(a or b, env, {})
                if any(x is h or equal_under(x, h, env) for h in here):
                    continue
            return False, env
        m1 = {}
        x, y = restrict(a, env, m1), restrict(b, env, m1)
        if x is not y and not samev(x, y) and not equal_under(x, y, env) and not congruent(x, y, env):
            return False, env
    return True, None


def all_true(t):
    """An array of true values (neutral in a condition)"""
    while t.op == "new":
        t = t.a[1]
    return t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] in ("numpy.ones", "numpy.ones_like") and bool_array(t)


def gate(t):
    return t.op in ("mtb", "bd", "ite")


def congruent(x, y, env, depth=0):
    """Equal when their conditions are compared as truth values, case by case"""
    if x is y:
        return True
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(congruent(a, b, env, depth) for a, b in zip(x, y))
    if not isinstance(x, T) or not isinstance(y, T):
        return x == y
    if depth > 12:
        return False
    b = [is_bool(t) or t.op in BOOL for t in (x, y)]
    g = [gate(t) for t in (x, y)]
    if all(b) or any(g) or any(b) and all(k or all_true(t) for t, k in zip((x, y), b)):
        at = {}
        for t, isb, isg in zip((x, y), b, g):
            (atoms_of(t, at) if isb else spine(t, at) if isg else None)
        at = [t for t in at if t not in env and not (all(b) or any(b)) or t not in env and not all_true(t)]
        if len(at) > 8:
            return False
        fixed = {t: True for z in (x, y) for t in (atoms_of(z, {}) if not gate(z) else ()) if all_true(t)}
        know = {t: v for t, v in env.items() if t.op in ("lt", "le", "eq")}
        for vs in itertools.product((True, False), repeat=len(at)):
            e = dict(zip(at, vs))
            if not possible({**know, **e}):
                continue
            e = {**env, **fixed, **e}
            try:
                if any(g):
                    u, v = (leaf(t, e) if k else t for t, k in zip((x, y), g))
                    if not congruent(u, v, e, depth + 1):
                        return False
                elif evalb(x, e) != evalb(y, e):
                    return False
            except KeyError:
                return False
        return True
    if x.op != y.op or len(x.a) != len(y.a) or x.op in ("const", "global", "param", "idx", "mu", "add", "mul", "pow"):
        return samev(x, y)
    return all(congruent(a, b, env, depth + 1) for a, b in zip(x.a, y.a))


def chain(seq):
    """What a sequence of (condition, value) leaves, as a decision diagram"""
    r, memo, n = NOTHING, {}, [0]
    for c, v, *_ in seq:
        r = ite_(_decide(c, memo, n), _value(v, memo, n), r, n)
    return r


NOTHING = mk("opaque", "nothing", 0)
MANY = mk("opaque", "many", 0)


def samev(x, y):
    if x is y:
        return True
    if x.op in ("add", "mul", "pow") or y.op in ("add", "mul", "pow"):
        try:
            return poly(x) == poly(y)
        except Exception:
            return False
    return False


# ------------------------------------------------------------------ difference


def diff(a, b, out, seen):
    """Smallest differing pairs of sub-terms"""
    if a is b or (a, b) in seen:
        return
    seen.add((a, b))
    if not isinstance(a, T) or not isinstance(b, T):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for x, y in zip(a, b):
                diff(x, y, out, seen)
        elif a != b:
            if isinstance(a, str) and isinstance(b, str) and a in _sig and b in _sig:
                diff(_sig[a], _sig[b], out, seen)
            else:
                out.append((a, b))
        return
    if samev(a, b):
        return
    at = {}
    for x in (a, b):
        conds_in(x, at)
        if x.op in BOOL:
            atoms_of(x, at)
    if at and len(at) <= MAXATOMS and a.op not in ("idx", "mu", "new"):
        if same_gated([(TRUE, a)], [(TRUE, b)])[0]:
            return
    if a.op == b.op == "bdd" or a.op == b.op == "mtb" or a.op == b.op == "bd":
        A0, B0 = (support(a), support(b)) if a.op == "bd" else (a.a[0], b.a[0])
        xs = [x for x in A0 if x not in B0]
        ys = [y for y in B0 if y not in A0]
        if len(xs) == len(ys) and 0 < len(xs) < 4:
            n0 = len(out)
            best = min(itertools.permutations(ys), key=lambda p: sum(not (x.op == y.op) for x, y in zip(xs, p)))
            for x, y in zip(xs, best):
                diff(x, y, out, seen)
            if len(out) > n0:
                return
        if a.op == "mtb" and a.a[0] == b.a[0]:
            for x, y in zip(a.a[1], b.a[1]):
                diff(x, y, out, seen)
            return
        out.append((a, b))
        return
    if a.op == b.op:
        if a.op in ("idx", "mu"):
            n0 = len(out)
            sa, sb = _sig.get(a.a[-1]), _sig.get(b.a[-1])
            if sa is not None and sb is not None:
                diff(sa, sb, out, seen)
            return
        if a.op == "new":
            diff(a.a[1], b.a[1], out, seen)
            return
        if a.op in ("add", "mul", "and", "or", "eq", "ne", "set"):
            xs = [x for x in a.a if x not in b.a]
            ys = [y for y in b.a if y not in a.a]
            if len(xs) == len(ys) and len(xs) < 4:
                best = min(itertools.permutations(ys), key=lambda p: sum(not (x.op == y.op) for x, y in zip(xs, p)))
                n0 = len(out)
                for x, y in zip(xs, best):
                    diff(x, y, out, seen)
                if any((y, x) in out[n0:] for x, y in out[n0:]):
                    # operands exchanged
                    out[n0:] = [(a, b)]
                return
            out.append((a, b))
            return
        if a.op == "call":
            if a.a[0] is not b.a[0] and not (a.a[0].op == b.a[0].op == "attr" and a.a[0].a[1] == b.a[0].a[1]):
                out.append((a.a[0], b.a[0]))
            elif len(a.a[1]) != len(b.a[1]) or [k for k, _ in a.a[2]] != [k for k, _ in b.a[2]]:
                out.append((a, b))
                return
            else:
                diff(a.a[0], b.a[0], out, seen)
            diff(a.a[1], b.a[1], out, seen)
            da, db = dict(a.a[2]), dict(b.a[2])
            for k in da:
                if k in db:
                    diff(da[k], db[k], out, seen)
            return
        if len(a.a) == len(b.a) and a.op not in ("const", "global", "param"):
            diff(a.a, b.a, out, seen)
            return
    out.append((a, b))


LEAF = ("const", "param", "global", "attr", "field", "undef")


def simple(t):
    while t.op in ("attr", "field"):
        t = t.a[0]
    return t.op in ("const", "param", "global")


def base_atoms(t):
    out = set()
    for m in poly(t):
        out.update(m)
    return out


def tweak(a, b):
    """The second term is the first one with a small change (other value, operator, operand, name, missing part...),
    not the same thing computed in another way"""
    if not isinstance(a, T) or not isinstance(b, T):
        return True
    if a is MANY or b is MANY:
        return False
    if simple(a) and simple(b):
        return True
    if a.op == b.op == "attr":
        return a.a[0] is b.a[0]
    if a.op == "field" and counted(b) or b.op == "field" and counted(a):
        return True
    if a.op == b.op == "slice":
        return sum(x is not y for x, y in zip(a.a, b.a)) == 1
    if is_bool(a) and is_bool(b):
        x, y = set(atoms_of(a, {})), set(atoms_of(b, {}))
        if x <= y or y <= x:
            return True
        x, y = x - y, y - x
        return len(x) == len(y) == 1 and near(*x, *y)
    if a.op in ("mtb", "bd") or b.op in ("mtb", "bd"):
        x, y = {}, {}
        spine(a, x), spine(b, y)
        return set(x) <= set(y) or set(y) <= set(x)
    if a.op in ("add", "mul", "pow", "sqrt") or b.op in ("add", "mul", "pow", "sqrt"):
        x, y = base_atoms(a), base_atoms(b)
        if x and y and (x <= y or y <= x):
            return True
    if a.op == b.op == "call" and (a.a[0] is b.a[0] or same_callee(a, b)):
        return True
    return near(a, b) or other_wrap(a, b)


def counted(t):
    """Values made from sizes and constants only, whatever the data are"""
    if not isinstance(t, T):
        return not isinstance(t, tuple) or all(counted(x) for x in t)
    if t.op == "len" or t.op == "const" or isnum(t):
        return True
    if t.op == "call":
        return t.a[0].op == "global" and t.a[0].a[0] in ("numpy.arange", "numpy.zeros", "numpy.ones", "numpy.linspace") and all(counted(x) for x in t.a[1])
    return t.op in ("add", "mul", "neg", "pow") and all(counted(x) for x in t.a)


def wraps(t, atoms, moduli, inside=False):
    """Sums and products of atoms and of remainders by a constant, a remainder being no part of another one"""
    if t.op in ("add", "mul"):
        return all(wraps(x, atoms, moduli, inside) for x in t.a)
    if t.op == "mod" and isnum(t.a[1]):
        moduli.add(t.a[1])
        return not inside and wraps(t.a[0], atoms, moduli, True)
    if not isnum(t):
        atoms.add(t)
    return True


def other_wrap(a, b):
    """Both are values brought in a range of the same width: their normal forms differ, so do the ranges"""
    x, y = (set(), set()), (set(), set())
    return wraps(a, *x) and wraps(b, *y) and len(x[1]) == 1 and x[1] == y[1] and bool(x[0]) and (x[0] <= y[0] or y[0] <= x[0])


def near(a, b):
    """One is a part of the other, at most two levels down, or they have the same operands"""
    for x, y in ((a, b), (b, a)):
        for z in subterms(x):
            if z is y or any(w is y for w in subterms(z)):
                return True
    if a.op in ("lt", "le", "eq") and b.op in ("lt", "le", "eq"):
        return set(a.a) == set(b.a) or bool(set(a.a) & set(b.a))
    x, y = set(subterms(a)), set(subterms(b))
    return bool(x) and x == y


class Result:
    def __init__(self, status, what=(), line=None):
        self.status, self.what, self.line = status, list(what), line


def literal(prog, m, n, depth=0):
    """Value of a constant expression; source text where it is not one"""
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, (ast.List, ast.Tuple)):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = literal(prog, m, x.value, depth)
                out.extend(v if isinstance(v, (list, tuple)) else [v])
            else:
                out.append(literal(prog, m, x, depth))
        return out
    if isinstance(n, ast.Set):
        return sorted((literal(prog, m, x, depth) for x in n.elts), key=str)
    if isinstance(n, ast.Dict):
        return {literal(prog, m, k, depth): literal(prog, m, v, depth) for k, v in zip(n.keys, n.values) if k is not None}
    if isinstance(n, ast.Call):
        f = prog.resolve_expr(m, n.func) or ast.unparse(n.func)
        if f == "dict":
            d = {}
            for x in n.args:
                v = literal(prog, m, x, depth)
                d.update(v if isinstance(v, dict) else dict(v) if isinstance(v, list) else {"?": v})
            d.update({k.arg: literal(prog, m, k.value, depth) for k in n.keywords})
            return d
        if f in ("list", "tuple", "set") and not n.keywords:
            v = literal(prog, m, n.args[0], depth) if n.args else []
            return sorted(v, key=str) if f == "set" and isinstance(v, list) else v
        return ("call", f, [literal(prog, m, x, depth) for x in n.args], {k.arg: literal(prog, m, k.value, depth) for k in n.keywords})
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = literal(prog, m, n.operand, depth)
        return -v if isinstance(v, (int, float)) else ("neg", v)
    if isinstance(n, ast.BinOp):
        a, b = literal(prog, m, n.left, depth), literal(prog, m, n.right, depth)
        try:
            f = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.Pow: lambda: a**b, ast.FloorDiv: lambda: a // b}[type(n.op)]
            if isinstance(a, tuple) or isinstance(b, tuple):
                raise TypeError
            return f()
        except (KeyError, TypeError, ZeroDivisionError):
            return (type(n.op).__name__, a, b)
    if isinstance(n, (ast.Name, ast.Attribute)) and depth < 5:
        q = prog.resolve_expr(m, n)
        if q is not None:
            x = Validator.find_const(prog, q)
            if x is not None:
                return literal(prog, x[0], x[1], depth + 1)
            return ("name", q)
        if isinstance(n, ast.Name):
            for c in prog.classes.values():
                if c.module is m and n.id in c.attrs and c.node.lineno <= n.lineno <= c.node.end_lineno:
                    return literal(prog, m, c.attrs[n.id], depth + 1)
    return ("source", ast.unparse(n))


def essence(x):
    """Without texts for the reader"""
    if isinstance(x, dict):
        return {k: essence(v) for k, v in x.items() if k not in ("long_name", "longname", "comment", "comments", "description")}
    return x


def delta(x, y, at=""):
    if isinstance(x, dict) and isinstance(y, dict):
        out = []
        for k in [*x, *(k for k in y if k not in x)]:
            if k not in y:
                out.append(f"{at}{k}: removed")
            elif k not in x:
                out.append(f"{at}{k}: added")
            elif x[k] != y[k]:
                out += delta(x[k], y[k], f"{at}{k}.")
        return out or [f"{at} order"]
    return [f"{at} {str(x)[:150]} -> {str(y)[:150]}"]


def unbound(g):
    """Names that may be read before they are given a value: {name: line}"""
    G, out, left = None, {}, [4000]
    bad = {}

    def has(t):
        r = bad.get(t.id)
        if r is None:
            r = bad[t.id] = t.op == "undef" or any(has(x) for x in subterms(t))
        return r

    def visit(t, conds, e):
        nonlocal G
        if left[0] <= 0 or not has(t):
            return
        left[0] -= 1
        if t.op == "undef":
            if t.a[0] in out:
                return
            if G is None:
                G = Graph(g)
            if G.canon(truth(and_(e.cond, *conds))) is not FALSE and normal(G.canon(truth(and_(e.cond, *conds)))) is not FALSE:
                out[t.a[0]] = e.line
        elif t.op == "ite":
            visit(t.a[0], conds, e)
            visit(t.a[1], [*conds, t.a[0]], e)
            visit(t.a[2], [*conds, not_(t.a[0])], e)
        elif t.op in ("and", "or"):
            for x in t.a:
                if has(x):
                    visit(x, conds + [y if t.op == "and" else not_(y) for y in t.a if y is not x and not has(y)], e)
        else:
            for x in subterms(t):
                visit(x, conds, e)

    for e in g.events:
        if e.kind in ("assert", "with", "raise", "return", "yield", "call", "store_sub", "store_attr"):
            for t in e.terms():
                visit(t, [], e)
    return out


class Validator:
    def __init__(self, ref, cur):
        self.ref, self.cur = ref, cur
        self.cache = {}
        self.known = None

    def compare(self, qual, cls=None):
        if (qual, cls) in self.cache:
            return self.cache[qual, cls]
        r = self._compare(qual)
        if r.status == "same":
            fr, fc = self.ref.functions.get(qual), self.cur.functions.get(qual)
            a, b = augmented(self.ref, fr), augmented(self.cur, fc)
            for k in [*(k for k in b if k not in a), *(k for k in a if k not in b)]:
                n, e = b.get(k) or a[k]
                # a field is written back after the operation: the same store follows
                if k[1]:
                    continue
                r = Result("differs", [f"{n} {'is' if k in b else 'is no longer'} changed in place: the array of the caller"], e.line if k in b else fc.node.lineno)
        if r.status in ("same", "open"):
            fr, fc = self.ref.functions.get(qual), self.cur.functions.get(qual)
            if fr is not None and fc is not None and ast.dump(fr.node) != ast.dump(fc.node):
                try:
                    new = unbound(self.cur.vfg(fc))
                    old = unbound(self.ref.vfg(fr)) if new else {}
                except RecursionError:
                    new = {}
                names = {x.id for x in ast.walk(fr.node) if isinstance(x, ast.Name)}
                for n, line in new.items():
                    if n not in old and n in names and len(new) > len(old):
                        r = Result("differs", [f"{n} may be read before it is given a value"], line)
        if r.status == "open":
            fr, fc = self.ref.functions.get(qual), self.cur.functions.get(qual)
            e = small_edit(fr.node, fc.node) if fr is not None and fc is not None else None
            if e is None and fr is not None and fc is not None:
                e = vocab.decide(self.ref, self.cur, fr, fc)
            if e is None and fr is not None and fc is not None:
                if self.known is None:
                    self.known = Known(self.ref)
                e = self.known.again(qual, self.cur)
            if e is not None:
                r = Result("differs", e[1], e[0])
        self.cache[qual, cls] = r
        return r

    # constants of modules and classes

    @staticmethod
    def find_const(prog, q):
        head, _, n = q.rpartition(".")
        c = prog.classes.get(head)
        if c is not None and n in c.attrs:
            return c.module, c.attrs[n]
        m = prog.modules.get(head)
        if m is not None and n in m.consts:
            return m, m.consts[n]
        return None

    def is_const(self, q):
        return self.find_const(self.ref, q) is not None

    def owner(self, q):
        x = self.find_const(self.cur, q)
        return (x[0], x[0].path) if x else (None, None)

    def constant(self, q):
        a, b = self.find_const(self.ref, q), self.find_const(self.cur, q)
        if b is None:
            return Result("gone", ["the constant no longer exists"])
        x, y = (essence(literal(p, m, n)) for p, (m, n) in ((self.ref, a), (self.cur, b)))
        if q.endswith("ELEMENTS"):
            x, y = (sorted(z, key=str) if isinstance(z, list) else z for z in (x, y))
        if x == y:
            return Result("same")
        d = delta(x, y)
        return Result("differs", d[:4], b[1].lineno)

    def _compare(self, qual):
        fr = self.ref.functions.get(qual)
        fc = self.cur.functions.get(qual)
        if fr is None:
            return Result("open", ["no reference"])
        if fc is None:
            return Result("gone", ["the function no longer exists"])
        gone = [q for q in self.ref.functions if q not in self.cur.functions]
        try:
            gr = self.ref.vfg(fr, tuple(sorted(gone)))
            gc = self.cur.vfg(fc)
            R, C = Graph(gr), Graph(gc)
        except RecursionError:
            return Result("open", ["too deep"])
        o = self.signature(fr, fc) or parallel(fr, fc, gc)
        if o:
            return Result("differs", [o], fc.node.lineno)
        A, B = R.groups(), C.groups()
        if not A and not B:
            return Result("same")
        bad_r, bad_c = [], []
        pairs = []
        for k in A:
            if k in B:
                ok, env = same_gated(A[k], B[k], k)
                if not ok:
                    pairs.append((k, k))
            else:
                bad_r.append(k)
        bad_c = [k for k in B if k not in A]
        self.regroup(A, B, bad_r, bad_c)
        if not pairs and not bad_r and not bad_c:
            o = self.order(A, B)
            if o:
                return Result("differs", o[0], o[1])
            o = self.reads(R, C)
            if o:
                return Result("differs", o)
            a, b = R.copies(), C.copies()
            for k in sorted(set(a) | set(b), key=str):
                if k in b and (k not in a or len(b[k][0]) > len(a[k][0])):
                    return Result("differs", [f"an element read from {show(k[1], 3)} is used after it is overwritten"], b[k][1])
                if k in a and (k not in b or len(a[k][0]) > len(b[k][0])):
                    return Result("open", [f"an element of {show(k[1], 3)} is no longer read before it is overwritten"])
            return Result("same")
        if self.matched(R, C):
            return Result("same")
        # align what is on one side only
        left = list(bad_c)
        missing = []
        for k in bad_r:
            cand = [q for q in left if q[0] == k[0] and len(q[1]) == len(k[1])]
            if k[0] == "call" or k[0] == "raise":
                cand = [q for q in cand if q[2].op == k[2].op and (q[2].op != "call" or same_callee(q[2], k[2]))]
            elif k[0] in ("store_sub", "store_attr"):
                cand.sort(key=lambda q: (q[2] is not k[2], q[3] is not k[3], core(q[2]) is not core(k[2]), q[1] != k[1]))
                cand = [q for q in cand if q[2] is k[2] or q[3] is k[3] or base_kind(q[2]) == base_kind(k[2])]
            if cand:
                cand.sort(key=lambda q: (q[1] != k[1],)) if k[0] not in ("store_sub", "store_attr") else None
                left.remove(cand[0])
                pairs.append((k, cand[0]))
            else:
                missing.append(k)
        out, seen = [], set()
        line = None
        for k, q in pairs:
            n0 = len(out)
            a, b = A[k], B[q]
            diff(k[1], q[1], out, seen)
            for i in (2, 3):
                diff(k[i], q[i], out, seen)
            if len(a) == len(b):
                for x, y in zip(a, b):
                    diff(x[0], y[0], out, seen)
                    diff(x[1], y[1], out, seen)
            else:
                x, y = or_(*[x[0] for x in a]), or_(*[y[0] for y in b])
                # too many conditions to compare case by case
                out.append((x, y) if len({*atoms_of(x, {}), *atoms_of(y, {})}) <= MAXATOMS else (x, MANY))
            if len(out) > n0 and line is None:
                line = b[-1][2].line
        news_only = lambda k: k[0] in ("store_sub", "store_attr") and root_of(k[2]) is not None and root_of(k[2]).op in ("new", "call")
        total = len(out) + len(missing) + len(left)
        what = [f"{show(b, 4) if b is not None else 'nothing'} instead of {show(a, 4) if a is not None else 'nothing'}" for a, b in out[:3]]
        what += [f"no longer done: {label(k, A[k])}" for k in missing[:2]]
        what += [f"now done: {label(k, B[k])}" for k in left[:2]]
        if line is None and left:
            line = B[left[0]][0][2].line
        if total == 0:
            return Result("open", ["differences cancel"])
        if total > LOCAL or missing and left or not all(tweak(a, b) for a, b in out):
            return Result("open", what)
        return Result("differs", what, line)

    def matched(self, R, C):
        """Same effects once objects and loop-carried values of one side are matched with those of the other
        (each pair is then checked: same start, same value after one more turn)"""
        given = {}
        saved = [(G.lname, G.mname, G.nname, G.memo) for G in (R, C)]
        try:
            for turn in range(6):
                new = self.match(R, C)
                if not new:
                    break
                for i, (a, b) in enumerate(new):
                    n = f"={len(given)}"
                    given[n] = (a, b)
                    R.force[a], C.force[b] = n, n
                R.refine()
                C.refine()
            if not given:
                return False
            # the pairs
            bad = False
            for a, b in given.values():
                if not self.pair(R, C, a, b):
                    return False
            A, B = R.groups(), C.groups()
            br, bc = [k for k in A if k not in B], [k for k in B if k not in A]
            if any(not same_gated(A[k], B[k], k)[0] for k in A if k in B):
                return False
            self.regroup(A, B, br, bc)
            if br or bc or self.order(A, B) or self.reads(R, C):
                return False
            x, y = R.copies(), C.copies()
            return all(k in x and len(y[k][0]) <= len(x[k][0]) for k in y)
        finally:
            for G, z in zip((R, C), saved):
                G.force = {}
                G.lname, G.mname, G.nname, G.memo = z

    @staticmethod
    def match(R, C):
        out = []
        # loops of the same kind, in order, when as many are left on each side
        xs, ys = ({n for n in G.lname.values()} for G in (R, C))
        left = {}
        for G, other, w in ((R, ys, 0), (C, xs, 1)):
            for u, n in G.lname.items():
                if n not in other and ("L", u) not in G.force:
                    s = G.lsig[u]
                    left.setdefault((s[0], s[1]), ([], []))[w].append(("L", u))
        for a, b in left.values():
            if len(a) == len(b):
                out += list(zip(a, b))
        if out:
            return out
        # loop-carried values of the same loops
        x, y = ({k: n for k, n in G.mname.items() if k not in G.force and isinstance(k[1], str)} for G in (R, C))
        xs, ys = set(x.values()), set(y.values())
        left = {}
        for G, d, other, w in ((R, x, ys, 0), (C, y, xs, 1)):
            for k, n in d.items():
                L = G.g.loops.get(k[0])
                if n in other or L is None or k[1] not in L.back:
                    continue
                i = L.back[k[1]][0]
                left.setdefault((G.lname[k[0]], G.canon(i) if isinstance(i, T) else i), ([], []))[w].append(k)
        for a, b in left.values():
            if len(a) == len(b) == 1:
                out.append((a[0], b[0]))
            else:
                for k in a:
                    q = [z for z in b if z[1] == k[1]]
                    if len(q) == 1:
                        out.append((k, q[0]))
        x, y = ({k: n for k, n in G.nname.items() if k not in G.force} for G in (R, C))
        xs, ys = set(x.values()), set(y.values())
        left = {}
        for G, d, other, w in ((R, x, ys, 0), (C, y, xs, 1)):
            for k, n in d.items():
                if n not in other:
                    left.setdefault(G.canon(G.news[k].a[1]), ([], []))[w].append(k)
        for a, b in left.values():
            if len(a) == len(b):
                out += list(zip(sorted(a), sorted(b)))
        return out

    @staticmethod
    def pair(R, C, a, b):
        if isinstance(a, tuple) and a[0] == "L":
            x, y = R.lsig[a[1]], C.lsig[b[1]]
            return len(x) == len(y) and all(
                u is v or u == v or isinstance(u, T) and isinstance(v, T) and same_gated([(TRUE, u)], [(TRUE, v)])[0] for u, v in zip(x, y)
            )
        if isinstance(a, tuple):
            if R.lname[a[0]] != C.lname[b[0]]:
                return False
            p, q = R.g.loops[a[0]].back[a[1]], C.g.loops[b[0]].back[b[1]]
            return all(
                isinstance(x, T) and isinstance(y, T) and same_gated([(TRUE, R.canon(x))], [(TRUE, C.canon(y))])[0]
                for x, y in zip(p, q)
            )
        x, y = R.canon(R.news[a].a[1]), C.canon(C.news[b].a[1])
        return x is y or same_gated([(TRUE, x)], [(TRUE, y)])[0]

    def signature(self, fr, fc):
        """Parameters of the reference which are in another order, or have another default"""
        pr, pc = fr.params(), fc.params()
        if fr.prop != fc.prop:
            return "a property" if fc.prop else "no longer a property"
        dr, dc = defaults(self.ref, fr), defaults(self.cur, fc)
        for p in pr:
            if p in pc and dr.get(p, ("none",)) != dc.get(p, ("none",)):
                x, y = (d.get(p) for d in (dr, dc))
                if x is None and y is not None:
                    continue  # now optional
                return f"default of {p}: {y[1] if y else 'none'} instead of {x[1]}"
        kr, kc = ([a.arg for a in (*f.node.args.posonlyargs, *f.node.args.args)] for f in (fr, fc))
        if [p for p in kr if p in kc] != [p for p in kc if p in kr]:
            return "parameters in another order"
        return None

    def regroup(self, A, B, left, right):
        """Calls of one method under different conditions: what is called, in order, in every case"""
        fr = {}
        for G, ks, w in ((A, left, 0), (B, right, 1)):
            for k in ks:
                if k[0] == "call" and k[2].op == "call":
                    fr.setdefault((k[1], k[2].a[0]), ([], []))[w].extend((c, k, e) for c, v, e in G[k])
        for (lp, f), (x, y) in fr.items():
            if not x or not y:
                continue
            at = {}
            for c, k, e in x + y:
                atoms_of(c, at)
                conds_in(k[2], at)
            if len(at) > MAXATOMS:
                continue
            x.sort(key=lambda z: z[2].seq)
            y.sort(key=lambda z: z[2].seq)
            for env in assignments(at):
                a = [restrict(k[2], env, {}) for c, k, e in x if evalb(c, env)]
                b = [restrict(k[2], env, {}) for c, k, e in y if evalb(c, env)]
                if a != b:
                    break
            else:
                for c, k, e in x:
                    if k in left:
                        left.remove(k)
                for c, k, e in y:
                    if k in right:
                        right.remove(k)

    @staticmethod
    def reads(R, C):
        """A value read before a change of what it is made of, and now after it (or the reverse)"""
        a, b = R.relations(), C.relations()
        for k, x in a.items():
            y = b.get(k)
            if y is None or R.signs(*x) == C.signs(*y) and (k[0].op != "sub" or k[1][0] != "store_sub" or k[0].a[0] is not k[1][1] or k[0].a[1] is not k[1][2]):
                continue
            x, y = R.signs(*x, True), C.signs(*y, True)
            if k[0].op == "sub" and k[1][0] == "store_sub" and k[0].a[1] is k[1][2]:
                # one element: whatever the loops
                x, y = {(s, 0) for s, _ in x}, {(s, 0) for s, _ in y}
            if x != y:
                return [f"{show(k[0], 3)} is now evaluated {'before' if (True in {s for s, _ in y - x}) else 'after'} {k[1][0]} {show(k[1][1], 3)}"]
        return None

    def order(self, A, B):
        """Two effects on one object, or reads of a copy, in another order"""
        ks = [k for k in A if k[0] in ("store_sub", "store_attr", "call", "yield")]
        wr = {k: rw(k, A[k]) for k in ks}

        ks = [k for k in ks if k in B]

        def signs(G, k, q):
            return {x[2].seq < y[2].seq for x in G[k] for y in G[q] if not exclusive(x[0], y[0])}

        for i, k in enumerate(ks):
            for q in ks[i + 1:]:
                if not conflict(k, A[k], q, A[q], wr):
                    continue
                if signs(A, k, q) != signs(B, k, q):
                    return [f"order of {label(k, A[k])} and {label(q, A[q])} is exchanged"], B[k][0][2].line
        return None


def defaults(prog, f):
    a = f.node.args
    out = {}
    ps = [*a.posonlyargs, *a.args]
    for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
        out[p.arg] = ("value", essence(literal(prog, f.module, d)))
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out[p.arg] = ("value", essence(literal(prog, f.module, d)))
    return out


def is_parallel(f):
    return any(
        isinstance(d, ast.Call) and any(k.arg == "parallel" and not (isinstance(k.value, ast.Constant) and not k.value.value) for k in d.keywords)
        for d in f.node.decorator_list
    )


def parallel(fr, fc, g):
    """A loop run in parallel whose iterations are not independent"""
    if not is_parallel(fc):
        return None
    for u, L in g.loops.items():
        it = getattr(L.node, "iter", None)
        if not (isinstance(it, ast.Call) and ast.unparse(it.func).rpartition(".")[2] == "prange"):
            continue
        if L.breaks or any(isinstance(n, str) for n in L.back):
            return f"the iterations of a parallel loop (line {L.node.lineno}) depend on each other"
        for e in g.events:
            if u in e.loops and e.kind == "store_sub":
                i = [x for x in walk(e.idx)] if isinstance(e.idx, T) else []
                if not any(x.op == "idx" and x.a[0] == u for x in i) and not any(x.op == "idx" and x.a[0] == u for x in walk(e.base)):
                    return f"the iterations of a parallel loop (line {L.node.lineno}) write the same element"
            if u in e.loops and e.kind == "return":
                return f"return from a parallel loop (line {L.node.lineno})"
    return None


def exclusive(c, d):
    at = {}
    atoms_of(c, at)
    atoms_of(d, at)
    if len(at) > MAXATOMS:
        return and_(c, d) is FALSE
    return not any(evalb(c, env) and evalb(d, env) for env in assignments(at))


def conflict(k, a, q, b, wr):
    W1, R1 = wr[k]
    W2, R2 = wr[q]
    if k[0] == q[0] == "call" and k[2].op == q[2].op == "call" and k[2].a[0].op == "attr" and k[2].a[0] is q[2].a[0] and k[2].a[0].a[1] in ("add", "update", "discard"):
        return False
    if k[0] in ("store_sub", "store_attr") and q[0] == k[0] and k[2] is q[2]:
        if k[3] is not q[3] and isinstance(k[3], T) and isinstance(q[3], T) and k[3].op == "const" and q[3].op == "const":
            W1 = W2 = set()
        elif k[0] == "store_attr" and k[3] != q[3]:
            W1 = W2 = set()
        elif all(x[1] is y[1] for x in a for y in b):
            W1 = W2 = set()
        elif k[0] == "store_sub" and disjoint(k[3], q[3]):
            W1 = W2 = set()
    return touches(W1, W2) or touches(W1, R2) or touches(W2, R1)


def disjoint(i, j):
    """Two slices that follow each other"""
    if not (isinstance(i, T) and isinstance(j, T) and i.op == j.op == "slice"):
        return False
    for x, y in ((i, j), (j, i)):
        if x.a[1] is not NONE and y.a[0] is not NONE and (x.a[1] is y.a[0] or y.a[0].op == "add" and x.a[1] in y.a[0].a):
            return True
    return False


CONTENT = ("append", "extend", "insert", "pop", "remove", "sort", "add", "update", "discard", "clear")


def touches(W, R):
    """Something written is read: the same object, or the inside of an object handed as a whole"""
    for w, deep, wf in ((x[0], x[1], x[2] if len(x) > 2 else None) for x in W):
        for x in R:
            r, rf = (x[0], x[2] if len(x) > 2 else None) if isinstance(x, tuple) else (x, None)
            if r is w and wf is not None and rf is not None and wf != rf:
                continue
            if r is w or deep and inside(r, w) or r.op in ("param", "new") and inside(w, r):
                return True
    return False


def column(t):
    """(array, name of the field) for a field of a structured array made here"""
    while t.op == "sub" and t.a[0].op != "new":
        t = t.a[0]
    if t.op == "sub" and t.a[0].op == "new" and t.a[1].op == "const" and isinstance(t.a[1].a[0], str):
        return t.a[0], t.a[1].a[0]
    if t.op in ("field", "attr") and t.a[0].op == "new" and len(t.a) > 1 and isinstance(t.a[1], str):
        return t.a[0], t.a[1]
    return None


def objects(t, out):
    """Objects read by a value, with the field when only one is"""
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "new":
            out.add(x)
            st.extend(subterms(x))
            continue
        c = column(x) if x.op in ("sub", "field", "attr") else None
        if c is not None:
            out.add((c[0], False, c[1]))
            st.extend(subterms(c[0]))
            while x.op == "sub" and x.a[0] is not c[0]:
                st.append(x.a[1])
                x = x.a[0]
            continue
        st.extend(subterms(x))


def inside(t, o):
    while t.op in ("attr", "field", "sub"):
        t = t.a[0]
        if t is o:
            return True
    return False


def names_only(t):
    while t.op == "attr":
        t = t.a[0]
    return t.op in ("param", "new")


def rw(k, seq):
    """Objects written and read by an effect"""
    W, R = set(), set()
    if k[0] == "store_sub":
        c = column(k[2])
        if c is None and isinstance(k[3], T) and k[2].op == "new" and k[3].op == "const" and isinstance(k[3].a[0], str):
            c = k[2], k[3].a[0]
        W.add((place(k[2]), False) if c is None else (c[0], False, c[1]))
    elif k[0] == "store_attr":
        W.add((TT.attr(k[2], k[3]) if isinstance(k[3], str) else k[2], False))
    elif k[0] == "call" and k[2].op == "call":
        f = k[2].a[0]
        if f.op == "attr":
            W.add((f.a[0], f.a[1] not in CONTENT))
        for x in (*k[2].a[1], *(v for _, v in k[2].a[2])):
            # what the called function may look at
            if names_only(x):
                R.add(x)
            R.update(y for y in walk(x) if y.op == "new")
    for c, v, e in seq:
        for t in (v, c):
            objects(t, R)
    return W, R


def place(t):
    while t.op in ("sub",):
        t = t.a[0]
    return t


def core(t):
    return t.a[1] if t.op == "new" else t


def base_kind(t):
    r = root_of(t)
    return (r.op, r.a[0] if r.op == "param" else "") if isinstance(r, T) else None


def same_callee(a, b):
    f, h = a.a[0], b.a[0]
    if f is h:
        return True
    return f.op == "attr" and h.op == "attr" and f.a[1] == h.a[1]


def label(k, seq):
    e = seq[0][2]
    if k[0] == "store_sub":
        return f"{show(e.base, 3)}[{show(e.idx, 3)}] = {show(e.val, 3)}"
    if k[0] == "store_attr":
        return f"{show(e.base, 3)}.{e.idx} = {show(e.val, 3)}"
    if k[0] == "call":
        return show(e.term, 3)
    return f"{k[0]} {show(e.val, 3) if isinstance(e.val, T) else ''}"
