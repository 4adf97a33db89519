"""Hash-consed value-flow terms and their normalisation.

A term is a node of the gated value-flow graph: its operator and its arguments (terms or
plain Python constants).  Terms are interned, so equality is identity; every constructor
normalises what does not change the value (argument order of commutative operators,
direction of comparisons, several spellings of a field access, ...).
"""
from fractions import Fraction


class T:
    __slots__ = ("op", "a", "id", "line", "_h")

    def __init__(self, op, a, i):
        self.op, self.a, self.id = op, a, i
        self.line = None

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}


def mk(op, *a):
    key = (op,) + tuple((type(x).__name__, x) if not isinstance(x, (T, tuple)) else x for x in a)
    t = _tab.get(key)
    if t is None:
        t = T(op, a, len(_tab))
        _tab[key] = t
    return t


FIELDS = set()  # names of the observation variables, read from the repository
ALIAS = {}  # property alias -> variable name


def const(v):
    return mk("const", v)


def isc(t, *vals):
    """t is a constant (one of vals when given)"""
    if t.op != "const":
        return False
    return not vals or any(type(t.a[0]) is type(v) and t.a[0] == v for v in vals)


def cval(t):
    return t.a[0] if t.op == "const" else None


TRUE, FALSE, NONE = const(True), const(False), const(None)


def isnum(t):
    return t.op == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool)


def num(v):
    if isinstance(v, Fraction):
        v = int(v) if v.denominator == 1 else float(v)
    if isinstance(v, float) and v.is_integer() and abs(v) < 2**53:
        v = int(v)
    return const(v)


def add(*ts):
    out, c = [], 0
    for t in ts:
        for x in t.a if t.op == "add" else (t,):
            if isnum(x):
                c = c + x.a[0]
            else:
                out.append(x)
    # x + (-1)*x
    cnt = {}
    for x in out:
        k, b = coef(x)
        cnt[b] = cnt.get(b, 0) + k
    res = []
    for b, k in cnt.items():
        if k == 0:
            continue
        res.append(b if k == 1 else mul(num(k), b))
    if c != 0 or not res:
        res.append(num(c))
    if len(res) == 1:
        return res[0]
    return mk("add", *sorted(res, key=lambda t: t.id))


def coef(x):
    """(k, base) such that x = k * base with a numeric k"""
    if x.op == "mul":
        for i, y in enumerate(x.a):
            if isnum(y):
                rest = [z for j, z in enumerate(x.a) if j != i]
                return y.a[0], rest[0] if len(rest) == 1 else mk("mul", *rest)
    return 1, x


def mul(*ts):
    out, c = [], 1
    for t in ts:
        for x in t.a if t.op == "mul" else (t,):
            if isnum(x):
                c = c * x.a[0]
            else:
                out.append(x)
    if isinstance(c, float) and c.is_integer():
        c = int(c)
    if c == 0 and not out:
        return num(0)
    # powers
    cnt = {}
    for x in out:
        b, e = x, 1
        if x.op == "pow" and isnum(x.a[1]):
            b, e = x.a[0], x.a[1].a[0]
        cnt[b] = cnt.get(b, 0) + e
    res = []
    for b, e in cnt.items():
        if e == 0:
            continue
        res.append(b if e == 1 else mk("pow", b, num(e)))
    if c != 1 or not res:
        res.append(num(c))
    if len(res) == 1:
        return res[0]
    # distribute a bare number over a sum
    if len(res) == 2 and isnum(res[1]) and res[0].op == "add":
        return add(*[mul(res[1], x) for x in res[0].a])
    return mk("mul", *sorted(res, key=lambda t: t.id))


def neg(t):
    return mul(num(-1), t)


def power(b, e):
    if isnum(e):
        v = e.a[0]
        if v == 1:
            return b
        if isnum(b) and (b.a[0] > 0 or isinstance(v, int)) and b.a[0] != 0:
            try:
                return num(b.a[0] ** v)
            except OverflowError:
                pass
        if b.op == "pow" and isnum(b.a[1]) and isinstance(v, int):
            return power(b.a[0], num(b.a[1].a[0] * v))
        if b.op == "mul" and isinstance(v, int):
            return mul(*[power(x, e) for x in b.a])
        if v == 0.5:
            return mk("sqrt", b)
    return mk("pow", b, e)


def inv(t):
    return power(t, num(-1))


def same_kw(a, b):
    return tuple(x for x in a if x[0] != "#") == tuple(x for x in b if x[0] != "#")


def mod(a, b):
    if isnum(a) and isnum(b) and b.a[0]:
        return num(a.a[0] % b.a[0])
    if a.op == "mod" and a.a[1] is b:
        return a
    return mk("mod", a, b)


def floordiv(a, b):
    if isnum(a) and isnum(b) and b.a[0]:
        return num(a.a[0] // b.a[0])
    return mk("floordiv", a, b)


def not_(t):
    if t.op == "not":
        return t.a[0]
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "eq":
        return mk("ne", *t.a)
    if t.op == "ne":
        return mk("eq", *t.a)
    if t.op == "in":
        return mk("notin", *t.a)
    if t.op == "notin":
        return mk("in", *t.a)
    if t.op == "and":
        return or_(*[not_(x) for x in t.a])
    if t.op == "or":
        return and_(*[not_(x) for x in t.a])
    return mk("not", t)


def _nary(op, zero, one, ts):
    out = []
    for t in ts:
        for x in t.a if t.op == op else (t,):
            if x is one or x in out:
                continue
            if x is zero:
                return zero
            out.append(x)
    for x in out:
        if not_(x) in out:
            return zero
    dual = "or" if op == "and" else "and"
    # absorption and unit resolution: x and (x or y) -> x ; x and (not x or y) -> x and y
    lits = set(out)
    res = []
    for x in out:
        if x.op == dual:
            if any(y in lits for y in x.a):
                continue
            rest = [y for y in x.a if not_(y) not in lits]
            if len(rest) != len(x.a):
                x = _nary(dual, one, zero, rest)
                if x is one:
                    continue
                if x is zero:
                    return zero
        if x.op == op:
            res.extend(y for y in x.a if y not in res)
        elif x not in res:
            res.append(x)
    if not res:
        return one
    if len(res) == 1:
        return res[0]
    return mk(op, *sorted(res, key=lambda t: t.id))


def and_(*ts):
    return _nary("and", FALSE, TRUE, ts)


def or_(*ts):
    return _nary("or", TRUE, FALSE, ts)


def xor(a, b):
    return mk("xor", *sorted((a, b), key=lambda t: t.id))


def cmp_(op, a, b):
    if op in ("gt", "ge"):
        op, a, b = ("lt", b, a) if op == "gt" else ("le", b, a)
    if op in ("is", "isnot"):
        op = "eq" if op == "is" else "ne"
    if a.op == "const" and b.op == "const":
        x, y = a.a[0], b.a[0]
        try:
            return const(
                {"lt": lambda: x < y, "le": lambda: x <= y, "eq": lambda: x == y, "ne": lambda: x != y}[op]()
            )
        except (KeyError, TypeError):
            pass
    if op in ("eq", "ne"):
        # x == False / x == True
        for p, q in ((a, b), (b, a)):
            if q is TRUE:
                return p if op == "eq" else not_(p)
            if q is FALSE:
                return not_(p) if op == "eq" else p
        a, b = sorted((a, b), key=lambda t: t.id)
    return mk(op, a, b)


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op in ("not", "ne", "notin"):
        return ite(not_(c), b, a)
    if c.op == "or" and all(x.op in ("not", "ne", "notin") for x in c.a):
        return ite(not_(c), b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if b.op == "ite" and b.a[1] is a:
        return ite(or_(c, b.a[0]), a, b.a[2])
    if a is b:
        return a
    return mk("ite", c, a, b)


def attr(b, n):
    if n == "observations":
        n = "obs"
    n = ALIAS.get(n, n)
    if n in FIELDS and b.op != "global":
        return field(b, n)
    if n == "size" and (b.op == "field" or (b.op == "attr" and b.a[1] == "obs")):
        return length(b)
    return mk("attr", b, n)


def field(b, k):
    if b.op == "attr" and b.a[1] == "obs":
        b = b.a[0]
    if b.op == "sub" and not isc(b.a[1]) or (b.op == "sub" and isnum(b.a[1])):
        base = b.a[0]
        return sub(field(base, k), b.a[1])
    return mk("field", b, k)


def _scalar_idx(t):
    return t.op not in ("slice", "tuple", "star") and t is not NONE and not isc(t, Ellipsis)


FULL = None


def sub(b, i):
    global FULL
    if FULL is None:
        FULL = mk("slice", NONE, NONE, NONE)
    if isc(i) and isinstance(i.a[0], str):
        if i.a[0] in FIELDS:
            return field(b, i.a[0])
        return mk("sub", b, i)
    if b.op in ("tuple", "list") and isnum(i) and isinstance(i.a[0], int):
        try:
            r = b.a[i.a[0]]
            if r.op != "star" and not any(x.op == "star" for x in b.a):
                return r
        except IndexError:
            pass
    if b.op == "ite" and isnum(i) and b.a[1].op in ("tuple", "ite") and b.a[2].op in ("tuple", "ite"):
        return ite(b.a[0], sub(b.a[1], i), sub(b.a[2], i))
    if b.op == "attr" and b.a[1] == "shape" and isc(i, 0):
        return length(b.a[0])
    if i.op == "tuple" and len(i.a) >= 2:
        xs = list(i.a)
        while len(xs) > 1 and xs[-1] is FULL:
            xs.pop()
        if all(_scalar_idx(x) for x in xs):
            r = b
            for x in xs:
                r = sub(r, x)
            return r
        if len(xs) == 1:
            return sub(b, xs[0])
        i = mk("tuple", *xs)
    # a[where(m)[0]] / a[m.nonzero()[0]] -> a[m]
    m = _mask_of(i)
    if m is not None:
        i = m
    return mk("sub", b, i)


def _mask_of(i):
    t = i
    if t.op == "sub" and isc(t.a[1], 0):
        t = t.a[0]
    if t.op == "call" and t.a[0].op == "global" and t.a[0].a[0] in ("numpy.where", "numpy.nonzero") and len(t.a[1]) == 1:
        return t.a[1][0]
    return None


def length(b):
    while True:
        if b.op == "attr" and b.a[1] == "obs":
            b = b.a[0]
        elif b.op == "field":
            b = b.a[0]
        else:
            break
    if b.op in ("tuple", "list") and not any(x.op == "star" for x in b.a):
        return num(len(b.a))
    return mk("len", b)


# ---------------------------------------------------------------- queries


def subterms(t):
    """Direct sub-terms of t"""
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _tup(x)


def _tup(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _tup(y)


def walk(t, stop=None):
    """All distinct sub-terms of t, t included (mu nodes are not entered)"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if stop is not None and stop(x):
            continue
        st.extend(subterms(x))


def contains(t, what):
    if isinstance(what, T):
        return any(x is what for x in walk(t))
    return any(what(x) for x in walk(t))


def subst(t, m, memo=None):
    """Replace sub-terms (rebuilding through the normalising constructors)"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t.id in memo:
        return memo[t.id]
    memo[t.id] = t
    if not any(True for _ in subterms(t)):
        return t
    a = tuple(_subst_arg(x, m, memo) for x in t.a)
    r = rebuild(t.op, a)
    memo[t.id] = r
    return r


def _subst_arg(x, m, memo):
    if isinstance(x, T):
        return subst(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_subst_arg(y, m, memo) for y in x)
    return x


def rebuild(op, a):
    f = {
        "add": add, "mul": mul, "pow": power, "mod": mod, "floordiv": floordiv, "not": not_,
        "and": and_, "or": or_, "xor": xor, "ite": ite, "attr": attr, "sub": sub, "field": field,
        "len": length,
    }.get(op)
    if f:
        return f(*a)
    if op in ("lt", "le", "eq", "ne"):
        return cmp_(op, *a)
    return mk(op, *a)


def show(t, d=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d) for x in t) + ")"
        return str(t)
    if d <= 0:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, d - 1)
    if o == "const":
        return repr(a[0])
    if o == "param":
        return str(a[0])
    if o == "global":
        return a[0].split(".")[-1]
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "field":
        return f"{s(a[0])}.{a[1]}"
    if o == "sub":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "call":
        return f"{s(a[0])}({', '.join([s(x) for x in a[1]] + [f'{k}={s(v)}' for k, v in a[2]])})"
    if o == "new":
        return s(a[1])
    if o == "idx":
        return f"i{a[0]}"
    if o == "mu":
        return f"{a[1]}@{a[0]}"
    inf = {"add": " + ", "mul": "*", "and": " & ", "or": " | ", "lt": " < ", "le": " <= ", "eq": " == ",
           "ne": " != ", "mod": " % ", "pow": "**", "floordiv": "//", "in": " in ", "notin": " not in ", "xor": " ^ "}
    if o in inf:
        return "(" + inf[o].join(s(x) for x in a) + ")"
    if o == "not":
        return f"not {s(a[0])}"
    if o == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if o == "slice":
        return ":".join("" if x is NONE else s(x) for x in a[:2]) + ("" if a[2] is NONE else ":" + s(a[2]))
    if o in ("bdd", "mtb"):
        from .equiv import _src
        return show(_src[t], d) if t in _src else f"{o}({show(a[0], d - 1)})"
    if o in ("tuple", "list"):
        return ("(%s)" if o == "tuple" else "[%s]") % ", ".join(s(x) for x in a)
    return f"{o}({', '.join(s(x) for x in a)})"


# ------------------------------------------------- polynomial abstract domain


def poly(t, atom=None):
    """Polynomial over atoms with rational coefficients: {monomial (sorted tuple of atoms): Fraction}"""
    if isnum(t):
        v = t.a[0]
        if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
            return {(t,): Fraction(1)}
        return {(): Fraction(v).limit_denominator(10**9)} if v else {}
    if t.op == "add":
        r = {}
        for x in t.a:
            for m, c in poly(x, atom).items():
                r[m] = r.get(m, 0) + c
        return {m: c for m, c in r.items() if c}
    if t.op == "mul":
        r = {(): Fraction(1)}
        for x in t.a:
            r = pmul(r, poly(x, atom))
        return r
    if t.op == "pow" and isnum(t.a[1]) and isinstance(t.a[1].a[0], int) and 0 < t.a[1].a[0] <= 6:
        p = poly(t.a[0], atom)
        r = {(): Fraction(1)}
        for _ in range(t.a[1].a[0]):
            r = pmul(r, p)
        return r
    if t.op == "pow" and isnum(t.a[1]) and t.a[1].a[0] == -1:
        # expand the denominator so that different spellings of it are one atom
        d = poly(t.a[0], atom)
        if len(d) == 1:
            (m, c), = d.items()
            if not m:
                return {(): 1 / c}
            return {tuple(sorted((inv(x) for x in m), key=lambda z: z.id)): 1 / c}
        return {(mk("inv", unpoly(d)),): Fraction(1)}
    if atom is not None:
        t = atom(t)
    return {(t,): Fraction(1)}


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = tuple(sorted(m1 + m2, key=lambda z: z.id))
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def unpoly(p):
    return add(*[mul(num(c), *m) for m, c in p.items()]) if p else num(0)


def same(a, b, atom=None):
    """a and b have the same polynomial form"""
    return a is b or poly(a, atom) == poly(b, atom)
