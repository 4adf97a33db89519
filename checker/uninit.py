"""Arrays allocated without initial values: are all their elements written?"""
from .engine import PKG
from .terms import FALSE, NONE, TRUE, T, add, and_, attr, isc, isnum, length, mk, neg, not_, num, or_, show, walk

EMPTY = {"numpy.empty", "numpy.empty_like", "numpy.ma.empty", "numpy.ma.empty_like", "numpy.ndarray"}


def allocs(g):
    return [e for e in g.events if e.kind == "call" and e.term.op == "call" and e.term.a[0].op == "global" and e.term.a[0].a[0] in EMPTY and e.val is not None and e.val.op == "new"]


def shape(e):
    """Dimensions: list of terms, or ("like", x)"""
    a, kw = e.term.a[1], dict((k, v) for k, v in e.term.a[2])
    q = e.term.a[0].a[0]
    s = a[0] if a else kw.get("shape", kw.get("prototype"))
    if s is None:
        return None
    if q.endswith("_like"):
        return ("like", s)
    if s.op in ("tuple", "list"):
        return list(s.a)
    if s.op == "attr" and s.a[1] == "shape":
        return ("like", s.a[0])
    if s.op == "new" and s.a[1].op in ("tuple", "list"):
        return list(s.a[1].a)
    return [s]


def always(c, limit=14):
    """The condition holds for all values of its atoms (NaN set aside: a < b or b <= a)"""
    atoms = {}

    def form(t):
        if t is TRUE or t is FALSE:
            return t is TRUE
        if t.op in ("and", "or", "xor"):
            return (t.op, [form(x) for x in t.a])
        if t.op == "not":
            return ("not", [form(t.a[0])])
        if t.op == "ite":
            a, b, c = (form(x) for x in t.a)
            return ("or", [("and", [a, b]), ("and", [("not", [a]), c])])
        if t.op == "le":
            return ("not", [form(mk("lt", t.a[1], t.a[0]))])
        if t.op == "ne":
            return ("not", [form(mk("eq", *t.a))])
        return ("v", atoms.setdefault(t, len(atoms)))

    f = form(c)
    if len(atoms) > limit:
        return False

    def ev(f, bits):
        if isinstance(f, bool):
            return f
        if f[0] == "v":
            return bool(bits >> f[1] & 1)
        if f[0] == "not":
            return not ev(f[1][0], bits)
        if f[0] == "and":
            return all(ev(x, bits) for x in f[1])
        if f[0] == "or":
            return any(ev(x, bits) for x in f[1])
        r = False
        for x in f[1]:
            r ^= ev(x, bits)
        return r

    return all(ev(f, b) for b in range(1 << len(atoms)))


def names_of(e):
    """Fields of a structured allocation"""
    d = dict((k, v) for k, v in e.term.a[2]).get("dtype")
    if d is None and len(e.term.a[1]) > 1:
        d = e.term.a[1][1]
    if d is not None and d.op == "new":
        d = d.a[1]
    if d is None or d.op not in ("list", "tuple"):
        return None
    out = set()
    for x in d.a:
        if x.op in ("tuple", "list") and x.a and isc_str(x.a[0]):
            out.add(x.a[0].a[0])
        else:
            return None
    return out


def isfull(i):
    return i.op == "slice" and all(x is NONE for x in i.a) or isc(i, Ellipsis)


def dim_of(x, k):
    """Size of dimension k of x"""
    return length(x) if k == 0 else mk("sub", attr(x, "shape"), num(k))


def same_dim(a, b):
    if a is b:
        return True
    d = add(a, neg(b))
    if isnum(d) and d is num(0):
        return True
    return strip(a) is strip(b)


def strip(t):
    from .rules import core

    t = core(t)
    if t.op == "attr" and t.a[1] == "size":
        return length(t.a[0])
    if t.op == "sub" and t.a[0].op == "attr" and t.a[0].a[1] == "shape" and isc(t.a[1], 0):
        return length(t.a[0].a[0])
    return t


def loop_dim(g, u, like, k):
    """Sizes gone through by a loop"""
    L = g.loops[u]
    out = []
    if L.bound is not None and L.step is num(1):
        out.append((L.start, L.bound))
    it = L.iter
    if it is not None:
        items = it.a if it.op == "tuple" else (it,)
        for x in items:
            if x.op == "call" and x.a[0].op == "global" and x.a[0].a[0] in ("range", "numba.prange"):
                continue
            if x.op == "call" and x.a[0].op == "global" and x.a[0].a[0] == "enumerate":
                x = x.a[1][0]
            out.append((num(0), length(x)))
    return out


def covers(g, i, k, dims, like):
    """The index goes through all the positions of dimension k: True, (from,) when it goes from a start, or None"""
    if isfull(i):
        return True
    uid = None
    off = None
    if i.op == "idx":
        uid, off = i.a[0], num(0)
    else:
        for x in walk(i):
            if x.op == "idx":
                r = add(i, neg(x))
                if isnum(r) and not any(y.op == "idx" for y in walk(r)):
                    uid, off = x.a[0], r
    if uid is None or uid not in g.loops:
        return None
    L = g.loops[uid]
    if L.breaks:
        return None
    size = dims[k] if dims is not None else dim_of(like, k)
    for st, n in loop_dim(g, uid, like, k):
        # the index takes off .. off + n - 1
        if same_dim(n, size) and off is num(0):
            return True
        if isnum(off) and same_dim(add(n, off), size):
            return (int(off.a[0]), uid)
        if off is num(0) and isnum(add(size, neg(n))):
            return (0, uid, add(size, neg(n)))
    return None


def path(b, A):
    """Indices that lead from A to b, or None"""
    out = []
    while b is not A:
        if b.op != "sub":
            return None
        out = (list(b.a[1].a) if b.a[1].op == "tuple" else [b.a[1]]) + out
        b = b.a[0]
    return out


def coverage(g, e):
    """("full" | "partial" | "given" | "none" | "other", explanation)"""
    A = e.val
    sh = shape(e)
    for _ in range(3):
        if isinstance(sh, tuple) and sh[1].op == "new":
            o = next((x for x in allocs(g) if x.val is sh[1]), None)
            if o is None:
                break
            sh = shape(o)
    like, dims = (sh[1], None) if isinstance(sh, tuple) else (None, sh)
    fields, done = names_of(e), set()
    if dims is not None and any(isc(d, 0) for d in dims):
        return "full", "no element"
    ev = [x for x in g.events if x.seq > e.seq]
    base_guard = set(e.guard)
    conds = {}
    how, other, given, stores = None, [], [], 0
    masks, hidden = [], []
    for x in ev:
        pre = path(x.base, A) if x.kind in ("store_sub", "store_field", "inplace") else None
        if pre is not None:
            if x.kind == "inplace":
                other.append(x)
                continue
            stores += 1
            i = x.idx
            if fields is not None and pre and len(pre) == 1 and isc_str(pre[0]) and isinstance(i, T) and isfull(i) and x.loops == e.loops and not [y for y in x.guard if y not in base_guard]:
                done.add(pre[0].a[0])
                if done >= fields:
                    return "full", f"all the fields, line {x.line}"
            if x.kind == "store_field" or isc_str(i) or any(isc_str(y) for y in pre):
                other.append(x)
                continue
            comps = pre + (list(i.a) if i.op == "tuple" else [i])
            if pre and pre[-1].op == "slice" or len(comps) > 1 and any(not isfull(y) and y.op in ("slice", "call") for y in pre):
                other.append(x)
                continue
            gs = [y for y in x.guard if y not in base_guard]
            extra = [u for u in x.loops if u not in e.loops]
            used = set()
            cov = []
            n = len(dims) if dims is not None else max(1, len(comps))
            for k in range(max(n, len(comps))):
                if k < len(comps):
                    c = covers(g, comps[k], k, dims if dims is None or k < len(dims) else None, like)
                    used |= {y.a[0] for y in walk(comps[k]) if y.op == "idx"}
                else:
                    c = True
                cov.append(c)
            free = [u for u in extra if u not in used]
            if all(c is True for c in cov) and not free:
                # conditions that hold inside the loops because they are entered are not conditions of the element
                conds.setdefault("all", []).append(and_(*gs))
                if always(or_(*conds["all"])):
                    return "full", f"line {x.line}"
                how = how or x
                continue
            if len(comps) == 1 and comps[0].op not in ("slice",) and not extra and not any(y.op == "idx" for y in walk(comps[0])):
                masks.append((comps[0], and_(*gs), x))
                from .rules import core

                if any(c is TRUE and (not_(core(m)) is v or not_(v) is core(m)) for m, c, _ in masks for v in hidden):
                    return "full", f"masked where it is not written, line {x.line}"
                ms = [m for m, c, _ in masks if c is TRUE]
                if any(not_(m) is q for m in ms for q in ms):
                    return "full", f"mask and its complement, line {x.line}"
            # first elements, then the others
            part = conds.setdefault("parts", [])
            part.append((comps, cov, and_(*gs), x, free))
            r = parts(part, dims) or columns(part, dims)
            if r:
                return "full", f"first elements and the others, line {x.line}"
            other.append(x)
        elif x.kind in ("store_sub", "store_field") and any(y is A for y in walk(x.base)):
            other.append(x)
            stores += 1
        elif x.kind == "store_attr" and x.base is A:
            if x.idx == "mask" and not [y for y in x.guard if y not in base_guard] and x.loops == e.loops:
                from .rules import core

                v = core(x.val)
                if v is TRUE or v.op == "call" and v.a[0].op == "global" and v.a[0].a[0] == "numpy.ones":
                    return "full", f"masked, line {x.line}"
                hidden.append(v)
                if any(not_(core(m)) is v or m is not_(v) for m, c, _ in masks):
                    return "full", f"masked where it is not written, line {x.line}"
            else:
                other.append(x)
        elif x.kind == "call" and x.term is not None:
            args = list(x.term.a[1]) + [v for _, v in x.term.a[2]]
            if x.term.a[0].op == "attr" and x.term.a[0].a[0] is A and x.term.a[0].a[1] == "fill":
                if not [y for y in x.guard if y not in base_guard] and x.loops == e.loops:
                    return "full", f"filled, line {x.line}"
            for k, a in [(None, a) for a in x.term.a[1]] + list(x.term.a[2]):
                if any(y is A for y in walk(a)):
                    given.append((x, k))
            fn = x.term.a[0]
            if fn.op == "attr" and any(y is A for y in walk(fn.a[0])) and fn.a[1] not in ("sum", "mean", "min", "max"):
                given.append((x, None))
    if how is not None and not other:
        c = or_(*conds["all"])
        loopy = [y for y in how.loops if y not in e.loops]
        return ("partial" if not given else "given"), f"written only if {show(c, 4)}, line {how.line}"
    if stores == 0 and given and all(reader(x, A) for x, _ in given):
        return "none", "read by " + show(given[0][0].term.a[0], 3) + " and never written"
    if stores == 0 and not given:
        return "none", "never written"
    if given and stores == 0:
        return "given", "given to " + show(given[0][0].term.a[0], 3)
    return "other", "; ".join(f"line {x.line}: {show(x.idx, 3) if isinstance(x.idx, T) else x.idx}" for x in other[:3])


def early(g, e):
    """A change of elements that reads them, before any element is written"""
    A = e.val
    sh = shape(e)
    if isinstance(sh, list) and any(isc(d, 0) for d in sh):
        return None
    for x in g.events:
        if x.seq <= e.seq:
            continue
        if x.kind == "call" and x.term is not None and any(y is A for a in list(x.term.a[1]) + [v for _, v in x.term.a[2]] for y in walk(a)):
            return None
        if x.kind == "store_attr" and x.base is A:
            continue
        if x.kind in ("store_sub", "inplace") and path(x.base, A) is not None:
            if x.kind == "inplace":
                return x
            if isinstance(x.val, T) and not x.loops[len(e.loops):]:
                here = mk("sub", x.base, x.idx) if isinstance(x.idx, T) else None
                if any(y is here or y is A for y in walk(x.val)):
                    return x
            elif isinstance(x.val, T):
                at = path(x.base, A) + (list(x.idx.a) if x.idx.op == "tuple" else [x.idx])
                for y in walk(x.val):
                    if y.op == "sub" and path(y, A) == at:
                        return x
            return None
        if x.kind in ("return", "yield") and x.val is A:
            return x
    return None


def reader(x, A):
    """The call is one of a library, which reads what it is given"""
    fn = x.term.a[0]
    kw = dict((k, v) for k, v in x.term.a[2])
    if "out" in kw or fn.op != "global" or fn.a[0].startswith(PKG) or not fn.a[0].startswith("numpy."):
        return False
    if fn.a[0] in ("numpy.ma.array", "numpy.ma.masked_array", "numpy.ma.MaskedArray"):
        m = kw.get("mask")
        if m is not None and not any(y is A for y in walk(m)):
            return False
    if fn.a[0] in ("numpy.copyto", "numpy.place", "numpy.put", "numpy.putmask", "numpy.random.shuffle", "numpy.fill_diagonal", "numpy.frombuffer"):
        return False
    return True


def isc_str(i):
    return isinstance(i, T) and i.op == "const" and isinstance(i.a[0], str)


def parts(part, dims):
    """Stores to constant positions complete a loop that starts after them"""
    firsts, rests = {}, []
    for comps, cov, c, x, free in part:
        if c is not TRUE or free:
            continue
        k = comps[0]
        if not all(v is True for v in cov[1:]):
            continue
        if isnum(k):
            firsts[int(k.a[0])] = x
        elif k.op == "slice" and k.a[2] is NONE:
            a, b = k.a[0], k.a[1]
            if a is NONE and isnum(b):
                firsts[("to", int(b.a[0]))] = x
            elif isnum(a) and b is NONE:
                firsts[("from", int(a.a[0]))] = x
            elif a is NONE or b is NONE:
                # before and after the same position
                if any(f == ("cut", b if a is NONE else a, a is not NONE) for f in firsts):
                    return True
                firsts[("cut", b if a is NONE else a, a is NONE)] = x
        elif isinstance(cov[0], tuple):
            if len(cov[0]) == 2:
                firsts[("from", cov[0][0])] = x
            elif isnum(cov[0][2]):
                firsts[("to", -int(cov[0][2].a[0]))] = x
    for f in firsts:
        if isinstance(f, tuple) and len(f) == 2 and f[0] == "from" and f[1] >= 0:
            if ("to", f[1]) in firsts or all(i in firsts for i in range(f[1])):
                return True
        if isinstance(f, tuple) and len(f) == 2 and f[0] == "to" and f[1] < 0:
            if ("from", f[1]) in firsts or all(-i - 1 in firsts for i in range(-f[1])):
                return True
    return False


def columns(part, dims):
    """Stores at each constant position of one dimension, all the others being gone through"""
    if dims is None:
        return False
    for k, d in enumerate(dims):
        if not isnum(d):
            continue
        done = set()
        for comps, cov, c, x, free in part:
            if c is TRUE and not free and len(comps) > k and isnum(comps[k]) and all(v is True for i, v in enumerate(cov) if i != k):
                done.add(int(comps[k].a[0]))
        if done >= set(range(int(d.a[0]))):
            return True
    return False


def site(e):
    """Name of an allocation, whatever the lines"""
    return show(e.term, 4)
