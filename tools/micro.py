#!/usr/bin/env python3
"""Small pairs of functions with the expected answer of the comparison."""
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
from checker.engine import PKG, Program  # noqa
from checker.equiv import Validator  # noqa

CASES = []


def C(name, a, b, same):
    CASES.append((name, a, b, same))


C("read-then-store", "def f(x, i):\n    m = x > 0\n    x[i] = 5\n    return x[m]", "def f(x, i):\n    x[i] = 5\n    m = x > 0\n    return x[m]", False)
C("call-then-store", "def f(x, i):\n    y = x.sum()\n    x[i] = 5\n    return y", "def f(x, i):\n    x[i] = 5\n    y = x.sum()\n    return y", False)
C("call-then-store-new", "def f(n, i):\n    x = zeros(n)\n    x[i] = 3\n    y = g(x)\n    return y", "def f(n, i):\n    x = zeros(n)\n    y = g(x)\n    x[i] = 3\n    return y", False)
C("effect-then-call", "def f(x, y):\n    g(x)\n    z = h(x)\n    return z", "def f(x, y):\n    z = h(x)\n    g(x)\n    return z", False)
C("effect-then-call-attr", "def f(x, y):\n    c = k(x)\n    g(c.data)\n    z = h(c)\n    return z", "def f(x, y):\n    c = k(x)\n    z = h(c)\n    g(c.data)\n    return z", False)
C("independent", "def f(x, y):\n    a = g(x)\n    b = h(y)\n    return a, b", "def f(x, y):\n    b = h(y)\n    a = g(x)\n    return a, b", True)
C("sort-in-place", "def f(x):\n    x.sort()\n    return x[0]", "def f(x):\n    y = x[0]\n    x.sort()\n    return y", False)
C("attr-then-read", "def f(o, v):\n    a = o.p\n    o.p = v\n    return a", "def f(o, v):\n    o.p = v\n    return o.p", False)
C("attr-sum", "def f(o, v):\n    a = o.x + 1\n    o.x = v\n    return a", "def f(o, v):\n    o.x = v\n    a = o.x + 1\n    return a", False)
C("list-copy", "def f(o):\n    a = list(o)\n    a.append(1)\n    return a", "def f(o):\n    a = o\n    a.append(1)\n    return a", False)
C("array-copy", "def f(x):\n    x = x.copy()\n    x[0] = 1\n    return x", "def f(x):\n    x[0] = 1\n    return x", False)
C("aug-alias", "def f(x):\n    x += 1\n    return x", "def f(x):\n    x = x + 1\n    return x", False)
C("swap-fields", "def f(x, y):\n    r = zeros(3)\n    q = zeros(3)\n    r[0] = x\n    q[0] = y\n    return r, q", "def f(x, y):\n    r = zeros(3)\n    q = zeros(3)\n    r[0] = y\n    q[0] = x\n    return r, q", False)
C("swap-lists", "def f(x):\n    a, b = [], []\n    for i in x:\n        a.append(i)\n        b.append(-i)\n    return a, b", "def f(x):\n    a, b = [], []\n    for i in x:\n        a.append(-i)\n        b.append(i)\n    return a, b", False)
C("break", "def f(x, v):\n    k = 0\n    for i in range(x.size):\n        if x[i] == v:\n            k = i\n            break\n    return k", "def f(x, v):\n    k = 0\n    for i in range(x.size):\n        if x[i] == v:\n            k = i\n    return k", False)
C("while-test", "def f(x, v):\n    i = 0\n    while x[i] < v:\n        i += 1\n    return i", "def f(x, v):\n    i = 0\n    while x[i] <= v:\n        i += 1\n    return i", False)
C("default", "def f(x, v=1):\n    return x + v", "def f(x, v=2):\n    return x + v", False)
C("loop-carried", "def f(x):\n    s = 0\n    p = 0\n    for i in range(x.size):\n        s = s + x[i]\n        p = p + s\n    return s, p", "def f(x):\n    s = 0\n    p = 0\n    for i in range(x.size):\n        p = p + s\n        s = s + x[i]\n    return s, p", False)
C("rename", "def f(x):\n    s = 0\n    for i in range(x.size):\n        s += x[i]\n    return s", "def f(x):\n    total = 0\n    for k in range(x.size):\n        total = total + x[k]\n    return total", True)
C("comp", "def f(x):\n    r = []\n    for i in x:\n        if i > 0:\n            r.append(i * 2)\n    return r", "def f(x):\n    return [i * 2 for i in x if i > 0]", True)
C("early", "def f(x):\n    if x is None:\n        return 0\n    return x + 1", "def f(x):\n    if x is not None:\n        return x + 1\n    return 0", True)
C("finally", "def f(x):\n    h = open(x)\n    try:\n        return h.read()\n    finally:\n        h.close()", "def f(x):\n    h = open(x)\n    return h.read()", False)
C("except", "def f(x):\n    try:\n        return g(x)\n    except KeyError:\n        return 0", "def f(x):\n    return g(x)", False)
C("nan-cmp", "def f(x):\n    if x > 0:\n        return 1\n    return 0", "def f(x):\n    if x >= 0:\n        return 1\n    return 0", False)
C("int-div", "def f(x):\n    return x // 2", "def f(x):\n    return x / 2", False)
C("neg-mod", "def f(x):\n    return (x - 180) % 360", "def f(x):\n    return (x + 180) % 360", True)
C("mod-noint", "def f(x):\n    return (x - 180) % 180", "def f(x):\n    return (x + 170) % 180", False)
C("dict-order", "def f(a, b):\n    return dict(x=a, y=b)", "def f(a, b):\n    return dict(y=b, x=a)", True)
C("generator", "def f(x):\n    for i in x:\n        yield i\n        yield i + 1", "def f(x):\n    for i in x:\n        yield i + 1\n        yield i", False)
C("kwargs-mut", "def f(**kwargs):\n    n = kwargs.pop('n', 3)\n    return g(n, **kwargs)", "def f(**kwargs):\n    n = kwargs.get('n', 3)\n    return g(n, **kwargs)", False)
C("slice-alias", "def f(x):\n    y = x[1:]\n    y[:] = 0\n    return x", "def f(x):\n    y = x[1:].copy()\n    y[:] = 0\n    return x", False)
C("cond-order", "def f(x, y):\n    if x is not None and x.size > y:\n        return 1\n    return 2", "def f(x, y):\n    if x.size > y and x is not None:\n        return 1\n    return 2", None)
C("mutate-arg-list", "def f(x):\n    x = list(x)\n    x.pop(0)\n    return x", "def f(x):\n    x.pop(0)\n    return x", False)
C("lambda", "def f(x, k):\n    return sorted(x, key=lambda z: z[k])", "def f(x, k):\n    return sorted(x, key=lambda z: -z[k])", False)
C("with", "def f(x):\n    with open(x) as h:\n        y = h.read()\n    return y", "def f(x):\n    h = open(x)\n    y = h.read()\n    return y", False)
C("global-const", "def f(x):\n    return x * 2 + 0.5", "def f(x):\n    return x * 2 + 0.25", False)
C("shadow", "def f(x, y):\n    for i in range(x.size):\n        y[i] = x[i]\n    return y", "def f(x, y):\n    for i in range(y.size):\n        y[i] = x[i]\n    return y", False)
C("store-order", "def f(x, i, j, a, b):\n    x[i] = a\n    x[j] = b\n    return x", "def f(x, i, j, a, b):\n    x[j] = b\n    x[i] = a\n    return x", False)
C("del", "def f(d, k):\n    del d[k]\n    return d", "def f(d, k):\n    return d", False)
C("assert", "def f(x):\n    assert x > 0\n    return x", "def f(x):\n    return x", False)
C("raise", "def f(x):\n    if x < 0:\n        raise ValueError(x)\n    return x", "def f(x):\n    if x < 0:\n        raise KeyError(x)\n    return x", False)
C("and-or", "def f(x, a, b):\n    if a > 0 and b > 0:\n        x[0] = 1\n    return x", "def f(x, a, b):\n    if a > 0 or b > 0:\n        x[0] = 1\n    return x", False)
C("arg-swap", "def f(a, b):\n    return g(a, b)", "def f(a, b):\n    return g(b, a)", False)
C("enumerate", "def f(x, y):\n    for i, v in enumerate(x):\n        y[i] = v", "def f(x, y):\n    for i in range(len(x)):\n        y[i] = x[i]", True)
C("zip", "def f(x, z, y):\n    for i, (a, b) in enumerate(zip(x, z)):\n        y[i] = a + b", "def f(x, z, y):\n    for i in range(len(x)):\n        y[i] = x[i] + z[i]", True)
C("update-in-loop", "def f(x):\n    d = dict()\n    for i in x:\n        d[i] = len(d)\n    return d", "def f(x):\n    d = dict()\n    for i in x:\n        d[i] = 0\n    return d", False)
C("len-grow", "def f(x, y):\n    r = []\n    for i in x:\n        y[i] = len(r)\n        r.append(i)\n    return r", "def f(x, y):\n    r = []\n    for i in x:\n        r.append(i)\n        y[i] = len(r)\n    return r", False)
C("pop-order", "def f(x):\n    a = x.pop()\n    b = x.pop()\n    return a, b", "def f(x):\n    b = x.pop()\n    a = x.pop()\n    return a, b", False)
C("next-order", "def f(p):\n    a = next(p)\n    b = next(p)\n    return a - b", "def f(p):\n    b = next(p)\n    a = next(p)\n    return a - b", False)
C("next-count", "def f(p):\n    next(p)\n    a = next(p)\n    return a", "def f(p):\n    a = next(p)\n    return a", False)
C("copy-field", "def f(o):\n    n = o.copy()\n    n.lon[:] = 0\n    return n", "def f(o):\n    n = o\n    n.lon[:] = 0\n    return n", False)
C("mask-then", "def f(x, m):\n    x[m] = 0\n    m = x > 1\n    return m", "def f(x, m):\n    m = x > 1\n    x[m] = 0\n    return m", False)
C("roll-sum", "def f(x, n):\n    for i in range(n):\n        x[i + 1] = x[i] + 1\n    return x", "def f(x, n):\n    for i in range(n):\n        x[n - i] = x[n - i - 1] + 1\n    return x", False)


# pairs that are not the same, or are written in another way (None: only told same when they are)
EQUAL = ("def f(l, s):\n    for j in range(4):\n        if not l[j]:", "def f(l, s):\n    for j in range(4):\n        if l[j]:\n            break\n        g(j)\n=")
KNOWN = ("yield i\n        s.append(i)", "g = lambda x: x + s\n    s = 3", "K = s", "x = s.read()", "nonlocal x", "l.resize(4)", 'print("a", file=s)')
for i, x in enumerate(open(os.path.join(V, "tools", "micro_pairs.txt")).read().split("=====\n")):
    a, b = x.split("-----\n")
    if any(k in x for k in KNOWN) or "return\n        g(j)\n-----" in x:
        continue
    C(f"pair{i}", a.strip(), b.strip(), False)


def main():
    names = [a for a in sys.argv[1:]]
    base = "py_eddy_tracker/generic.py"
    rp = os.path.join(V, "checker/ref/src", base)
    s = open(rp).read()
    s += "\nfrom numpy import zeros\n"
    A = s + "".join("\n\n" + a.replace("def f(", f"def f{i}(") for i, (_, a, b, _) in enumerate(CASES)) + "\n"
    B = s + "".join("\n\n" + b.replace("def f(", f"def f{i}(") for i, (_, a, b, _) in enumerate(CASES)) + "\n"
    R = os.path.join(V, "checker/ref")
    v = Validator(Program(R, overlay={rp: A}), Program(R, overlay={rp: B}))
    bad = 0
    for i, (n, _, _, same) in enumerate(CASES):
        if names and n not in names:
            continue
        r = v.compare(f"{PKG}.generic.f{i}")
        ok = same is None or (r.status == "same") == same
        # a case expected to be the same must at least not be told different
        if names or not ok:
            print("ok  " if ok else "BAD ", n, r.status, [str(x)[:100] for x in r.what[:3]])
        bad += not ok
    print(f"{bad} wrong of {len(CASES)}")


main()
