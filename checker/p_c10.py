"""Effects of every function on what it is given, computed through calls on the value-flow graphs: parts of the parameters that are written (stores,
augmented assignments of arrays, methods that work in place, functions called), parts that become part of another object, parts that are returned as they are.
They are compared, parameter by parameter, with the effects of the reviewed definitions, which are those of the operations documented as in-place
(indexes, caches and fields set by the methods made for it). A function may have fewer effects, not others."""
from .alias import changes, gives, keeps
from .rules import *

FLOOR = 250
ASSUMPTIONS = [
    "library functions change nothing they are given, except the methods known to work in place and arguments `out`",
    "the result of a library call shares nothing with its arguments",
]
SKIP = ("gui.", "appli.gui", "misc.", "data.", "ColoredFormatter", "_version", "scripts.")


def name(f, p):
    """A parameter by its rank, whatever its name"""
    ps = f.params()
    return ps.index(p) if p in ps else p


def check(c, tier):
    c.rule("R1", "parts of a parameter that are changed are those that the reviewed definition changes", local=False)
    c.rule("R2", "no part of a parameter becomes a part of another object", local=False)
    c.rule("R3", "parts of a parameter returned as they are, are those that the reviewed definition returns", local=False)
    ref = c.validator().ref
    for q, f in sorted(c.prog.functions.items()):
        fr = ref.functions.get(q)
        if f.parent is not None or fr is None or f.short.startswith(SKIP):
            continue
        c.functions.add(q)
        same = c.compare(q).status == "same"
        for rid, fn, what in (("R1", changes, "is changed"), ("R2", keeps, "is shared with another object"), ("R3", gives, "is returned as it is")):
            now = fn(c.prog, f)
            if not now:
                c.ob(rid, f, True, "nothing", key="nothing")
                continue
            was = {(name(fr, k[0]), *k[1:]) for k in fn(ref, fr)}
            whole = {(k[0], k[1][:1]) for k in was}
            for k, e in sorted(now.items(), key=str):
                n = name(f, k[0])
                ok = (n, *k[1:]) in was or rid == "R1" and ((n, k[1][:1]) in whole or (n, ()) in was or not k[1] and ((n, ()) in was or any(w[0] == n and w[1][:1] and w[1][0].startswith("[") for w in was)))
                if not ok and same and rid != "R1":
                    ok = True
                part = ".".join([k[0], *(x.strip("[") or "items" for x in k[1])])
                c.ob(rid, f, ok, f"{part} {what}: {', '.join(sorted({str(x[0]) + '.' + '.'.join(x[1]) for x in was})) or 'nothing'} expected", e, key=part)
