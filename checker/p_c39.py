"""State that survives a call. Defaults of parameters which are mutable are neither changed, nor kept, nor returned (effects on the value-flow graphs); tables of modules and
of classes are only changed where the reviewed package does (when it is loaded); what is computed once and kept depends on nothing that does not choose it, parameter by
parameter; no cache of the standard library is put on methods, whose object may change, or on functions of arrays. The functions that keep something are compared with their
reviewed definitions."""
from . import state as S
from .alias import changes, gives, keeps
from .rules import *

FLOOR = 550
ASSUMPTIONS = ["tables are changed through their name, an alias bound once, or the methods known to work in place"]


def check(c, tier):
    c.rule("R1", "mutable defaults are not changed, kept or returned", local="hard")
    c.rule("R2", "tables of modules and classes are not changed by functions", local="hard")
    c.rule("R3", "what is kept depends on what chooses it only")
    c.rule("R4", "no standard cache on methods or on functions of arrays", local="hard")
    prog, ref = c.prog, c.validator().ref
    allowed = {}
    for q, f in ref.functions.items():
        if f.parent is None:
            for n, _ in S.shared(ref, f):
                allowed.setdefault(n, set()).add(q)
    kept = {}
    for q, f in ref.functions.items():
        for w, d, _ in S.memos(ref, f):
            kept.setdefault(w, set()).add(len(d))
    n = 0
    for q, f in sorted(prog.functions.items()):
        if f.parent is not None:
            continue
        c.functions.add(q)
        ds = S.defaults(f)
        if ds:
            try:
                eff = [(w, fn(prog, f)) for w, fn in (("changed", changes), ("kept by another object", keeps), ("returned", gives))]
            except Broken:
                raise
            except Exception:
                eff = []
            for p, d in ds:
                for w, e in eff:
                    bad = [k for k in e if k[0] == p]
                    c.ob("R1", f, not bad, f"the default of {p} is {w}: it is the same object at each call", d, f"{p} {w}")
        bad = [(x, node) for x, node in S.shared(prog, f) if q not in allowed.get(x, ()) and not (f.name == "__setup__" and x in allowed)]
        for x, node in bad:
            c.ob("R2", f, False, f"{x} is changed: it is shared by all calls", node, x)
        c.ob("R2", f, not bad, "tables", key="tables")
        for w, deps, node in S.memos(prog, f):
            n += 1
            ok = not deps or max(kept.get(w, {0})) >= len(deps)
            c.ob("R3", f, ok, f"{w} is computed once, and depends on {', '.join(sorted(deps))}", node, w)
        for x, d in S.caches(f):
            ps = f.params()
            arr = any(isinstance(y, (ast.Subscript, ast.Attribute)) and isinstance(y.value, ast.Name) and y.value.id in ps for y in ast.walk(f.node))
            ok = f.cls is None and not arr and not any(isinstance(y, (ast.List, ast.Dict, ast.Set)) for r in ast.walk(f.node) if isinstance(r, ast.Return) and r.value for y in ast.walk(r.value))
            c.ob("R4", f, ok, f"{x}: results are kept although the object or the arrays they come from may change", d, x)
