"""Names and attributes used exist. For each module, the names read are bound in a scope that encloses them; for each function, locals are bound by something before they
are read, on some path at least, and on every path where the reviewed definition does; attributes read on the receiver of a method are defined by its class, its bases, its
subclasses or are fields of observations; attributes written are among the slots; constructors set, on every path, the attributes that reviewed constructors set; names imported
from another module of the package exist there; methods of the package that are called exist. Constructors are compared with their reviewed definitions."""
from . import scopes as S
from .rules import *

FLOOR = 2500
ASSUMPTIONS = ["names are not added to a module or to an object by setattr with a computed name"]


def where(m, f):
    return f if f is not None else type("W", (), dict(short=m.name[len(PKG) + 1:] or PKG, path=m.path))()


def of_node(prog, m, node):
    for f in prog.functions.values():
        if f.node is node:
            return f
    return None


def check(c, tier):
    c.rule("R1", "names read are bound in an enclosing scope", local="hard")
    c.rule("R2", "no local is read before anything binds it", local="hard")
    c.rule("R3", "locals bound on every path in the reviewed definition still are")
    c.rule("R4", "attributes read on the receiver of a method exist", local="hard")
    c.rule("R5", "attributes written are slots of classes which have nothing else", local="hard")
    c.rule("R6", "constructors set the same attributes on every path as the reviewed ones", local=False)
    c.rule("R7", "names imported from the package exist", local="hard")
    c.rule("R8", "methods of the package which are called exist", local="hard")
    prog, ref = c.prog, c.validator().ref
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        bad = S.unresolved(m)
        for n, node, fn in bad:
            c.ob("R1", where(m, of_node(prog, m, fn)), False, f"name {n} is bound nowhere", node, n)
        c.ob("R1", where(m, None), True, f"{len(S.module_names(m))} names", key="module")
    for q, f in sorted(prog.functions.items()):
        if f.name == "__main__" or f.name == "__setup__":
            continue
        c.functions.add(q)
        x = S.Flow(f.node)
        for n, node in x.never.items():
            c.ob("R2", f, False, f"{n} is read before anything binds it", node, n)
        c.ob("R2", f, not x.never, "locals", key="locals")
        fr = ref.functions.get(q)
        if fr is not None:
            was = S.Flow(fr.node).maybe
            new = {n: v for n, v in x.maybe.items() if n not in was}
            c.ob("R3", f, len(x.maybe) <= len(was), f"{', '.join(new)} bound on some paths only", next(iter(new.values()), None), "paths")
    names = S.fields(prog)
    known = {}
    for f, k, a, node in S.reads_of_self(prog):
        if k not in known:
            known[k] = None if S.external(prog, k) else S.attributes(prog, k) | (names if S.dynamic(prog, k) else set())
        if known[k] is not None:
            c.ob("R4", f, a in known[k], f"{a} is no attribute of {k.name}", node, a)
    for f, k, a, node in S.writes_of_self(prog):
        ms = prog.mro(k)
        ss = [S.slots(x) for x in ms]
        if any(s is None for s in ss) or S.external(prog, k) or any(b for x in ms for b in x.node.bases if prog.resolve_expr(x.module, b) not in prog.classes and ast.unparse(b) != "object"):
            continue
        # a method may be used by subclasses which have more
        ok = any(a in s for s in ss) or any(a in x.setters for x in ms) or all(x.qual != k.qual for x in ms)
        c.ob("R5", f, ok, f"{a} is not a slot of {k.name}", node, a)
    for q, k in sorted(prog.classes.items()):
        kr = ref.classes.get(q)
        if kr is None:
            continue
        h, hr = prog.method(k, "__init__"), ref.method(kr, "__init__")
        if hr is None:
            continue
        if h is None:
            continue
        now, was = S.initialised(prog, h, k), S.initialised(ref, hr, kr)
        for a in sorted(was):
            used = any(isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Load) for m in prog.modules.values() for n in ast.walk(m.tree))
            c.ob("R6", h, a in now or not used, f"{a} of {k.name} is no longer set on every path of the constructor", h.node, f"{k.name}.{a}")
    for m, node, n, bad in S.imports(prog):
        c.ob("R7", where(m, None), bad is None, bad or "exists", node, n)
    have = {n for k in prog.classes.values() for n in (*k.methods, *k.attrs, *k.setters)} | set(dir(object))
    for k in prog.classes.values():
        have |= S.slots(k) or set()
    for m in prog.modules.values():
        have |= {n.attr for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    gone = {n for k in ref.classes.values() for n in k.methods} - have
    # names that objects of the libraries have as well
    gone -= {a.attr for m in ref.modules.values() for a in ast.walk(m.tree) if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and ref.resolve_expr(m, a) and not ref.resolve_expr(m, a).startswith(PKG)}
    from .options import ELSEWHERE
    from .vocab import USUAL

    gone -= USUAL | ELSEWHERE
    n = 0
    for q, f in sorted(prog.functions.items()):
        if f.parent is not None:
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                n += 1
                if x.attr in gone and prog.resolve_expr(f.module, x) not in prog.functions:
                    c.ob("R8", f, False, f"{x.attr} exists no longer", x, x.attr)
    c.ob("R8", where(prog.modules[PKG], None), True, f"{n} attributes read", key="attributes")
