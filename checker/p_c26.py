"""Listings (glob, listdir, scandir, walk, completion of parallel tasks): each is followed, in order of the statements and through the functions it is given to or
returned by, from the call to its uses; until it is sorted, it is only used where order is indifferent (length, membership, loops that change nothing but their own
element). Collections kept in an attribute are sorted before the function ends. The functions that list inputs and pair them with dates are compared with their reviewed definitions."""
from . import order as O
from .rules import *

FLOOR = 4


def check(c, tier):
    c.rule("R1", "listings are sorted before any use that depends on their order", local="hard")
    c.rule("R2", "listings kept or returned are sorted", local="hard")
    n = 0
    for q, x in sorted(O.functions(c.prog).items()):
        f = c.prog.functions[q]
        if not x.sources:
            continue
        c.functions.add(q)
        n += 1
        c.ob("R1", f, not x.bad, "; ".join(f"{ast.unparse(s)[:50]} is not sorted: {w}" for s, _, w in x.bad[:2]) or "sorted", x.bad[0][1] if x.bad else None, "use")
        left = {k: s for k, s in x.state.items() if "." in k and k.split(".")[0] in ("self", "cls", "new", "obj")}
        c.ob("R2", f, not left and (x.gives is None or x.called), f"{', '.join(left) or 'the result'} keeps the order of the listing", x.gives, "kept")
    if not n:
        raise Broken("no listing found")
