"""Arrays allocated without initial values (empty, empty_like, masked or not): for each allocation the stores that follow are collected on the value-flow graph, with
their indices, loops and conditions, and full coverage is proved: a store of the whole, a loop over each dimension whose bound is its size (or over a sequence of this size), alternatives
whose conditions cover all cases (decided on the truth table of their atoms), a mask and its complement, first elements then the others, every column, every field of the record,
or a mask that hides what is not written. Where the proof needs the meaning of counters, the function must equal its reviewed definition. No element is read before it is written."""
from . import uninit as U
from .rules import *

FLOOR = 150
ASSUMPTIONS = ["no comparison involves NaN: one of a < b and b <= a holds", "loops over sequences of the length of the array go through all of it"]


def check(c, tier):
    c.rule("R1", "every element of an array allocated without values is written before the array is used", local="hard")
    c.rule("R2", "no element is read before it is written", local="hard")
    ref = c.validator().ref
    for q, f in sorted(c.prog.functions.items()):
        if f.parent is not None:
            continue
        g = c.prog.vfg(f)
        todo = U.allocs(g)
        if not todo:
            continue
        c.functions.add(q)
        old, terms = {}, set()
        if q in ref.functions:
            gr = ref.vfg(ref.functions[q])
            for e in U.allocs(gr):
                s = U.coverage(gr, e)[0]
                old[s] = old.get(s, 0) + 1
                terms.add(show(e.term, 4))
        now = {}
        for e in todo:
            try:
                how, why = U.coverage(g, e)
            except (IndexError, KeyError, AttributeError, TypeError) as x:
                how, why = "other", str(x)
            key = show(e.term, 4)
            x = U.early(g, e)
            c.ob("R2", f, x is None, "elements are read before they are written", x or e, key)
            if how == "full":
                c.ob("R1", f, True, why, e, key)
                continue
            now[how] = now.get(how, 0) + 1
            st = c.compare(q).status if q in ref.functions else "open"
            if st == "same":
                c.ob("R1", f, True, "as in the reviewed definition: " + why, e, key)
            elif st == "differs" and (how != "given" or key not in terms):
                c.ob("R1", f, False, f"not shown to be written entirely ({why}), and the function is not its reviewed definition", e, key)
            elif how in ("none", "partial") and now[how] > old.get(how, 0):
                c.ob("R1", f, False, f"not written entirely: {why}", e, key)
            else:
                c.notes.append(f"{f.short}: {key}: {how} ({why})"[:300])
