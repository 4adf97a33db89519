"""Freeze the functions (with their parameters) and module/class constants of the tree the rules were written for."""
import json, os, sys
from .engine import Program, HERE

p = Program(sys.argv[1] if len(sys.argv) > 1 else None)
inv = {q: f.params() for q, f in sorted(p.functions.items()) if f.parent is None}
consts = [f"{m.name}.{n}" for m in p.modules.values() for n in m.consts]
consts += [f"{c.qual}.{n}" for c in p.classes.values() for n in c.attrs]
inv["__consts__"] = sorted(consts)
rets = []
for q, f in p.functions.items():
    if f.parent is None:
        g = p.vfg(f)
        rs = g.returns()
        if rs and not g.falls and not g.evs("yield") and not any(r.val.op == "const" and r.val.a[0] is None for r in rs):
            rets.append(q)
inv["__returns__"] = sorted(rets)
with open(os.path.join(HERE, "inventory.json"), "w") as h:
    json.dump(inv, h, indent=0, sort_keys=True)
print(len(inv))
