import sys
from .engine import Program
p = Program()
for n in sys.argv[1:]:
    inl = ()
    if ":" in n:
        n, i = n.split(":"); inl = i.split(",")
    cands = [f for f in p.functions.values() if f.short == n or f.short.endswith("." + n)]
    for f in cands:
        g = p.vfg(f, inl)
        print("=====", f.short, "falls" if g.falls else "")
        for e in g.events: print("  ", e)
        for L in g.loops.values(): print("   LOOP", L.uid, L.kind, "iter", L.iter, "bound", L.bound, {k: v for k, v in L.back.items() if isinstance(k,str)}, "breaks", L.breaks)
