#!/usr/bin/env python3
"""Writes checker/vclosure.py: functions called by those a property is about, and functions which are (in the reviewed
reference) only called by them."""
import ast
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
from checker import vtable  # noqa
from checker.engine import Program  # noqa

SKIP = ("appli.gui", "gui.", "misc.", "data.", "featured_tracking.old_tracker")
P = Program(os.path.join(V, "checker/ref"))
by = {}
for f in P.functions.values():
    by.setdefault(f.node.name, []).append(f)
calls, callers = {}, {}
for f in P.functions.values():
    s = calls.setdefault(f.short, set())
    for n in ast.walk(f.node):
        w = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
        s.update(h.short for h in by.get(w, ()) if h is not f)
for a, s in calls.items():
    for b in s:
        callers.setdefault(b, set()).add(a)
COMMON = {"append", "copy", "update", "sort", "format", "index", "insert", "get", "load", "save", "write", "parse_args", "usage", "plot", "display", "__init__", "intern"}
direct = {}
for f in P.functions.values():
    s = direct.setdefault(f.short, set())
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            w = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
            if w not in COMMON and len(by.get(w, ())) == 1 and "<locals>" not in by[w][0].short and by[w][0] is not f:
                s.add(by[w][0].short)
out = ['"""Written by tools/closure.py: functions called by those of a property, and functions only reached through them"""\nCLOSURE = {\n']
for pid in vtable.TABLE:
    S0 = set(vtable.listed(pid))
    S = set(S0)
    if pid not in ("C25", "C26", "C09"):
        S |= {y for x in S0 for y in direct.get(x, ()) if not y.startswith(SKIP)}
    more = True
    while more and pid != "C25":
        more = False
        for x in list(S):
            for y in calls.get(x, ()):
                if y not in S and "<locals>" not in y and callers[y] <= S and not y.startswith(SKIP):
                    S.add(y)
                    more = True
    if S - S0:
        out.append(f'    "{pid}": """\n' + "".join(f"        {n}\n" for n in sorted(S - S0)) + '    """.split(),\n')
out.append("}\n")
open(os.path.join(V, "checker/vclosure.py"), "w").write("".join(out))
