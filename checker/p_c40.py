"""Compiled functions mean what their Python source means. Each function compiled by numba: no option lets the compiler forget NaN or infinities where they are tested, and
options that change arithmetic are those of the reviewed definitions; what it calls in the package is compiled; signatures have as many arguments as the function; values of the
module it reads are never rebound nor changed (they are frozen when it is compiled); iterations of loops made parallel exchange nothing. All compiled functions are compared with
their reviewed definitions."""
from . import kernels as K
from . import state as S
from .rules import *

FLOOR = 300
ASSUMPTIONS = ["numba compiles what it accepts as the language specifies, when no option says otherwise"]


def check(c, tier):
    c.rule("R1", "no NaN or infinity is tested by a function compiled as if there were none", local="hard")
    c.rule("R2", "options that change arithmetic are those of the reviewed definition", local="hard")
    c.rule("R3", "functions of the package called by a compiled function are compiled", local="hard")
    c.rule("R4", "signatures have the arguments of the function", local="hard")
    c.rule("R5", "values of the module read by a compiled function never change", local="hard")
    c.rule("R6", "iterations of a parallel loop exchange nothing", local="hard")
    prog, ref = c.prog, c.validator().ref
    changed = {}
    for q, f in prog.functions.items():
        if f.parent is None and f.name != "__setup__":
            for n, node in S.shared(prog, f):
                changed.setdefault((f.module.name, n), node)
    n = 0
    for q, f in sorted(prog.functions.items()):
        d = K.decorator(f)
        if d is None:
            continue
        n += 1
        c.functions.add(q)
        fm, par, em = K.option(d, "fastmath"), K.option(d, "parallel"), K.option(d, "error_model")
        fr = ref.functions.get(q)
        dr = K.decorator(fr) if fr is not None else None
        if K.nanflags(fm):
            bad = K.tests_nan(f)
            c.ob("R1", f, not bad, f"compiled as if there were no NaN, and {ast.unparse(bad[0])[:40] if bad else ''} asks for one", bad[0] if bad else None, "nan")
            if dr is not None:
                c.ob("R2", f, K.nanflags(K.option(dr, "fastmath")), "compiled as if there were no NaN, what its inputs may hold", d, "fastmath")
        if dr is not None:
            e, er = (ast.unparse(x) if x is not None else "'python'" for x in (em, K.option(dr, "error_model")))
            c.ob("R2", f, e == er, f"divisions by zero are {e} instead of {er}", d, "errors")
        for s, k in K.signatures(d):
            c.ob("R4", f, k == len(f.params()), f"{k} arguments in a signature, {len(f.params())} in the function", s, "arguments")
        for x in K.names_loaded(f):
            h = prog.functions.get(prog.resolve_expr(f.module, x))
            if h is not None and h.cls is None:
                c.ob("R3", f, K.decorator(h) is not None, f"{h.name} is not compiled", x, h.name)
            elif x.id in f.module.consts or (prog.resolve_expr(f.module, x) or "").startswith(PKG):
                m, _, v = (prog.resolve_expr(f.module, x) or "").rpartition(".")
                node = changed.get((f.module.name, x.id)) or changed.get((m, v))
                c.ob("R5", f, node is None, f"{x.id} is changed by the package, and was frozen when the function was compiled", x, x.id)
        if K.on(par):
            for L in K.parallel_loops(f):
                bad = K.carried(L)
                c.ob("R6", f, not bad, f"{', '.join(x for x, _ in bad[:3])} goes from an iteration to another", bad[0][1] if bad else L, "loop")
        c.ob("R2", f, True, "options", key="options")
    if n < 80:
        raise Broken(f"{n} compiled functions found")
