"""One-to-one matching.  Clauses decided on the value-flow graphs of the matching code: the
conflict solver works on every row and column that has more than one candidate, it activates a
couple only after it has withdrawn all the other candidates of both members (in the answer and in
the costs it goes on choosing from), it takes the couple of lowest remaining cost and goes on until
no candidate is left; nothing outside the accepted candidates can be activated; the cost matrix is
filled for the very couples that were accepted, and couples sharing an observation are refused or
removed before they are returned."""
from .rules import *

FLOOR = 20
OBS = "observations.observation.EddiesObservations."
ASSUMPTIONS = [
    "numpy/numba primitives (where, argmin, any, masked arrays) behave as documented",
    "candidate acceptance itself (distances, ellipses, overlap values) is numerical and not decided here",
]


def both_cleared(c, g, rid, mult=None):
    acts = [e for e in g.stores() if e.kind == "store_sub" and e.val is TRUE and e.base.op == "sub" and e.loops]
    c.ob(rid, g, len(acts) >= 1, "no couple is ever activated", key="activation")
    for e in acts:
        M, I, J = e.base.a[0], e.base.a[1], e.idx
        before = [f for f in g.stores() if f.kind == "store_sub" and f.seq < e.seq and f.loops == e.loops and f.val is FALSE and f.base is M]

        def ok(f, extra=()):
            return all(x in conjuncts(e.cond) or x in extra for x in conjuncts(f.cond) if x is not TRUE)

        extra = [not_(mult)] if mult is not None else []
        c.ob(rid, g, any(f.idx is I and ok(f) for f in before),
             "a couple is activated without first withdrawing the other candidates of its first member", e, "row")
        full = mk("slice", NONE, NONE, NONE)
        c.ob(rid, g, any(f.idx is mk("tuple", full, J) and ok(f, extra) for f in before),
             "a couple is activated without first withdrawing the other candidates of its second member", e, "column")
        # the costs still to be chosen from
        i = I.a[1] if I.op == "sub" else None
        j = J.a[1] if J.op == "sub" else None
        costs = [f for f in g.stores() if f.kind == "store_sub" and f.loops == e.loops and f.val is TRUE and f.base.op == "attr" and f.base.a[1] == "mask"]
        c.ob(rid, g, any(f.idx is i and ok(f) for f in costs),
             "the costs of the first member stay available after it has been used", e, "cost row")
        c.ob(rid, g, any(f.idx is mk("tuple", full, j) and ok(f, extra) for f in costs),
             "the costs of the second member stay available after it has been used", e, "cost column")
        yield e, M, I, J, i, j


def conflict_set(c, g, M, I, J, e):
    """I / J come from the rows / columns with more than one link, and those they touch"""
    env = dict(_M=core(M))
    cnt = (["sum_row_column(_M)[0]", "_M.sum(axis=1)", "count_nonzero(_M, axis=1)"], ["sum_row_column(_M)[1]", "_M.sum(axis=0)", "count_nonzero(_M, axis=0)"])
    own = [[expr(g, t, **env) for n in k for t in (f"1 < {n}", f"{n} >= 2")] for k in cnt]
    trig = [expr(g, t, _k=o) for k in own for o in k for t in ("_k.any()",)]
    for name, K, ax in (("rows", I, 0), ("columns", J, 1)):
        t = core(K.a[0]) if K.op == "sub" else core(K)
        body = None
        for p in ("where(_b)[0]", "nonzero(_b)[0]", "flatnonzero(_b)"):
            r = matches(g, t, p)
            if r is not None:
                body = r["_b"]
        alts = []
        if body is not None:
            r = body.op in ("or", "add") and list(body.a) or (callee(body, "numpy.logical_or") and list(body.a[1])) or []
            alts = [core(x) for x in r]
        c.ob("R2", g, any(x in own[ax] for x in alts), f"{name} to solve are not selected on 'more than one candidate'", e, f"{name} own")
        lk = [expr(g, p, _M=core(M), _k=o) for o in own[1 - ax] for p in (("_M[:, _k].any(axis=1)", "_M[:, where(_k)[0]].any(axis=1)") if ax == 0 else ("_M[_k].any(axis=0)", "_M[where(_k)[0]].any(axis=0)"))]
        c.ob("R2", g, any(x in lk for x in alts), f"{name} in competition for a contested observation are left out of the conflict", e, f"{name} linked")
        c.ob("R2", g, len(alts) == 2, f"{name} to solve must satisfy both conditions instead of one of them", e, f"{name} union")
    # when is it solved
    for x in conjuncts(and_(*g.loops[e.loops[0]].guard)):
        if x is TRUE:
            continue
        if find(g, x, "sum_row_column(_)", "_.any()") is not None and not contains(x, lambda y: y.op == "iter" or y.op == "loop"):
            alts = [x] if x.op != "or" else list(x.a)
            kinds = {0 if y in [expr(g, "_k.any()", _k=o) for o in own[0]] else 1 if y in [expr(g, "_k.any()", _k=o) for o in own[1]] else None for y in alts}
            big = x.op in ("lt", "le") and len(alts) == 1 and find(g, x, "max(_a, _b)") is not None and isnum(x.a[0]) and (x.a[0].a[0], x.op) in ((1, "lt"), (2, "le"))
            c.ob("R2", g, kinds == {0, 1} or big, f"conflicts are only solved if {show(x, 5)}", e, "trigger")


def check(c, tier):
    c.rule("R1", "a couple is activated only after every other candidate of both members is withdrawn, in the answer and in the costs")
    c.rule("R2", "every row and column with more than one candidate, and those linked to them, enters the conflict resolution")
    c.rule("R3", "the couple activated is the remaining one of lowest cost, and the resolution goes on until none is left")
    c.rule("R4", "the starting answer is the set of candidates which are not masked")
    c.rule("R5", "costs are computed on, and stored at, the accepted couples; others are masked")
    c.rule("R6", "the couples returned come from the conflict solver through the duplicate check")
    c.rule("R7", "couples sharing an observation never leave the duplicate check")
    # --- solver
    g = c.g(OBS + "solve_simultaneous")
    for e, M, I, J, i, j in both_cleared(c, g, "R1"):
        conflict_set(c, g, M, I, J, e)
        c.ob("R4", g, matches(g, M, "~cost.mask", "logical_not(cost.mask)") is not None, "the answer does not start from the unmasked candidates", e, "start")
        C = [f.base.a[0] for f in g.stores() if f.base.op == "attr" and f.base.a[1] == "mask" and f.loops == e.loops]
        C = C[0] if C else None
        am = [x for x in g.deps(i) if callee(x, "numpy.argmin")] if i is not None else []
        am2 = [x for x in g.deps(j) if callee(x, "numpy.argmin")] if j is not None else []
        ok = bool(am and am2) and C is not None and all(unnew(x).a[1][0] is C for x in am + am2)
        c.ob("R3", g, ok, "the couple is not the argmin of the remaining costs", e, "lowest")
        if ok:
            n = expr(g, "_c.shape[1]", _c=core(C))
            a = core(am[0])
            ii, jj = core(i), core(j)
            p = "int(_a // _n)", "floor(_a / _n).astype(int)", "(_a / _n).astype(int)", "int(_a / _n)", "_a // _n", "int(floor(_a / _n))", "divmod(_a, _n)[0]", "unravel_index(_a, _)[0]"
            q = "_a % _n", "divmod(_a, _n)[1]", "int(_a % _n)", "_a - _n * (_a // _n)", "unravel_index(_a, _)[1]"
            env = dict(_a=a, _n=n)
            okr = any(match(expr(g, x, **{k: v for k, v in env.items()}), ii) is not None for x in p)
            okc = any(match(expr(g, x, **{k: v for k, v in env.items()}), jj) is not None for x in q)
            c.ob("R3", g, okr and okc, f"row/column of the lowest cost are not its quotient/remainder by the number of columns: {show(ii,4)}, {show(jj,4)}", e, "position")
            # sub-matrix and index tables agree
            sub1 = expr(g, "cost[_i][:, _j]", _i=core(I.a[0]), _j=core(J.a[0]))
            sub2 = expr(g, "cost[_i[:, None], _j]", _i=core(I.a[0]), _j=core(J.a[0]))
            sub3 = expr(g, "cost[ix_(_i, _j)]", _i=core(I.a[0]), _j=core(J.a[0]))
            c.ob("R3", g, core(C) in (sub1, sub2, sub3), "the costs solved are not those of the rows and columns in conflict", e, "sub-matrix")
            L = g.loops[e.loops[-1]]
            cond = L.test
            ok_end = cond is not None and any(matches(g, x, "False in _c.mask", "not _c.mask.all()", "(~_c.mask).any()", "not all(_c.mask)", env=dict(_c=core(C))) is not None for x in conjuncts(cond))
            if cond is TRUE:
                ok_end = any(matches(g, x, "False not in _c.mask", "_c.mask.all()", "not (~_c.mask).any()", env=dict(_c=core(C))) is not None for b in L.breaks for x in b)
            c.ob("R3", g, ok_end, "the resolution does not go on until every competing cost is used", e, "until done")
    for r in g.returns():
        c.ob("R4", g, matches(g, r.val, "~cost.mask") is not None, "what is returned is not the solved answer", r, "returned")
    for e in [x for x in g.stores() if x.val is TRUE and x.base.op == "sub" and x.loops]:
        for x in conjuncts(e.cond):
            if x in conjuncts(and_(*g.loops[e.loops[0]].guard)) and contains(x, lambda y: callee(y, "numpy.any")) or find(g, x, "False in _") is not None or find(g, x, "_.mask.all()", "(~_.mask).any()") is not None:
                continue
            ok = mt(g, x, ["(~cost.mask).size != 0", "cost.mask.size != 0", "cost.size != 0", "(~cost.mask).size > 0"]) is not None
            # safety counter: stops after as many couples as can be made
            r = matches(g, x, "_i <= max(_s.shape)", "_i < max(_s.shape)", "_i <= min(_s.shape)", "not max(_s.shape) < _i", "_i <= sum(_s.shape)", "_i <= _s.size")
            ok = ok or r is not None
            c.ob("R3", g, ok, f"conflicts are only solved while {show(x, 5)}", e, "condition")
    for r in g.returns():
        for x in conjuncts(r.cond):
            if x is not TRUE:
                c.ob("R4", g, mt(g, x, ["(~cost.mask).size == 0", "cost.mask.size == 0", "cost.size == 0", "(~cost.mask).size != 0", "cost.mask.size != 0", "cost.size != 0"]) is not None or contains(x, lambda y: callee(y, "numpy.any")), f"the answer is returned before conflicts are solved if {show(x, 5)}", r, "early")
        if any(mt(g, x, ["(~cost.mask).size != 0", "cost.size != 0", "cost.mask.size != 0"]) is not None for x in conjuncts(r.cond)):
            c.ob("R4", g, all(r.seq > e.seq for e in g.stores() if e.loops), "the answer is returned before conflicts are solved", r, "early")
    am = g.calls("numpy.argmin")
    c.ob("R3", g, bool(am), "the lowest cost is not looked for", key="argmin")
    EMPTY = ["(~cost.mask).size != 0", "cost.mask.size != 0", "cost.size != 0", "(~cost.mask).size > 0", "cost.size > 0"]
    for nm in ("solve_simultaneous", "solve_first"):
        g = c.g(OBS + nm)
        for e in g.calls("numpy.max"):
            a = carg(e.term, "a", 0)
            if mt(g, a, ["sum_row_column(_)[_]", "_.sum(axis=_)"]) is not None and carg(e.term, "initial") is None:
                c.ob("R4", g, any(mt(g, x, EMPTY) is not None for x in conjuncts(e.cond)), "the resolution fails when one side has no eddy", e, "empty")
    # --- the variant that allows several links towards one observation
    g = c.g(OBS + "solve_first")
    mult = g.p("multiple_link")
    for e, M, I, J, i, j in both_cleared(c, g, "R1", mult):
        conflict_set(c, g, M, I, J, e)
        c.ob("R4", g, matches(g, M, "~cost.mask") is not None, "the answer does not start from the unmasked candidates", e, "start")
        K = [f.base.a[0] for f in g.stores() if f.kind == "store_sub" and f.base.op == "attr" and f.base.a[1] == "mask" and f.loops == e.loops]
        K = core(K[0]) if K else None
        ok = K is not None and K in [expr(g, p, _i=core(I.a[0]), _j=core(J.a[0])) for p in ("cost[_i][:, _j]", "cost[_i[:, None], _j]", "cost[ix_(_i, _j)]")]
        c.ob("R3", g, ok, "the costs solved are not those of the rows and columns in conflict", e, "sub-matrix")
        if K is not None:
            c.ob("R3", g, matches(g, j, "_K[_i].argmin()", env=dict(_K=K, _i=core(i))) is not None, f"the second member is not the one of lowest remaining cost: {show(j, 5)}", e, "lowest")
            L = g.loops[e.loops[-1]]
            c.ob("R3", g, loop_over(g, L, "_K", dict(_K=K)) and isnum(L.start) and L.start.a[0] == 0, "not every first member in conflict is solved", e, "all rows")
            msk = [x for x in conjuncts(e.cond) if contains(x, lambda y: y is i or y is core(i))]
            okm = ["not hasattr(_K[_i, _j], 'mask')", "_K[_i, _j] is not masked", "not _K.mask[_i, _j]", "not _K.mask[_i].all()"]
            c.ob("R3", g, len(msk) == 1 and mt(g, msk[0], okm, dict(_K=K, _i=core(i), _j=core(j))) is not None, "a couple is activated when no candidate is left, or not when one is", e, "left")
            for x in g.stores():
                if isc(x.val, False) and x.base is M and x.idx.op == "tuple" or (x.val is TRUE and x.idx.op == "tuple"):
                    c.ob("R1", g, not_(mult) in conjuncts(x.cond), "the second member is withdrawn although several links are allowed", x, "multiple")
    # --- counts
    g = c.g("observations.observation.sum_row_column")
    st = [e for e in g.stores() if e.kind == "store_sub"]
    vec = [r for r in g.returns() if any(callee(x, "numpy.sum") for x in walk(r.val))]
    for r in g.returns():
        if st and r.val.op == "tuple" and len(r.val.a) == 2:
            for k, nm in ((0, "row"), (1, "column")):
                obj = r.val.a[k]
                ss = [e for e in st if e.base is obj]
                ok = len(ss) >= 1 and all(
                    add(e.val, neg(mk("sub", obj, e.idx))) is TT.num(1)
                    and any(
                        x.op == "sub" and (x.a[1] if k else x.a[0].a[1] if x.a[0].op == "sub" else None) is e.idx
                        for x in conjuncts(e.cond)
                    )
                    for e in ss
                )
                c.ob("R2", g, ok, f"the number of candidates by {nm} is not one per accepted couple", r, f"count {nm}")
                okz = matches(g, obj, f"zeros(mask.shape[{k}])", f"zeros(mask.shape[{k}], dtype=_)") is not None
                for e in ss:
                    Ls = [g.loops[u] for u in e.loops]
                    okz = okz and len(Ls) == 2 and loop_over(g, Ls[0], "mask") and any(matches(g, L.bound, "mask.shape[1]", "mask[_i].shape[0]", "mask[0].shape[0]") is not None for L in Ls if L.bound is not None)
                c.ob("R2", g, okz, f"candidates are not all counted by {nm}", r, f"all {nm}")
        else:
            c.ob("R2", g, find(g, r.val, "_m.sum(axis=1)") is not None and find(g, r.val, "_m.sum(axis=0)") is not None, "numbers of candidates by row and by column are not both counted", r, "count")
    # --- association
    for name in (OBS + "tracking", "featured_tracking.area_tracker.AreaTracker.tracking"):
        g = c.g(name)
        for r in g.returns():
            v = r.val
            ok = v.op == "tuple" and len(v.a) == 3
            c.ob("R6", g, ok, "indices of both members and the costs are not returned together", r, "triple")
            if not ok:
                continue
            A, B, K = v.a
            pp = A.a[0] if A.op == "sub" else A
            c.ob("R6", g, A.op == "sub" and isc(A.a[1], 0) and B.op == "sub" and isc(B.a[1], 1) and B.a[0] is pp and callee(pp, ".post_process_link"),
                 "couples are returned without (or not as given by) the duplicate check", r, "duplicate check")
            if callee(pp, ".post_process_link"):
                s, o = carg(pp, "i_self", 1), carg(pp, "i_other", 2)
                ok = s is not None and s.op == "sub" and isc(s.a[1], 0) and o is not None and o.op == "sub" and isc(o.a[1], 1) and s.a[0] is o.a[0] and callee(s.a[0], ".solve_function")
                c.ob("R6", g, ok, "the duplicate check is not given the couples of the solver", r, "solver")
                c.ob("R6", g, matches(g, recv(pp), "self") is not None and (not ok or matches(g, recv(s.a[0]), "self") is not None), "the checks of another tracker are used", r, "receiver")
                K0 = K.a[0].a[0] if K.op == "sub" and K.a[0].op == "sub" else None
                c.ob("R6", g, ok and K0 is not None and K0 is carg(s.a[0], "cost_matrix", 0), "costs returned are not those given to the solver", r, "matrix")
                c.ob("R6", g, carg(pp, "other", 0) is g.p("other"), "the duplicate check is not given the other observations", r, "other")
            c.ob("R6", g, K.op == "sub" and K.a[1] is B and K.a[0].op == "sub" and K.a[0].a[1] is A, "costs returned are not those of the couples returned", r, "costs")
    g = c.g(OBS + "tracking")
    sm = [e for e in g.calls(".solve_function")]
    for e in sm:
        C = carg(e.term, "cost_matrix", 0)
        acc = None
        for f in g.stores(C):
            if f.kind == "store_attr" and f.idx == "mask":
                acc = not_(f.val)
        ok = acc is not None and matches(g, acc, "self.mask_function(other, self.distance(other))") is not None
        c.ob("R5", g, ok, "couples which are not accepted are not masked in the cost matrix", e, "masked")
        if not ok:
            continue
        c.ob("R5", g, matches(g, C, "ma.empty(_a.shape, dtype=_)", "ma.empty(_a.shape)", "ma.zeros(_a.shape, dtype=_)", "ma.masked_all(_a.shape, dtype=_)", "ma.empty((len(self), len(other)), dtype=_)", env=dict(_a=core(acc))) is not None, f"the cost matrix does not have one row by observation of self and one column by observation of other: {show(C, 4)}", e, "shape")
        c.ob("R5", g, matches(g, recv(e.term), "self") is not None, "the solver of another tracker is used", e, "solver of")
        c.ob("R5", g, all(f.seq < e.seq for f in g.stores(C)), "the solver runs before the costs are known", e, "order")
        fill = [f for f in g.stores(C) if f.kind == "store_sub"]
        ok = bool(fill) and all(f.idx is acc and callee(f.val, ".cost_function") for f in fill)
        c.ob("R5", g, ok, "costs are not stored at the accepted couples", e, "stored")
        for f in fill:
            if not callee(f.val, ".cost_function"):
                continue
            ri, ro, d = (carg(f.val, n, k) for k, n in enumerate(("records_in", "records_out", "distance")))
            env = dict(_a=core(acc), other=g.p("other"))
            c.ob("R5", g, matches(g, ri, "self.obs[where(_a)[0]]", env=env) is not None, "cost: records on the starting side are not the accepted ones of self", f, "in")
            c.ob("R5", g, matches(g, ro, "other.obs[where(_a)[1]]", env=env) is not None, "cost: records on the target side are not the accepted ones of other", f, "out")
            c.ob("R5", g, matches(g, d, "self.distance(other)[_a]", env=env) is not None, "cost: distances are not those of the accepted couples", f, "distance")
    # --- area tracker : candidates by overlap
    g = c.g("featured_tracking.area_tracker.AreaTracker.tracking", inline=("featured_tracking.area_tracker.mask_cmin",))
    un = [e for e in g.stores() if e.kind == "store_sub" and e.val is FALSE]
    c.ob("R5", g, len(un) >= 1, "no overlapping couple is ever made available", key="overlap available")
    mt_ = [e.val for e in g.calls(".match")]
    for e in g.calls(".match"):
        c.ob("R5", g, matches(g, recv(e.term), "self") is not None and matches(g, carg(e.term, "other", 0), "other") is not None, "overlaps are not those of self with other", e, "overlap of")
        fl = [k for k in ("method", "minimal_area", "percent_min") if carg(e.term, k) is not None]
        c.ob("R5", g, not fl, f"the default overlap is not used ({fl})", e, "overlap kind")
    for e in g.calls(".solve_function"):
        C = core(carg(e.term, "cost_matrix", 0))
        r = matches(g, C, "ma.array(_d, mask=_m)", "ma.array(data=_d, mask=_m)", "ma.masked_array(_d, mask=_m)")
        sh = ["(self.shape[0], other.shape[0])", "(len(self), len(other))", "(self.obs.shape[0], other.obs.shape[0])", "(self.obs.size, other.obs.size)"]
        ok = r is not None and all(mt(g, r[k].a[1][0] if r[k].op == "call" and r[k].a[1] else r[k], sh) is not None for k in ("_d", "_m"))
        c.ob("R5", g, ok, f"the cost matrix does not have one row by observation of self and one column by observation of other: {show(C, 5)}", e, "overlap shape")
    for e in un:
        cj = conjuncts(e.cond)
        ok = any(x.op == "lt" and matches(g, x.a[0], "self.cmin") is not None and any(y in mt_ for y in walk(x.a[1])) for x in cj)
        c.ob("R5", g, ok, "a couple is made available without an overlap above the minimum", e, "overlap minimum")
        setv = [f for f in g.stores() if f.kind == "store_sub" and f is not e and f.loops == e.loops and f.idx is e.idx]
        ok = any(matches(g, f.val, "1 - _s") is not None and any(y in mt_ for y in walk(f.val)) for f in setv)
        c.ob("R5", g, ok, "the cost of an overlapping couple is not one minus its score", e, "overlap cost")
        I = e.base.a[1] if e.base.op == "sub" else None
        ok = I is not None and mt_ and I.op == "sub" and e.idx.op == "sub" and matches(g, I.a[0], "_m[0]", env=dict(_m=core(mt_[0]))) is not None and matches(g, e.idx.a[0], "_m[1]", env=dict(_m=core(mt_[0]))) is not None and I.a[1] is e.idx.a[1]
        c.ob("R5", g, bool(ok), "a couple is not placed at (self index, other index) of the match", e, "overlap place")
    for e in g.calls("numpy.ma.array"):
        m = carg(e.term, "mask", 2)
        c.ob("R5", g, m is not None and callee(m, "numpy.ones"), "couples without overlap are not all masked at first", e, "overlap masked")
    # --- solvers used by each matching class
    for cn, alt in ((OBS[:-1], None), ("featured_tracking.area_tracker.AreaTracker", None), ("featured_tracking.old_tracker_reference.CheltonTracker", True)):
        k = c.prog.cls(cn)
        f = c.prog.method(k, "solve_function")
        g = c.prog.vfg(f)
        c.functions.add(f.qual)
        for r in g.returns():
            ok = find(g, r.val, "self.solve_simultaneous(cost_matrix)") or find(g, r.val, "self.solve_first(cost_matrix, _)", "self.solve_first(cost_matrix)", "self.solve_first(cost_matrix, multiple_link=_)")
            ok = ok is not None and callee(r.val, "numpy.where", "observation.numba_where")
            c.ob("R6", f, ok, "couples do not come from a conflict solver", r, "solve " + cn.split(".")[-1])
        multi = any(isc(carg(e.term, "multiple_link", 1) or FALSE, True) for e in g.calls(".solve_first"))
        pp = c.prog.method(k, "post_process_link")
        h = c.prog.vfg(pp)
        c.functions.add(pp.qual)
        uniq = ["unique(i_other).shape[0] != i_other.shape[0]", "unique(i_other).size != i_other.size", "unique(i_other).size != i_other.shape[0]", "len(set(i_other)) != len(i_other)"]
        if not multi:
            rs = [e for e in h.evs("raise") if guarded(h, e, *uniq) and len(conjuncts(e.cond)) == 1]
            c.ob("R7", pp, bool(rs), "couples sharing an observation are let through", key="raise " + cn.split(".")[-1])
            for r in h.returns():
                c.ob("R7", pp, matches(h, r.val, "(i_self, i_other)") is not None, "couples are altered", r, "same")
        else:
            for r in h.returns():
                ok = r.val.op == "tuple" and len(r.val.a) == 2
                t = r.val.a
                ok = ok and find(h, t[0], "i_self[_m]") is not None and find(h, t[1], "i_other[_m]") is not None
                c.ob("R7", pp, ok, "surplus couples are not removed from both members", r, "removed both")
                for x in t:
                    q = [y for y in walk(core(x)) if matches(h, y, "i_self[_m]", "i_other[_m]") is not None and y.op == "sub"]
                    c.ob("R7", pp, bool(q) and all(callee(y.a[1], "numpy.ones") for y in q), "couples kept are not those of the mask", r, "kept mask")
                    for cs in [z for z in walk(core(x)) if z.op == "ite"]:
                        c.ob("R7", pp, mt(h, cs.a[0], uniq, None) is not None or mt(h, not_(cs.a[0]), uniq, None) is not None, f"surplus couples are only removed if {show(cs.a[0], 4)}", r, "when")
            # each contested observation keeps one couple: the one of largest amplitude
            ev = [e for e in h.stores() if e.val is FALSE and e.loops]
            keep = [e for e in ev if find(h, e.idx, "self.amplitude[i_self[_m]].argmax()") is not None]
            for f in ev:
                L = h.loops[f.loops[-1]]
                lo = [p for q in ("bincount(i_other)",) for p in (f"where({q} > 1)[0]", f"where({q} >= 2)[0]", f"flatnonzero({q} > 1)", f"nonzero({q} > 1)[0]", "unique(i_other)", "set(i_other)")]
                c.ob("R7", pp, loop_over(h, L, lo), "not every shared observation is looked at", f, "all shared")
                if f in keep:
                    m = f.base
                    w = matches(h, f.idx, "where(_m)[0][self.amplitude[i_self[_m]].argmax()]", env=dict(_m=core(m)))
                    c.ob("R7", pp, w is not None, f"the couple kept is {show(f.idx, 5)}", f, "kept which")
                    it = core(m)
                    c.ob("R7", pp, matches(h, m, "_e == i_other", env=dict(_e=core(h.iter_elem(L, L.iter))) if L.iter is not None else {}) is not None, "couples compared are not those of the shared observation", f, "shared which")
            c.ob("R7", pp, len(keep) >= 1, "the couple kept is not the one of largest amplitude", key="kept")
            for e in keep:
                m = e.base
                c.ob("R7", pp, matches(h, m, "i_other == _i") is not None, "couples compared do not share the same observation", e, "shared")
                c.ob("R7", pp, any(f.idx is m and f.seq > e.seq and f.loops == e.loops and callee(f.base, "numpy.ones") for f in ev), "the other couples are not removed", e, "dropped")
