"""Long, short and unused eddies.  The two selections of links are decided to be complementary (the two masks are the negation of each other for one
limit), to keep or drop whole identifiers in every date, to renumber with one table filled for the kept identifiers, and to leave the counter at the
number kept; unused observations of each date are decided to be the complement of both sides of its links; the application gives
one limit to both."""
from .rules import *

FLOOR = 30
C = "tracking.Correspondances."


def check(c, tier):
    c.rule("R1", "long and short selections are complementary tests of the length of whole trajectories")
    c.rule("R2", "kept identifiers are renumbered by one table, filled for all of them, in every date")
    c.rule("R3", "the counter and the table of lengths are those of the kept identifiers")
    c.rule("R4", "unused observations are those in no link with the date before nor after")
    c.rule("R5", "the application gives one limit to both selections, on two copies")
    masks = {}
    for n, lim, tests in (("longer_than", "size_min", ["self.nb_obs_by_tracks >= size_min", "size_min <= self.nb_obs_by_tracks"]), ("shorter_than", "size_max", ["self.nb_obs_by_tracks < size_max"])):
        g = c.g(C + n)
        S = g.p("self")
        nb = stores_at(g, "self", "nb_obs_by_tracks")
        ks = []
        for e in nb:
            ok = mt(g, e.val, [f"self.nb_obs_by_tracks[{t}]" for t in tests]) is not None
            c.ob("R1", g, ok, f"trajectories kept: {show(e.val, 5)}", e, "kept")
            if ok:
                ks.append(core(e.val).a[1])
        c.ob("R1", g, len(nb) == 1, "lengths of kept trajectories are not set", key="kept")
        if not ks:
            continue
        M = ks[0]
        masks[n] = (g, M)
        env = dict(_m=M, _k=expr(g, "where(_m)[0]", _m=M), _n=core(nb[0].val))
        any_ = ["_m.any()"]
        stop = [r for r in g.returns()]
        for r in stop:
            isf = isc(r.val, False)
            if isf:
                m = cond_ok(g, r, ["not _m.any()"], env=env)
                c.ob("R1", g, m is None, f"nothing is selected: {m}", r, "none")
        ids = [e for e in stores_at(g, "self", "current_id")]
        c.ob("R3", g, len(ids) == 1 and mt(g, ids[0].val, ["len(_n)", "_m.sum()", "count_nonzero(_m)", "len(where(_m)[0])", "_k.size", "self.nb_obs_by_tracks.size"], env) is not None and cond_ok(g, ids[0], [], allow=any_, env=env) is None, "the counter is not the number of kept trajectories", key="counter")
        # links
        st = [e for e in g.stores() if e.kind == "store_sub" and mt(g, e.base, "self") is not None]
        ok = [e for e in st if mt(g, e.val, ["self[_i][isin(self[_i]['id'], where(_m)[0])]", "self[_i][_m[self[_i]['id']]]", "self[_i][in1d(self[_i]['id'], where(_m)[0])]", "self[_i][isin(self[_i]['id'], _k)]"], dict(env, _i=core(e.idx))) is not None]
        c.ob("R1", g, len(ok) == 1 and len(st) == 1, "links kept are not those of kept trajectories", ok[0] if ok else (st[0] if st else None), "links")
        for e in ok:
            m = cond_ok(g, e, [], allow=any_, env=env)
            c.ob("R1", g, m is None, f"links: {m}", e, "links")
        # renumbering
        tr = [e for e in g.stores() if e.kind == "store_sub" and (mt(g, e.base, "self[_i]") is not None or find(g, e.base, "self[_i]") is not None) and isc(e.idx, "id")]
        c.ob("R2", g, len(tr) == 1, "kept links are not renumbered", key="renumber")
        for e in tr:
            r = mt(g, e.val, "_t[_x['id']]", dict(_x=core(e.base)))
            c.ob("R2", g, r is not None, f"identifiers become {show(e.val, 4)}", e, "renumber")
            c.ob("R2", g, all(e.seq > x.seq for x in ok), "identifiers are replaced before the selection", e, "after")
            if r is None:
                continue
            t = e.val.a[0]
            fs = [x for x in g.stores(t)]
            good = [x for x in fs if mt(g, x.idx, ["_m", "_k"], env) is not None and mt(g, x.val, ["arange(len(_n))", "arange(_m.sum())", "arange(self.current_id)", "arange(len(where(_m)[0]))", "arange(_k.size)"], env) is not None and x.seq < e.seq]
            cum = mt(g, t, ["_m.cumsum() - 1"], env) is not None
            c.ob("R2", g, (len(good) == 1 and len(fs) == 1) or cum, "the table of new identifiers is not filled for kept trajectories, in order", e, "table")
            al = [x for x in g.calls("numpy.empty", "numpy.zeros", "numpy.ones", "numpy.full") if x.val is t]
            for x in al:
                sz = carg(x.term, "shape", 0)
                w = find(g, sz, "_w.max(initial=_y)")
                oksz = find(g, sz, "where(_m)[0].max(initial=_y)", env=env) is not None or mt(g, sz, ["len(_m)", "len(self.nb_obs_by_tracks)", "_m.size"], env) is not None or (
                    find(g, sz, "where(_m)[0].max()", env=env) is not None and any(contains(y, lambda z: callee(z, "numpy.any")) or y.op in ("ne", "lt", "le", "not") for y in conjuncts(x.cond)))
                c.ob("R2", g, oksz, "the table of new identifiers does not hold all kept identifiers, or fails when there is none", x, "size")
    if len(masks) == 2:
        (g1, m1), (g2, m2) = masks["longer_than"], masks["shorter_than"]
        L = mk("sym", "limit")
        r1 = TT.subst(m1, {g1.p("size_min"): L, g1.p("self"): mk("sym", "s")})
        r2 = TT.subst(m2, {g2.p("size_max"): L, g2.p("self"): mk("sym", "s")})
        a, b = core(r1), core(r2)
        opp = not_(a) is b or {a.op, b.op} == {"le", "lt"} and a.a == b.a[::-1]
        c.ob("R1", g1, opp, f"selections are not complementary: {show(r1)} and {show(r2)}", key="complement")
    # --- unused
    g = c.g(C + "get_unused_data")
    ix = [e for e in g.calls(".index")]
    c.ob("R4", g, len(ix) == 1, "unused observations are not selected", key="unused")
    for e in ix:
        c.ob("R4", g, mt(g, carg(e.term, "reverse", 1), "True") is not None, "observations in links are selected instead of the others", e, "reverse")
        F = recv(e.term)
        i = None
        for x in walk(core(F)):
            if callee(x, ".load_file"):
                r = matches(g, x.a[1][0] if x.a[1] else carg(x, "filename", 0), "self.datasets[_i]", "open(self.datasets[_i], 'rb')")
                c.ob("R4", g, r is not None, "the file loaded is not that of the date", e, "date")
                i = r["_i"] if r else i
        t = core(carg(e.term, "index", 0))
        parts = cases(t)
        c.ob("R4", g, i is not None, "the date is not known", e, "date")
        if i is None:
            continue
        env = dict(_i=i)
        last = expr(g, "_i == len(self.datasets) - 1", **env)
        zero = expr(g, "_i == 0", **env)
        seen = set()
        for cs, v in parts:
            cj = set(conjuncts(and_(*cs)))
            if zero in cj:
                k = "first"
                ok = mt(g, v, ["self[_i]['in']", "self[0]['in']", "unique(self[_i]['in'])", "self[_i]['in'][_q]"], env) is not None
            elif last in cj:
                k = "last"
                ok = mt(g, v, ["self[_i - 1]['out']", "self[-1]['out']", "unique(self[_i - 1]['out'])"], env) is not None
            else:
                k = "others"
                A, B = expr(g, "self[_i - 1]['out']", **env), expr(g, "self[_i]['in']", **env)
                q = matches(g, v, "unique(concatenate((_a, _b)))", "concatenate((_a, _b))", "union1d(_a, _b)", "unique(hstack((_a, _b)))")
                ok = q is not None and any(x is A for x in (q["_a"], q["_b"]))
                if ok:
                    b = q["_b"] if q["_a"] is A else q["_a"]
                    sel = b.a[1] if b.op == "sub" and b is not B and b.a[0] is B else None
                    ok = b is B or sel is not None
                    if sel is not None:
                        for cs2, m in cases(sel):
                            if m.op == "slice":
                                okm = m.a == (NONE, NONE, NONE)
                                hv = [y for y in cs2 if contains(y, lambda z: isc(z, "virtual") or z.op == "field")]
                                c.ob("R4", g, okm, f"links of the date are restricted to {show(m)}", e, "restricted")
                            else:
                                c.ob("R4", g, mt(g, m, "~self[_i]['virtual']", env) is not None, f"links of the date are restricted to {show(m, 4)}", e, "restricted")
                    elif True:
                        c.ob("R4", g, False, "extrapolated observations are taken as rows of the date", e, "restricted")
            seen.add(k)
            c.ob("R4", g, ok, f"observations used ({k}): {show(v, 5)}", e, k)
        c.ob("R4", g, "others" in seen, "observations used at a date ignore one side", e, "sides")
    for r in g.returns():
        c.ob("R4", g, find(g, r.val, "_c.concatenate(_x)") is not None or contains(core(r.val), lambda y: callee(y, "concatenate", ".concatenate")), "unused observations of all dates are not joined", r, "joined")
    lp = [L for L in g.loops.values() if loop_over(g, L, "self.datasets")]
    c.ob("R4", g, bool(lp), "unused observations are not looked for in every date", key="dates")
    h = c.g("observations.observation.EddiesObservations.index")
    # --- application
    a = c.g("appli.eddies.track")
    lo, sh = a.calls(".longer_than"), a.calls(".shorter_than")
    c.ob("R5", a, len(lo) == 1 and len(sh) == 1, "both selections are not made", key="both")
    if lo and sh:
        x, y = carg(lo[0].term, "size_min", 0), carg(sh[0].term, "size_max", 0)
        c.ob("R5", a, x is not None and y is not None and core(x) is core(y), f"limits differ: {show(x)} and {show(y)}", lo[0], "limit")
        rl, rs = core(recv(lo[0].term)), core(recv(sh[0].term))
        cpy = lambda t, o: matches(a, t, "_o._copy()", env=dict(_o=o)) is not None
        c.ob("R5", a, cpy(rs, rl) or cpy(rl, rs), "selections are not made on two copies", sh[0], "copies")
        pm = a.calls(".prepare_merging")
        c.ob("R5", a, any(p.seq < min(lo[0].seq, sh[0].seq) for p in pm), "lengths are not computed before the selections", lo[0], "prepared")
        for s in a.calls("._copy"):
            c.ob("R5", a, all(s.seq < e.seq for e in (lo[0], sh[0])), "the copy is made after a selection", s, "copy first")
        mg = a.calls(".merge")
        for e in mg:
            r = core(recv(e.term))
            c.ob("R5", a, (r is rs and e.seq > sh[0].seq) or (r is rl and e.seq > lo[0].seq), "links are merged before the selection", e, "merged")
        nm = [e for e in mg if core(recv(e.term)) is rl]
        for e in nm:
            m = [y for y in conjuncts(e.cond) if contains(y, lambda z: callee(z, ".longer_than"))]
            c.ob("R5", a, len(m) >= 1, "long trajectories are merged when there is none", e, "no long")
        un = a.calls(".get_unused_data")
        c.ob("R5", a, len(un) == 1 and core(recv(un[0].term)) in (rl, rs) and all(un[0].seq < e.seq for e in (lo[0], sh[0])), "unused observations are looked for after links are removed", un[0] if un else None, "unused first")


def cases(t, cs=()):
    """(conditions, value) of each branch of a term"""
    if t.op == "ite":
        return cases(t.a[1], cs + (t.a[0],)) + cases(t.a[2], cs + (not_(t.a[0]),))
    return [(cs, t)]
