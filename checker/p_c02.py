"""Identity of trajectories.  Clauses decided on the graphs of the tracking code: a matched
observation takes the identifier its predecessor had (real or virtual), others draw from a counter
that only moves forward by the number of identifiers it hands out, after inherited ones are known;
what is lost is exactly what the last step did not continue, is extrapolated from the two positions of the same
trajectory, and only while the extension limit is not reached; only the listed functions write the
counter; joining two results keeps the identifiers of the first at the junction and shifts the others past the counter."""
from .rules import *

FLOOR = 45
C = "tracking.Correspondances."
ASSUMPTIONS = ["observations are stored in one file per date; numpy set operations behave as documented"]
MAXID = ["self.UINT32_MAX", "4294967295"]


def check(c, tier):
    c.rule("R1", "identifiers are inherited through the previous 'out' index, from the virtual observation for extensions")
    c.rule("R2", "new identifiers come from the counter, for those that inherited none, after inheritance")
    c.rule("R3", "the counter starts at current value and advances by what it handed out; only known functions write it")
    c.rule("R4", "matching is run on previous real observations followed by virtual ones, and indices beyond the real ones are virtual")
    c.rule("R5", "extension: trajectories that the last step did not continue, from their two last positions, up to the limit")
    c.rule("R6", "junction of two results: identifiers of the junction are kept, others are shifted past the counter")
    g = c.g(C + "store_correspondance")
    corr = [e.val for e in g.calls("numpy.array") if e.term.a[1] and e.term.a[1][0] is g.p("i_previous")]
    c.ob("R1", g, len(corr) == 1, "links are not built from the indices of the previous observations", key="links")
    if corr:
        K = corr[0]
        env = dict(_c=core(K))
        must_store(c, "R1", g, K, "'out'", "i_current", "index in current observations", when=[], env=env)
        must_store(c, "R1", g, K, "'cost_value'", "association_cost", "cost of the link", when=[], env=env)
        vs = must_store(c, "R4", g, K, "'virtual'", "i_previous >= nb_real_obs", "virtual flag", when=["self.virtual"], env=env)
        st = stores_at(g, K, "'id'", env)
        first = [e for e in st if mt(g, e.val, ["self.id_generator(i_previous.shape[0])", "self.id_generator(i_previous.size)", "self.id_generator(_c.shape[0])", "self.id_generator(_c.size)"], env) is not None]
        c.ob("R2", g, len(first) == 1, "identifiers of the first step are not drawn from the counter", key="first step")
        for e in first:
            m = cond_ok(g, e, ["self.previous2_obs is None"])
            c.ob("R2", g, m is None, f"first step: {m}", e, "first step")
        inh = [e for e in st if e not in first]
        tabs = ["ones(len(self.previous_obs), dtype=_) * _m", "full(len(self.previous_obs), _m, dtype=_)", "full(len(self.previous_obs), _m)"]
        for e in inh:
            r = mt(g, e.val, "_t[_c['in']]", env)
            c.ob("R1", g, r is not None, f"identifier is not looked up at the previous index: {show(e.val,5)}", e, "lookup")
            m = cond_ok(g, e, ["self.previous2_obs is not None"])
            c.ob("R1", g, m is None, f"lookup: {m}", e, "lookup")
            if r is not None:
                tab = e.val.a[0]
                rr = mt(g, tab, tabs)
                c.ob("R1", g, rr is not None and mt(g, rr["_m"], MAXID) is not None, "identifiers of the previous step do not default to the 'none' mark", e, "table")
                fill = [f for f in g.stores(tab)]
                ok = [f for f in fill if f.seq < e.seq and mt(g, f.idx, "self[-1]['out']") is not None and mt(g, f.val, "self[-1]['id']") is not None and cond_ok(g, f, ["self.previous2_obs is not None"]) is None]
                c.ob("R1", g, bool(ok) and len(ok) == len(fill), "identifiers of the previous step are not placed at their index in the previous observations", e, "table filled")
        c.ob("R1", g, len(inh) == 1, "identifiers are not inherited", key="lookup")
        env["_v"] = expr(g, "_c['virtual']", **env)
        env["_iv"] = expr(g, "_c['in'][_v] - nb_real_obs", **env)
        allow = ["self.virtual", "self.previous2_obs is not None", ["_c['virtual'].sum() != 0", "_c['virtual'].any()", "_c['virtual'].sum() > 0"]]
        vi = must_store(c, "R1", g, "_c['id']", "_c['virtual']", ["self.virtual_obs['track'][_iv]", "self.virtual_obs.track[_iv]"], "identifier of an extended trajectory", when=["self.virtual"], allow=allow, env=env)
        must_store(c, "R1", g, "_c['virtual_length']", "_c['virtual']", ["self.virtual_obs['segment_size'][_iv]", "self.virtual_obs.segment_size[_iv]"], "length of the extension", when=["self.virtual"], allow=allow, env=env)
        maxm = ["_c['id'] == self.UINT32_MAX", "_c['id'] == 4294967295"]
        nw = [e for e in stores_at(g, "_c['id']", None, env) if mt(g, e.idx, maxm, env) is not None]
        c.ob("R2", g, len(nw) == 1, "links without identifier do not get a new one", key="new")
        for e in nw:
            m = e.idx
            env2 = dict(_m=core(m))
            c.ob("R2", g, mt(g, e.val, ["self.id_generator(_m.sum())", "self.id_generator(count_nonzero(_m))"], env2) is not None, f"new identifiers: {show(e.val,4)}", e, "new")
            w = cond_ok(g, e, ["self.previous2_obs is not None"])
            c.ob("R2", g, w is None, f"new identifiers: {w}", e, "new")
            c.ob("R2", g, all(f.seq < e.seq for f in inh + vi), "new identifiers are drawn before inheritance is complete", e, "after inheritance")
        ap = g.calls(".append")
        conds = or_(*[e.cond for e in ap if e.term.a[1] and e.term.a[1][0] is K or carg(e.term, "args") is K])
        c.ob("R1", g, conds is TRUE, "links are not recorded on every path", key="recorded")
        for r in g.returns():
            f = implies(r.cond, expr(g, "self.previous2_obs is None"))
            c.ob("R4", g, isc(r.val, bool(f)), "the first step is not told apart from the others", r, "first told")
    g = c.g(C + "id_generator")
    must_return(c, "R3", g, ["arange(self.current_id, self.current_id + nb_id)", "self.current_id + arange(nb_id)"], "identifiers handed out", when=[])
    must_store(c, "R3", g, "self", "current_id", ["self.current_id + nb_id"], "counter", when=[], count=1)
    W = writers(c.prog, "current_id")
    known = {"__init__", "_copy", "merge_correspondance", "load_state", "from_netcdf", "longer_than", "shorter_than", "id_generator"}
    for f, e in W:
        c.ob("R3", f, f.name in known or not c.prog.known(f), "the counter is written outside the functions that own it", e, "who writes")
    c.ob("R3", "current_id", len(W) >= 8, "writers of the counter not found", key="who writes")
    must_store(c, "R3", c.g(C + "_copy"), "_n", "current_id", "self.current_id", "counter of a copy", when=[])
    must_store(c, "R3", c.g(C + "__init__"), "self", "current_id", "0", "initial counter", when=[])
    for e in [e for f, e in W if f.name == "load_state"]:
        h = c.g(C + "load_state")
        c.ob("R3", h, mt(h, e.val, "_h.last_current_id") is not None, "counter is not resumed from the saved state", e, "resumed")
    # --- loop over dates
    g = c.g(C + "track", inline=(C + "swap_dataset",))
    tr = g.calls(".tracking")
    sc = g.calls(".store_correspondance")
    c.ob("R4", g, len(tr) == 1 and len(sc) == 1, "one matching and one recording by date", key="by date")
    for t in tr:
        for s in sc:
            ok = all(mt(g, carg(s.term, n, k), f"_t[{k}]", dict(_t=core(t.val))) is not None for k, n in ((0, "i_previous"), (1, "i_current")))
            ok = ok and mt(g, carg(s.term, "association_cost", 3), "_t[2]", dict(_t=core(t.val))) is not None
            c.ob("R4", g, ok, "what is recorded is not what was matched", s, "recorded")
            nb = carg(s.term, "nb_real_obs", 2)
            c.ob("R4", g, nb is not None and nb.op == "len" and not any(callee(x, ".merge") for x in walk(nb)), "number of real observations is counted after virtual ones are added", s, "real")
            me = [e for e in g.calls(".merge")]
            ok = bool(me) and any(carg(e.term, "other", 0) is not None and mt(g, carg(e.term, "other", 0), "_s.virtual_obs") is not None and cond_ok(g, e, [["_f", "not _f"]]) is None for e in me)
            c.ob("R4", g, ok, "virtual observations are not offered to the matching", s, "virtual added")
            R = recv(t.term)
            A = carg(t.term, "other", 0)
            c.ob("R4", g, any(callee(x, ".merge") for x in walk(R)) or any(e.kind == "store_attr" and e.idx == "previous_obs" and callee(e.val, ".merge") for e in g.events), "virtual observations are not added to the previous ones", t, "virtual merged")
            c.ob("R4", g, not contains(A, lambda x: callee(x, ".merge")) , "virtual observations are added to the current ones", t, "current alone")
        dead = g.calls(".recense_dead_id_to_extend")
        c.ob("R5", g, len(dead) == 1 and all(e.seq > s.seq for e in dead for s in sc), "extension is not prepared once after each recording", t, "extension")
        for e in dead:
            m = [x for x in conjuncts(e.cond) if contains(x, lambda y: callee(y, ".store_correspondance"))]
            c.ob("R5", g, len(m) == 1 and m[0].op == "not" and len(conjuncts(e.cond)) == 1, "extension is not prepared on every step but the first", e, "extension when")
    # flag that virtual observations exist
    L = [L for L in g.loops.values() if L.kind in ("for", "while") and tr and L.uid in tr[0].loops]
    # --- shift of the three dates
    h = c.g(C + "swap_dataset")
    st = [e for e in h.stores() if e.kind == "store_attr"]
    p2 = [e for e in st if e.idx == "previous2_obs"]
    p1 = [e for e in st if e.idx == "previous_obs"]
    c0 = [e for e in st if e.idx == "current_obs"]
    c.ob("R5", h, len(p2) == 1 and mt(h, p2[0].val, "self.previous_obs") is not None and len(p1) == 1 and mt(h, p1[0].val, "self.current_obs") is not None and bool(c0) and or_(*[e.cond for e in c0]) is TRUE,
         "dates are not shifted (previous of previous, previous, current)", key="shift")
    # --- extension
    g = c.g(C + "recense_dead_id_to_extend")
    env = {}
    env["_d"] = expr(g, "setdiff1d(self[-2]['id'], self[-1]['id'])")
    env["_i"] = expr(g, "index(self[-2]['id'], _d)", **env)
    pr = g.calls(".propagate")
    c.ob("R5", g, len(pr) == 1, "lost trajectories are not extrapolated", key="propagate")
    for e in pr:
        t = e.term
        A = lambda n, k: carg(t, n, k)
        c.ob("R5", g, mt(g, A("previous_obs", 0), "self.previous2_obs.obs[self[-2][_i]['in']]", env) is not None, f"first position of lost trajectories: {show(A('previous_obs',0),5)}", e, "A")
        c.ob("R5", g, mt(g, A("current_obs", 1), "self.previous_obs.obs[self[-2][_i]['out']]", env) is not None, f"second position of lost trajectories: {show(A('current_obs',1),5)}", e, "B")
        c.ob("R5", g, A("dead_track", 3) is not None and mt(g, A("dead_track", 3), "_d", env) is not None, "identifiers of lost trajectories", e, "track")
        x = A("obs_to_extend", 2)
        vd = expr(g, "setdiff1d(self.virtual_obs['track'], self[-1]['id'])")
        env["_iv"] = expr(g, "index(self.virtual_obs['track'], _w)", _w=vd)
        env["_al"] = expr(g, "self.virtual_obs['segment_size'][_iv] < self.nb_virtual", **env)
        pv = [y for y in walk(core(x)) if y.op == "sub" and y.a[0].op == "sub"]
        bases = ["self.previous_virtual_obs.obs[_iv][_al]", "self.virtual_obs.obs[_iv][_al]"]
        al = expr(g, bases[1], **env)
        found = False
        for y in walk(core(x)):
            if y.op == "sub" and any(z is env["_iv"] or z.op == "ite" and env["_iv"] in z.a for z in walk(y)):
                a, b_ = (y.a[1], y.a[0].a[1]) if y.a[0].op == "sub" else (None, None)
                if a is None:
                    continue
                pick = lambda z, w: z is w or (z.op == "ite" and w in z.a[1:])
                if pick(a, env["_al"]) and pick(b_, env["_iv"]):
                    found = True
        c.ob("R5", g, found, "virtual observations extended again are not those not continued and under the limit", e, "again")
        n = A("nb_next", 4)
        okn = n is not None and contains(core(n), lambda y: y is expr(g, "_d.shape[0]", **env) or y is expr(g, "_d.size", **env)) and contains(core(n), lambda y: callee(y, "numpy.sum", "numpy.count_nonzero") and y.a[1][0] is env["_al"])
        c.ob("R5", g, okn, "number of virtual observations is not lost + extended again", e, "number")
        m = cond_ok(g, e, ["self.virtual"])
        c.ob("R5", g, m is None, f"extension: {m}", e, "when")
        sv = [f for f in g.stores() if f.kind == "store_attr" and f.idx == "virtual_obs"]
        c.ob("R5", g, len(sv) == 1 and sv[0].val is e.val, "virtual observations of the step are not kept", e, "kept")
        pvs = [f for f in g.stores() if f.kind == "store_attr" and f.idx == "previous_virtual_obs"]
        c.ob("R5", g, len(pvs) == 1 and mt(g, pvs[0].val, "self.virtual_obs") is not None and pvs[0].seq < sv[0].seq if sv else False, "virtual observations of the previous step are not kept", e, "kept previous")
    # --- extrapolation
    g = c.g("observations.observation.EddiesObservations.propagate")
    N = [e.val for e in g.calls("observation.VirtualEddiesObservations")]
    c.ob("R5", g, len(N) == 1, "virtual observations are not created", key="created")
    if N:
        n = N[0]
        env = dict(_n=core(n), _k=expr(g, "len(previous_obs)"))
        env["_e"] = expr(g, "nb_next - _k", **env)
        W = [["nb_next - _k > 0", "nb_next > _k", "nb_next - len(previous_obs) > 0"]]
        F = lambda name: field(n, name)
        from .terms import field
        must_store(c, "R5", g, F("track"), ":_k" if False else expr(g, "_x[:_k]", **env).a[1], "dead_track", "identifier of lost trajectories", when=[], env=env)
        lo, hi = expr(g, "_x[:_k]", **env).a[1], expr(g, "_x[_k:]", **env).a[1]
        for x, dx in (("lon", "dlon"), ("lat", "dlat")):
            must_store(c, "R5", g, F(dx), lo, f"current_obs['{x}'] - previous_obs['{x}']", f"displacement in {x}", when=[], env=env)
            must_store(c, "R5", g, F(x), lo, [f"current_obs['{x}'] + _n['{dx}'][:_k]", f"current_obs['{x}'] + (current_obs['{x}'] - previous_obs['{x}'])"], f"extrapolated {x}", when=[], env=env)
            must_store(c, "R5", g, F(x), hi, f"obs_to_extend['{x}'] + obs_to_extend['{dx}']", f"extrapolated {x} of extended ones", when=W, env=env)
        must_store(c, "R5", g, F("track"), hi, "obs_to_extend['track']", "identifier of extended ones", when=W, env=env)
        must_store(c, "R5", g, F("segment_size"), hi, ["obs_to_extend['segment_size']", "obs_to_extend['segment_size'] + 1"], "length of extended ones", when=W, env=env)
        seg = [e for e in g.stores() if e.base is F("segment_size")]
        inc = [e for e in seg if mt(g, e.val, ["_n['segment_size'][:] + 1", "_n['segment_size'] + 1", "obs_to_extend['segment_size'] + 1", "1"], env) is not None]
        c.ob("R5", g, bool(inc) and or_(*[e.cond for e in inc]) is TRUE, "length of extensions does not grow at each step", key="length")
    # --- junction
    g = c.g(C + "merge_correspondance")
    rs = g.evs("raise")
    c.ob("R6", g, any(mt(g, e.cond, "self.nb_virtual != other.nb_virtual") is not None for e in rs), "results of different methods are joined", key="method")
    tr = [e for e in g.calls("numpy.empty", "numpy.full", "numpy.ones", "numpy.zeros")]
    tab = [e.val for e in tr if contains(e.term, expr(g, "other.current_id"))]
    c.ob("R6", g, len(tab) == 1, "no translation by identifier of the joined result", key="table")
    if tab:
        t = tab[0]
        J = None
        for e in g.stores(t):
            r = mt(g, e.idx, "other[_j - 1]['id']")
            if r is not None:
                J = r["_j"]
                c.ob("R6", g, mt(g, e.val, "self[-1]['id']") is not None, "identifiers of the junction are not kept", e, "junction")
        c.ob("R6", g, J is not None, "identifiers of the junction are not translated", key="junction")
        if J is not None:
            env = dict(_j=J, _t=core(t))
            sh = [e for e in g.stores(t) if mt(g, e.val, ["arange(_m.sum()) + self.current_id", "arange(self.current_id, self.current_id + _m.sum())"]) is not None]
            c.ob("R6", g, len(sh) == 1 and sh[0].idx is not None, "other identifiers are not shifted past the counter", key="shift")
            for e in sh:
                r = mt(g, e.val, ["arange(_m.sum()) + self.current_id", "arange(self.current_id, self.current_id + _m.sum())"])
                c.ob("R6", g, core(e.idx) is r["_m"] and find(g, e.idx, ["_t == self.UINT32_MAX"][0], "_t == 4294967295", env=env) is not None, "identifiers shifted are not those without translation", e, "shifted")
                cut = [f for f in g.stores(e.idx) if f.val is FALSE and f.idx.op == "slice"]
                c.ob("R6", g, not cut, "identifiers which come back after the junction are left without translation", e, "come back")
                cur = stores_at(g, "self", "current_id")
                c.ob("R6", g, len(cur) >= 1 and all(mt(g, f.val, ["self.current_id + _m.sum()"], dict(_m=core(e.idx))) is not None for f in cur), "the counter does not move past the shifted identifiers", e, "counter")
            app = [e for e in g.events if e.kind == "store_sub" and isc(e.idx, "id")]
            c.ob("R6", g, len(app) == 1 and mt(g, app[0].val, "_t[_o['id']]", env) is not None and core(app[0].val.a[1].a[0]) is core(app[0].base) and find(g, app[0].base, "other[_j:]", env=env) is not None, "identifiers of the joined links are not translated", key="translate")
            ex = g.calls(".extend")
            c.ob("R6", g, any(recv(e.term) is g.p("self") and mt(g, e.term.a[1][0], "other[_j:]", env) is not None for e in ex), "links of the joined result are not appended from the junction", key="links")
            c.ob("R6", g, any(mt(g, recv(e.term), "self.datasets") is not None and mt(g, e.term.a[1][0], "other.datasets[_j + 1:]", env) is not None for e in ex), "dates of the joined result are not appended after the junction", key="dates")
            c.ob("R6", g, any(e.kind == "store_attr" and e.idx == "nb_link_max" and contains(e.val, expr(g, "other.nb_link_max")) for e in g.events) or any(callee(e.term, ".append") and recv(e.term) is g.p("self") for e in g.calls()), "the largest number of links by date ignores the joined result", key="nb_link_max")
