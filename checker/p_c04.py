"""Merge of links into trajectories.  The table of positions (length of each trajectory, extrapolated observations included, then first
position by cumulative sum) and the copies are decided on the value-flow graphs: which position each copy writes, from which observation, under which
condition, in which order the positions advance, and that no copy uses a position read before its last advance."""
from .rules import *

FLOOR = 30
C = "tracking.Correspondances."
ASSUMPTIONS = ["link records have unique identifiers within a date (C02)", "numpy indexed assignment and repeat behave as documented"]


def check(c, tier):
    c.rule("R1", "a trajectory has one position per link, plus one, plus its extrapolated ones; first positions are the exclusive cumulative sum")
    c.rule("R2", "the result has all positions; rank and identifier follow from the position table")
    c.rule("R3", "the first observation is copied once from the previous date, at the first position of its trajectory")
    c.rule("R4", "each link copies all fields of its current observation at the next position, after extrapolated ones are skipped")
    c.rule("R5", "positions advance after each copy, by what was copied or skipped, for the trajectories concerned only")
    c.rule("R6", "no copy uses a position that was read before it last advanced")
    p = c.g(C + "prepare_merging")
    S = p.p("self")
    nbs = [e for e in p.stores(S) if e.kind == "store_attr" and e.idx == "nb_obs_by_tracks"]
    c.ob("R1", p, len(nbs) == 1 and mt(p, nbs[0].val, ["ones(self.current_id, dtype=_t)", "ones(self.current_id)", "full(self.current_id, 1, dtype=_t)"]) is not None, "one position is not counted for the start of each trajectory", key="start")
    if nbs:
        A = nbs[0].val
        env = dict(_a=core(A))
        I = "self[_i]['id']"
        V = "self[_i]['virtual']"
        one = two = None
        for e in [e for e in p.events if e.kind == "store_sub" and core(e.base) in (core(A), expr(p, "self.nb_obs_by_tracks"))]:
            if mt(p, e.idx, I) is not None:
                one = e
                c.ob("R1", p, mt(p, e.val, ["_a[_x] + 1", "self.nb_obs_by_tracks[_x] + 1"], dict(env, _x=core(e.idx))) is not None, f"positions of a link: {show(e.val,4)}", e, "one by link")
                m = cond_ok(p, e, [])
                c.ob("R1", p, m is None, f"one by link: {m}", e, "one by link")
            elif mt(p, e.idx, [f"{I}[{V}]"]) is not None:
                two = e
                c.ob("R1", p, mt(p, e.val, [f"_a[_x] + self[_i]['virtual_length'][{V}]", f"self.nb_obs_by_tracks[_x] + self[_i]['virtual_length'][{V}]"], dict(env, _x=core(e.idx))) is not None, f"extrapolated positions: {show(e.val,5)}", e, "extrapolated")
                m = cond_ok(p, e, ["self.virtual"], allow=[f"{V}.any()"])
                c.ob("R1", p, m is None, f"extrapolated positions: {m}", e, "extrapolated")
            else:
                c.ob("R1", p, False, f"positions counted for {show(e.idx, 4)}", e, "other count")
        c.ob("R1", p, one is not None, "links are not counted", key="one by link")
        c.ob("R1", p, two is not None, "extrapolated observations are not counted", key="extrapolated")
        ic = must_store(c, "R1", p, "self", "i_current_by_tracks", ["_a.cumsum() - _a", "self.nb_obs_by_tracks.cumsum() - self.nb_obs_by_tracks"], "first positions", when=[], env=env)
        nb = must_store(c, "R1", p, "self", "nb_obs", ["_a.sum()", "self.nb_obs_by_tracks.sum()"], "number of positions", when=[], env=env)
        for x in ic + nb:
            c.ob("R1", p, all(y is None or y.seq < x.seq for y in (one, two)), "positions are computed before all links are counted", x, "after count")
    for n in ("longer_than", "shorter_than"):
        h = c.g(C + n)
        nb = stores_at(h, "self", "nb_obs_by_tracks")
        for e in nb:
            env = dict(_a=core(e.val))
            must_store(c, "R1", h, "self", "i_current_by_tracks", ["_a.cumsum() - _a", "self.nb_obs_by_tracks.cumsum() - self.nb_obs_by_tracks"], "first positions of the selection", env=env)
            must_store(c, "R1", h, "self", "nb_obs", ["_a.sum()", "self.nb_obs_by_tracks.sum()"], "number of positions of the selection", env=env)
            for x in stores_at(h, "self", "i_current_by_tracks") + stores_at(h, "self", "nb_obs"):
                c.ob("R1", h, x.seq > e.seq, "positions are computed before the selection", x, "selection first")
        c.ob("R1", h, len(nb) == 1, "lengths of the selection are not set", key="lengths")
    # ---
    g = c.g(C + "merge")
    cons = g.calls("observations.tracking.TrackEddiesObservations")
    c.ob("R2", g, len(cons) == 1, "result is not created", key="result")
    if not cons:
        return
    E = cons[0].val
    env = dict(_e=core(E), _i=mk("wild", "_i"))
    c.ob("R2", g, mt(g, carg(cons[0].term, "size", 0), "self.nb_obs") is not None, "the result does not have one row for each position", cons[0], "size")
    for a in ("track_extra_variables", "track_array_variables", "array_variables"):
        c.ob("R2", g, mt(g, carg(cons[0].term, a), [f"self.current_obs.{a}", f"self.previous_obs.{a}"]) is not None, f"layout of the result: {a}", cons[0], a)
    must_store(c, "R2", g, E, "'n'", [f"{w}(arange(self.nb_obs{d}) - self.i_current_by_tracks.repeat(self.nb_obs_by_tracks)){x}" for w, x in (("uint16", ""), ("", "")) for d in ("", ", dtype='u4'", ", dtype=_d")], "rank", when=[], env=env)
    must_store(c, "R2", g, E, "'track'", ["arange(self.current_id).repeat(self.nb_obs_by_tracks)"], "identifier", when=[], env=env)
    for e in stores_at(g, E, "'n'"):
        c.ob("R2", g, not any(x.kind == "store_sub" and mt(g, x.base, "self.i_current_by_tracks") is not None and x.seq < e.seq for x in g.events), "rank is computed from positions that have advanced", e, "rank first")
    I, F = "self[_i]['id']", "_f[self[_i]['id']]"
    pos = "self.i_current_by_tracks"
    flags = [e for e in g.calls("numpy.zeros") if mt(g, e.term, [f"zeros({pos}.shape, dtype=_b)", f"zeros(len({pos}), dtype=_b)", f"zeros({pos}.size, dtype=_b)", "zeros(self.current_id, dtype=_b)", "zeros(len(self.nb_obs_by_tracks), dtype=_b)"]) is not None]
    # fields copied
    cp = []
    for e in g.stores():
        if e.kind != "store_sub":
            continue
        r = mt(g, e.base, "_e[_n]", env)
        if r is not None and mt(g, r["_n"], ["self.current_obs.fields[_k]", "self.previous_obs.fields[_k]"]) is not None:
            cp.append((e, r["_n"]))
    first = [(e, n) for e, n in cp if find(g, e.val, "self.previous_obs[_n]", env=dict(_n=n)) is not None]
    cur = [(e, n) for e, n in cp if (e, n) not in first]
    c.ob("R3", g, len(first) == 1, "first observation of trajectories is not copied", key="first")
    c.ob("R4", g, len(cur) == 1, "observations of the links are not copied", key="current")
    stop = ["until == -1 or not (until <= _i)", "until == -1 or _i < until"]
    if first:
        e, n = first[0]
        x = None
        for fl in flags:
            ev = dict(env, _f=core(fl.val), _n=n)
            ev["_m"] = mk("wild", "_m")
            M = "~_f[self[_i]['id']]"
            x = x or mt(g, e.idx, [f"{pos}[{I}][{M}]", f"{pos}[{I}[{M}]]"], dict(_f=core(fl.val)))
            if x is not None:
                env.update(_f=core(fl.val), _i=x["_i"])
                break
        c.ob("R3", g, x is not None, f"first observations are not put at the position of trajectories without observation: {show(e.idx, 7)}", e, "first position")
        if x is not None:
            M = "~_f[self[_i]['id']]"
            env["_m"] = expr(g, M, **env)
            c.ob("R3", g, mt(g, e.val, "self.previous_obs[_n][self[_i]['in'][_m]]", dict(env, _n=n)) is not None, f"first observations are not those of the previous date: {show(e.val, 7)}", e, "first value")
            m = cond_ok(g, e, [], allow=["_m.any()", stop, "_n != 'cost_association'"], env=dict(env, _n=n))
            c.ob("R3", g, m is None, f"first observations: {m}", e, "first when")
            fs = [y for y in g.stores() if y.kind == "store_sub" and core(y.base) is env["_f"]]
            c.ob("R3", g, bool(fs) and all(y.val is TRUE and mt(g, y.idx, [I, f"{I}[_m]"], env) is not None and cond_ok(g, y, [], allow=["_m.any()", stop], env=env) is None and y.seq > e.seq for y in fs), "trajectories already started are not marked", e, "mark")
    adv = [e for e in g.stores() if e.kind == "store_sub" and mt(g, e.base, pos) is not None]
    V = "self[_i]['virtual']"
    kinds = {}
    for e in adv:
        ev = {k: v for k, v in env.items() if k in ("_m", "_i", "_f")}
        if "_m" in env and mt(g, e.idx, f"{I}[_m]", ev) is not None:
            k, v, al = "first", [f"{pos}[_x] + 1"], ["_m.any()", stop]
        elif mt(g, e.idx, f"{I}[{V}]", ev) is not None:
            k, v, al = "virtual", [f"{pos}[_x] + self[_i]['virtual_length'][{V}]"], ["self.virtual", f"{V}.any()", stop]
        elif mt(g, e.idx, I, ev) is not None:
            k, v, al = "current", [f"{pos}[_x] + 1"], [stop]
        else:
            c.ob("R5", g, False, f"positions advance for {show(e.idx, 5)}", e, "other")
            continue
        c.ob("R5", g, k not in kinds, f"positions advance twice ({k})", e, k)
        kinds[k] = e
        c.ob("R5", g, mt(g, e.val, v, dict(ev, _x=core(e.idx))) is not None, f"positions advance by {show(e.val, 5)}", e, k)
        m = cond_ok(g, e, ["self.virtual"] if k == "virtual" else [], allow=al, env=ev)
        c.ob("R5", g, m is None, f"positions advance ({k}): {m}", e, k)
    for k in ("first", "virtual", "current"):
        c.ob("R5", g, k in kinds, f"positions do not advance ({k})", key=k)
    if cur:
        e, n = cur[0]
        c.ob("R4", g, mt(g, e.idx, f"{pos}[{I}]", {k: v for k, v in env.items() if k == "_i"}) is not None, f"observations are put at {show(e.idx, 5)}", e, "position")
        c.ob("R4", g, mt(g, e.val, "self.current_obs[_n][self[_i]['out']]", dict(env, _n=n)) is not None, f"observations copied: {show(e.val, 6)}", e, "value")
        m = cond_ok(g, e, [], allow=[stop, "_n != 'cost_association'"], env=dict(env, _n=n))
        c.ob("R4", g, m is None, f"observations of the links: {m}", e, "when")
        c.ob("R6", g, not any(x[2] is not None and mt(g, x[2], pos) is not None for x in e.stale), "the position used was read before it advanced", e, "stale")
        if len(kinds) == 3:
            s = [kinds["first"].seq, kinds["virtual"].seq, e.seq, kinds["current"].seq]
            c.ob("R5", g, s == sorted(s) and (not first or first[0][0].seq < s[0]), "positions do not advance in the order first, skipped, current", e, "order")
    co = [e for e in stores_at(g, E, None) if False]
    cc = [e for e in g.stores() if e.kind == "store_sub" and core(e.base) is core(TT.field(E, "cost_association")) and e.idx.op != "slice"]
    c.ob("R4", g, len(cc) == 1, "cost of the links is not kept", key="cost")
    for e in cc:
        ok = mt(g, e.idx, f"{pos}[{I}] - 1", {k: v for k, v in env.items() if k == "_i"}) is not None and mt(g, e.val, "self[_i]['cost_value']", {k: v for k, v in env.items() if k == "_i"}) is not None
        before = "current" in kinds and e.seq < kinds["current"].seq and e.seq > kinds.get("virtual", e).seq
        after = False
        if not ok or not before:
            before = False
            ok = mt(g, e.idx, f"{pos}[{I}] - 2", {k: v for k, v in env.items() if k == "_i"}) is not None and mt(g, e.val, "self[_i]['cost_value']") is not None
            after = "current" in kinds and e.seq > kinds["current"].seq
        m = cond_ok(g, e, [], allow=[stop, "'cost_association' in _e.fields"], env=dict(env))
        c.ob("R4", g, m is None, f"cost of the links: {m}", e, "cost")
        c.ob("R4", g, ok and (before or after), "cost of the link is not put on the observation it starts from", e, "cost")
        c.ob("R6", g, not any(mt(g, x[2], pos) is not None for x in e.stale), "the position used for the cost was read before it advanced", e, "stale")
    # dates
    sw = g.calls(".swap_dataset")
    c.ob("R4", g, any(mt(g, carg(e.term, "dataset", 0), "self.datasets[0]") is not None and cond_ok(g, e, []) is None for e in sw), "first date is not loaded", key="first date")
    c.ob("R4", g, any(mt(g, carg(e.term, "dataset", 0), ["self.datasets[1:][_i]", "self.datasets[_i + 1]"], {k: v for k, v in env.items() if k == "_i"}) is not None and (not cur or e.seq < cur[0][0].seq) for e in sw), "the date of the second end of the link is not loaded", key="dates")
    for e in sw:
        a = [y for y in walk(e.term) if y is g.p("raw_data")]
        c.ob("R4", g, bool(a), "contour format asked is not used to load", e, "raw_data")
    ini = [e for e in g.stores() if e.kind == "store_sub" and core(e.base) is core(TT.field(E, "cost_association")) and e.idx.op == "slice"]
    c.ob("R2", g, any(mt(g, e.val, ["default_fillvals['f4']", "nan"]) is not None and all(e.seq < x.seq for x in cc) for e in ini), "cost of the last observation of trajectories is not undefined", key="cost default")
    c.ob("R2", g, bool(g.returns()), "nothing is returned", key="returned")
    c.ob("R2", g, mt(g, carg(cons[0].term, "raw_data"), "raw_data") is not None, "contour format of the result", cons[0], "raw_data")
    for r in g.returns():
        c.ob("R2", g, core(r.val) is core(E), "the result is not what was filled", r, "returned")
    must_store(c, "R2", g, E, "sign_type", ["self.current_obs.sign_type", "self.previous_obs.sign_type"], "polarity", when=[])
