"""Saving, reloading and resuming a tracking result.  The writer and the reader are compared as tables of (name in file,
value): every attribute, variable and group the reader uses is written on every path with the value it stands for; every
field of the link records is written and read at the same place; a resumed run reads the two dates it continues
from and replays the saved links; the comparison that refuses incompatible results raises before the result is used."""
from .rules import *

FLOOR = 40
C = "tracking.Correspondances."
ASSUMPTIONS = ["netCDF4 stores attributes and variables as documented; the list of files given to a resumed run starts with the saved one"]
NETCDF = {"variables", "groups", "dimensions", "close", "createDimension", "createVariable", "createGroup"}


def check(c, tier):
    c.rule("R1", "writer: links, file names, numbers of links, counter, extension length and class are written for every date")
    c.rule("R2", "reader: what is read is what was written, at the same place")
    c.rule("R3", "every name the readers need is written (unconditionally, or its absence is tested)")
    c.rule("R4", "a resumed run replays saved links and starts from the last two saved dates with their virtual observations")
    c.rule("R5", "results of another class or extension length are refused")
    c.rule("R6", "fields used on link records are declared")
    w = c.g(C + "to_netcdf")
    H = w.p("handler")
    cv = [e for e in w.calls(".createVariable") if recv(e.term) is H]
    names = {}
    for e in cv:
        n = carg(e.term, "varname", 0)
        if n is not None:
            names[n.a[0] if n.op == "const" else "*"] = e
    for n in ("FileIn", "FileOut", "nb_link"):
        c.ob("R1", w, n in names, f"variable {n} is not created", key=n)
    c.ob("R1", w, "*" in names and mt(w, carg(names["*"].term, "varname", 0), "self.correspondance_dtype[_i][0]") is not None if "*" in names else False,
         "a variable is not created for each field of the links", key="fields")
    for n, item in (("FileIn", ["self.datasets[:-1][_i]", "self.datasets[_i]"]), ("FileOut", ["self.datasets[_i + 1]", "self.datasets[1:][_i]"])):
        if n not in names:
            continue
        v = core(names[n].val)
        st = [e for e in w.stores() if e.kind == "store_sub" and (core(e.base) is v or mt(w, e.base, f"handler.variables['{n}']") is not None)]
        c.ob("R1", w, bool(st), f"{n} is not written", key=n)
        for e in st:
            ok = False
            for x in item:
                r = mt(w, e.val, [x, f"{x} if isinstance({x}, _k) else _o"], dict(_i=core(e.idx)))
                if r is not None:
                    ok = r.get("_k") is None or contains(r["_k"], lambda y: y.op == "global" and y.a[0].split(".")[-1] == "str")
            c.ob("R1", w, ok, f"{n} is not the name of the file of the link: {show(e.val, 5)}", e, n)
            m = cond_ok(w, e, [])
            c.ob("R1", w, m is None, f"{n}: {m}", e, n)
    if "nb_link" in names:
        v = core(names["nb_link"].val)
        st = [e for e in w.stores() if e.kind == "store_sub" and (core(e.base) is v or mt(w, e.base, "handler.variables['nb_link']") is not None)]
        c.ob("R1", w, bool(st), "number of links is not written", key="nb_link")
        for e in st:
            ok = mt(w, e.val, ["len(self[_i])", "self[_i].size"], dict(_i=core(e.idx))) is not None and cond_ok(w, e, []) is None
            c.ob("R1", w, ok, f"number of links: {show(e.val, 4)}", e, "nb_link")
    D = [e for e in w.stores() if e.kind == "store_sub" and e.idx.op == "tuple" and find(w, e.val, "self[_i][self.correspondance_dtype[_j][0]]") is not None]
    D += [e for e in w.stores() if e.kind == "store_sub" and e not in D and e.base.op == "sub" and find(w, e.val, "self[_i][self.correspondance_dtype[_j][0]]") is not None]
    c.ob("R1", w, len(D) >= 1, "fields of the links are not written", key="links")
    for e in D:
        r = mt(w, e.val, "self[_i][self.correspondance_dtype[_j][0]]")
        c.ob("R1", w, r is not None, f"links are changed when they are written: {show(e.val, 4)}", e, "links")
        if r is None:
            continue
        b = dict(_i=r["_i"], _j=r["_j"])
        full = mk("sub", e.base, e.idx)
        ok = mt(w, e.base, ["_d[self.correspondance_dtype[_j][0]]", "handler.variables[self.correspondance_dtype[_j][0]]"], b) is not None and mt(
            w, mk("sub", mk("wild", "_"), e.idx), ["_[_i, :len(self[_i])]", "_[_i, :self[_i].size]"], b) is not None
        c.ob("R1", w, ok and cond_ok(w, e, []) is None, "links are not written at the row of their date and name", e, "links")
    out = [e for e in w.stores() if e.kind == "store_sub" and mt(w, e.base, "handler.variables[_k]") is not None]
    direct = any(mt(w, e.base, "handler.variables[_k]") is not None for e in D)
    if not direct:
        ok = [e for e in out if mt(w, e.val, ["_d[_k]"], dict(_k=core(e.base.a[1]))) is not None and cond_ok(w, e, []) is None]
        c.ob("R1", w, len(ok) == 1, "tables of links are not stored under their name", key="stored")
        for e in ok:
            c.ob("R1", w, all(e.seq > d.seq for d in D), "tables of links are stored before they are filled", e, "stored")
    bt = [e for e in cv if e is names.get("*")]
    for e in bt:
        dt = carg(e.term, "datatype", 1)
        ok = mt(w, dt, ["'u1' if self.correspondance_dtype[_j][1] == bool else self.correspondance_dtype[_j][1]", "'u1' if self.correspondance_dtype[_j][1] == bool_ else self.correspondance_dtype[_j][1]",
                        "self.correspondance_dtype[_j][1]"]) is not None
        c.ob("R1", w, ok, f"type of a field of the links: {show(dt, 4)}", e, "type")
    attrs = {}
    for e in w.stores(H):
        if e.kind == "store_attr":
            attrs.setdefault(e.idx, []).append(e)
    for e in w.calls(".setncattr"):
        if recv(e.term) is H and e.term.a[1][0].op == "const":
            attrs.setdefault(e.term.a[1][0].a[0], []).append(e)
    val = lambda e: e.val if e.kind.startswith("store") else e.term.a[1][1]
    for n, x in (("virtual_max_segment", "self.nb_virtual"), ("last_current_id", "self.current_id"), ("module", "self.class_method.__module__"),
                 ("classname", ["self.class_method.__qualname__", "self.class_method.__name__"]), ("class_kw", "json.dumps(self.class_kw)")):
        es = attrs.get(n, [])
        c.ob("R1", w, bool(es), f"attribute {n} is not written", key=n)
        for e in es:
            c.ob("R1", w, mt(w, val(e), x) is not None and cond_ok(w, e, []) is None, f"attribute {n}: {show(val(e), 4)}", e, n)
    gr = {}
    for e in w.calls(".createGroup"):
        n = carg(e.term, "groupname", 0)
        if n is not None and n.op == "const":
            gr[n.a[0]] = e
    for n, x in (("LastVirtualObs", "virtual_obs"), ("LastPreviousVirtualObs", "previous_virtual_obs")):
        e = gr.get(n)
        c.ob("R1", w, e is not None, f"group {n} is not written", key=n)
        if e is None:
            continue
        wr = [f for f in w.calls(".to_netcdf") if mt(w, carg(f.term, "handler", 0), core(e.val)) is not None]
        c.ob("R1", w, len(wr) == 1 and mt(w, recv(wr[0].term), f"self.{x}") is not None, f"group {n} does not hold {x}", e, n)
        m = cond_ok(w, e, [f"self.{x} is not None"], allow=["self.virtual_obs is not None", "self.virtual"])
        c.ob("R1", w, m is None, f"group {n}: {m}", e, n)
    # --- reader
    r = c.g(C + "from_netcdf")
    cons = [e for e in r.calls("cls") if core(e.term.a[0]) is r.p("cls")] if False else [e for e in r.evs("call") if e.term.a[0] is r.p("cls")]
    c.ob("R2", r, len(cons) == 1, "the result is not rebuilt", key="rebuilt")
    if not cons:
        return
    e = cons[0]
    var = lambda n: [f"handler.variables['{n}'][:]", f"_d['{n}']", f"handler.variables['{n}']"]
    ds = carg(e.term, "datasets", 0)
    ok = False
    for fi in var("FileIn"):
        for fo in var("FileOut"):
            if mt(r, ds, [f"list({fi}) + [{fo}[-1]]", f"[*{fi}, {fo}[-1]]"]) is not None:
                ok = True
            if mt(r, ds, f"list({fi})") is not None:
                ap = [x for x in r.calls(".append") if core(recv(x.term)) is core(ds)]
                ok = ok or (len(ap) == 1 and mt(r, ap[0].term.a[1][0], f"{fo}[-1]") is not None and cond_ok(r, ap[0], []) is None)
    c.ob("R2", r, ok, "the list of files is not the first files of all links, then the second of the last link", e, "datasets")
    c.ob("R2", r, mt(r, carg(e.term, "virtual", 1), "handler.virtual_max_segment") is not None, "extension length is not read back", e, "virtual_max_segment")
    k = carg(e.term, "class_method", 2)
    c.ob("R2", r, k is not None and find(r, k, "getattr(_m, handler.classname)") is not None and find(r, k, "handler.module") is not None, "class is not read back", e, "class")
    k = carg(e.term, "class_kw", 3)
    c.ob("R2", r, k is not None and find(r, k, ["json.loads(getattr(handler, 'class_kw', _d))"][0], "json.loads(handler.class_kw)") is not None, "parameters of the class are not read back", e, "class_kw")
    O = core(e.val)
    ap = [x for x in r.calls(".append") if core(recv(x.term)) is O]
    c.ob("R2", r, len(ap) == 1 and cond_ok(r, ap[0], []) is None, "links are not restored for every date", key="append")
    if ap:
        R = carg(ap[0].term, "args", 0)
        R = ap[0].term.a[1][0] if R is None or R.op == "tuple" else R
        rr = mt(r, R, ["array(_d['in'][_i, :_d['nb_link'][_i]], dtype=_o.correspondance_dtype)", "array(_d['in'][_i, :_d['nb_link'][:][_i]], dtype=_o.correspondance_dtype)",
                       "empty(_d['nb_link'][_i], dtype=_o.correspondance_dtype)"], dict(_o=O))
        c.ob("R2", r, rr is not None, f"links are not read at the row of their date: {show(R, 5)}", ap[0], "in")
        if rr is not None:
            env = dict(_o=O, _d=rr["_d"], _i=rr["_i"]) if "_d" in rr else dict(_o=O)
            st = [x for x in r.stores() if x.kind == "store_sub" and core(x.base) is core(R)]
            full = []
            for x in st:
                q = mt(r, x.idx, "_o.correspondance_dtype[_j][0]", env)
                if q is None and x.idx.op == "const":
                    q = Bind(_j=None)
                if q is not None and x.idx.op != "const":
                    env["_j"] = q.get("_j", env.get("_j"))
                    v = mt(r, x.val, ["_d[_o.correspondance_dtype[_j][0]][_i, :_d['nb_link'][_i]]", "_d[_o.correspondance_dtype[_j][0]][_i, :_d['nb_link'][:][_i]]"], env)
                    last = mt(r, x.val, "255") is not None and any(y.seq > x.seq for y in st)
                    c.ob("R2", r, v is not None or last, f"field of the links is not read at the row of its date: {show(x.val, 5)}", x, "fields")
                    if v is not None:
                        m = cond_ok(r, x, [], allow=["_o.correspondance_dtype[_j][0] != 'in'"], env=env)
                        c.ob("R2", r, m is None, f"some fields are not read: {m}", x, "fields")
                        full.append(x)
            c.ob("R2", r, bool(full) and all(x.seq < ap[0].seq for x in full), "fields of the links are not read back", ap[0], "fields")
    cu = [x for x in r.stores() if x.kind == "store_attr" and x.idx == "current_id"]
    c.ob("R2", r, bool(cu) and all(core(x.base) is O for x in cu), "the counter is not restored", key="counter")
    for x in cu:
        ok = mt(r, x.val, ["handler.last_current_id", "int(handler.last_current_id)"]) is not None
        if not ok:
            ok = mt(r, x.val, "_m + 1") is not None and bool(g_has(r, x.val, "_x['id'].max(initial=_y)", "_x['id'].max()"))
        c.ob("R2", r, ok and cond_ok(r, x, []) is None, f"counter: {show(x.val, 4)}", x, "counter")
    for x in r.calls("numpy.max", ".max"):
        if mt(r, carg(x.term, "a", 0), "_x['id']") is not None:
            ini = carg(x.term, "initial", 99)
            ok = ini is not None or any(contains(y, lambda z: z.op in ("len", "lt", "ne", "le") or isc(z, 0)) for y in conjuncts(x.cond))
            c.ob("R2", r, ok, "a date without link cannot be reloaded", x, "no link")
    must_return(c, "R2", r, [O], "reloaded result")
    # --- names
    rd = {}
    for h, hb in ((r, r.p("handler")), (c.g(C + "load_state"), None)):
        hs = [hb] if hb is not None else [x.val for x in h.calls("netCDF4.Dataset")]
        for x in hs:
            for e in h.events:
                for t in e.terms():
                    for y in walk(t):
                        if y.op == "attr" and core(y.a[0]) is core(x) and isinstance(y.a[1], str) and y.a[1] not in NETCDF:
                            rd.setdefault(y.a[1], (h, e))
    for n, (h, e) in sorted(rd.items()):
        c.ob("R3", h, n in attrs, f"attribute {n} is read but not written", e, n)
    c.ob("R3", r, len(rd) >= 3, "attributes read are not found", key="attributes")
    # --- resume
    s = c.g(C + "load_state")
    P = "self.previous_correspondance is not None"
    rep = [e for e in s.calls(".append") if recv(e.term) is s.p("self")] + [e for e in s.calls(".extend") if recv(e.term) is s.p("self")]
    c.ob("R4", s, bool(rep), "saved links are not replayed", key="replay")
    N = "len(self.previous_correspondance.datasets)"
    for e in rep:
        a = e.term.a[1][0] if e.term.a[1] else carg(e.term, "args", 0)
        ok = mt(s, a, [f"self.previous_correspondance[:{N}][_i]", "self.previous_correspondance[_i]", f"self.previous_correspondance[:{N}]", "self.previous_correspondance"]) is not None
        c.ob("R4", s, ok and cond_ok(s, e, [P]) is None, "links replayed are not all the saved ones", e, "replay")
    co = [e for e in s.stores(s.p("self")) if e.kind == "store_attr" and e.idx == "current_obs"]
    f0 = [f"self.class_method.load_file(self.datasets[{N} - 2], **self.class_kw)", f"self.class_method.load_file(self.previous_correspondance.datasets[-2], **self.class_kw)"]
    c.ob("R4", s, any(find(s, e.val, *f0) is not None and cond_ok(s, e, [P], allow=["_x", "not _x"]) is None for e in co), "the date before the last saved one is not loaded", key="previous date")
    for e in co:
        c.ob("R4", s, find(s, e.val, *f0) is not None, "the date before the last saved one is not loaded", e, "previous date")
    cid = [e for e in s.stores(s.p("self")) if e.kind == "store_attr" and e.idx == "current_id"]
    c.ob("R4", s, len(cid) == 1 and cond_ok(s, cid[0], [P]) is None, "the counter is not resumed", key="counter")
    for n, x in (("LastVirtualObs", "virtual_obs"), ("LastPreviousVirtualObs", "previous_virtual_obs")):
        es = [e for e in s.stores(s.p("self")) if e.kind == "store_attr" and e.idx == x]
        c.ob("R4", s, len(es) == 1, f"{x} is not restored", key=x)
        for e in es:
            c.ob("R4", s, mt(s, e.val, f"_c.from_netcdf(_h.groups['{n}'])") is not None or find(s, e.val, f"_h.groups['{n}']") is not None, f"{x} is not read from its group", e, x)
            test = [y for y in conjuncts(e.cond) if y.op == "in" and isc(y.a[0], n)]
            cond_written = gr.get(n)
            c.ob("R3", s, bool(test) or (cond_written is not None and cond_ok(w, cond_written, []) is None), f"group {n} is read without testing that it was written", e, n)
    for e in w.calls(".to_netcdf"):
        q = recv(e.term)
        m = cond_ok(w, e, [f"{show(q)} is not None"] if False else [mk("ne", NONE, q)], allow=["self.virtual_obs is not None", "self.virtual"])
        c.ob("R3", w, m is None, f"a missing state is saved: {m}", e, "missing")
    mg = [e for e in co if find(s, e.val, "_o.merge(_v)") is not None]
    c.ob("R4", s, len(mg) == 1 and find(s, mg[0].val, "_h.groups['LastPreviousVirtualObs']", "self.previous_virtual_obs") is not None if mg else False,
         "previous virtual observations are not added to the date they followed", key="merged")
    got = {}
    for x in s.returns():
        t = core(x.val)
        saved = implies(x.cond, expr(s, P))
        if t.op == "ite":
            c.ob("R4", s, False, "state returned not understood", x, "returned")
        elif saved:
            ok = t.op == "tuple" and mt(s, t.a[0], N) is not None and not isc(t.a[1], False) and not isc(t.a[1], True)
            c.ob("R4", s, ok and find(s, t.a[1], "self.previous_correspondance.virtual", "self.virtual") is not None, f"resumed run starts at {show(t, 4)}", x, "start")
            got["s"] = 1
        else:
            c.ob("R4", s, t.op == "tuple" and isc(t.a[0], 1) and isc(t.a[1], False), f"new run starts at {show(t, 4)}", x, "start new")
            got["n"] = 1
    c.ob("R4", s, len(got) == 2, "starting date of a new or resumed run is not returned", key="start")
    t = c.g(C + "track")
    st = core([e.val for e in t.calls(".load_state")][0]) if t.calls(".load_state") else None
    c.ob("R4", t, st is not None, "a run does not look for a state to resume", key="resume")
    if st is not None:
        env = dict(_s=st)
        sw = t.calls(".swap_dataset")
        A = [carg(e.term, "dataset", 0) for e in sw]
        c.ob("R4", t, any(mt(t, a, "self.datasets[_s[0] - 1]", env) is not None for a in A), "a run does not start at the last date known", key="first date")
        c.ob("R4", t, any(mt(t, a, ["self.datasets[_s[0]:][_i]", "self.datasets[_s[0] + _i]", "self.datasets[_i]"], env) is not None for a in A), "a run does not continue at the date after", key="next dates")
        lp = [L for L in t.loops.values() if L.iter is not None and (mt(t, L.iter, ["self.datasets[_s[0]:]"], env) is not None or (L.bound is not None and find(t, L.bound, "_s[0]", env=env) is not None) or find(t, L.iter, "_s[0]", env=env) is not None)]
        c.ob("R4", t, bool(lp), "dates to match are not those after the resumed ones", key="next dates")
        rs = t.calls(".reset_dataset_cache")
        ls = t.calls(".load_state")
        c.ob("R4", t, all(a.seq < b.seq for a in rs for b in ls), "restored state is erased", key="reset")
    # --- refusal
    k = c.g(C + "load_compatible")
    L = [e for e in k.calls(".load", "tracking.Correspondances.load")]
    c.ob("R5", k, len(L) == 1, "saved result is not loaded", key="load")
    if L:
        env = dict(_l=core(L[0].val))
        rs = k.evs("raise")
        for t, n in (("self.nb_virtual != _l.nb_virtual", "extension length"), ("self.class_method != _l.class_method", "class")):
            c.ob("R5", k, any(any(mt(k, y, t, env) is not None for y in conjuncts(e.cond)) for e in rs), f"another {n} is not refused", key=n)
        for e in k.returns():
            isn = mt(k, e.val, "None") is not None
            c.ob("R5", k, isn or all(any(mt(k, y, t, env) is not None for y in conjuncts(e.cond)) for t in ("self.nb_virtual == _l.nb_virtual", "self.class_method == _l.class_method")), "a result is accepted without comparison", e, "accepted")
            if isn:
                m = cond_ok(k, e, ["filename is None"])
                c.ob("R5", k, m is None, f"saved result ignored: {m}", e, "ignored")
    i = c.g(C + "__init__")
    must_store(c, "R5", i, "self", "previous_correspondance", ["self.load_compatible(previous_correspondance)"], "result to resume", when=[])
    for a, v in (("nb_virtual", "virtual"), ("virtual", "virtual > 0"), ("datasets", "datasets")):
        must_store(c, "R5", i, "self", a, v, f"parameter {a}", when=[])
    lc = i.calls(".load_compatible")
    for a in ("nb_virtual", "class_method"):
        st = stores_at(i, "self", a)
        c.ob("R5", i, bool(st) and all(e.seq < x.seq for e in st for x in lc), f"compatibility is tested before {a} is known", key=f"{a} first")
    # --- declared fields
    decl, virt = set(), set()
    dt = [e for e in i.events if e.kind in ("store_attr", "inplace") and (e.idx == "correspondance_dtype" or contains(e.base, lambda y: y.op == "attr" and y.a[1] == "correspondance_dtype"))] + [e for e in i.calls(".append", ".extend") if contains(recv(e.term), lambda y: y.op == "attr" and y.a[1] == "correspondance_dtype")]
    for e in dt:
        for t in [x for x in (e.val, e.term) if isinstance(x, T)]:
            for y in walk(core(t)):
                if y.op == "tuple" and len(y.a) == 2 and y.a[0].op == "const" and isinstance(y.a[0].a[0], str):
                    (virt if implies(e.cond, expr(i, "virtual > 0"), expr(i, "self.virtual")) else decl).add(y.a[0].a[0])
    c.ob("R6", i, {"in", "out", "id", "cost_value"} <= decl and {"virtual", "virtual_length"} <= virt | decl, f"fields of the links: {sorted(decl)} and {sorted(virt)}", key="declared")


def g_has(g, t, *texts):
    return deep(g, t, *texts)
