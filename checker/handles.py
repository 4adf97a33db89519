"""Files opened: closed when the function ends, not used once they are closed"""
import ast

OPENERS = {"open", "Dataset", "MFDataset", "File", "NamedTemporaryFile", "TemporaryFile", "ZipFile", "TarFile", "ZipStore", "memmap", "urlopen", "open_dataset"}
# stores that have nothing to close
NONE = ("zarr.open", "webbrowser.open", "os.open")


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b and f"{b}.{e.attr}"
    return None


def is_open(prog, f, c):
    """The call opens a file"""
    if not isinstance(c, ast.Call):
        return False
    d = dotted(c.func)
    if d is None:
        return False
    if d.split(".")[-1] not in OPENERS:
        return d.split(".")[-1] in makers(prog)
    q = prog.resolve_expr(f.module, c.func) or d
    if d.split(".")[-1] == "open" and any(k.arg == "fileobj" for k in c.keywords):
        # an archive in memory
        return False
    if q in NONE or d in NONE or q.startswith("zarr.") and not q.endswith("ZipStore"):
        return False
    if q in prog.functions or q in prog.classes:
        return False
    if "." in d and d.split(".")[0] not in f.module.imports:
        # a method of an object: Path(..).open()
        return d.split(".")[-1] == "open"
    return True


def makers(prog):
    """Names of the functions that give a file they opened"""
    r = prog.__dict__.get("_file_makers")
    if r is None:
        r = prog._file_makers = set()
        new = {f.name for f in prog.functions.values() if f.name not in OPENERS and not f.decorators and any(h == "returned" for _, h, _ in opened(prog, f))}
        r |= new
    return r


def parents(node):
    out = {}
    for n in ast.walk(node):
        for k in ast.iter_child_nodes(n):
            out[k] = n
    return out


def opened(prog, f):
    """[(call, how it ends)]: with, closed, returned, kept, given, lost"""
    par = parents(f.node)
    out = []
    for c in ast.walk(f.node):
        if not is_open(prog, f, c):
            continue
        p = par.get(c)
        n = c
        while isinstance(p, (ast.IfExp, ast.NamedExpr)) or isinstance(p, ast.Call) and dotted(p.func) in ("closing", "contextlib.closing") or isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr == "enter_context":
            n, p = p, par.get(p)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                break
        if isinstance(p, ast.withitem) or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "enter_context":
            out.append((c, "with", None))
            continue
        if isinstance(p, (ast.Return, ast.Yield)):
            out.append((c, "returned", None))
            continue
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
            out.append((c, ends(f, par, p, p.targets[0].id), p.targets[0].id))
            continue
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Attribute):
            out.append((c, "kept", None))
            continue
        if isinstance(p, ast.Call) and c in p.args:
            out.append((c, "lost", None))
            continue
        out.append((c, "lost", None))
    return out


def closes(n, v):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "close" and isinstance(n.func.value, ast.Name) and n.func.value.id == v


def always(stmts, v):
    """The statements close v, whatever they do: a close at their level comes before any way out"""
    for s in stmts:
        if isinstance(s, ast.Expr) and closes(s.value, v):
            return True
        if isinstance(s, ast.If) and s.orelse and always(s.body, v) and always(s.orelse, v):
            return True
        if isinstance(s, ast.If) and not s.orelse and always(s.body, v) and v in {x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)}:
            # `if h is not None: h.close()`
            return True
        if isinstance(s, ast.With) and (always(s.body, v)):
            return True
        if isinstance(s, ast.Try) and always(s.finalbody, v):
            return True
    return False


def ends(f, par, assign, v):
    """How the handle assigned to v ends"""
    # with v: ...   later
    node, blk = assign, None
    while True:
        p = par.get(node)
        if p is None:
            break
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(p, fld, None)
            if isinstance(b, list) and node in b:
                rest = b[b.index(node) + 1:]
                if isinstance(p, ast.Try) and fld == "body" and always(p.finalbody, v):
                    return "closed"
                for s in rest:
                    if isinstance(s, ast.With) and any(isinstance(i.context_expr, ast.Name) and i.context_expr.id == v or isinstance(i.context_expr, ast.Call) and dotted(i.context_expr.func) in ("closing", "contextlib.closing") and any(isinstance(a, ast.Name) and a.id == v for a in i.context_expr.args) for i in s.items):
                        return "with"
                    if isinstance(s, ast.Try) and always(s.finalbody, v):
                        return "closed"
                    if isinstance(s, ast.Return) and isinstance(s.value, ast.Name) and s.value.id == v:
                        return "returned"
                    if isinstance(s, ast.Expr) and closes(s.value, v):
                        return "closed"
                    if any(isinstance(x, (ast.Call, ast.Subscript, ast.Raise, ast.Return, ast.Break, ast.Continue)) for x in ast.walk(s)):
                        # something may fail, or leave, before it is closed
                        if any(closes(x, v) for r in rest for x in ast.walk(r)):
                            return "not closed when something fails before"
                        break
        node = p
    if any(isinstance(x, (ast.Return, ast.Yield)) and x.value is not None and any(isinstance(y, ast.Name) and y.id == v for y in ast.walk(x.value)) for x in ast.walk(f.node)):
        return "returned"
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == v and any(isinstance(t, ast.Attribute) for t in x.targets):
            return "kept"
    if any(closes(x, v) for x in ast.walk(f.node)):
        return "not closed when something fails before"
    return "lost"


def view(e, names):
    """The expression is the handle, or something that reads it when it is used"""
    if isinstance(e, ast.Name):
        return e.id in names
    if isinstance(e, ast.Attribute):
        return e.attr in ("variables", "groups", "dimensions", "parent") and view(e.value, names)
    if isinstance(e, ast.Subscript):
        b = e.value
        return isinstance(b, ast.Attribute) and b.attr in ("variables", "groups") and view(b.value, names)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
        return e.func.attr in ("items", "values", "get") and view(e.func.value, names)
    if isinstance(e, ast.IfExp):
        return view(e.body, names) or view(e.orelse, names)
    if isinstance(e, (ast.List, ast.Tuple)):
        return any(view(x, names) for x in e.elts)
    if isinstance(e, ast.ListComp):
        ns = names | {t.id for g in e.generators if view(g.iter, names) for t in ast.walk(g.target) if isinstance(t, ast.Name)}
        return view(e.elt, ns)
    if isinstance(e, ast.GeneratorExp):
        return any(view(x, names) for x in ast.walk(e) if isinstance(x, ast.Name))
    return False


def late(prog, f):
    """[(name, use)] handles, or variables of files, used when the file is closed"""
    out = []
    par = parents(f.node)
    order = {}
    for i, n in enumerate(ast.walk(f.node)):
        order[n] = i
    for w in ast.walk(f.node):
        if not isinstance(w, ast.With):
            continue
        names = set()
        for it in w.items:
            if is_open(prog, f, it.context_expr) and isinstance(it.optional_vars, ast.Name):
                names.add(it.optional_vars.id)
        if not names:
            continue
        for _ in range(3):
            for n in ast.walk(w):
                if isinstance(n, ast.Assign) and view(n.value, names):
                    names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
                elif isinstance(n, ast.For) and view(n.iter, names):
                    names |= {t.id for t in ast.walk(n.target) if isinstance(t, ast.Name)} if not isinstance(n.iter, ast.Name) else set()
        # names bound to other things as well, inside: no opinion
        for n in ast.walk(w):
            if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None:
                if isinstance(n, ast.Return) and view(n.value, names):
                    out.append((ast.unparse(n.value), n))
        # statements that follow
        node, p = w, par.get(w)
        live = set(names)
        while p is not None and live:
            loop = isinstance(p, (ast.For, ast.While))
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(p, fld, None)
                if isinstance(b, list) and node in b:
                    for s in b[b.index(node) + 1:]:
                        use = [x for x in ast.walk(s) if isinstance(x, ast.Name) and x.id in live and isinstance(x.ctx, ast.Load)]
                        sets = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
                        for x in use:
                            if x.id not in sets:
                                out.append((x.id, x))
                        live -= sets
            node, p = p, par.get(p)
    return out
