"""How far the text of a function is from its reference: is it a small edit (a changed operand, operator, name, bound, a
statement removed, added or moved), or was the function written anew?  Only asked when the value-flow graphs differ."""
import ast
import difflib

SIMPLE = (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.Return, ast.Continue, ast.Break, ast.Raise, ast.Delete, ast.Pass, ast.Assert)
MAXSTMT, MAXNODE = 3, 9


def log_stmt(s):
    return isinstance(s, ast.Expr) and (
        isinstance(s.value, ast.Constant)
        or isinstance(s.value, ast.Call)
        and ast.unparse(s.value.func).startswith(("logger.", "logging.", "print", "warnings."))
    )


def lines(body, depth, out):
    for s in body:
        if isinstance(s, ast.Pass) or log_stmt(s):
            continue
        if isinstance(s, (ast.If, ast.While)):
            out.append((depth, type(s).__name__, [s.test], s))
            lines(s.body, depth + 1, out)
            if s.orelse:
                out.append((depth, "else", [], s))
                lines(s.orelse, depth + 1, out)
        elif isinstance(s, ast.For):
            out.append((depth, "For", [s.target, s.iter], s))
            lines(s.body, depth + 1, out)
            if s.orelse:
                out.append((depth, "else", [], s))
                lines(s.orelse, depth + 1, out)
        elif isinstance(s, ast.With):
            out.append((depth, "With", [i.context_expr for i in s.items] + [i.optional_vars for i in s.items if i.optional_vars], s))
            lines(s.body, depth + 1, out)
        elif isinstance(s, ast.Try):
            out.append((depth, "Try", [], s))
            lines(s.body, depth + 1, out)
            for h in s.handlers:
                out.append((depth, "except", [h.type] if h.type else [], s))
                lines(h.body, depth + 1, out)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            out.append((depth, "def", [], s))
            lines(s.body, depth + 1, out)
        else:
            out.append((depth, type(s).__name__, [s], s))
    return out


def text(l):
    return (l[0], l[1], tuple(ast.unparse(x) for x in l[2]))


def size(n):
    return sum(1 for x in ast.walk(n) if not isinstance(x, (ast.expr_context, ast.operator, ast.cmpop, ast.unaryop, ast.boolop)))


def distance(a, b, lim=40):
    """Number of nodes that differ (a node around, or taken off, an unchanged part counts for itself)"""
    if ast.dump(a) == ast.dump(b):
        return 0
    best = max(size(a), size(b))
    if type(a) is type(b):
        n = 0
        for f in a._fields:
            n += field(getattr(a, f, None), getattr(b, f, None))
        best = min(best, n)
    for x, y in ((a, b), (b, a)):
        for c in [k for n in [x, *ast.iter_child_nodes(x)] for k in ast.iter_child_nodes(n)]:
            if type(c) is type(y) and isinstance(c, ast.expr) and ast.dump(c) == ast.dump(y):
                best = min(best, size(x) - size(c))
    return best


def field(x, y):
    if isinstance(x, ast.AST) and isinstance(y, ast.AST):
        if isinstance(x, (ast.operator, ast.cmpop, ast.unaryop, ast.boolop, ast.expr_context)):
            return type(x) is not type(y)
        return distance(x, y)
    if isinstance(x, list) and isinstance(y, list):
        if len(x) == len(y):
            return sum(field(u, v) for u, v in zip(x, y))
        dx = [ast.dump(u) if isinstance(u, ast.AST) else u for u in x]
        dy = [ast.dump(u) if isinstance(u, ast.AST) else u for u in y]
        n = 0
        for op, i, j, k, l in difflib.SequenceMatcher(None, dx, dy, False).get_opcodes():
            if op != "equal":
                n += max(sum(size(u) for u in x[i:j] if isinstance(u, ast.AST)), sum(size(u) for u in y[k:l] if isinstance(u, ast.AST)), 1)
        return n
    if x is None and isinstance(y, ast.AST):
        return size(y)
    if y is None and isinstance(x, ast.AST):
        return size(x)
    return int(x != y)


def words(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            out.add(n.id)
    return out


def small_edit(fr, fc):
    """(line, description) when the current function is the reference with a small edit, None otherwise"""
    if [a.arg for a in fr.args.args] != [a.arg for a in fc.args.args]:
        return None
    A, B = lines(fr.body, 0, []), lines(fc.body, 0, [])
    new = words(fc) - words(fr)
    ta, tb = [text(x) for x in A], [text(x) for x in B]
    n, first, what = 0, None, []
    da = [ast.unparse(d) for d in fr.args.defaults]
    db = [ast.unparse(d) for d in fc.args.defaults]
    if da != db:
        n += 1
        first, what = fc.lineno, [f"default {db} instead of {da}"]
    # loops and branches are kept
    comp = lambda L: sorted(x[1] for x in L if x[1] not in [c.__name__ for c in SIMPLE])
    ca, cb = comp(A), comp(B)
    for op, i, j, k, l in difflib.SequenceMatcher(None, ta, tb, False).get_opcodes():
        if op == "equal":
            continue
        n += max(j - i, l - k)
        if n > MAXSTMT:
            return None
        if first is None:
            first = B[k][3].lineno if k < len(B) else fc.lineno
        if op == "replace":
            if j - i != l - k:
                return None
            for x, y in zip(A[i:j], B[k:l]):
                if {x[1], y[1]} == {"Assign", "Expr"} and ast.dump(x[3].value) == ast.dump(y[3].value):
                    what.append(f"{' '.join(text(y)[2])[:90]} instead of {' '.join(text(x)[2])[:90]}")
                    continue
                if x[1] != y[1] or len(x[2]) != len(y[2]):
                    return None
                d = sum(distance(u, v) for u, v in zip(x[2], y[2]))
                if d > MAXNODE:
                    return None
                what.append(f"{' '.join(text(y)[2])[:90]} instead of {' '.join(text(x)[2])[:90]}")
        else:
            block = {id(x[3]) for x in A[i:j] + B[k:l]}
            for x in A[i:j] + B[k:l]:
                if not isinstance(x[3], SIMPLE) and not guard(x[3]) and not whole(x[3], block):
                    return None
            what.append(("no longer: " if j > i else "now: ") + " / ".join(" ".join(text(x)[2])[:60] for x in A[i:j] + B[k:l]))
    if new and not all(w in ("None", "True", "False") for w in new):
        # a name that was not there: only when it stands for another one in place
        import builtins

        if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in new for x in ast.walk(fc)) or len(new) > 1:
            return None
    if not what:
        return None
    return first, what


def guard(s):
    return isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], (ast.Continue, ast.Break, ast.Return, ast.Raise))


def whole(s, block):
    """A condition which goes (or comes) with all it governs"""
    return isinstance(s, ast.If) and not s.orelse and all(isinstance(x, SIMPLE) and (id(x) in block or log_stmt(x)) for x in s.body)
