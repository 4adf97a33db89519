"""Definitions that were repaired (checker/bad, one file for each "fix:" commit): a function which cannot be compared with its reference, and
is shown equal to its definition before a repair, has the defect again."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))


def programs(ref):
    """[(commit, what failed, {qualname}, text by file)]"""
    out = []
    for p in sorted(glob.glob(os.path.join(HERE, "bad", "*.json"))):
        with open(p) as h:
            d = json.load(h)
        over = {}
        for f, hs in d["files"].items():
            q = os.path.join(HERE, "ref", f)
            with open(q) as h:
                t = h.read()
            for old, new in hs:
                if t.count(old) != 1:
                    raise ValueError(f"{p}: {f}: the text repaired is not in the reference")
                t = t.replace(old, new)
            over[q] = t
        out.append((os.path.basename(p)[:-5], d["what"], over))
    return out


def names(tree):
    """Text of functions by name within the module"""
    out = {}

    def go(n, at):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = at + c.name
                if isinstance(c, ast.FunctionDef):
                    out[q] = ast.dump(c)
                go(c, q + ".")
            else:
                go(c, at)

    go(tree, "")
    return out


class Known:
    def __init__(self, ref):
        self.ref, self.by, self.progs = ref, {}, {}
        for c, what, over in programs(ref):
            for path, text in over.items():
                m = [m for m in ref.modules.values() if m.path == path]
                if not m:
                    continue
                a, b = names(m[0].tree), names(ast.parse(text))
                for n in b:
                    if n in a and a[n] != b[n]:
                        self.by.setdefault(f"{m[0].name}.{n}", []).append((c, what, over))

    def program(self, c, over):
        if c not in self.progs:
            from . import terms as TT
            from .engine import Program

            keep = set(TT.FIELDS), dict(TT.ALIAS)
            self.progs[c] = Program(self.ref.repo, overlay=over)
            TT.FIELDS.clear()
            TT.FIELDS.update(keep[0])
            TT.ALIAS.clear()
            TT.ALIAS.update(keep[1])
        return self.progs[c]

    def again(self, qual, cur):
        """(line, what) when the function is one that was repaired"""
        from .equiv import Validator

        for c, what, over in self.by.get(qual, ()):
            try:
                r = Validator(self.program(c, over), cur)._compare(qual)
            except Exception:
                continue
            if r.status == "same":
                return cur.functions[qual].node.lineno, [f"defect repaired in {c} is back: {what}"]
        return None
