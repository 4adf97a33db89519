"""Options of the command line tools: for each tool (function that parses the command line), the set of options its parser declares, itself or
through the functions it calls, is compared with the set of attributes read from the parsed options, followed through the functions they are given to.
Declarations come before the parsing. Installed commands refer to functions that exist. Every call of a function of the package, in the tools and in the
library, gives arguments the function has and all those it needs, and tools give the library every argument their reviewed definitions give. Tools, and the value of each declaration, are compared with their reviewed definitions."""
import ast
import os

from . import options as O
from .rules import *

FLOOR = 1000
ASSUMPTIONS = ["a method of an object of unknown class is one of the methods of this name in the package"]
# read by the parser itself
OWN = {"logging_level"}


def entries(repo):
    """[(command, module:function, line)] of the installed commands"""
    p = os.path.join(repo, "setup.py")
    if not os.path.exists(p):
        return p, None
    out = []
    for n in ast.walk(ast.parse(open(p).read())):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch(r"\s*\w+\s*=\s*[\w.]+:\w+\s*", n.value):
            k, v = n.value.split("=")
            out.append((k.strip(), v.strip(), n.lineno))
    return p, out


def check(c, tier):
    c.rule("R1", "every option declared by a tool is read", local="hard")
    c.rule("R2", "every option read by a tool is declared", local="hard")
    c.rule("R3", "arguments of calls exist in the function called, and those it needs are given", local="hard")
    c.rule("R4", "installed commands refer to functions that exist", local="hard")
    c.rule("R5", "options are declared before the command line is parsed", local="hard")
    c.rule("R6", "arguments which the reviewed tool gives to the library are still given")
    tools = O.tools(c.prog)
    ref = c.validator().ref
    if len(tools) < 17:
        raise Broken(f"{len(tools)} command line tools found")
    for f, decl, read, whole in tools:
        c.functions.add(f.qual)
        unknown = None in decl
        for d, call in sorted(decl.items(), key=str):
            if d is None:
                continue
            c.ob("R1", f, d in read or d in OWN or whole, f"option {d} is declared and never read", call, d)
        for r, n in sorted(read.items()):
            c.ob("R2", f, r in decl or unknown or r in OWN, f"option {r} is read and not declared", n, r)
        if f.qual not in ref.functions:
            continue
        now = O.given(c.prog, f)
        for k, (args, _) in sorted(O.given(ref, ref.functions[f.qual]).items()):
            if k not in now or now[k][0] is None or args is None:
                continue
            for a in sorted(args):
                c.ob("R6", f, a in now[k][0], f"argument {a} is no longer given to {k}", now[k][1], f"{k}.{a}")
    for f, call in O.late(c.prog):
        c.ob("R5", f, False, f"option {O.dest(call)} is declared after the command line is parsed", call, O.dest(call))
    p, es = entries(c.prog.repo)
    for k, v, line in es or ():
        m, fn = v.split(":")
        ok = f"{m}.{fn}" in c.prog.functions
        if not ok and m in c.prog.modules:
            ok = c.prog.canon(f"{m}.{fn}") in c.prog.functions
        c.ob("R4", type("W", (), dict(short=k, path=p))(), ok, f"{v} does not exist", line, k)
    for f, call, hs, e in O.calls(c.prog):
        if f.parent is None:
            c.functions.add(f.qual)
        c.ob("R3", f, e is None, f"call of {hs[0].short}: {e}", call, f"{hs[0].short}")
