"""Files opened: every call that opens a file (netCDF, plain file, archive) is found on the syntax trees, and the handle is followed: it must be the
context of a `with`, be closed by a `finally` (or at once, before anything can fail), or be given to the caller. A handle, or a variable of a file that reads when it is used, is
not used once the block that closes the file is left. Zarr stores on disk have nothing to close."""
from . import handles as H
from .rules import *

FLOOR = 28
ASSUMPTIONS = ["closing a file written with netCDF4 or open completes its data; zarr directory stores are complete after each assignment"]
SAY = dict(lost="is never closed", kept="is kept in an object and not closed by the function")


def check(c, tier):
    c.rule("R1", "files opened are closed on every path, or given to the caller", local="hard")
    c.rule("R2", "nothing reads a file once it is closed", local="hard")
    for q, f in sorted(c.prog.functions.items()):
        if f.parent is not None:
            continue
        for call, how, v in H.opened(c.prog, f):
            c.functions.add(q)
            ok = how in ("with", "closed", "returned")
            c.ob("R1", f, ok, f"file opened by {ast.unparse(call)[:60]} {SAY.get(how, 'is ' + how)}", call, ast.unparse(call)[:60])
            if ok:
                c.ob("R2", f, True, "used while open", call, ast.unparse(call)[:60])
        for n, x in H.late(c.prog, f):
            c.ob("R2", f, False, f"{n} is used when its file is closed", x, n)
