"""Definitions as they were before each repair ("fix:" commits of /repo): checker/bad/<commit>.json holds, for each, the text
to put back in the reference.  A function which cannot be compared with its reference is compared with these ones."""
import difflib
import json
import os
import re
import shutil
import subprocess
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF, BAD = os.path.join(V, "checker", "ref"), os.path.join(V, "checker", "bad")


def git(d, *a):
    return subprocess.run(["git", "-C", d, *a], capture_output=True, text=True)


def hunks(old, new):
    """(text of the reference, text before the repair), each text found once in the reference"""
    a, b = old.splitlines(True), new.splitlines(True)
    out = []
    for op, i, j, k, l in difflib.SequenceMatcher(None, a, b, False).get_opcodes():
        if op == "equal":
            continue
        n = 0
        while n < 60:
            t = "".join(a[max(0, i - n) : j + n])
            if t and old.count(t) == 1:
                break
            n += 1
        out.append((max(0, i - n), min(len(a), j + n), a[max(0, i - n) : i], b[k:l], a[j : j + n], (i, j)))
    # contexts that meet are joined
    res = []
    for h in out:
        if res and h[0] < res[-1][1]:
            p = res.pop()
            mid = a[p[5][1] : h[5][0]]
            h = (p[0], max(p[1], h[1]), p[2], p[3] + mid + h[3], h[4], (p[5][0], h[5][1]))
        res.append(h)
    return [("".join(a[h[0] : h[1]]), "".join(h[2] + h[3] + h[4])) for h in res]


def main():
    os.makedirs(BAD, exist_ok=True)
    for f in os.listdir(BAD):
        os.remove(os.path.join(BAD, f))
    w = tempfile.mkdtemp(prefix="mkbad")
    d = os.path.join(w, "r")
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    git(d, "config", "user.email", "a@b")
    git(d, "config", "user.name", "a")
    try:
        for l in open(os.path.join(V, "known_findings.txt")):
            m = re.match(r"fixed: property=(\S+) (\w+) (.*)", l)
            if not m:
                continue
            pid, c, what = m.groups()
            r = git(d, "revert", "--no-edit", "-n", c)
            files = {}
            if r.returncode == 0:
                for f in git(d, "diff", "--name-only", "HEAD").stdout.split():
                    p = os.path.join(REF, f)
                    if os.path.exists(p) and os.path.exists(os.path.join(d, f)):
                        files[f] = hunks(open(p).read(), open(os.path.join(d, f)).read())
            git(d, "revert", "--quit")
            git(d, "reset", "-q", "--hard", "HEAD")
            if not files:
                print("not reverted:", c, what)
                continue
            for f, hs in files.items():
                t = open(os.path.join(REF, f)).read()
                for o, n in hs:
                    assert t.count(o) == 1, (c, f, o)
                    t = t.replace(o, n)
                compile(t, f, "exec")
            json.dump(dict(property=pid, what=what, files=files), open(os.path.join(BAD, c + ".json"), "w"), indent=1)
    finally:
        shutil.rmtree(w)


main()
