#!/usr/bin/env python3
"""Make and confirm a planted change:  mkseed.py SPEC.py [id]

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo, lib=[files])].  The change is made in a scratch copy of
/repo; it is kept only if the demonstration passes without it and fails with it, and the stable tests pass with it."""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run in the root of the repository
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
export NUMBA_CACHE_DIR=$T/numba PYTHONPATH=$PWD/src:$HERE TMPDIR=$T MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 ZARR_V3_EXPERIMENTAL_API=0
cd "$T" || exit 2
timeout 280 /opt/venv/bin/python -W ignore "$HERE/demo.py"
R=$?
rm -rf "$T"
exit $R
'''


def sh(cmd, cwd, env=None, t=600):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, shell=True, env=e, capture_output=True, text=True, timeout=t)


def one(s, tests=True):
    d = os.path.join(V, "seeded", s["id"])
    w = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    wt = os.path.join(w, "repo")
    try:
        sh(f"cp -a /repo {wt}", "/")
        sh("git checkout -q -- . && git clean -fdq", wt)
        for f, old, new in s["edits"]:
            p = os.path.join(wt, f)
            t = open(p).read()
            if t.count(old) != 1:
                return f"{s['id']}: text found {t.count(old)} times in {f}"
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", wt).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"])
        for l in s.get("lib", []):
            shutil.copy(l, d)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = sh(f"bash {d}/demo.sh", "/repo")
        b = sh(f"bash {d}/demo.sh", wt)
        r = f"{s['id']}: unchanged {a.returncode} with the change {b.returncode}"
        ok = a.returncode == 0 and b.returncode not in (0, 2, 124)
        if ok and tests:
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            t = sh("timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests -rA 2>&1 | grep -c '^PASSED'", wt,
                   dict(PYTHONPATH=wt + "/src", NUMBA_CACHE_DIR=w + "/nb", MPLBACKEND="agg"), 900)
            n = int(t.stdout.strip() or 0)
            r += f" tests {n}/{len(base)}"
            ok = n >= len(base)
        c = sh(f"python3 {V}/check.py {s['property']}", V, dict(VP_REPO=wt)) if False else None
        r += " CONFIRMED" if ok else " REJECTED\n" + a.stdout[-800:] + a.stderr[-800:] + "\n--\n" + b.stdout[-800:] + b.stderr[-800:]
        # what the check says
        env = dict(VERIF_REPO=wt)
        c = sh(f"python3 check.py {s['property']}", V, env)
        r += f" | check exit {c.returncode}: " + " / ".join(c.stdout.strip().split("\n")[1:3])[:400]
        if not ok:
            shutil.rmtree(d)
        return r
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    seeds = [s for s in ns["SEEDS"] if len(sys.argv) < 3 or s["id"] in sys.argv[2].split(",")]
    from multiprocessing import Pool
    with Pool(3) as p:
        for r in p.imap(one, seeds):
            print(r, flush=True)
