#!/usr/bin/env python3
"""Decide one property on /repo's current source:  check.py <ID> [quick|thorough]

exit 0: every obligation is discharged (known findings are printed)
exit 1: VIOLATION line
exit 2: the analysis could not be done (vanished anchor, too few instances)
"""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from checker.engine import Broken, Program  # noqa
from checker.vtable import names  # noqa
from checker.rules import Check, VERIF, known_findings  # noqa


def run(pid, tier, prog=None):
    t0 = time.time()
    prog = prog or Program()
    c = Check(pid, prog)
    mod = importlib.import_module(f"checker.p_{pid.lower()}")
    try:
        mod.check(c, tier)
        c.need(getattr(mod, "FLOOR", 1))
        c.validate(names(pid))
    except Exception:
        # what was decided before the analysis stopped still stands
        c.hygiene()
        c.validate(names(pid))
        if not c.findings:
            raise
        traceback.print_exc()
    else:
        c.hygiene()
    c.settle()
    c.wall = time.time() - t0
    c.mod = mod
    return c


def evidence(c, tier, new, known):
    ev = {
        "property": c.pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": {
            "explanation": " ".join((c.mod.__doc__ or "").split()),
            "rules": c.rules,
            "functions_analysed": len(c.functions),
            "functions": sorted(c.functions),
            "obligations": len(c.obl),
            "discharged": sum(o["ok"] for o in c.obl),
            "by_rule": {r: sum(o["rule"] == r for o in c.obl) for r in c.rules},
            "samples": c.obl[:12],
            "modules_parsed": len(c.prog.modules),
            "compared_with_reference": {s: sum(x == s for x in c.verdicts.values()) for s in set(c.verdicts.values())},
            "not_decided": c.notes,
        },
        "assumptions": getattr(c.mod, "ASSUMPTIONS", []),
        "wall_s": round(c.wall, 3),
        "violations": len(new),
    }
    if known:
        ev["coverage"]["known_findings"] = [k["key"] for k in known]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{c.pid}.json"), "w") as h:
        json.dump(ev, h, indent=1)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        c = run(pid, tier)
    except Broken as e:
        print(f"ANALYSIS-BROKEN property={pid} {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={pid} internal error")
        return 2
    kf = known_findings()
    new = [f for f in c.findings if (pid, f["key"]) not in kf]
    known = [f for f in c.findings if (pid, f["key"]) in kf]
    evidence(c, tier, new, known)
    print(f"{pid}: {len(c.functions)} functions analysed, {len(c.obl)} obligations, {sum(o['ok'] for o in c.obl)} discharged")
    for f in known:
        print(f"KNOWN-FINDING: property={pid} {f['key']} {f['what']}")
    if new:
        rp = os.path.join(VERIF, "evidence", f"{pid}.report.txt")
        with open(rp, "w") as h:
            for f in new:
                line = f"{f['file']}:{f['line']}: [{f['rule']}] {f['construct']}: {f['what']}"
                h.write(line + "\n    key: " + f["key"] + "\n    rule: " + c.rules.get(f["rule"], "") + "\n")
                print(line)
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
