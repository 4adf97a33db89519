#!/usr/bin/env python3
"""Property table: generates properties.jsonl and MANIFEST.json (python3 tools/props.py)"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                  why=" ".join(why.split()), files=files, mech=mech, tech=tech, note=note, na=na))


S = "src/py_eddy_tracker/"
TRK, OBS, NET, GRP, TOB, GRD = (S + "tracking.py", S + "observations/observation.py", S + "observations/network.py",
                               S + "observations/groups.py", S + "observations/tracking.py", S + "dataset/grid.py")
EF, GEN, POL, EED, ENT, EGR = (S + "eddy_feature.py", S + "generic.py", S + "poly.py", S + "appli/eddies.py", S + "appli/network.py", S + "appli/grid.py")
VF = "rules over value-flow graphs (def-use with guards and loops) built from the syntax tree, "

exec(open(os.path.join(V, "tools", "table.py")).read())


def main():
    ids = [x["id"] for x in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(V, "properties.jsonl"), "w") as h:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            h.write(json.dumps(dict(
                id=x["id"], title=x["title"], statement=x["statement"],
                quantifier=dict(over=x["over"], text=x["text"]), why_tests_cant=x["why"],
                anchors=dict(files=x["files"], mechanism=[dict(name=n, where=w) for n, w in x["mech"]]))) + "\n")
    checks, na = [], []
    for x in P:
        have = os.path.exists(os.path.join(V, "checker", f"p_{x['id'].lower()}.py"))
        if have and not x["na"]:
            checks.append(dict(property=x["id"], quick_cmd=f"python3 check.py {x['id']} quick",
                               thorough_cmd=f"python3 check.py {x['id']} thorough",
                               technique="static analysis: " + (x["tech"] or VF + "obligations at each construct"),
                               level="other",
                               level_note=x["note"] or "every construct the rules select on the current source is decided; sound for the listed rules, up to the modelling of numpy calls and the assumptions written in the evidence"))
        else:
            na.append(dict(property=x["id"], reason=x["na"] or "analysis not built yet"))
    with open(os.path.join(V, "MANIFEST.json"), "w") as h:
        json.dump(dict(version=1, setup_cmd="python3 -c 'import ast'", checks=checks, not_applicable=na), h, indent=1)
        h.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


main()
