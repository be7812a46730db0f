#!/usr/bin/env python3
"""Writes the generated part of DESIGN.md (after the marker line) from tools/props.py, the RULE, ASSUMPTIONS and
SCENARIOS of every check, tools/findings.md (hand written) and seeded/*/meta.json + tools/seed_results.json."""
import ast, glob, json, os, sys, textwrap
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa: E402
MARK = "<!-- generated by tools/design.py from here on -->"


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ASSUMPTIONS", "SCENARIOS"):
            if n.targets[0].id == "SCENARIOS":
                out["SCENARIOS"] = [(k.value, ast.unparse(v.elts[1]), ast.unparse(v.elts[2])) for k, v in zip(n.value.keys, n.value.values)] if isinstance(n.value, ast.Dict) else []
            else:
                out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def doc(path):
    d = ast.get_docstring(ast.parse(open(path).read()))
    return " ".join((d or "").split())


def wrap(s, ind=""):
    return textwrap.fill(s, 118, initial_indent=ind, subsequent_indent=" " * len(ind))


L = [MARK, "", "## Properties", "",
     "Every one is decided by runtime monitoring; numbers are cases of the thorough tier (the quick tier runs about a tenth",
     "of that). `oracle` is what the recorded result is compared with.", ""]
for p in PROPS:
    path = os.path.join(V, "checks", p["id"].lower() + ".py")
    c = consts(path)
    L += ["### %s %s" % (p["id"], p["title"]), ""]
    L.append(wrap(p["note"], "- decided: "))
    if c.get("RULE"):
        L.append(wrap(c["RULE"], "- workload: "))
    if doc(path):
        L.append(wrap(doc(path), "- monitors: "))
    for a in c.get("ASSUMPTIONS", []):
        L.append(wrap(a, "- bound: "))
    if c.get("SCENARIOS"):
        L.append(wrap(", ".join("%s %s" % (a, t) for a, q, t in c["SCENARIOS"]), "- scenarios: "))
    L.append(wrap(p["why"], "- beyond the tests: "))
    L.append("")
if NOT_APPLICABLE:
    L += ["## Not applicable", ""] + ["- %s: %s" % (n["id"], n["reason"]) for n in NOT_APPLICABLE] + [""]
f = os.path.join(HERE, "findings.md")
if os.path.exists(f):
    L += [open(f).read().rstrip(), ""]
rf = os.path.join(HERE, "seed_results.json")
res = json.load(open(rf)) if os.path.exists(rf) else {}
L += ["## Seeded bugs", "", "| bug | property | needs | caught by (quick, seed 1) |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    n = os.path.basename(d)
    m = json.load(open(os.path.join(d, "meta.json")))
    r = res.get(n, {})
    got = ", ".join(k for k, v in sorted(r.items()) if v == 1) or "missed"
    L.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), got))
L.append("")
path = os.path.join(V, "DESIGN.md")
head = open(path).read().split(MARK)[0].rstrip() + "\n\n"
open(path, "w").write(head + "\n".join(L))
