#!/usr/bin/env python3
"""Regenerates properties.jsonl, MANIFEST.json and (from the fix: commits of /repo) the fixed entries of known_findings.jsonl."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa: E402

TECH = {}


def main():
    rows, checks = [], []
    for p in PROPS:
        rows.append({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        })
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
        if p.get("claimed", True):
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
                "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["note"],
                "evidence_file": "evidence/%s.json" % p["id"],
            })
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for r in rows:
            f.write(json.dumps(r) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "hooks": {"guard": "MMCORE_VERIF_HOOKS", "enable": "no hooks were needed: the monitors observe the public interface (and scratch builds with sanitizers); nothing in /repo reads this variable", "source_commits": []},
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": "All checks share run.py / lib/harness.py. /repo's compiled modules are used in place when they match the sources, otherwise a scratch copy is rebuilt (lib/build.py).",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    # known findings: keep the hand written "known" lines, regenerate the fixed ones
    kf = os.path.join(V, "known_findings.jsonl")
    keep = []
    if os.path.exists(kf):
        keep = [json.loads(x) for x in open(kf) if x.strip() and json.loads(x)["status"] == "known"]
    fm = {}
    for line in open(os.path.join(HERE, "fixmap.txt")):
        if line.strip():
            pid, sub = line.rstrip("\n").split(" ", 1)
            fm[sub] = pid
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
    out = []
    for line in log.splitlines():
        h, s = line.split(" ", 1)
        if not s.startswith("fix: "):
            continue
        pid = fm.get(s[5:])
        if pid is None:
            print("no property for: " + s[5:])
            continue
        out.append({"property": pid, "key": "fixed-" + h, "status": "fixed", "what": "fixed: property=%s %s %s" % (pid, h, s[5:])})
    with open(kf, "w") as f:
        for d in keep + out:
            f.write(json.dumps(d) + "\n")


main()
