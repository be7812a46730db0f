#!/opt/venv/bin/python
"""Check driver:  run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]

exit 0: held on everything explored; 1: VIOLATION; 2: no verdict (build failed, too little explored).
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, VERIF)
import build  # noqa: E402

T0 = time.time()


def meta(prop, env):
    """static facts of the check module, read in a child so that the driver imports no mmcore"""
    code = ("import sys,json,importlib;sys.path[:0]=[%r,%r];import harness;m=importlib.import_module('checks.%s');"
            "print('\\n@@'+json.dumps(dict(scen=harness.budget(m),"
            "rule=m.RULE,assumptions=m.ASSUMPTIONS,cpu=getattr(m,'CPU_CASE',120),level='exploration')))"
            % (VERIF, os.path.join(VERIF, "lib"), prop.lower()))
    p = subprocess.run([build.PY, "-c", code], env=env, capture_output=True, text=True)
    if p.returncode:
        return None, p.stderr[-3000:]
    return json.loads(p.stdout.split("\n@@")[-1]), ""


def spawn(prop, tier, seed, shard, n, out, deadline, cpu, env, only=None, skip=0, cwd=None):
    arg = dict(prop=prop, tier=tier, seed=seed, shard=shard, nshards=n, outpath=out, deadline=deadline,
               cpu_case=cpu, only=only, skip=skip)
    err = open(out + ".err", "ab")
    return subprocess.Popen([build.PY, "-X", "faulthandler", os.path.join(VERIF, "lib", "harness.py"), json.dumps(arg)],
                            env=env, stdout=subprocess.DEVNULL, stderr=err, cwd=cwd, start_new_session=True)


def run(prop, tier, seed, replay=None):
    n = int(os.environ.get("VERIF_JOBS", "8"))
    limit = float(os.environ.get("VERIF_WALL", "300" if tier == "quick" else "660"))
    san = 'BUILD = "sanitized"' in open(os.path.join(VERIF, "checks", prop.lower() + ".py")).read()
    try:
        tgt = build.sanitized() if san else build.target()
    except build.BuildError as e:
        print("build of the code under test failed:\n" + str(e), file=sys.stderr)
        return 2
    work = tempfile.mkdtemp(prefix="verif-run-")
    tgt.san = san
    try:
        return _run(prop, tier, seed, replay, n, limit, tgt, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        tgt.close()


def _run(prop, tier, seed, replay, n, limit, tgt, work):
    env = build.env_for(tgt.path)
    if tgt.san:
        logs = os.path.join(work, "sanitizer")
        os.mkdir(logs)
        env.update(build.san_env(logs))
    m, err = meta(prop, env)
    crash_import = None
    if m is None:
        # importing the check imports the code under test; a tree that cannot be
        # imported breaks every property, but tell it apart from a harness fault
        print(err, file=sys.stderr)
        print("the check module could not be loaded", file=sys.stderr)
        return 2
    deadline = time.time() + limit
    only = None
    if replay:
        r = json.load(open(replay))
        only, seed, tier, n = [r["scenario"], r["index"]], r["seed"], r.get("tier", tier), 1
    outs = [os.path.join(work, "out%d" % i) for i in range(n)]
    procs = {}
    restarts = {}
    crashes = []
    for i in range(n):
        procs[i] = spawn(prop, tier, seed, i, n, outs[i], deadline, m["cpu"], env, only, 0, work)
    hard = deadline + 60
    stuck = False
    while procs:
        for i, p in list(procs.items()):
            rc = p.poll()
            if rc is None:
                continue
            del procs[i]
            if rc == 0:
                continue
            tail = open(outs[i] + ".err", "rb").read()[-3000:].decode("utf8", "replace")
            cur = None
            try:
                cur = json.loads(open(outs[i] + ".cur").read())
            except (OSError, ValueError):
                pass
            if cur is None:
                print("worker %d failed before its first case (rc %s)\n%s" % (i, rc, tail), file=sys.stderr)
                return 2
            if rc > 0:
                print("worker %d failed (rc %s) in %s\n%s" % (i, rc, cur, tail), file=sys.stderr)
                if rc == 97:
                    return 2
            why = ("did not terminate within %d s of CPU time" % m["cpu"]) if rc == -signal.SIGVTALRM else \
                  ("the process died: rc %s" % rc)
            crashes.append({"scenario": cur[1], "index": cur[2], "seed": seed,
                            "violations": [{"monitor": "process-survives", "msg": why, "data": {"stderr": tail[-1200:]}}]})
            restarts[i] = restarts.get(i, 0) + 1
            if restarts[i] <= 2 and only is None and time.time() < deadline:
                procs[i] = spawn(prop, tier, seed, i, n, outs[i], deadline, m["cpu"], env, only, cur[0] + 1, work)
        if time.time() > hard:
            stuck = True
            for p in procs.values():
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
            break
        time.sleep(0.05)
    rows, planned = [], 0
    for o in outs:
        if os.path.exists(o):
            for line in open(o):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d.get("done"):
                    planned += d["planned"]
                else:
                    rows.append(d)
    total_planned = 1 if only else sum(v[0 if tier == "quick" else 1] for v in m["scen"].values())
    counts, sigs, states, known, skipped = {}, set(), set(), {}, 0
    per = {k: [0, 0] for k in m["scen"]}
    samples = []
    bad = list(crashes)
    seen_s = set()
    for r in sorted(rows, key=lambda r: (r["index"], r["scenario"])):
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        if r["skipped"]:
            skipped += 1
        else:
            # inputs / observed states recorded by the case; a case that records none counts as one
            states.update("%s:%s" % (r["scenario"], s) for s in r["sigs"])
            if sum(r["counts"].values()):
                sigs.add("%s:%s" % (r["scenario"], ",".join(r["sigs"]) or "i%d" % r["index"]))
        per[r["scenario"]][0] += 1
        per[r["scenario"]][1] += sum(r["counts"].values())
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
        if r["sample"] is not None and r["scenario"] not in seen_s and len(samples) < 12:
            seen_s.add(r["scenario"])
            samples.append({"scenario": r["scenario"], "index": r["index"], "seed": r["seed"], "observed": r["sample"]})
        if r["violations"]:
            bad.append(r)
    # a scenario whose monitors never fired decides nothing
    silent = [k for k, v in per.items() if v[0] and not v[1]] if not only else []
    kf = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            if line.strip():
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    kf[d["key"]] = d
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, kf[k]["what"]))
    status = 0
    if bad:
        status = 1
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for r in bad:
            v = r["violations"][0]
            tag = (r["scenario"], v["monitor"])
            if tag in shown and not os.environ.get("VERIF_ALL") or len(shown) >= 5 and not os.environ.get("VERIF_ALL"):
                continue
            shown.add(tag)
            path = os.path.join(rdir, "%s-%s-%d-%d.json" % (prop, r["scenario"], r["seed"], r["index"]))
            json.dump({"property": prop, "scenario": r["scenario"], "index": r["index"], "seed": r["seed"], "tier": tier,
                       "violations": r["violations"]}, open(path, "w"), indent=1)
            print("  %s[%d] %s: %s" % (r["scenario"], r["index"], v["monitor"], v["msg"][:400]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
    elif not only and (stuck or len(rows) < 0.2 * total_planned or silent or sum(counts.values()) == 0):
        print("no verdict: %d of %d cases ran, silent scenarios %s, stuck %s" % (len(rows), total_planned, silent, stuck),
              file=sys.stderr)
        status = 2
    wall = time.time() - T0
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": m["level"],
            "coverage": {
                "evaluations": len(rows),
                "distinct_nontrivial": len(sigs),
                "rule": m["rule"],
                "samples": samples or [{"note": "no sample recorded"}],
                "monitor_events_total": sum(counts.values()),
                "distinct_states_observed": len(states),
                "monitor_events": counts,
                "scenarios": {k: {"cases": v[0], "monitor_events": v[1]} for k, v in per.items()},
                "cases_run": len(rows), "cases_planned": total_planned, "cases_skipped_outside_domain": skipped,
                "known_findings_seen": known, "worker_restarts": sum(restarts.values()), "target": tgt.info,
            },
            "wall_s": round(wall, 2), "violations": len(bad), "assumptions": m["assumptions"],
        }
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d monitor events, %d distinct, %d skipped, %d violating, %.1f s [%s]" % (
        prop, tier, seed, len(rows), sum(counts.values()), len(sigs), skipped, len(bad), wall, tgt.info))
    if os.environ.get("VERIF_SLOW"):
        for r in sorted(rows, key=lambda r: -r["t"])[:8]:
            print("   slow", r["scenario"], r["index"], r["t"])
        agg = {}
        for r in rows:
            a = agg.setdefault(r["scenario"], [0, 0.0, 0]); a[0] += 1; a[1] += r["t"]; a[2] += bool(r["skipped"])
        for k, v in agg.items():
            print("   ", k, v[0], "cases", round(v[1], 2), "s", v[2], "skipped")
    return status


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.exit(run(a.property, a.tier, a.seed, a.replay))
