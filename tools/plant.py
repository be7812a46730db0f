#!/usr/bin/env python3
"""plant.py ID [CHECK...]: applies seeded/ID/patch.diff to a scratch copy of /repo, builds it, runs the stable tests
and the demo there (and the demo on /repo), then the quick check(s) of the property.  Development tool only."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import build as B  # noqa: E402


def main(pid, checks):
    d = os.path.join(V, "seeded", pid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    c = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    out = {"id": pid}
    try:
        subprocess.check_call("cp -a /repo/. " + c, shell=True)
        subprocess.check_call(["git", "-C", c, "checkout", "-q", "--", "."])
        r = subprocess.run(["git", "-C", c, "apply", os.path.join(d, "patch.diff")], capture_output=True, text=True)
        if r.returncode:
            out["apply"] = r.stderr
            return out
        os.environ["VERIF_REPO"] = c
        # build in place inside the copy
        state = os.path.join(c, B.STATE)
        old = json.load(open(state)) if os.path.exists(state) else None
        env = B.env_for(c)
        code = open("/opt/vp/build_ext.py").read().replace("/repo", c)
        r = subprocess.run([B.PY, "-c", code], cwd=c, env=env, capture_output=True, text=True)
        out["build"] = r.returncode
        if r.returncode:
            out["log"] = (r.stdout + r.stderr)[-1500:]
            return out
        stable = json.load(open("/opt/vp/BASELINE.json"))
        xml = os.path.join(c, "r.xml")
        subprocess.run([B.PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=300",
                        "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + xml],
                       cwd=c, env=env, capture_output=True, text=True)
        j = os.path.join(c, "o.json")
        subprocess.run(["python3", "/opt/vp/results.py", j, "junit:" + xml], capture_output=True)
        o = json.load(open(j))
        out["tests"] = {k: len(v) for k, v in o.items() if isinstance(v, list)}
        for name, root in (("demo_clean", "/repo"), ("demo_bug", c)):
            dd = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
            subprocess.check_call("cp -a %s/. %s; rm -f %s/meta.json %s/*.diff" % (d, dd, dd, dd), shell=True)
            try:
                r = subprocess.run(["bash", os.path.join(dd, "demo.sh")], cwd=root, env=dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True, timeout=300)
                out[name] = r.returncode
                out[name + "_out"] = (r.stdout + r.stderr)[-200:]
            except subprocess.TimeoutExpired:
                out[name] = "timeout"
            shutil.rmtree(dd)
        for ck in checks or [meta["property"]]:
            r = subprocess.run(["python3", "run.py", ck], cwd=V, env=dict(os.environ, VERIF_SEED="1"), capture_output=True, text=True)
            out[ck] = r.returncode
            out[ck + "_out"] = r.stdout[:400]
    finally:
        shutil.rmtree(c, ignore_errors=True)
    return out


res = main(sys.argv[1], sys.argv[2:])
RF = os.path.join(V, "tools", "seed_results.json")
all_ = json.load(open(RF)) if os.path.exists(RF) else {}
all_.setdefault(sys.argv[1], {}).update({k: v for k, v in res.items() if len(k) == 3 and k[0] == "C"})
json.dump(all_, open(RF, "w"), indent=1, sort_keys=True)
for k, v in res.items():
    print("%-14s %s" % (k, v))
