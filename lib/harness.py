"""Worker side: runs scenario cases of one check against the code under test,
with the monitors watching, and writes one JSON line per case to a result file.

A *case* is (property, scenario, seed, index); its random generator is derived
from exactly these, so every case can be replayed on its own.
"""
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF)


class Skip(Exception):
    """the case is outside the property's domain (counted, never a verdict)"""


class Violation(Exception):
    pass


def load_known(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out[d["key"]] = d
    return out


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.floating, float)):
        return float(x) if np.isfinite(x) else repr(float(x))
    if isinstance(x, (np.integer, int)) and not isinstance(x, bool):
        return int(x)
    if isinstance(x, (str, bool)) or x is None:
        return x
    return repr(x)[:300]


class Ctx:
    def __init__(self, prop, scenario, seed, index, tier, known):
        self.prop, self.scenario, self.seed, self.index, self.tier = prop, scenario, seed, index, tier
        self.rng = np.random.default_rng([zlib.crc32(prop.encode()), zlib.crc32(scenario.encode()), seed, index])
        self.counts = {}
        self.sigs = set()
        self.violations = []
        self.known_hits = {}
        self._known = known
        self.sample = None
        self.unraisable = []
        self.trivial = False

    # -- monitors -----------------------------------------------------------
    def observe(self, monitor, n=1):
        self.counts[monitor] = self.counts.get(monitor, 0) + n

    def state(self, *key):
        """a distinct observed state / input signature (for the evidence)"""
        h = hashlib.blake2b(repr(jsonable(key)).encode(), digest_size=8).hexdigest()
        self.sigs.add(h)

    def note(self, **data):
        if self.sample is None:
            self.sample = jsonable(data)

    def check(self, monitor, ok, msg="", key=None, **data):
        self.observe(monitor)
        if ok:
            return True
        if key is not None and key in self._known:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return False
        self.violations.append({"monitor": monitor, "msg": str(msg)[:600], "data": jsonable(data)})
        return False

    def close(self, monitor, got, want, tol, msg="", key=None, **data):
        g = np.asarray(got, float)
        w = np.asarray(want, float)
        if g.shape != w.shape:
            return self.check(monitor, False, "%s: shape %s, expected %s" % (msg, g.shape, w.shape), key=key, **data)
        scale = 1.0 + (float(np.max(np.abs(w))) if w.size else 0.0)
        err = float(np.max(np.abs(g - w))) if w.size else 0.0
        ok = bool(np.isfinite(err) and err <= tol * scale)
        return self.check(monitor, ok, "%s: error %.3g (allowed %.3g)" % (msg, err, tol * scale), key=key,
                          got=g if not ok else None, want=w if not ok else None, **data)

    def raises(self, monitor, exc, fn, *a, **k):
        self.observe(monitor)
        try:
            r = fn(*a, **k)
        except exc:
            return True
        except Exception as e:
            self.violations.append({"monitor": monitor, "msg": "raised %r instead of %s" % (e, exc), "data": None})
            return False
        self.violations.append({"monitor": monitor, "msg": "returned %.200r instead of raising %s" % (r, exc), "data": None})
        return False

    def skip(self, why=""):
        raise Skip(why)


def run_case(mod, prop, scenario, seed, index, tier, known):
    fn = mod.SCENARIOS[scenario][0]
    ctx = Ctx(prop, scenario, seed, index, tier, known)
    prev = sys.unraisablehook

    def hook(u):
        ctx.unraisable.append("%s in %r" % (u.exc_value if u.exc_value is not None else u.exc_type, u.object))

    sys.unraisablehook = hook
    skipped = None
    t0 = time.perf_counter()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                fn(ctx)
    except Skip as e:
        skipped = str(e) or "skip"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        frames = ["%s:%d:%s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb][-4:]
        ctx.violations.append({"monitor": "no-unexpected-exception", "msg": "%s: %s" % (type(e).__name__, str(e)[:300]),
                               "data": {"frames": frames}})
    finally:
        sys.unraisablehook = prev
    for u in ctx.unraisable:
        ctx.violations.append({"monitor": "no-swallowed-exception", "msg": u[:300], "data": None})
    return {
        "scenario": scenario, "seed": seed, "index": index, "counts": ctx.counts, "sigs": sorted(ctx.sigs),
        "violations": ctx.violations[:5], "known": ctx.known_hits, "sample": ctx.sample, "skipped": skipped,
        "t": round(time.perf_counter() - t0, 4),
    }


def budget(mod):
    """{scenario: (quick, thorough)} numbers of cases; the listed quick numbers are multiplied by the module's factor"""
    k = getattr(mod, "QUICK_FACTOR", 3) if getattr(mod, "BUILD", "") != "sanitized" else 1
    return {n: (max(v[1], min(v[1] * k, v[2])), v[2]) for n, v in mod.SCENARIOS.items()}


def worker(prop, tier, seed, shard, nshards, outpath, deadline, cpu_case, only=None, skip=0):
    mod = importlib.import_module("checks." + prop.lower())
    import mmcore
    tgt = os.environ.get("VERIF_TARGET", "")
    if tgt and not os.path.realpath(mmcore.__file__).startswith(os.path.realpath(tgt) + os.sep):
        print("mmcore was imported from %s, not from %s" % (mmcore.__file__, tgt), file=sys.stderr)
        sys.exit(97)
    known = load_known(prop)
    col = 1 if tier == "quick" else 2
    cases = []
    if only is not None:
        cases = [only]
    else:
        per = {}
        for name, spec in budget(mod).items():
            per[name] = spec[col - 1]
        # interleave the scenarios so that a deadline cuts all of them evenly
        total = max(per.values())
        keyed = []
        for name, n in per.items():
            for i in range(n):
                keyed.append(((i + 0.5) / n, name, i))
        keyed.sort()
        cases = [(n, i) for k, (_, n, i) in enumerate(keyed) if k % nshards == shard]
    out = open(outpath, "a")
    jour = open(outpath + ".cur", "w")
    if hasattr(mod, "setup"):
        mod.setup()
    for pos, (name, i) in enumerate(cases):
        if pos < skip:
            continue
        if time.time() > deadline:
            break
        jour.seek(0)
        jour.write(json.dumps([pos, name, i]).ljust(120))
        jour.flush()
        signal.setitimer(signal.ITIMER_VIRTUAL, cpu_case)
        r = run_case(mod, prop, name, seed, i, tier, known)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        out.write(json.dumps(r) + "\n")
        out.flush()
    out.write(json.dumps({"done": True, "planned": len(cases)}) + "\n")
    out.close()


if __name__ == "__main__":
    a = json.loads(sys.argv[1])
    # library code prints a lot; keep it out of the protocol
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    worker(**a)
