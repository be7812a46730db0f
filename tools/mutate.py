#!/usr/bin/env python3
"""mutate.py OUT SEED COUNT CHECK[,CHECK] FILE...: makes COUNT one-token changes to the FILEs in a scratch copy of /repo
and runs the quick checks on each; the changes no check notices go to OUT for reading.  Development tool only."""
import ast, io, json, os, random, shutil, subprocess, sys, tempfile, time, tokenize
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import build as B  # noqa: E402

OPS = {"+": ["-"], "-": ["+"], "*": ["+"], "/": ["*"], "<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="],
       "+=": ["-="], "-=": ["+="], "//": ["/"], "**": ["*"], "and": ["or"], "or": ["and"], "True": ["False"], "False": ["True"],
       "min": ["max"], "max": ["min"], "not": [""], "is": ["is not"], "break": ["pass"], "continue": ["pass"], "fabs": [""], "abs": [""],
       "u": ["v"], "v": ["u"], "start": ["end"], "x": ["y"]}


def toks(src):
    out = []
    try:
        for t in tokenize.generate_tokens(io.StringIO(src).readline):
            out.append(t)
    except (tokenize.TokenError, IndentationError, SyntaxError):
        pass
    return out


def sites(src):
    lines = src.split("\n")
    skip = set()
    dead = False
    for i, l in enumerate(lines, 1):
        s = l.strip()
        if s.startswith("if __name__"):
            dead = True
        if dead or s.startswith(("import ", "from ", "cimport", "@", "#", "def ", "cdef class", "class ", "cdef extern", "print", "raise", "assert", "ctypedef", "%")) or ("cdef " in s and "=" not in s) or ("cpdef" in s):
            skip.add(i)
    T = toks(src)
    res = []
    for k, t in enumerate(T):
        r, c = t.start
        if r in skip or t.end[0] != r:
            continue
        if t.type == tokenize.NUMBER:
            try:
                v = ast.literal_eval(t.string)
            except Exception:
                continue
            if isinstance(v, int):
                alts = [str(v + 1)] + ([str(v - 1)] if v > 0 else [])
            elif isinstance(v, float):
                alts = [repr(v * 1.5) if v else "0.5"]
            else:
                continue
            # array ranks in declarations
            res += [(r, c, t.string, a) for a in alts]
        elif t.string in OPS and t.type in (tokenize.OP, tokenize.NAME):
            if t.string in ("*", "-", "+", "**") and k and T[k - 1].type == tokenize.OP and T[k - 1].string not in (")", "]"):
                if t.string == "-":
                    res.append((r, c, "-", "+"))
                continue
            if t.string in ("*", "**") and k and T[k - 1].string in ("(", ","):
                continue
            res += [(r, c, t.string, a) for a in OPS[t.string]]
    # whole statements
    for i, l in enumerate(lines, 1):
        s = l.strip()
        if i not in skip and "=" in s and s.endswith((")", "]")) is False and not s.startswith(("if", "for", "while", "elif", "cdef", "return", "def", '"')) and s and s[-1] not in "(,[{:\\" and "==" not in s and s.count("(") == s.count(")"):
            res.append((i, len(l) - len(l.lstrip()), s, "pass"))
    return res


def main():
    out, seed, count, checks = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(",")
    files = sys.argv[5:]
    funcs = os.environ.get("MUT_LINES")  # "a-b" restricts to these lines
    c = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    rng = random.Random(seed)
    base = {}
    try:
        subprocess.check_call("cp -a /repo/. " + c, shell=True)
        subprocess.check_call(["git", "-C", c, "checkout", "-q", "--", "."])
        pool = []
        for f in files:
            src = base[f] = open(os.path.join(c, f)).read()
            ss = sites(src)
            if funcs:
                a, b = map(int, funcs.split("-"))
                ss = [s for s in ss if a <= s[0] <= b]
            pool += [(f,) + s for s in ss]
        rng.shuffle(pool)
        env = dict(os.environ, VERIF_REPO=c, VERIF_SEED=str(seed), VERIF_JOBS=os.environ.get("VERIF_JOBS", "1"), VERIF_WALL="120")
        n = k = 0
        with open(out, "a") as o:
            o.write("# %d sites in %s\n" % (len(pool), files))
            for f, r, col, old, new in pool:
                if n >= count:
                    break
                lines = base[f].split("\n")
                l = lines[r - 1]
                if l[col:col + len(old)] != old:
                    continue
                lines[r - 1] = l[:col] + new + l[col + len(old):]
                p = os.path.join(c, f)
                open(p, "w").write("\n".join(lines))
                if f.endswith(".pyx") or f.endswith(".pxd") or f.endswith(".c"):
                    code = open("/opt/vp/build_ext.py").read().replace("/repo", c)
                    q = subprocess.run([B.PY, "-c", code], cwd=c, env=B.env_for(c), capture_output=True, text=True)
                    if q.returncode:
                        open(p, "w").write(base[f])
                        continue
                else:
                    try:
                        compile("\n".join(lines), f, "exec")
                    except SyntaxError:
                        open(p, "w").write(base[f])
                        continue
                n += 1
                caught = None
                for ck in checks:
                    try:
                        q = subprocess.run(["python3", "run.py", ck], cwd=V, env=env, capture_output=True, text=True, timeout=400)
                        rc = q.returncode
                    except subprocess.TimeoutExpired:
                        rc = 9
                    if rc:
                        caught = ck
                        break
                if caught:
                    k += 1
                else:
                    o.write("%s:%d: %r -> %r | %s\n" % (f, r, old, new, l.strip()[:150]))
                    o.flush()
                open(p, "w").write(base[f])
            o.write("# %d of %d caught by %s\n" % (k, n, checks))
    finally:
        shutil.rmtree(c, ignore_errors=True)


main()
