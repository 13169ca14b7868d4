#!/usr/bin/env python3
"""mutate.py [-n] (PATCH | -r COMMIT | -s 'file::old::new') -- CHECK...: development aid.  Applies a change to a scratch copy of
/repo, runs the repository's tests (unless -n) and the given checks against the copy, and says which checks notice."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools")); sys.dont_write_bytecode = True
import vlib
a = sys.argv[1:]
notests = "-n" in a
a = [x for x in a if x != "-n"]
i = a.index("--"); spec, checks = a[:i], a[i + 1:]
d = tempfile.mkdtemp(prefix="mut-")
r = os.path.join(d, "repo")
try:
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    if spec[0] == "-r":
        p = subprocess.run(["git", "-C", r, "revert", "--no-edit", "-n", spec[1]], capture_output=True, text=True)
        if p.returncode: print("REVERT CONFLICT", spec[1], p.stderr[:300]); sys.exit(3)
    elif spec[0] == "-s":
        f, old, new = spec[1].split("::")
        t = open(os.path.join(r, f)).read()
        if t.count(old) != 1: print("MATCHES", t.count(old), f); sys.exit(3)
        open(os.path.join(r, f), "w").write(t.replace(old, new))
    else:
        p = subprocess.run(["git", "-C", r, "apply", os.path.abspath(spec[0])], capture_output=True, text=True)
        if p.returncode: print("DOES NOT APPLY", p.stderr[:300]); sys.exit(3)
    e = vlib.goenv()
    b = subprocess.run(["go", "build", "./..."], cwd=r, env=e, capture_output=True, text=True)
    if b.returncode: print("DOES NOT BUILD", b.stderr[:600]); sys.exit(3)
    if not notests:
        t = subprocess.run(["go", "test", "./..."], cwd=r, env=e, capture_output=True, text=True)
        print("tests", "pass" if t.returncode == 0 else "FAIL " + "; ".join(l for l in t.stdout.splitlines() if "FAIL" in l)[:300])
    ev = os.path.join(d, "ev"); os.makedirs(ev)
    for c in checks:
        e2 = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=ev)
        t = subprocess.run(["python3", os.path.join(V, "tools", "run_check.py"), c], env=e2, capture_output=True, text=True)
        out = [l for l in t.stdout.splitlines() if "difference" in l or "CHECK-ERROR" in l]
        print(c, {0: "quiet", 1: "CAUGHT"}.get(t.returncode, "exit %d" % t.returncode), (out[:1] or [t.stderr[-300:]])[0][:300])
finally:
    shutil.rmtree(d, ignore_errors=True)
