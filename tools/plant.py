#!/usr/bin/env python3
"""plant.py FILE [CHECK...]: development aid.  FILE (python) defines ID, PROP, EDITS [(file, old, new)], NEEDS, BREAKS, PKG, TEST.
Confirms the planted bug in scratch copies, writes seeded/ID, then runs the given checks (default PROP) against it."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools")); sys.dont_write_bytecode = True
import vlib
m = {}; exec(open(sys.argv[1]).read(), m)
DEMO = '''#!/bin/bash
export PATH=$PATH:/opt/veriftools/go1.27.3/bin HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
echo '{"Replace":{"'$PWD'/%s/zz_demo_test.go":"'$d'/demo_test.go"}}' > "$t/o.json"
TMPDIR=$t go test -overlay "$t/o.json" -vet=off -count=1 -timeout 200s -run '^TestDemo$' ./%s
'''
d = tempfile.mkdtemp(prefix="plant-"); r = os.path.join(d, "repo"); s = os.path.join(d, "seed")
def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)
try:
    subprocess.run(["cp", "-a", "/repo", r], check=True); os.makedirs(s)
    base = {}
    for f, old, new in m["EDITS"]:
        p = os.path.join(r, f); t = open(p).read()
        if t.count(old) != 1: sys.exit("MATCHES %d in %s: %s" % (t.count(old), f, old))
        open(p, "w").write(t.replace(old, new))
    diff = sh(["git", "-C", r, "diff"]).stdout
    # removed lines must be original ones
    orig = 0
    for f in {f for f, _, _ in m["EDITS"]}:
        o = sh(["git", "-C", r, "show", "2eb767c:" + f]).stdout.splitlines()
        for l in sh(["git", "-C", r, "diff", "-U0", f]).stdout.splitlines():
            if l.startswith("-") and not l.startswith("---"): 
                ok = l[1:] in o; orig += ok
                if not ok: print("NOTE: not an original line:", l)
    if not orig: print("NOTE: removes no original line")
    open(os.path.join(s, "patch.diff"), "w").write(diff)
    open(os.path.join(s, "demo_test.go"), "w").write(m["TEST"].lstrip())
    open(os.path.join(s, "demo.sh"), "w").write(DEMO % (m["PKG"], m["PKG"])); os.chmod(os.path.join(s, "demo.sh"), 0o755)
    json.dump({"property": m["PROP"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(os.path.join(s, "meta.json"), "w"), indent=1)
    e = vlib.goenv()
    b = sh(["go", "build", "./..."], cwd=r, env=e)
    if b.returncode: sys.exit("DOES NOT BUILD " + b.stderr[:800])
    t = sh(["go", "test", "-vet=off", "-count=1", "./..."], cwd=r, env=e)
    if t.returncode: sys.exit("TESTS FAIL " + t.stdout[-1500:])
    x = sh(["bash", os.path.join(s, "demo.sh")], cwd=r)
    sh(["git", "-C", r, "checkout", "--", "."])
    y = sh(["bash", os.path.join(s, "demo.sh")], cwd=r)
    if y.returncode: sys.exit("DEMO FAILS ON UNCHANGED TREE " + y.stdout[-1500:] + y.stderr[-800:])
    if not x.returncode: sys.exit("DEMO PASSES WITH PATCH")
    if "build failed" in x.stdout: sys.exit("demo does not build: " + x.stdout[-800:])
    print("demo:", "; ".join(l.strip() for l in x.stdout.splitlines() if "demo_test" in l or "panic" in l)[:250])
    o = os.path.join(V, "seeded", m["ID"])
    shutil.rmtree(o, ignore_errors=True); shutil.copytree(s, o)
    print("planted", m["ID"])
finally:
    shutil.rmtree(d, ignore_errors=True)
R = os.path.join(V, "tools", "seed_results.json")
for c in sys.argv[2:] or [m["PROP"]]:
    t = sh(["python3", os.path.join(V, "tools", "mutate.py"), "-n", os.path.join(V, "seeded", m["ID"], "patch.diff"), "--", c])
    print(m["ID"], t.stdout.strip()[-400:] or t.stderr[-300:])
    import fcntl
    with open("/tmp/seed_results.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        res = json.load(open(R)) if os.path.exists(R) else {}
        res.setdefault(m["ID"], {})[c] = "VIOLATION property=" + c in t.stdout or "CAUGHT" in t.stdout
        json.dump(res, open(R, "w"), indent=1, sort_keys=True)
