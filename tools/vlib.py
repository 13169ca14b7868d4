"""Common machinery of the checks: building drivers, running TLC, replaying behaviours, verdicts, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, traceback, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")  # only ever set while developing the checks
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOBIN = "/opt/veriftools/go1.27.3/bin"


class CheckError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e["PATH"] = GOBIN + ":" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GONOSUMDB="*", GOFLAGS_EXTRA="")
    e["GONOSUMCHECK"] = "1"
    e["GOSUMDB"] = "off"
    return e


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vh-%s-" % pid)
        self.violations = []
        self.known_hits = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.tlc_runs = []
        self.nreplay = 0

    thorough = property(lambda self: self.tier == "thorough")

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- build
    def build(self, cmd, race=False):
        # build a private copy so that concurrent checks never share module files
        hdir = os.path.join(self.scratch, "harness")
        if not os.path.isdir(hdir):
            shutil.copytree(os.path.join(VERIF, "harness"), hdir)
            if REPO != "/repo":
                p = os.path.join(hdir, "go.mod")
                with open(p) as f:
                    t = f.read()
                with open(p, "w") as f:
                    f.write(t.replace("=> /repo", "=> " + REPO))
        out = os.path.join(self.scratch, "bin-" + cmd + ("-race" if race else ""))
        args = ["go", "build", "-trimpath", "-o", out]
        if race:
            args.append("-race")
        args.append("./cmd/" + cmd)
        r = subprocess.run(args, cwd=hdir, env=goenv(), capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("go build %s failed:\n%s" % (cmd, r.stderr[-4000:]))
        self.log("built", cmd)
        return out

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, simulate=None, depth=None, workers=None, timeout=600, env=None, dfs=False,
            extra_files=None, heap="4g", seed=None, expect_violation=False, jvm=(), defs=None):
        """Runs TLC on spec/<module>.tla with the given cfg text. Returns (values printed as '@@'+JSON, stdout)."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for name, content in (extra_files or {}).items():
            p = os.path.join(d, name)
            if os.path.islink(p):
                os.unlink(p)
            with open(p, "w") as f:
                f.write(content)
        main = module
        if defs:
            # MC module with definition overrides
            main = "MC"
            with open(os.path.join(d, "MC.tla"), "w") as f:
                f.write("---- MODULE MC ----\nEXTENDS %s, TLC\n%s\n====\n" % (module, defs))
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        args = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m"]
        if dfs:
            args.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        args += list(jvm)
        args += ["-cp", TLA_CP, "tlc2.TLC", "-config", "run.cfg", "-metadir", os.path.join(d, "meta"), "-deadlock"]
        if simulate:
            args += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100),
                     "-seed", str(seed if seed is not None else self.seed), "-workers", "1"]
        else:
            args += ["-workers", str(workers or 4)]
        args.append(main + ".tla")
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        out_path = os.path.join(d, "out.txt")
        with open(out_path, "wb") as of:
            try:
                r = subprocess.run(args, cwd=d, env=e, stdout=of, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out on %s" % module)
        vals, rest = [], []
        with open(out_path, errors="replace") as f:
            for line in f:
                if line.startswith('"@@'):
                    vals.append(json.loads(json.loads(fix_tla_string(line.strip()))[2:]))
                else:
                    rest.append(line)
        text = "".join(rest)
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", text)
        gen = dis = 0
        if m:
            gen, dis = int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
        else:
            m = re.findall(r"number of states generated: ([\d,]+)", text)
            if m:
                gen = dis = int(m[-1].replace(",", ""))
        bad = r.returncode != 0
        if bad and not expect_violation:
            raise CheckError("TLC failed on %s (exit %d):\n%s" % (module, r.returncode, tidy(text)[:3000]))
        self.states += dis
        self.transitions += gen
        self.tlc_runs.append({"module": module, "mode": "simulate" if simulate else "exhaustive",
                              "states_generated": gen, "distinct_states": dis, "emitted": len(vals),
                              "seconds": round(time.time() - t, 1)})
        self.log("TLC %s: %d generated, %d distinct, %d values, %.1fs" % (module, gen, dis, len(vals), time.time() - t))
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)
        return vals, text

    def gen(self, module, init="Init", next="Next", consts=None, inv=(), constraint=None, defs="", props=(), view=None, **kw):
        """TLC with the constants given as TLA+ expressions (or Python ints/strs/bools/lists/sets)."""
        d = defs + "\n"
        cfg = ["INIT " + init, "NEXT " + next]
        if consts:
            cfg.append("CONSTANTS")
            for k, v in consts.items():
                d += "C_%s == %s\n" % (k, tla(v))
                cfg.append("  %s <- C_%s" % (k, k))
        cfg += ["INVARIANT " + i for i in inv]
        cfg += ["PROPERTY " + i for i in props]
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        if view:
            cfg.append("VIEW " + view)
        vals, text = self.tlc(module, "\n".join(cfg) + "\n", defs=d, **kw)
        return dedup(vals)

    def gens(self, jobs, par=4):
        """Several gen calls at a time: jobs is a list of (args, kwargs); returns their results in order."""

        with ThreadPoolExecutor(par) as ex:
            return list(ex.map(lambda j: self.gen(*j[0], **j[1]), jobs))

    # --------------------------------------------------------------- drivers
    def drive(self, binary, scenarios, args=(), timeout=300, env=None, shards=1):
        """drive_one, the scenarios spread over some processes."""
        if shards <= 1 or len(scenarios) < 2 * shards:
            return self.drive_one(binary, scenarios, args, timeout, env)
        idx = [list(range(k, len(scenarios), shards)) for k in range(shards)]
        with ThreadPoolExecutor(shards) as ex:
            rs = list(ex.map(lambda ix: self.drive_one(binary, [scenarios[i] for i in ix], args, timeout, env), idx))
        return {ix[j]: dict(v, i=ix[j]) for ix, r in zip(idx, rs) for j, v in r.items()}

    def drive_one(self, binary, scenarios, args=(), timeout=300, env=None, tag="d"):
        """Feeds scenarios (list of JSON values) to a driver process and returns its results by index.

        The driver writes {"i":k,"start":1} before and {"i":k,...result...} after each scenario. If it dies, the
        unfinished scenarios are re-run one by one to find the culprit; a reproducible death is returned as
        {"i":k,"crash":stderr tail}."""
        res = {}
        todo = list(range(len(scenarios)))
        r, died, err = self._drive_once(binary, scenarios, todo, args, timeout, env, tag)
        res.update(r)
        rounds = 0
        while died:
            rounds += 1
            left = [i for i in todo if i not in res]
            started = [i for i in died["started"] if i not in res]
            self.log("driver died (%s); %d unfinished, %d suspects" % (died["why"], len(left), len(started)))
            if rounds > 6:
                break
            # isolate suspects
            found = False
            for i in started:
                crashed = None
                for attempt in range(2):
                    r1, d1, err1 = self._drive_once(binary, scenarios, [i], tuple(args) + ("-slow",), timeout, env, tag)
                    if d1 is None:
                        crashed = None
                        res.update(r1)
                        break
                    crashed = (d1["why"], err1)
                if crashed:
                    found = True
                    res[i] = {"i": i, "crash": crashed[0], "stderr": crashed[1][-3000:]}
                    if sum(1 for x in res.values() if x.get("crash")) >= 3:
                        self.log("three crashing scenarios; stopping early")
                        return res
            left = [i for i in todo if i not in res]
            if not left:
                break
            r, died, err = self._drive_once(binary, scenarios, left, args, timeout, env, tag)
            res.update(r)
        if died:
            miss = [i for i in todo if i not in res]
            if miss and not any(x.get("crash") for x in res.values()):
                raise CheckError("driver keeps dying without a reproducible scenario: %s\n%s" % (died["why"], err[-3000:]))
        return res

    def _drive_once(self, binary, scenarios, idx, args, timeout, env, tag):
        d = tempfile.mkdtemp(prefix="drv-", dir=self.scratch)
        inp, outp, errp = os.path.join(d, "in"), os.path.join(d, "out"), os.path.join(d, "err")
        with open(inp, "w") as f:
            for i in idx:
                f.write(json.dumps({"i": i, "s": scenarios[i]}) + "\n")
        e = dict(os.environ)
        e.update(env or {})
        e["VERIF_SCRATCH"] = d
        e["GOTRACEBACK"] = "single"
        why = None
        with open(errp, "wb") as ef, open(os.devnull, "r+b") as nul:
            p = subprocess.Popen([binary, "-in", inp, "-out", outp, "-seed", str(self.seed)] + list(args),
                                 stdin=nul, stdout=nul, stderr=ef, env=e, cwd=d, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
                if rc != 0:
                    why = "exit %d" % rc
            except subprocess.TimeoutExpired:
                why = "timeout after %ds" % timeout
                p.kill()
                p.wait()
        res, started = {}, []
        if os.path.exists(outp):
            with open(outp) as f:
                for line in f:
                    try:
                        v = json.loads(line)
                    except ValueError:
                        continue
                    if v.get("start"):
                        started.append(v["i"])
                    else:
                        res[v["i"]] = v
        with open(errp, errors="replace") as f:
            err = f.read()
        shutil.rmtree(d, ignore_errors=True)
        if why is None and len(res) < len(idx):
            why = "finished without all results"
        if why:
            return res, {"why": why, "started": [i for i in started if i not in res]}, err
        return res, None, err

    def judge(self, name, binary, scenarios, args=(), timeout=300, env=None, confirm=True, max_report=3,
              known=None, shards=1):
        """Replays scenarios; every result that is not ok is confirmed alone and becomes a violation.

        Results: {"ok":true}, or {"ok":false,"msg":...,"kind":"safety"|"missing"}; "safety" differences (the code did
        something the specification forbids) count at once, "missing" ones must reproduce in isolation with
        generous time limits (-slow). known: function(result, scenario) -> finding text or None."""
        if self.violations or not scenarios:
            return {}      # the verdict stands; do not spend time on a broken tree
        res = self.drive(binary, scenarios, args, timeout, env, shards)
        bad = [i for i in sorted(res) if not res[i].get("ok")]
        okn = len([i for i in res if res[i].get("ok") and not res[i].get("skip")])
        self.traces += okn
        if scenarios and len(self.samples) < 3 and okn:
            k = next(i for i in sorted(res) if res[i].get("ok") and not res[i].get("skip"))
            self.samples.append({"spec_behaviour": name, "scenario": shorten(scenarios[k]), "verdict": "conforms"})
        self.log("%s: %d conform, %d differ" % (name, okn, len(bad)))
        reported = 0
        for i in bad:
            r = res[i]
            if "crash" not in r and confirm and r.get("kind") != "safety":
                again, flaky = None, 0
                for attempt in range(2):
                    r2 = self.drive(binary, [scenarios[i]], tuple(args) + ("-slow",), timeout, env)
                    again = r2.get(0, {"ok": True})
                    if again.get("ok"):
                        flaky += 1
                        break
                if flaky:
                    self.log("not reproduced in isolation (timing), dropped:", r.get("msg"))
                    self.extra["unreproduced"] = self.extra.get("unreproduced", 0) + 1
                    continue
                r = dict(again)
                r["i"] = i
            if known:
                k = known(r, scenarios[i])
                if k:
                    if k not in self.known_hits:
                        self.known_hits.append(k)
                    continue
            self.violation({"behaviour": name, "scenario": scenarios[i], "result": r}, r.get("msg") or r.get("crash"))
            reported += 1
            if reported >= max_report:
                break
        return res

    # -------------------------------------------------------------- verdicts
    def violation(self, replay, msg=""):
        self.nreplay += 1
        os.makedirs(EVID, exist_ok=True)
        path = os.path.join(EVID, "replay-%s-%d.json" % (self.pid, self.nreplay))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "message": msg, **replay}, f, indent=1)
        self.violations.append(path)
        print("  difference:", str(msg)[:600])
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def finish(self):
        known = load_known()
        for k in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known.get(k, k)), flush=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples[:3] or ["none"],
                           "tlc_runs": self.tlc_runs, **self.extra},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        if self.known_hits:
            ev["coverage"]["known_findings_reproduced"] = self.known_hits
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, ".%s.tmp" % self.pid)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, self.pid + ".json"))
        self.log("states=%d traces=%d violations=%d" % (self.states, self.traces, len(self.violations)))
        return 1 if self.violations else 0

    def cleanup(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.scratch, ignore_errors=True)


class T(str):
    """A literal TLA+ expression."""


def tla(v):
    if isinstance(v, T):
        return str(v)
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=lambda z: json.dumps(z))) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(repr(v))


def tidy(text):
    return "\n".join(l for l in text.splitlines() if not l.startswith(("Parsing file", "Semantic processing")))


def shorten(x, lim=1500):
    s = json.dumps(x)
    return x if len(s) <= lim else s[:lim] + "..."


def fix_tla_string(s):
    # TLC prints strings with \" and \\ escapes, which JSON understands; tabs/newlines are \t \n
    return s


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {x["key"]: x["what"] for x in d.get("findings", [])}


def dedup(vals):
    seen, out = set(), []
    for v in vals:
        k = json.dumps(v, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(v)
    return out


def sample(vals, n, seed):
    """n values of the list, deterministic in seed, spread over the list."""
    if len(vals) <= n:
        return vals
    key = lambda v: hashlib.md5((str(seed) + json.dumps(v, sort_keys=True)).encode()).digest()
    return sorted(vals, key=key)[:n]


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e), flush=True)
        rc = 1 if c.violations else 2
    except Exception:
        traceback.print_exc()
        rc = 1 if c.violations else 2
    finally:
        c.cleanup()
    sys.stdout.flush()
    os._exit(rc)
