from vlib import *
import random

NAMES = ["s", "live", "a b", "x/y", "ä", "..", ".", "s%2F", "../x", "../../etc/x", "/abs", "a-1", "a-1-0", "a.ts", "s-init", "a?b=c", "a&b", "%2e%2e", "\\..\\x", "x" * 120, "index", "a+b", "A", "a\nb", "*", "~", "sub/..", "a;b"]


def consts(mode, proto, ops, steps, sim):
    return dict(Mode=list(mode), Proto=list(proto), Ops=set(ops), MaxSteps=steps, Sim=sim)


ALL = {"pub", "burst", "watch", "end", "clash", "churn", "probe"}
APP = {"imm": "live", "lazy": "vod", "none": "aux"}


def reach(n):
    return all(p not in ("", ".", "..") for p in n.replace("\\", "/").split("/"))


def wrap(hs, mode, proto, c, off=0):
    r = random.Random(c.seed + off)
    out = []
    for k, h in enumerate(hs):
        apps = [APP[m] for m in mode]
        same = k % 4 == 1 and len(set(apps)) == len(apps)
        while True:
            pool = NAMES if k % 3 else ["a", "a-1", "a-init", "b"]
            names = [r.choice(pool) for _ in mode]
            if same:
                names = [names[0]] * len(mode)     # the same name in several apps
            ok = len(set(zip(apps, names))) == len(mode)
            for m, p, n in zip(mode, proto, names):
                ok = ok and (m != "lazy" or reach(n)) and (p != "T" or reach(n)) and (p != "R" or "?" not in n)
            if ok:
                break
        out.append(dict(mode=mode, proto=proto, app=apps, name=names, hist=h))
    return out


def run(c):
    inv = ["Bounded", "Gone", "Emit"]
    sets = [(["imm", "lazy", "imm"], ["R", "R", "T"]), (["imm", "none", "imm"], ["R", "R", "S"]), (["lazy", "lazy", "imm"], ["T", "R", "R"]), (["imm", "imm"], ["S", "T"])]
    jobs = [(("Files",), dict(consts=consts(m, p, ALL, 30, True), inv=inv, simulate=c.n(24, 300), depth=32)) for m, p in sets]
    jobs += [(("Files",), dict(consts=consts(["imm", "lazy"], ["R", "R"], {"pub", "burst", "end", "watch"}, 40, True), inv=inv, simulate=c.n(20, 200), depth=42)),
             (("Files",), dict(consts=consts(["lazy", "imm"], ["R", "R"], {"pub", "burst", "end", "watch"}, 5, False), inv=inv)),
             (("Files",), dict(consts=consts(["imm"], ["R"], {"pub", "probe"}, 2, False), inv=inv)),
             (("Files",), dict(consts=consts(["imm", "lazy"], ["R", "R"], {"churn", "pub", "burst"}, 4, True), inv=inv, simulate=c.n(10, 100), depth=6))]
    hs = c.gens(jobs)
    b = c.build("files")
    s = []
    for k, (m, p) in enumerate(sets):
        s += wrap(hs[k], m, p, c, k)
    c.judge("streams of every kind", b, s, timeout=800)
    c.judge("long streams", b, wrap(hs[4], ["imm", "lazy"], ["R", "R"], c, 10), timeout=800)
    c.judge("every history of five steps", b, wrap(sample(hs[5], c.n(150, 2000), c.seed), ["lazy", "imm"], ["R", "R"], c, 11), timeout=800)
    c.judge("every path", b, wrap(sample(hs[6], c.n(40, 200), c.seed), ["imm"], ["R"], c, 12), timeout=800)
    c.judge("short publications", b, wrap(hs[7], ["imm", "lazy"], ["R", "R"], c, 13), timeout=800)
