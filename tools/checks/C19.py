from vlib import *
import os
import random

VG = {0, 1, 33, 40, 500, 999, 1000, 1999, 2000, 2001, 5000}
NAMES = ["s", "live", "a b", "x/y", "ä", "..", "s%2F", "a&b<c>\"", "$Number$", "s-init", "a-1"]
INV = ["Whole", "Keyed", "Contiguous"]


def consts(kinds, vg, steps, sim, ends, cfgs=1):
    return dict(Kinds=list(kinds), VGaps=set(vg), MaxSteps=steps, Sim=sim, Ends=set(ends), Cfgs=cfgs)


def config(r, hevc):
    c = dict(hevc=hevc, space=0, prof=r.choice([66, 77, 88, 100, 110, 122, 244]), tier=0, compat=[0, 0], cons=[r.choice([0, 0x40, 0xc0, 0xe0])], lvl=r.choice([10, 30, 31, 42, 52]),
             w=16 * r.choice([1, 2, 20, 40, 80, 120, 256, 4095]), h=32 * r.choice([1, 2, 15, 23, 34, 68, 2047]), poc=r.choice([0, 1, 2]), field=r.random() < .4, sub=[], ord=r.randrange(8), nl=r.choice([4, 4, 4, 2, 1, 3]),
             id=r.choice([0, 0, 1, 7, 31]), off=[r.choice([3, 500, (1 << k) - 1 + r.randrange(1 << k)]) for k in r.sample(range(16, 31), 3)], chroma=r.choice([1, 1, 0, 2, 3]))
    if not c["field"] and r.random() < .5:
        c["h"] = 16 * r.choice([1, 3, 45, 67, 4095])
    if hevc:
        c.update(space=r.choice([0, 0, 0, 1, 3]), prof=r.choice([1, 2, 3, 4, 9, 31]), tier=r.choice([0, 0, 1]), compat=r.choice([[0x6000, 0], [0x2000, 0], [0, 0], [0x4000, 1], [0xffff, 0xffff], [0x1234, 0x5678]]),
                 cons=r.choice([[0x90, 0, 0, 0, 0, 0], [0] * 6, [0xb0, 0, 0, 0, 0, 0], [1, 2, 3, 4, 5, 6], [0, 0, 7, 0, 0, 0], [0, 0, 2, 0, 0, 1], [0, 0, 1, 0, 0, 3], [3, 0, 0, 0, 0, 1], [0x9e, 0x08, 0, 0, 0, 0x10]]), lvl=r.choice([30, 60, 93, 120, 153, 186]), id=r.choice([0, 1, 15]),
                 w=r.choice([8, 416, 1280, 1920, 3840, 65528]), h=r.choice([8, 240, 720, 1088, 2160, 4320]), sub=r.choice([[], [], [], [0], [3], [1, 2], [2], [1, 1, 1, 1, 1, 1], [3, 0, 3]]))
    return c


def wrap(hs, c, mixed=False):
    bases = [0, 1000, (1 << 32) - 5000, (1 << 31) - 3000, (1 << 24) - 1000]
    r = random.Random(c.seed)
    out = []
    for k, h in enumerate(hs):
        hevc = k % 3 == 1
        cf = [config(r, r.random() < .5 if mixed else hevc) for _ in range(3)]
        if not any(e["k"] == "V" for e in h) or k % 2:
            h = [dict(k="V", t=0, v=1, c=0, z=0)] + h
        out.append({"hist": h, "cfgs": cf, "base": bases[k % 5], "name": NAMES[k % len(NAMES)]})
    return out


def traces(c, name, binary, scen):
    res = c.judge(name, binary, scen, timeout=800)
    if c.violations:
        return
    keep = [(i, res[i]["obs"]) for i in sorted(res) if res[i].get("ok") and res[i].get("obs")]
    if not keep:
        raise CheckError("nothing recorded")
    bad = []
    for a in range(0, len(keep), 400):
        part = keep[a:a + 400]
        p = os.path.join(c.scratch, "traces.json")
        with open(p, "w") as f:
            json.dump([t for _, t in part], f)
        vals, _ = c.tlc("DashTrace", "INIT Init\nNEXT Next\nINVARIANT Report\n", env={"TRACES": p}, workers=8, timeout=1500)
        bad += [(part[b["t"] - 1], b) for b in vals]
    seg = sum(len(t["content"]) for _, t in keep)
    st = sum(len(t["steps"]) for _, t in keep)
    c.extra["segments_judged"] = c.extra.get("segments_judged", 0) + seg
    c.extra["manifests_judged"] = c.extra.get("manifests_judged", 0) + st
    c.log("%s: %d steps, %d segments judged by TLC, %d rejected" % (name, st, seg, len(bad)))
    for (i, t), b in bad[:3]:
        c.violation({"behaviour": name, "scenario": scen[i], "verdict": b, "trace": t}, "step %d of %d: %s" % (b["n"], len(t["steps"]), b["why"]))


def run(c):
    c.gen("Dash", consts=consts("VKP", [0, 1000, 2000], c.n(6, 8), False, ("Z", "S")), inv=INV, props=["Advance"], workers=8, timeout=1500)
    c.gen("Dash", consts=consts("K", [1999, 2001], c.n(11, 14), False, ("Z", "S")), inv=INV, props=["Advance"], workers=8, timeout=1500)
    hs = c.gens([
        (("Dash",), dict(consts=consts("KKPPKPAMEV", VG, 60, True, ("Z", "S"), 1), inv=["Emit"], simulate=c.n(150, 3000), depth=70)),
        (("Dash",), dict(consts=consts("KKP", [1000, 1001, 2000, 700], 120, True, ("Z", "S")), inv=["Emit"], simulate=c.n(40, 800), depth=130)),
        (("Dash",), dict(consts=consts("KKPPV", VG, 60, True, ("Z", "S"), 3), inv=["Emit"], simulate=c.n(50, 600), depth=70)),
        (("Dash",), dict(consts=consts("VKPA", [1000, 2000], 6, False, ("Z", "S")), inv=INV + ["Emit"]))])
    b = c.build("dash")
    traces(c, "all kinds of tag", b, wrap(hs[0], c))
    traces(c, "long streams", b, wrap(hs[1], c))
    traces(c, "changing configuration", b, wrap(hs[2], c))
    traces(c, "every stream of 6 events", b, wrap(sample(hs[3], c.n(400, 4000), c.seed), c))
