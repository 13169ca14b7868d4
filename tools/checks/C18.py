from vlib import *
import os

TIMES = T("{<<0, 0>>, <<0, 1>>, <<0, 65535>>, <<1, 0>>, <<16383, 65535>>, <<16384, 0>>, <<32767, 65535>>, <<65536, 32768>>, <<131071, 65000>>, <<131071, 65535>>, <<87381, 43690>>}")


def consts(sizes, tracks, frames, sim, times=TIMES, off=(0,)):
    return dict(Sizes=set(sizes), Tracks=set(tracks), MaxFrames=frames, Sim=sim, Times=times, Offsets=set(off))


def judge(c, name, binary, scen):
    res = c.judge(name, binary, scen, timeout=400)
    if c.violations:
        return
    keep = [(i, res[i]["obs"]) for i in sorted(res) if res[i].get("ok")]
    if not keep:
        raise CheckError("nothing recorded")
    p = os.path.join(c.scratch, "traces.json")
    with open(p, "w") as f:
        json.dump([t for _, t in keep], f)
    vals, _ = c.tlc("TsTrace", "INIT Init\nNEXT Next\nINVARIANT Report\n", env={"TRACES": p}, workers=8, timeout=1500, heap="8g")
    pk = sum(len(x["b"]) // 188 for _, t in keep for x in t)
    c.extra["packets_judged"] = c.extra.get("packets_judged", 0) + pk
    c.log("%s: %d frames, %d packets judged by TLC, %d rejected" % (name, sum(len(t) for _, t in keep), pk, len(vals)))
    for b in vals[:3]:
        i, t = keep[b["t"] - 1]
        x = t[b["n"] - 1]
        c.violation({"behaviour": name, "scenario": scen[i], "verdict": b, "bytes": x["b"][:188 * 4]}, "%s: %s" % (shorten(x["e"], 200), b["why"]))


def run(c):
    inv = ["Continuous", "Packed", "Emit"]
    some = [0, 1, 100, 155, 156, 157, 158, 161, 162, 163, 164, 165, 169, 170, 171, 184, 300, 339, 340, 341, 345, 346, 347, 353, 354, 355, 700]
    big = [65519, 65520, 65524, 65525, 65526, 65527, 65528, 65529, 65530, 65535, 65536, 70000]
    hs = c.gens([
        (("Ts",), dict(consts=consts(some, "VAT", 24, True, off=[0, 7200, -3600, 1]), inv=inv, simulate=c.n(60, 1500), depth=30)),
        (("Ts",), dict(consts=consts(big, "VA", 2, True, off=[0, 3600]), inv=["Packed", "Emit"], simulate=c.n(12, 60), depth=4)),
        (("Ts",), dict(consts=consts(range(0, c.n(420, 1300)), "VA", 1, False, T("{<<70000, 50000>>}"), [0, 3600]), inv=inv)),
        (("Ts",), dict(consts=consts([1, 156, 164, 170, 400], "VAT", c.n(2, 3), False, T("{<<131071, 65535>>}"), [0]), inv=inv))])
    b = c.build("ts")
    # audio frames have a length field of 16 bits
    cut = lambda h: [e if e["k"] != "A" else dict(e, n=min(e["n"], 65527 - 200)) for e in h]
    wrap = lambda h: [{"hist": cut(x), "cc": k % 16} for k, x in enumerate(h)]
    judge(c, "mixed frames and tables", b, wrap(hs[0]))
    judge(c, "large frames", b, wrap(hs[1]))
    judge(c, "every frame size", b, wrap(hs[2]))
    judge(c, "every sequence of a few", b, wrap(sample(hs[3], c.n(400, 3000), c.seed)))
