from vlib import *
import os

W = {0, 1, 2, 255, 256, 32767, 32768, 65535, 40000}


def judge(c, name, binary, scen):
    res = c.judge(name, binary, scen, timeout=400)
    if c.violations:
        return
    keep = [(i, res[i]["obs"]) for i in sorted(res) if res[i].get("ok")]
    if not keep:
        raise CheckError("nothing recorded")
    p = os.path.join(c.scratch, "traces.json")
    with open(p, "w") as f:
        json.dump([t for _, t in keep], f)
    vals, _ = c.tlc("Mp4Trace", "INIT Init\nNEXT Next\nINVARIANT Report\n", env={"TRACES": p}, workers=8, timeout=1500, heap="8g")
    c.log("%s: %d files, %d bytes judged by TLC, %d rejected" % (name, len(keep), sum(len(t["b"]) for _, t in keep), len(vals)))
    for b in vals[:3]:
        i, t = keep[b["t"] - 1]
        c.violation({"behaviour": name, "scenario": scen[i], "verdict": b, "bytes": t["b"][:2000]}, "%s: %s" % (shorten(scen[i], 200), b["why"]))


def consts(counts, sizes, dims, what, sim):
    return dict(Counts=set(counts), Sizes=set(sizes), Words=W, Dims=set(dims), What=set(what), Sim=sim)


def run(c):
    small = [0, 1, 2, 3, 7, 20, 255, 256, 1000]
    hs = c.gens([
        (("Mp4",), dict(consts=consts(range(1, 40), small, [16], {"seg"}, True), inv=["Emit"], simulate=c.n(250, 4000), depth=3)),
        (("Mp4",), dict(consts=consts([100, 300, 2100, 3000, 4200, 9000], [0, 1, 30], [16], {"seg"}, True), inv=["Emit"], simulate=c.n(10, 100), depth=3)),
        (("Mp4",), dict(consts=consts([1, 2], [65535, 65536, 70000], [16], {"seg"}, True), inv=["Emit"], simulate=c.n(6, 40), depth=3)),
        (("Mp4",), dict(consts=consts([1], [0, 1, 3, 20, 255, 256, 300], [0, 1, 16, 255, 256, 1920, 65535], {"avc", "rec", "hevc"}, True), inv=["Emit"], simulate=c.n(250, 3000), depth=3)),
        (("Mp4",), dict(consts=consts([1, 2, 3, 4, 5], [0, 1, 8], [0, 640, 65535], {"avc", "rec", "hevc", "seg"}, False), inv=["Emit"]))])
    b = c.build("mp4")
    for name, h in zip(["runs of samples", "long runs", "large samples", "tracks", "every combination of a few"], hs):
        judge(c, name, b, h)
