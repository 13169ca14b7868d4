"""Hls.tla / HlsTrace.tla: streams for the HLS segmenter and the judgement of what it wrote and listed (C15, C16, C17)."""
import os
from vlib import *

VG = {0, 1, 33, 40, 500, 999, 1000, 1999, 2000, 2001, 5000}
AG = {21, 22, 23, 24, 46, 100, 2000}
NAMES = ["s", "live", "a b", "x/y", "ä", "..", "s%2F"]


def consts(kinds, vg, ag, steps, sim, tail=("Z",)):
    return dict(Kinds=list(kinds), VGaps=set(vg), AGaps=set(ag), MaxSteps=steps, Sim=sim, Ends=set(tail))


INV = ["Whole", "Keyed", "Long", "Joined", "Recent"]


def model(c):
    """The segmenter's own rules, over all streams of a small scope."""
    c.gen("Hls", consts=consts("KPA", [0, 1000, 2000], [500], c.n(6, 7), False, ("Z", "S")), inv=INV, props=["Advance"], workers=8, timeout=1500)
    c.gen("Hls", consts=consts("KA", [1999, 2001], [500, 2500], c.n(9, 12), False, ("Z", "S")), inv=INV, props=["Advance"], workers=8, timeout=1500)


def wrap(hs, c, ll=None, hevc=None):
    bases = [0, 1000, (1 << 32) - 400000, 13 * 3600000 + 900000, 47721858 - 3000]
    out = []
    for k, h in enumerate(hs):
        if h and h[0]["k"] not in "VH" :
            h = [dict(k="V", t=0, v=1, c=0, z=0)] + h
        elif h and h[0]["k"] == "H":
            h = [h[0], dict(k="V", t=0, v=1, c=0, z=0)] + h[1:]
        out.append({"hist": h, "ll": (k % 2 == 1) if ll is None else ll, "hevc": (k % 3 == 1) if hevc is None else hevc,
                    "nl": [4, 4, 2, 4, 3, 4, 1][k % 7], "base": bases[k % 5], "name": NAMES[k % 7], "skew": [0, 0, 37, 0, -13][k % 5]})
    return out


def traces(c, name, binary, scen, judge, timeout=800):
    res = c.judge(name, binary, scen, timeout=timeout)
    if c.violations:
        return
    idx = [i for i in sorted(res) if res[i].get("ok") and res[i].get("obs")]
    keep = [(i, res[i]["obs"]) for i in idx]
    if not keep:
        raise CheckError("nothing recorded")
    bad = []
    for a in range(0, len(keep), 400):
        part = keep[a:a + 400]
        p = os.path.join(c.scratch, "traces.json")
        with open(p, "w") as f:
            json.dump([t for _, t in part], f)
        vals, _ = c.tlc("HlsTrace", "INIT Init\nNEXT Next\nINVARIANT Report\nCONSTANT Judge = {%s}\n" % ", ".join('"%s"' % x for x in judge), env={"TRACES": p}, workers=8, timeout=1500)
        bad += [(part[b["t"] - 1], b) for b in vals]
    seg = sum(len(t["content"]) for _, t in keep)
    st = sum(len(t["steps"]) for _, t in keep)
    c.extra["segments_judged"] = c.extra.get("segments_judged", 0) + seg
    c.extra["playlists_judged"] = c.extra.get("playlists_judged", 0) + st
    c.log("%s: %d steps, %d segments judged by TLC, %d rejected" % (name, st, seg, len(bad)))
    for (i, t), b in bad[:3]:
        n = b["n"]
        c.violation({"behaviour": name, "scenario": scen[i], "verdict": b, "trace": t},
                    "step %d of %d: %s" % (n, len(t["steps"]), b["why"]))
