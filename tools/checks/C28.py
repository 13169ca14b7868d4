from vlib import *
import os


def judge(c, name, binary, scen, again=False):
    res = c.judge(name, binary, scen, timeout=600)
    if c.violations:
        return
    keep = [(i, t) for i in sorted(res) if res[i].get("ok") and not res[i].get("skip") for t in res[i]["obs"]]
    if not keep:
        raise CheckError("nothing recorded")
    p = os.path.join(c.scratch, "traces.json")
    with open(p, "w") as f:
        json.dump([t for _, t in keep], f)
    vals, _ = c.tlc("RtpTrace", "INIT Init\nNEXT Next\nINVARIANT Report\n", env={"TRACES": p}, workers=8, timeout=1500, heap="12g")
    pk = sum(len(t["pk"]) for _, t in keep)
    c.extra["packets_judged"] = c.extra.get("packets_judged", 0) + pk
    c.log("%s: %d tracks, %d packets judged by TLC, %d rejected" % (name, len(keep), pk, len(vals)))
    if again or name == "direct":
        report(c, name, scen, keep, vals)
    elif vals:
        # the system may lose datagrams, too
        judge(c, name, binary, [scen[i] for i in sorted(set(keep[b["t"] - 1][0] for b in vals))[:6]], True)


def report(c, name, scen, keep, vals):
    for b in vals[:3]:
        i, t = keep[b["t"] - 1]
        c.violation({"behaviour": name, "scenario": scen[i], "verdict": b, "packets": [x[:40] for x in t["pk"][max(0, b["n"] - 3):b["n"]]]}, "%s, packet %d, access unit %d: %s" % (t["codec"], b["n"], b["k"], b["why"]))


def run(c):
    inv = ["RoundTrip", "Emit"]

    def k(mode, codec, audio, sizes, mtus, steps=0, sim=False):
        return dict(Mode=mode, Codec=codec, Audio=audio, Sizes=set(sizes), Mtus=set(mtus), MaxSteps=steps, Sim=sim)
    small = [1, 2, 3, 5, 20, 60]
    edge = [1, 2, 5, 100, 254, 255, 256, 1398, 1399, 1400, 1401, 1402, 1403, 2795, 2796, 2797, 2798, 2799, 4000]
    big = edge + [9000, 65535, 65536, 70000]
    real = [1399, 1400, 1401, 1402, 2795, 2796, 2797, 2798, 2799, 2800, 4192, 4193, 4194, 4195, 4196]
    runs = [(("RtpOut",), dict(consts=k("direct", "h264", "aac", range(1, c.n(40, 120)), range(3, c.n(16, 40))), inv=inv)),
            (("RtpOut",), dict(consts=k("direct", "hevc", "aac", range(2, c.n(40, 120)), range(4, c.n(16, 40))), inv=inv)),
            (("RtpOut",), dict(consts=k("direct", "h264", "aac", real + [140000], [1400, 1000]), inv=inv)),
            (("RtpOut",), dict(consts=k("direct", "hevc", "aac", real + [140000], [1400, 1000]), inv=inv)),
            (("RtpOut",), dict(consts=k("direct", "aac", "aac", list(range(1, 40)) + [255, 256, 1400, 4095, 4096, 8190, 8191], [9]), inv=inv)),
            (("RtpOut",), dict(consts=k("direct", "opus", "opus", list(range(1, 40)) + [255, 256, 1275, 4000], [9]), inv=inv))]
    names = ["every size and maximum (H.264)", "every size and maximum (H.265)", "real maximum (H.264)", "real maximum (H.265)", "AAC", "Opus"]
    for v in ["h264", "hevc"]:
        for a in ["aac", "opus"]:
            runs.append((("RtpOut",), dict(consts=k("live", v, a, edge, [1400], 24, True), inv=["Emit"], simulate=c.n(14, 300), depth=40)))
            runs.append((("RtpOut",), dict(consts=k("live", v, a, big, [1400], 12, True), inv=["Emit"], simulate=c.n(2, 40), depth=40)))
            names += ["stream of %s and %s" % (v, a), "stream of large %s and %s" % (v, a)]
    g = c.gens(runs)
    b = c.build("rtpout")
    for n, s in zip(["direct", "live"], [sum(g[:6], []), sum(g[6:], [])]):
        s = dedup(s)
        if n == "live":
            for i, x in enumerate(s):
                x["udp"] = i % 3 == 2 and all(u["n"] < 5000 for e in x["steps"] for u in e.get("units", []))
        judge(c, n, b, s)
