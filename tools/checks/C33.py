from vlib import *

S1 = [4, 5, 20]
SB = [4, 5, 20, 100, 127, 128, 183, 184, 254, 255]
SL = SB + [256, 300, 1000, 65535]


def run(c):
    inv = ["Faithful", "Emit"]

    def k(codec, sizes, sets, steps, units, sim):
        return dict(Codec=codec, Sizes=set(sizes), MaxSets=sets, MaxSteps=steps, MaxUnits=units, Sim=sim)
    g = c.gens([
        (("Codec",), dict(consts=k("avc", [4, 5], 2, 1, 1, False), inv=inv)),
        (("Codec",), dict(consts=k("avc", [4], 1, 2, 2, False), inv=inv)),
        (("Codec",), dict(consts=k("hevc", [4], 1, 2, 1, False), inv=inv)),
        (("Codec",), dict(consts=k("aac", [1], 1, 1, 1, False), inv=inv)),
        (("Codec",), dict(consts=k("avc", SL, 5, 8, 5, True), inv=inv, simulate=c.n(500, 8000), depth=12)),
        (("Codec",), dict(consts=k("avc", SB, 31, 6, 3, True), inv=inv, simulate=c.n(100, 1500), depth=12)),
        (("Codec",), dict(consts=k("hevc", SL, 3, 8, 5, True), inv=inv, simulate=c.n(250, 4000), depth=12)),
        (("Codec",), dict(consts=k("aac", list(range(0, 300)) + [511, 512, 1016, 1017, 1018, 2040, 2041, 4088, 4089, 6000, 8183, 8184], 1, 12, 1, True), inv=inv, simulate=c.n(600, 6000), depth=16))])
    b = c.build("codec")
    names = ["every AVC record", "AVC record and access unit", "HEVC record and access unit", "every AAC configuration", "AVC series", "many parameter sets", "HEVC series", "AAC series"]
    for n, live, s in zip(names, [60, 60, 60, 0, 80, 25, 80, 0], g):
        s = sample(dedup(s), c.n(5000, 40000), c.seed)
        pick = set(id(x) for x in sample(s, live * c.n(1, 8), c.seed + 1))
        for x in s:
            x["live"] = id(x) in pick
        c.judge(n, b, s, timeout=800)
