from vlib import *


def consts(small, n, depth, lens, sim, plain):
    return dict(Small=small, MaxVals=n, Depth=depth, Lens=set(lens), Sim=sim, Plain=plain)


L = [0, 1, 2, 3, 5, 8, 13, 26, 60]
BIG = [127, 128, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072]


def run(c):
    inv = ["RoundTrip", "EveryPrefix", "Emit"]
    g = c.gens([
        (("Amf",), dict(consts=consts(True, 1, 1, L, False, False), inv=inv)),
        (("Amf",), dict(consts=consts(True, 2, 1, L, False, True), inv=inv)),
        (("Amf",), dict(consts=consts(True, 1, 1, L, False, True), inv=inv)),
        (("Amf",), dict(consts=consts(False, 1, 1, BIG, False, True), inv=["Emit"])),
        (("Amf",), dict(consts=consts(False, 6, 3, L, True, False), inv=inv, simulate=c.n(400, 6000), depth=9)),
        (("Amf",), dict(consts=consts(False, 6, 3, L, True, True), inv=inv, simulate=c.n(400, 6000), depth=9)),
        (("Amf",), dict(consts=consts(False, 3, 2, L + BIG[:5], True, True), inv=["Emit"], simulate=c.n(60, 600), depth=6)),
        (("Amf",), dict(consts=consts(False, 2, 5, L, True, False), inv=inv, simulate=c.n(100, 1500), depth=5))])
    b = c.build("amf")
    for n, plain, s in zip(["every small value", "pairs of encodable values", "every encodable value", "strings of every length class", "random sequences", "random sequences, encodable", "larger strings", "deep values"],
                           [False, True, True, True, False, True, True, False], g):
        s = sample(dedup(s), c.n(1000, 10000), c.seed)
        for i, x in enumerate(s):
            x["seed"] = c.seed * 1000 + i
            x["all"] = len(x["vals"]) == 1
            x["enc"] = plain
        c.judge(n, b, s, timeout=600)
