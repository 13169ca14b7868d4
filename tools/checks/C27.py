from vlib import *


def run(c):
    inv = ["Faithful", "Whole", "NoWait", "Emit"]

    def k(kinds, items, reads, sim):
        return dict(Kinds=set(kinds), MaxItems=items, Reads=set(reads), Sim=sim, EmitAll=False)
    some = [1, 2, 3, 5, 9, 30, 100, 1000]
    g = c.gens([
        (("RtspWire",), dict(consts=k(["some", "bad"], 1, c.n([1000], [1]), False), inv=inv, view="View", workers=4, timeout=1800)),
        (("RtspWire",), dict(consts=k(["few", "bad"], 2, [1, 7], False), inv=inv, view="View", workers=4, timeout=1800)),
        (("RtspWire",), dict(consts=k(["req", "bad"], 8, some, True), inv=inv[1:2] + inv[3:], simulate=c.n(250, 2500), depth=4000, timeout=1800)),
        (("RtspWire",), dict(consts=k(["req", "frame", "bad"], 9, some, True), inv=inv[1:2] + inv[3:], simulate=c.n(300, 3000), depth=4000, timeout=1800)),
        (("RtspWire",), dict(consts=k(["req", "frame"], 12, [50, 1000], True), inv=inv[1:2] + inv[3:], simulate=c.n(150, 1500), depth=4000, timeout=1800)),
        (("RtspWire",), dict(consts=k(["req", "frame"], 5, [1], True), inv=inv[1:2] + inv[3:], simulate=c.n(100, 1000), depth=4000, timeout=1800))], par=6)
    b = c.build("rtspw")
    c.judge("requests", b, [dict(x, mode="lib", num=i) for i, x in enumerate(g[2])], timeout=900)
    for n, s in zip(["reads of any size", "long connections", "single bytes"], g[3:]):
        c.judge(n + ", publisher", b, [dict(x, mode="rec", num=i) for i, x in enumerate(s)], timeout=900)
        c.judge(n + ", player", b, [dict(x, mode="play", num=i) for i, x in enumerate(s[:len(s) // 2])], timeout=900)
