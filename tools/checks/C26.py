from vlib import *


def run(c):
    inv = ["Owned", "Sane", "Emit"]

    def k(conns, names, steps, sim, every):
        return dict(Conns=set(conns), Names=set(names), MaxSteps=steps, Sim=sim, EmitAll=every)
    g = c.gens([
        (("Rtsp",), dict(consts=k([1], ["a"], 9, False, True), inv=inv, props=["Refused"], view="View", workers=1)),
        (("Rtsp",), dict(consts=k([1], ["a", "b"], c.n(6, 9), False, True), inv=inv, view="View", workers=1, timeout=1800)),
        (("Rtsp",), dict(consts=k([1, 2], ["a"], c.n(5, 8), False, True), inv=inv, view="View", workers=1, timeout=1800)),
        (("Rtsp",), dict(consts=k([1, 2, 3], ["a", "b"], 30, True, False), inv=inv, simulate=c.n(500, 6000), depth=40)),
        (("Rtsp",), dict(consts=k([1], ["a"], 14, True, False), inv=inv, simulate=c.n(700, 6000), depth=40)),
        (("Rtsp",), dict(consts=k([1], ["a", "b"], 16, True, False), inv=inv, simulate=c.n(2500, 12000), depth=40))])
    b = c.build("rtsps")
    for n, s in zip(["every request in every state", "two streams", "two sessions", "histories", "one session", "one session of two streams"], g):
        c.extra["behaviours " + n] = len(s)
        s = sample(dedup(s), c.n(2500, 60000), c.seed)
        s = [dict(steps=x, batch=i % 2 == 1, num=i) for i, x in enumerate(s)]
        c.judge(n, b, s, timeout=900)
