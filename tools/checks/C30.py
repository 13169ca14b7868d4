from vlib import *


def run(c):
    inv = ["Routed", "Apart", "Free", "Running", "Emit"]

    def k(conns, steps, sim, every):
        return dict(Conns=set(conns), MaxSteps=steps, Sim=sim, EmitAll=every)
    g = c.gens([
        (("RtspRoute",), dict(consts=k([1], c.n(6, 8), False, True), inv=inv, view="View", workers=1, timeout=1800)),
        (("RtspRoute",), dict(consts=k([1], 25, True, False), inv=inv, simulate=c.n(400, 4000), depth=40)),
        (("RtspRoute",), dict(consts=k([1, 2, 3], 40, True, False), inv=inv, simulate=c.n(400, 4000), depth=60))])
    b = c.build("route")
    for n, s in zip(["every transport, order and ending", "one session", "three sessions"], g):
        c.extra["behaviours " + n] = len(s)
        # each transition is the last of a behaviour: prefer those that deliver, misdirect or end something
        hot = [x for x in s if x[-1]["got"] or x[-1]["op"] in ("send", "end", "pubend")]
        s = sample(dedup(s), c.n(1200, 20000), c.seed) + sample(dedup(hot), c.n(800, 10000), c.seed + 1)
        s = dedup(s)
        c.judge(n, b, [dict(steps=x, num=i) for i, x in enumerate(s)], timeout=900, shards=6)
