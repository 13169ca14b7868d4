from vlib import *


def run(c):
    inv = ["Order", "Intact", "Local", "All", "Forward"]

    def k(steps, sim, srv, small, v, a):
        return dict(MaxSteps=steps, Sim=sim, Srv=srv, Small=small, VFaults=set([""] + v), AFaults=set([""] + a))

    def sim(*a):
        return (("TsIn",), dict(consts=k(60, True, *a), inv=inv + ["Emit"], simulate=c.n(120, 1500), depth=220))
    faults = ["lost", "tei", "scr", "sync", "dup"]
    _, clean, bad, srv = c.gens([
        (("TsIn",), dict(consts=k(c.n(5, 7), False, False, True, ["lost"], ["lost"]), inv=inv, view="View")),
        sim(False, False, ["dup"], ["dup"]),
        sim(False, False, faults, ["lost"]),
        sim(True, False, ["lost", "dup"], ["dup"])])
    b = c.build("tsin")
    for what, mode, g in (("sound streams", "lib", clean), ("damaged streams", "lib", bad), ("over SRT", "srt", srv)):
        c.judge(what, b, [dict(x, mode=mode, num=i) for i, x in enumerate(g)], timeout=600, shards=8)
