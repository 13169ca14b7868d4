from vlib import *

SLOW = ["silent0", "silents1", "csilent", "cping", "xsilent"]


def run(c):
    inv = ["Registered", "Bounded", "Grow"]

    def k(steps, sim, tries, wait, slow=()):
        return dict(MaxSteps=steps, Sim=sim, Cap=30, MaxWait=wait, Tries=tries, Slow=set(slow))
    _, g, slow = c.gens([
        (("Pull",), dict(consts=k(c.n(7, 9), False, 8, 100, ["csilent"]), inv=inv, props=["Mine"], view="View")),
        (("Pull",), dict(consts=k(40, True, 5, 8), inv=inv + ["Emit"], simulate=c.n(240, 1500), depth=80)),
        (("Pull",), dict(consts=k(6, True, 3, 3, SLOW), inv=inv + ["Emit"], simulate=c.n(20, 60), depth=80))])
    # every answer that fails, after one another and after success
    def fail(kind, gap):
        return [dict(op="dial", k=kind, gap=gap, own="pull"), dict(op="answer", k=kind, own="")]
    each = [fail(x, 0) + [dict(op="dial", k="ok", gap=1, own="pull"), dict(op="answer", k="ok", own="pull")] for x in SLOW]
    up = [dict(op="dial", k="ok", gap=1, own="pull"), dict(op="answer", k="ok", own="pull"), dict(op="up", k="K", v=1, id=1, own="pull")]
    # the whole of the delays
    kinds = ["cerror", "pnotfound", "drop", "xclose", "badver", "pclose", "cstatus"]
    cap = [e for i, x in enumerate(kinds[:c.n(6, 7)]) for e in fail(x, [0, 1, 2, 4, 8, 16, 30][i])]
    cap += [dict(op="dial", k="ok", gap=30, own="pull"), dict(op="answer", k="ok", own="pull"), dict(op="up", k="K", v=1, id=1, own="pull"),
            dict(op="upend", k="close", own="")] + up
    b = c.build("pull")
    c.judge("upstreams and local publishers", b, [dict(ev=x, num=i) for i, x in enumerate(each + [cap] + slow + g)],
            args=("-scn", "240s"), timeout=800, shards=8)
