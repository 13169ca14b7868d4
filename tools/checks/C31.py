from vlib import *


def run(c):
    inv = ["Owed", "Emit"]
    idle = T("[t \\in {} |-> 0]")

    def k(steps, sim):
        return dict(Locked=True, MaxSteps=steps, Sim=sim, Tasks=idle)
    m = ["Atomic", "Goodbye", "InOrder"]
    tasks = dict(media=c.n(3, 5), pong=c.n(3, 4), bye=1)
    g = c.gens([
        (("Ws",), dict(consts=k(2, False), inv=inv)),
        (("Ws",), dict(consts=k(26, True), inv=inv, simulate=c.n(350, 4000), depth=40)),
        (("Ws",), dict(next="Mech", consts=dict(k(1, False), Tasks=tasks), inv=m))])
    for x in m[:2]:
        _, t = c.tlc("Ws", "INIT Init\nNEXT Mech\nCONSTANTS\n  Locked = FALSE\n  MaxSteps = 1\n  Sim = FALSE\n  Tasks <- C_Tasks\nINVARIANT %s\n" % x,
                     defs="C_Tasks == [media |-> 2, pong |-> 2, bye |-> 1]", expect_violation=True)
        if "is violated" not in t:
            raise CheckError("without its lock the model keeps " + x)
    b = c.build("ws")
    c.judge("every request, frame and ending", b, [dict(steps=x, num=i * 7 + i // 12) for i, x in enumerate(g[0])], timeout=600, shards=8)
    c.judge("viewers", b, [dict(steps=x, num=i) for i, x in enumerate(g[1])], timeout=600, shards=8)
