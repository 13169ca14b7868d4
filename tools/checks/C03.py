from fans import *


def run(c):
    mechanism(c, ["Within", "CaughtUp", "KeyFirst"], c.thorough)
    jobs = []
    # every history of six steps with one viewer joining anywhere
    ex = [("VK", 1, 6), ("MVAKS", 1, 5)] if not c.thorough else [("VKP", 1, 7), ("MVAKPS", 1, 6)]
    for kinds, nv, st in ex:
        jobs.append((("Fanout",), dict(consts=consts(kinds, nv, st, st, False), inv=["Within", "CaughtUp", "KeyFirst", "Emit"])))
    jobs.append((("Fanout",), dict(consts=consts(ALL, 4, 100, 40, True), inv=["Emit"], simulate=c.n(150, 3000), depth=50)))
    jobs.append((("Fanout",), dict(consts=consts("MVAKVA", 4, 100, 30, True), inv=["Emit"], simulate=c.n(100, 2000), depth=40, seed=c.seed + 7)))
    hs = c.gens(jobs)
    b = c.build("fan")
    for (kinds, nv, st), h in zip(ex, hs):
        traces(c, "joins after every history of %d over %s" % (st, kinds), b, wrap(sample(h, c.n(400, 5000), c.seed), c, 5))
    for h in hs[2:]:
        traces(c, "joins in random histories", b, wrap(h, c, 4))
    traces(c, "viewers joining a running publisher", b,
           [{"free": dict(msgs=c.n(800, 3000), viewers=16, size=3000, gop=g)} for g in (4, 12, 30)] * c.n(1, 6))
    c.assumptions += ["A join has happened when play is answered or the response's first bytes arrive, unless the publisher runs freely"]
