from hlss import *


def run(c):
    model(c)
    hs = c.gens([
        (("Hls",), dict(consts=consts("KKPPAAAAAVHEM", [0, 33, 40, 500, 1000, 2000], AG, 70, True), inv=["Emit"], simulate=c.n(150, 3000), depth=80)),
        (("Hls",), dict(consts=consts("KPAAAAA", [40, 1000], [21, 22, 23, 24], 100, True), inv=["Emit"], simulate=c.n(80, 1500), depth=110)),
        (("Hls",), dict(consts=consts("KPAE", [0, 2000], [23], 5, False), inv=INV + ["Emit"]))])
    b = c.build("hls")
    traces(c, "configuration changes", b, wrap(hs[0], c, ll=False), ["content"])
    traces(c, "steady audio", b, wrap(hs[1], c), ["content"])
    traces(c, "every stream of 5 events", b, wrap(sample(hs[2], c.n(400, 4000), c.seed), c, ll=False), ["content"])
