from hlss import *


def run(c):
    model(c)
    hs = c.gens([
        (("Hls",), dict(consts=consts("KKPPPAAWW", [33, 40, 100, 333, 334, 332, 500, 1000], [23, 100], 70, True, ("Z", "S")), inv=["Emit"], simulate=c.n(150, 2500), depth=80)),
        (("Hls",), dict(consts=consts("KPPPAAW", [33, 40, 200], [23], 60, True, ("Z", "S")), inv=["Emit"], simulate=c.n(60, 1000), depth=70)),
        (("Hls",), dict(consts=consts("KKPPAAWWT", [33, 333, 1000], [100], 40, True, ("Z", "S")), inv=["Emit"], simulate=c.n(16, 100), depth=50)),
        (("Hls",), dict(consts=consts("KPW", [333, 2000], [100], 4, False, ("Z", "S")), inv=INV + ["Emit"]))])
    b = c.build("hls")
    traces(c, "parts and blocking requests", b, wrap(hs[0], c, ll=True), ["parts"])
    traces(c, "short frames", b, wrap(hs[1], c, ll=True), ["parts"])
    traces(c, "requests that time out", b, wrap(hs[2], c, ll=True), ["parts"])
    traces(c, "every stream of 4 events", b, wrap(sample(hs[3], c.n(400, 4000), c.seed), c, ll=True), ["parts"])
