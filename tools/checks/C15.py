from hlss import *


def run(c):
    model(c)
    hs = c.gens([
        (("Hls",), dict(consts=consts("KKPPAM", VG, AG, 60, True, ("Z", "S")), inv=["Emit"], simulate=c.n(150, 3000), depth=70)),
        (("Hls",), dict(consts=consts("KPA", [1000, 1001, 2000, 700], [23, 500], 120, True, ("Z", "S")), inv=["Emit"], simulate=c.n(60, 800), depth=130)),
        (("Hls",), dict(consts=consts("KPA", [1000, 2000], [700], 6, False, ("Z", "S")), inv=INV + ["Emit"]))])
    b = c.build("hls")
    traces(c, "all kinds of tag", b, wrap(hs[0], c), ["list"])
    traces(c, "long streams", b, wrap(hs[1], c), ["list"])
    traces(c, "every stream of 6 events", b, wrap(sample(hs[2], c.n(400, 4000), c.seed), c), ["list"])
