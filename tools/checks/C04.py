from fans import *


def run(c):
    mechanism(c, ["Within", "CaughtUp", "KeyFirst"], c.thorough)
    hs = c.gens([
        (("Fanout",), dict(consts=consts(ALL, 4, 200, 60, True), inv=["Emit"], simulate=c.n(120, 2500), depth=70)),
        (("Fanout",), dict(consts=consts("KPS", 4, 200, 60, True), inv=["Emit"], simulate=c.n(120, 2500), depth=70, seed=c.seed + 3)),
        (("Fanout",), dict(consts=consts("S", 3, 200, 60, True), inv=["Emit"], simulate=c.n(15, 100), depth=70)),
        (("Fanout",), dict(consts=consts("KP", 1, 7, 7, False), inv=["Within", "Emit"]))])
    b = c.build("fan")
    traces(c, "all kinds of message", b, wrap(hs[0], c, 4))
    traces(c, "media only, paused viewers", b, wrap(hs[1], c, 2))
    traces(c, "audio only", b, wrap(hs[2], c, 3))
    traces(c, "every history of 7 with one viewer", b, wrap(sample(hs[3], c.n(500, 6000), c.seed), c, 5))
    traces(c, "publisher and viewers running freely", b,
           [{"free": dict(msgs=m, viewers=v, size=s, gop=g)} for m, v, s, g in
            [(1500, 12, 20000, 12), (1500, 24, 2000, 30), (800, 8, 60000, 6)]] * c.n(1, 6))
    c.assumptions += ["Only over the unbuffered RTMP pipe is a paused viewer known to be behind; over TCP viewers fall behind "
                      "by their reading speed"]
