"""Protocol control messages between and inside messages; invalid control values."""
from .chunk_common import *

def run(c):
    drv = c.build("chunk")
    jobs = [("all short histories of control messages", (("Chunk", "Init", "Next", consts([4], {"audio", "ping", "winack", "setsize", "abort"},
                lens={4, 130}, sizes={1, 4096}, deltas=["<<0,40>>"], windows={4, -300}, maxlen=c.n(3, 4)), PROPS + ["Emit"]), {})),
            ("invalid control values", (("Chunk", "Init", "Next", consts([4], {"audio", "setsize"}, lens={4, 130}, sizes={1, 4096},
                deltas=["<<0,40>>"], maxlen=2, bads=BADS), PROPS + ["Emit"]), {}))]
    for k, w in enumerate([{1, 50, -100}, {300, 5000, -1000}, {4, 17, 1000, 2500000, 2147483647, -2147483647, -1}]):
        jobs.append(("random, windows %s" % sorted(w), (("Chunk", "Init", "SimNext",
                     consts([4, 64], {"audio", "cmd", "discard", "ping", "winack", "setsize", "abort", "uc", "bw"}, windows=w, maxlen=c.n(40, 80)),
                     PROPS + ["Emit"]), dict(simulate=c.n(300, 2500), depth=3000, seed=c.seed * 100 + k))))
    # chunk stream ids that agree in their low bytes, chunks of every size up to the largest
    for k, (cs, sizes, lens, n) in enumerate([([44, 300, 65580], {1, 64, 4096}, {130, 300, 513}, c.n(200, 1500)), ([4, 260], {1, 64, 4096}, {130, 300, 513}, c.n(150, 1000)),
                                           ([4, 5], {65535, 65536, 65537, 100000, 16777216, 2147483647}, {4, 66000, 70000, 140000}, c.n(60, 500))]):
        jobs.append(("random, chunk streams %s, sizes %s" % (cs, sorted(sizes)), (("Chunk", "Init", "SimNext",
                     consts(cs, {"audio", "video", "setsize", "abort", "ping"}, sizes=sizes, lens=lens, maxlen=30),
                     PROPS + ["Emit"]), dict(simulate=n, depth=3000, seed=c.seed * 100 + 7 + k))))
    jobs.append(("random, then an invalid control message", (("Chunk", "Init", "SimNext", consts([4, 64], bads=BADS, maxlen=15), PROPS + ["Emit"]),
                 dict(simulate=c.n(400, 3000), depth=3000))))
    for (name, _), b in zip(jobs, c.gens([j[1] for j in jobs])):
        c.judge(name, drv, scen(sample(b, c.n(2500, 12000), c.seed), c.seed), timeout=600)
