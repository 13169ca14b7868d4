"""Timestamps: all sequences of header types and boundary increments on one chunk stream, two chunk streams, random long ones."""
from .chunk_common import *

def run(c):
    drv = c.build("chunk")
    jobs = [("one chunk stream, all header types", 0, (("Chunk", "Init", "Next", consts([4], {"audio"}, lens={4},
                deltas=["<<0,0>>", "<<0,40>>", "<<255,65535>>", "<<65535,65535>>"], maxlen=c.n(4, 5), reps={0, 1, 2, 3}), PROPS + ["Emit"]), {})),
            ("split messages on two chunk streams", None, (("Chunk", "Init", "Next", consts([4, 64], {"audio"}, lens={130},
                deltas=["<<256,0>>", "<<0,1>>"], maxlen=c.n(4, 5), reps={0, 1, 2, 3}), PROPS + ["Emit"]), {}))]
    for k, cs in enumerate([[4], [4, 320], [5, 63, 1000]]):
        jobs.append(("random, chunk streams %s" % cs, None, (("Chunk", "Init", "SimNext",
                     consts(cs, {"audio", "video", "agg", "discard", "setsize"}, lens={4, 12, 130, 300}, sizes={64, 128, 300}, maxlen=c.n(40, 80)),
                     PROPS + ["Emit"]), dict(simulate=c.n(400, 3000), depth=3000, seed=c.seed * 100 + k))))
    for (name, seg, _), b in zip(jobs, c.gens([j[2] for j in jobs])):
        c.judge(name, drv, scen(sample(b, c.n(2500, 12000), c.seed), c.seed, seg), timeout=600)
    c.assumptions = ["timestamps reach the observing viewer unchanged (that is C04, checked separately)"]
