"""Reassembly: all interleavings of two chunk streams in a small scope, random long behaviours over all id forms and sizes."""
from .chunk_common import *

def run(c):
    drv = c.build("chunk")
    jobs = [("two chunk streams, all interleavings", None, (("Chunk", "Init", "Next", consts([4, 64], {"audio", "video", "abort"}, sizes={2, 3},
                lens={129, 257}, deltas=["<<0,40>>"], abs_=["<<0,0>>"], maxlen=c.n(4, 5)), PROPS + ["Emit"]), {})),
            ("chunk size changes, all placements", None, (("Chunk", "Init", "Next", consts([4, 320], {"audio", "setsize"}, sizes={1, 4096},
                lens={130, 4}, deltas=["<<0,40>>"], abs_=["<<0,0>>"], maxlen=c.n(4, 5)), PROPS + ["Emit"]), {}))]
    for k, cs in enumerate([[4, 5], [63, 64, 319], [320, 1000, 65599], [4, 64, 320], ALLCS]):
        jobs.append(("random, chunk streams %s" % cs, None, (("Chunk", "Init", "SimNext", consts(cs, maxlen=c.n(40, 80)), PROPS + ["Emit"]),
                     dict(simulate=c.n(250, 2500), depth=3000, seed=c.seed * 100 + k))))
    jobs.append(("headers within messages", None, (("Chunk", "Init", "Next", consts([4, 64], {"audio", "abort"}, sizes={2},
                lens={129}, deltas=["<<0,40>>"], abs_=["<<0,0>>"], maxlen=4, reps={0, 1, 2, 3}), PROPS + ["Emit"]), {})))
    jobs.append(("long messages", 3, (("Chunk", "Init", "SimNext", consts([4, 5, 64], KINDS - {"agg", "winack", "bw", "ackmsg", "uc"},
                lens={64, 128, 4096, 65535, 65536, 70000}, sizes={128, 1000, 4096, 65535, 65536, 2147483647}, maxlen=25), PROPS + ["Emit"]),
                dict(simulate=c.n(60, 500), depth=3000))))
    for (name, seg, _), b in zip(jobs, c.gens([j[2] for j in jobs])):
        c.judge(name, drv, scen(sample(b, c.n(1500, 8000), c.seed), c.seed, seg), timeout=600)
    c.assumptions = ["media reach the observing viewer unchanged (that is C04, checked separately)"]
