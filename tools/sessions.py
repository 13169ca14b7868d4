"""Session.tla: behaviours for the checks of C01, C02, C05, C12."""
from vlib import *

INV = ["OneOwner", "OwnedExactly", "NoGhostViewers", "NoStray", "HeadersKnown", "Emit"]
ENDS = {"delete", "fcunpublish", "drop", "half", "malformed", "rgone", "srtshut"}
BASE = {"open", "connect", "publish"}
VIEW = {"play", "play2", "view", "view2", "leave", "rplay", "rplay2"}
PUBS = {"announce", "record", "rtpkey", "srtup", "srtkey"}
MEDIA = {"media", "media2", "media3", "key"}
CMDS = {"createStream", "hints", "pause", "seek", "silent"}
BAD = {"badconnect", "badview", "badannounce"}


def consts(ops, steps, sim, rc=3, tc=2, vc=3, sc=2, names=("a", "s"), apps=("live", "vod")):
    return dict(RC=set(range(1, rc + 1)), TC=set(range(1, tc + 1)), VC=set(range(1, vc + 1)), SC=set(range(1, sc + 1)),
                Apps=set(apps), Names=set(names), SrtAt=("live", "s"), Ops=set(ops), MaxSteps=steps, Sim=sim)


def run(c, name, exhaustive, random, nex, extra=None):
    """exhaustive: [(ops, steps, kwargs)], random: [(ops, steps, runs, init)]; replays them all."""
    jobs = []
    for ops, steps, kw in exhaustive:
        jobs.append((("Session",), dict(consts=consts(ops, steps, False, **kw), init="UpStart", inv=INV, workers=4)))
    for k, (ops, steps, runs, init) in enumerate(random):
        jobs.append((("Session",), dict(consts=consts(ops, steps, True), init=init, inv=INV, simulate=runs,
                                        depth=steps + 3, seed=c.seed * 100 + k)))
    hs = c.gens(jobs)
    binary = c.build("sess")
    for (ops, steps, kw), h in zip(exhaustive, hs):
        c.extra.setdefault("exhaustive_scopes", []).append({"ops": sorted(ops), "steps": steps, "histories": len(h),
                                                            "replayed": min(len(h), nex)})
        c.judge(name + " (exhaustive, %d steps)" % steps, binary, wrap(sample(h, nex, c.seed)), timeout=600)
    for (ops, steps, runs, init), h in zip(random, hs[len(exhaustive):]):
        c.judge(name + " (random, %d steps)" % steps, binary, wrap(h), timeout=600)
    if extra:
        extra(binary)
    c.assumptions += ["Loopback TCP and UDP of the sandbox deliver the driver's own datagrams",
                      "One operation at a time; overlapping claims of one name are raced separately (C01)"]


def wrap(hs):
    return [{"hist": h, "srt": ["live", "s"]} for h in hs]
