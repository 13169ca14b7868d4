"""SRT ARQ: exhaustive loss/duplication/reordering patterns from every ISN class, plus random long sessions."""
from .srt_common import *

def run(c):
    drv = c.build("srt")
    # every pattern of 4 (5) packets relative to the expected number, on a live session
    b = c.gen("Srt", "LiveInit", "Next", consts([1], [-2, -1, 0, 1, 3], c.n(4, 5), ["data"]),
              ["InOrderOnce", "GapsExact", "AcksMonotone", "Emit"])
    sc = []
    for k, h in enumerate(b):
        bases = BASES if c.thorough else [BASES[(k + c.seed) % len(BASES)], BASES[(k + c.seed + 1) % 4]]
        for j, base in enumerate(bases):
            sc.append({"base": base, "live": True, "burst": (k + j) % 2 == 0, "steps": h})
    c.judge("loss patterns", drv, sc, timeout=400)
    # far jumps, keepalives, shutdown, consumer refusal, junk; one and two peers
    b = c.gen("Srt", "LiveInit", "SimNext",
              consts([1, 2], [-1073741822, -70000, -5, -1, 0, 1, 2, 40, 70000, 1073741822], c.n(8, 12),
                     ["data", "keepalive", "shutdown", "junk", "baddata"]),
              ["InOrderOnce", "AcksMonotone", "Emit"], simulate=c.n(600, 6000), depth=20)
    sc = [{"base": BASES[(k + c.seed) % len(BASES)], "live": True, "burst": False, "steps": h} for k, h in enumerate(b)]
    c.judge("sessions with faults", drv, sc, timeout=400)
    # full life cycle, several sessions on one address one after another
    b = c.gen("Srt", "Init", "SimNext", consts([1, 2], [-3, -1, 0, 1, 2], c.n(12, 20), ["induct", "conclude", "data", "shutdown"]),
              PROPS + ["Emit"], simulate=c.n(400, 4000), depth=30)
    sc = [{"base": BASES[(k + c.seed) % len(BASES)], "live": False, "burst": False, "steps": h} for k, h in enumerate(b)]
    c.judge("life cycles", drv, sc, timeout=400)
    c.assumptions = ["loopback UDP neither loses nor reorders the driver's own datagrams",
                     "acknowledgements are due at most 11 ms after the previous one when the receiver is idle"]
