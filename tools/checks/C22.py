"""SRT handshake: exhaustive short histories of induction/conclusion/data, random longer ones, three peers."""
from vlib import sample
from .srt_common import *

def run(c):
    drv = c.build("srt")
    acts = ["induct", "conclude", "data"]
    b = c.gen("Srt", "Init", "Next", consts([1], [0], c.n(4, 5), acts + ["shutdown"]), PROPS + ["Emit"])
    b = sample(b, c.n(3000, 12000), c.seed)
    sc = [{"base": BASES[(k + c.seed) % len(BASES)], "live": False, "burst": False, "steps": h} for k, h in enumerate(b)]
    c.judge("one caller, all histories", drv, sc, timeout=400)
    b = c.gen("Srt", "Init", "SimNext", consts([1, 2, 3], [-1, 0, 1], c.n(12, 20), acts + ["keepalive", "shutdown", "junk"]),
              PROPS + ["Emit"], simulate=c.n(800, 8000), depth=30)
    sc = [{"base": BASES[(k + c.seed) % len(BASES)], "live": False, "burst": False, "steps": h} for k, h in enumerate(b)]
    c.judge("several callers", drv, sc, timeout=400)
    c.assumptions = ["loopback UDP neither loses nor reorders the driver's own datagrams"]
