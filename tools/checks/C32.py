from vlib import *

ALL = ["h264", "h264x", "h265", "jpeg", "savp", "aac", "aaclbr", "latm", "opus", "pcmu", "app"]
NAMES = ["", "", "", " two words", "\r\nm=audio 0 RTP/AVP 98\r\na=rtpmap:98 opus/48000/2", "\n", "%41", "a+b", "\u00fc"]


def run(c):
    inv = ["Sound", "Emit"]

    def k(mode, codecs, media, steps, sim):
        return dict(Mode=mode, Codecs=set(codecs), MaxMedia=media, MaxSteps=steps, Sim=sim)
    g = c.gens([
        (("Sdp",), dict(consts=k("parse", ALL, 1, 1, False), inv=inv)),
        (("Sdp",), dict(consts=k("parse", ALL + ["h264", "aac"], 2, 1, True), inv=inv, simulate=c.n(1200, 12000), depth=5)),
        (("Sdp",), dict(consts=k("parse", ["h264", "aac", "h265", "opus"], 3, 1, True), inv=inv, simulate=c.n(800, 12000), depth=6)),
        (("Sdp",), dict(consts=k("serve", ALL, 1, 1, False), inv=inv)),
        (("Sdp",), dict(consts=k("serve", ALL, 1, 2, False), inv=inv)),
        (("Sdp",), dict(consts=k("serve", ALL, 1, 8, True), inv=inv, simulate=c.n(150, 2500), depth=10))])
    b = c.build("sdp")
    for n, live, s in zip(["every form of one track", "two tracks", "three tracks", "every header", "every two headers", "series of headers"], [150, 150, 150, 999, 999, 999], g):
        s = sample(dedup(s), c.n(2500, 30000), c.seed)
        if n == "every two headers":
            s = sample(s, c.n(400, 4000), c.seed)
        pick = set(id(x) for x in sample(s, live * c.n(1, 10), c.seed + 1))
        for i, x in enumerate(s):
            x["live"] = id(x) in pick
            x["name"] = NAMES[i % len(NAMES)]
        c.judge(n, b, s, timeout=800)
