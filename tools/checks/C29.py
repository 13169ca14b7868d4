from vlib import *

SHORT = ["one", "nomark", "two", "fu2", "fu3", "onefu", "fuone", "fufu", "agg", "aggfu", "odd"]
VIDEO = SHORT + ["fu9", "agg3", "aggcut", "aggstub", "aggzero", "funomark"]
AUDIO = ["one", "nomark", "fu2", "fu3", "fu9", "agg", "agg3"]


def run(c):
    inv = ["InOrder", "Alike", "Whole", "Progress", "Emit"]

    def k(codec, forms, aus, dels, back, sim):
        return dict(Codec=codec, Forms=set(forms), MaxAU=aus, MaxDel=dels, Back=back, Sim=sim)
    g = c.gens([
        (("Rtp",), dict(consts=k("h264", VIDEO, 1, c.n(4, 5), 9, False), inv=inv, timeout=1500)),
        (("Rtp",), dict(consts=k("h264", ["one", "nomark", "fu2", "fu3", "funomark"], 2, c.n(3, 4), 9, False), inv=inv, timeout=1500)),
        (("Rtp",), dict(consts=k("aac", AUDIO[:6], 2, c.n(3, 4), 12, False), inv=inv, timeout=1500)),
        (("Rtp",), dict(consts=k("h264", VIDEO, 6, 0, 5, True), inv=inv, simulate=c.n(700, 8000), depth=80)),
        (("Rtp",), dict(consts=k("aac", AUDIO, 8, 0, 5, True), inv=inv, simulate=c.n(400, 5000), depth=80)),
        (("Rtp",), dict(consts=k("h264", VIDEO, 50, 0, 90, True), inv=["InOrder", "Alike", "Emit"], simulate=c.n(30, 400), depth=500)),
        (("Rtp",), dict(consts=k("aac", AUDIO, 60, 0, 90, True), inv=["InOrder", "Alike", "Emit"], simulate=c.n(15, 200), depth=500))])
    b = c.build("rtpin")
    names = ["any arrivals of one access unit", "any arrivals of two access units", "any arrivals of two packets of audio", "video", "audio", "long video", "long audio"]
    for i, (n, s) in enumerate(zip(names, g)):
        s = sample(s, c.n(5000, 60000), c.seed)
        for j, x in enumerate(s):
            x["num"] = (j * 7 + c.seed) % 1000
        c.judge(n, b, s, timeout=600)
        if i < 3:
            s = sample(s, c.n(60, 600), c.seed + 1)
        else:
            s = sample(s, c.n(120, 1500), c.seed + 1)
        s = [dict(x, live="udp" if j % 2 else "tcp") for j, x in enumerate(s)]
        c.judge(n + ", published", b, s, timeout=600)
