from vlib import *

OFF = [(0, 0, 0, 0), (255, 255, 255, 255), (255, 255, 217, 0), (255, 255, 218, 0), (1, 0, 0, 0), (182, 182, 182, 181), (182, 182, 182, 182), (0, 0, 0, 255), (17, 200, 3, 99)]
FORMS = ["simple", "low", "high", "badlow", "badhigh"]
VW = [(0, 0), (0x8000, 0x0702), (0x0a00, 0x2d02), (0xffff, 0xffff)]


def consts(role, vers, forms, offs, vws, c2s, cuts, closes, sim):
    return dict(Role=role, Vers=set(vers), Forms=set(forms), Offsets=T("{" + ", ".join("<<%d,%d,%d,%d>>" % o for o in offs) + "}"),
                Vwords=T("{" + ", ".join("<<%d,%d>>" % v for v in vws) + "}"), C2s=set(c2s), Cuts=set(cuts), Closes=closes, Sim=sim)


def run(c):
    inv = ["Fits", "Ordered", "Emit"]
    allcuts = [1, 2, 5, 9, 700, 1536, 1537, 1538, 1545, 3072, 3073, 3074, 3090]
    g = c.gens([
        (("Handshake",), dict(consts=consts("server", [3], FORMS, OFF, VW, ["echo", "zero", "junk"], [1537], False, False), inv=inv)),
        (("Handshake",), dict(consts=consts("server", [3], ["simple", "high"], OFF[:1], VW[:1], ["echo", "zero"], [1, 1536, 1537, 1538, 3072, 3073, 3074], False, False), inv=inv)),
        (("Handshake",), dict(consts=consts("server", [3], ["simple", "low"], OFF[:1], VW[:1], ["zero"], [1, 1000, 1537, 2000, 3073, 3080], True, False), inv=inv)),
        (("Handshake",), dict(consts=consts("server", [0, 1, 2, 4, 6, 83, 255], ["simple", "low", "high"], OFF[:1], VW[:1], ["zero"], [1, 1537], False, False), inv=inv)),
        (("Handshake",), dict(consts=consts("client", [3], ["simple", "low"], OFF[:1], VW[:2], ["echo", "zero", "junk"], [1, 1537, 3073, 3074], True, False), inv=inv)),
        (("Handshake",), dict(consts=consts("client", [0, 2, 6], ["simple"], OFF[:1], VW[:1], ["echo"], [1, 1537], False, False), inv=inv)),
        (("Handshake",), dict(consts=consts("server", [3, 3, 3, 5], FORMS, OFF, VW, ["echo", "zero", "junk"], allcuts, True, True), inv=inv, simulate=c.n(300, 5000), depth=22)),
        (("Handshake",), dict(consts=consts("client", [3], FORMS, OFF, VW, ["echo", "zero", "junk"], allcuts, True, True), inv=inv, simulate=c.n(30, 500), depth=22))])
    b = c.build("shake")
    names = ["every form, offset, C2", "every segmentation", "closed at every point", "other versions", "pulling client", "upstream of another version", "random", "pulling client, random"]
    for n, s in zip(names, g):
        s = sample(dedup(s), c.n(700, 6000), c.seed)
        if "client" in n:
            s = sample(s, c.n(60, 500), c.seed)
        if n.startswith("other") or n.startswith("upstream"):
            s = sample(s, c.n(40, 40), c.seed)
        for i, x in enumerate(s):
            x["tcp"] = i % 5 == 0
        c.judge(n, b, s, timeout=600)
