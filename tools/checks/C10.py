from vlib import *


def run(c):
    ports = ["rtmp", "rtsp", "http", "hls", "srt"]

    def k(n, steps, sim, every, p=ports):
        return dict(N=n, Ports=set(p), MaxSteps=steps, Sim=sim, EmitAll=every)
    inv = ["Isolation", "Freed", "OneSrt", "TypeOK", "Emit"]
    each, _, many, srt = c.gens([
        (("Robust",), dict(consts=k(1, 9, False, True), inv=inv, view="ViewAll", workers=1)),
        (("Robust",), dict(consts=k(2, c.n(6, 8), False, False), inv=inv, view="View", timeout=1800)),
        (("Robust",), dict(consts=k(3, 16, True, False, ports[:4]), inv=inv, simulate=c.n(400, 6000), depth=40)),
        (("Robust",), dict(consts=k(2, 12, True, False, ["srt"]), inv=inv, simulate=c.n(80, 800), depth=40))])
    b = c.build("robust")
    each = each * c.n(4, 60)
    s = [dict(ev=x, num=i, sb=False) for i, x in enumerate(each)]
    s += [dict(ev=x, num=i, sb=True) for i, x in enumerate(each) if x[0]["port"] == "srt"]
    c.judge("every attack at every stage", b, sorted(s, key=lambda x: x["sb"]), timeout=c.n(800, 7000), shards=8)
    s = [dict(ev=x, num=i, sb=i % 8 == 7) for i, x in enumerate(srt + many)]
    c.judge("hostile sessions together", b, sorted(s, key=lambda x: x["sb"]), timeout=c.n(800, 7000), shards=8)
