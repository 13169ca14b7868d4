from vlib import *

AV = ["aac", "aacHdr", "mp3", "g711", "opus", "opusHdr", "speex", "aacX", "opusX", "anyX", "key", "inter", "hdr", "hevcHdr", "hevcKey", "hevcInter", "av1Key", "h263key", "h263", "vp6key", "vp6", "eos"]
SIZES = [2, 3, 5, 7, 8, 20, 127, 128, 200, 254, 255, 256, 257, 1000, 4085, 4096, 4097]
BIG = [65524, 65525, 65535, 65536, 65537, 70000, 131072]
TIMES = ["<<0,0>>", "<<0,1>>", "<<0,40>>", "<<0,255>>", "<<0,256>>", "<<0,65535>>", "<<1,0>>", "<<255,65535>>", "<<256,0>>", "<<256,1>>", "<<32767,65535>>", "<<32768,0>>", "<<65535,65535>>", "<<4660,22136>>", "<<513,1027>>"]


def consts(kinds, sizes, times, n, sim):
    return dict(Kinds=set(kinds), Sizes=set(sizes), Times=T("{" + ",".join(times) + "}"), MaxMsgs=n, Sim=sim)


def run(c):
    inv = ["Faithful", "Emit"]
    g = c.gens([
        (("Flv",), dict(consts=consts(AV + ["meta", "data"], SIZES, TIMES, 1, False), inv=inv)),
        (("Flv",), dict(consts=consts(["key", "aac", "meta", "h263key", "hdr"], BIG, TIMES[:1] + TIMES[-2:], 1, False), inv=inv)),
        (("Flv",), dict(consts=consts(["key"], [16777215, 16777210, 8388608], ["<<1,2>>"], 1, False), inv=inv)),
        (("Flv",), dict(consts=consts(["key", "inter", "aac", "hdr", "meta", "h263key", "h263", "opusHdr"], [9], ["<<0,7>>"], 3, False), inv=inv)),
        (("Flv",), dict(consts=consts(AV + ["meta", "data"], SIZES, TIMES, 25, True), inv=inv, simulate=c.n(80, 1500), depth=30)),
        (("Flv",), dict(consts=consts(["key", "inter", "aac", "aac", "hdr", "aacHdr", "meta"], SIZES + BIG, TIMES, 25, True), inv=inv, simulate=c.n(40, 800), depth=30)),
        (("Flv",), dict(consts=consts(["vp6key", "vp6", "mp3", "meta", "data"], SIZES, TIMES, 20, True), inv=inv, simulate=c.n(20, 400), depth=30))])
    b = c.build("flv")
    live = [300, 12, 2, 400, 999, 999, 999]
    for n, k, s in zip(["every kind, size and time", "larger ones", "up to the largest", "every three messages", "random streams", "AVC and AAC", "codecs without headers"], live, g):
        k *= c.n(1, 8)
        s = sample(dedup(s), c.n(6000, 20000), c.seed)
        pick = set(id(x) for x in sample(s, k, c.seed + 1))
        for i, x in enumerate(s):
            x["live"] = id(x) in pick
            x["late"] = 1 + i % (len(x["msgs"]) + 1)
        c.judge(n, b, s, timeout=800)
