from vlib import T, sample
PROPS = ["Reassembled", "InStep", "AcksPaced", "PingsAnswered"]
def S(l): return T("{" + ", ".join(map(str, l)) + "}")
ALLCS = [4, 5, 63, 64, 319, 320, 1000, 65599]
KINDS = {"audio", "video", "data", "cmd", "discard", "agg", "setsize", "abort", "winack", "ping", "uc", "bw", "ackmsg"}
LENS = {2, 5, 12, 33, 40, 64, 127, 128, 129, 200, 256, 300, 513}
TS = ["<<0,0>>", "<<0,1>>", "<<0,40>>", "<<255,65534>>", "<<255,65535>>", "<<256,0>>", "<<256,1>>", "<<65535,65535>>", "<<65535,65500>>",
      "<<32767,65535>>", "<<32768,0>>"]
PINGS = S(["<<0,0,0,0>>", "<<255,255,255,255>>", "<<1,2,3,4>>", "<<128,0,0,7>>"])

def bad(typ, *b): return "[typ |-> %d, b |-> <<%s>>]" % (typ, ", ".join(map(str, b)))
BADS = S([bad(1, 0, 0, 0, 0), bad(1, 128, 0, 0, 0), bad(1, 255, 255, 255, 255), bad(1, 1, 2, 3), bad(1), bad(1, 128, 0, 16, 0), bad(2, 0, 0, 4), bad(2),
          bad(5, 1, 2, 3), bad(5), bad(4, 0), bad(4), bad(4, 0, 6, 1, 2, 3), bad(3, 1), bad(6, 1, 2, 3, 4), bad(6)])

def consts(cs, kinds=KINDS, sizes={1, 2, 3, 5, 64, 128, 129, 4096, 2147483647}, lens=LENS, deltas=TS, abs_=TS, windows={1, 50, 300, 5000},
           maxlen=30, bads=None, reps={3}):
    return {"CSs": set(cs), "Sizes": set(sizes), "Lens": set(lens), "Deltas": S(deltas), "Abs": S(abs_), "Windows": set(windows),
            "Pings": PINGS, "Kinds": set(kinds), "MaxLen": maxlen, "Bads": bads or S([]), "Base": 1000, "Reps": set(reps)}

def scen(bs, seed, seg=None):
    return [{"steps": h, "seg": seg if seg is not None else (k + seed) % 4} for k, h in enumerate(bs)]
