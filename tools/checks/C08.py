"""What the server writes: single chunks byte by byte, and traffic of several sending goroutines on one connection."""
from vlib import T, sample
from .chunk_common import S, TS

def consts(perSrc=2, lens={2, 6, 129, 4091, 4095, 4096, 4097, 8191, 8192, 8193, 12289}, locked=True, cs="<<{4}, {4}, {10}>>", size=4096, times=None,
           kinds={"audio", "video"}):
    return {"Srcs": T("1..3"), "Cs": T(cs), "Lens": set(lens), "Times": S(times or TS), "Kinds": set(kinds), "PerSrc": perSrc, "Size": size,
            "Locked": locked}

def run(c):
    drv = c.build("out")
    small = consts(1, {1, 2, 3}, size=1, times=["<<0,0>>"], kinds={"audio"}, cs="<<{4}, {4, 9}, {10}>>")
    two = consts(2, {1, 3}, size=1, times=["<<0,0>>"], kinds={"audio"}, cs="<<{4}, {4}, {10}>>")
    c.gen("ServerOut", "Init", "Next", small, ["Intact", "EachInOrder"])
    c.gen("ServerOut", "Init", "Next", two, ["Intact", "EachInOrder"])
    b = c.gen("ServerOut", "ChInit", "ChNext", consts(), ["HdrOk", "EmitCh"])
    c.judge("single chunks", drv, sample(b, c.n(4500, 5000), c.seed))
    for k, (per, lens, n) in enumerate([(6, None, c.n(150, 1500)), (12, {2, 4096, 4097, 20000}, c.n(100, 1000)), (5, {65535, 65536, 70000, 200000}, c.n(30, 300)),
                                        (1, {16777215, 4097}, c.n(3, 30))]):
        b = c.gen("ServerOut", "GenInit", "GenNext", consts(per, lens) if lens else consts(per), ["Emit"], simulate=n, depth=3, seed=c.seed * 10 + k)
        sc = [{"q": q, "twice": i % 2 == 1, "csize": [128, 4096, 60000, 1000][(i // 2) % 4] if k != 3 else 1 << 20} for i, q in enumerate(b)]
        c.judge("concurrent senders, lengths %s" % (sorted(lens) if lens else "at chunk boundaries"), drv, sc, timeout=600)
    c.assumptions = ["the interleavings of the sending goroutines are those the Go scheduler produced in these runs"]
