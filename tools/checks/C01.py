from vlib import *
from sessions import *


def run(c):
    # the claim itself: atomic check-and-claim has one winner in every interleaving, check-then-claim does not
    c.gen("Claim", consts=dict(Atomic=True, Racers=set(range(1, c.n(4, 6) + 1))), inv=["OneWinner", "AllTold"])
    _, text = c.tlc("Claim", "INIT Init\nNEXT Next\nCONSTANTS Atomic = FALSE\n Racers = {1, 2}\nINVARIANT OneWinner\n",
                    expect_violation=True)
    if "OneWinner is violated" not in text:
        raise CheckError("negative control: the two-step claim should have two winners")
    ops = BASE | PUBS | ENDS | {"key", "media", "view2", "play2", "view"}

    def races(binary):
        n = c.n(400, 6000)
        c.judge("racing claims", binary, [{"race": dict(r=r, t=t, s=s, rounds=k, free=f)} for r, t, s, k, f in
                [(2, 0, 0, 3 * n, False), (4, 0, 0, 2 * n, False), (8, 0, 0, n, False), (4, 2, 0, n, False), (1, 1, 0, n, False),
                 (3, 1, 2, n // 8, False), (0, 3, 0, n, False), (3, 1, 0, n // 2, True), (2, 0, 0, n, True)]],
                timeout=800, args=("-scn", "600s"))
        c.extra["races"] = "RTMP/RTSP/SRT claimants of one name released at the same moment, also against the owner giving it up"

    import sessions
    sessions.run(c, "publish attempts",
        [({"publish", "key", "delete", "drop", "open", "connect"}, c.n(5, 6), dict(rc=2, tc=1, vc=1, sc=1, names=("a",), apps=("live",))),
         ({"publish", "announce", "key", "rgone", "drop", "srtup", "srtkey", "srtshut"}, c.n(6, 7), dict(rc=1, tc=1, vc=1, sc=1, names=("s",), apps=("live",)))],
        [(ops, 30, c.n(150, 3000), "UpStart"), (ops | BAD | {"media2", "media3", "leave"}, 60, c.n(60, 2000), "UpStart")],
        c.n(500, 6000), races)
