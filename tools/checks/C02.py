from vlib import *
import sessions
from sessions import *


def run(c):
    base = BASE | PUBS | ENDS | VIEW | {"key", "media2", "badconnect"}
    sessions.run(c, "publishers ending",
        [({"publish", "key", "delete", "fcunpublish", "drop", "half", "view2", "rplay2"}, c.n(4, 5), dict(rc=1, tc=1, vc=2, sc=1, names=("a",), apps=("live",))),
         ({"announce", "record", "rtpkey", "rgone", "view2"}, c.n(6, 7), dict(rc=1, tc=1, vc=2, sc=1, names=("a",), apps=("live",))),
         ({"srtup", "srtkey", "srtshut", "view2"}, c.n(7, 8), dict(rc=1, tc=1, vc=2, sc=2, names=("s",), apps=("live",)))],
        [(base, 30, c.n(150, 3000), "UpStart"), (base | MEDIA | {"key"}, 60, c.n(80, 2000), "UpStart"),
         (BASE | ENDS | {"play2", "view2", "rplay2", "key"}, 40, c.n(80, 2000), "UpStart")],
        c.n(500, 6000))
