from vlib import *
import sessions
from sessions import *


def run(c):
    base = BASE | PUBS | MEDIA | {"delete", "fcunpublish", "play2", "view2", "rplay2", "drop", "open", "rgone"}
    sessions.run(c, "media of every session",
        [({"publish", "media", "delete", "play2"}, c.n(4, 5), dict(rc=2, tc=1, vc=1, sc=1, names=("a",), apps=("live",))),
         ({"announce", "record", "rtpkey", "publish", "key", "rgone"}, c.n(5, 6), dict(rc=1, tc=2, vc=1, sc=1, names=("a",), apps=("live",)))],
        [(base, 40, c.n(200, 3000), "UpStart"), (base | {"srtshut", "view", "leave", "hints"}, 70, c.n(60, 2000), "UpStart")],
        c.n(500, 6000))
