from vlib import *
import sessions
from sessions import *


def run(c):
    cm = BASE | CMDS | {"delete", "fcunpublish", "play", "media", "badconnect", "malformed", "drop"}
    one = dict(rc=1, tc=1, vc=1, sc=1, names=("a",), apps=("live",))
    sessions.run(c, "commands",
        [(cm, c.n(3, 4), one), ({"publish", "play", "delete", "fcunpublish", "createStream", "hints", "badconnect", "key"}, c.n(4, 5), one)],
        [(cm, 30, c.n(150, 3000), "UpStart"), (cm | {"key", "play2"}, 30, c.n(150, 3000), "Init"),
         (cm - {"drop", "malformed", "badconnect"} | {"play2", "key", "media2"}, 80, c.n(60, 1000), "UpStart")],
        c.n(700, 10000))
