"""Fanout.tla / FanTrace.tla: histories for the server and the judgement of what its viewers received (C03, C04)."""
import os, random
from vlib import *

P = ["rtmp", "http", "ws", "rtsp"]
ALL = {"M", "V", "A", "K", "P", "S", "D", "E"}


def consts(kinds, viewers, msgs, steps, sim, keep=2):
    return dict(Viewers=set(range(1, viewers + 1)), Kinds=set(kinds), MaxMsgs=msgs, MaxSteps=steps, Sim=sim, Keep=keep)


def mechanism(c, inv, big):
    """The group-of-pictures mechanism stays within what viewers may see, in every interleaving of writes and reads."""
    for kinds, n in ([("MVAKPS", 5), ("VKP", 7)] if not big else [("MVAKPSDE", 5), ("MVAKPS", 6), ("VKP", 9), ("KPS", 8)]):
        c.gen("Fanout", next="FreeNext", consts=consts(kinds, 1, n, 0, False), inv=inv, workers=8, timeout=1500)
    _, text = c.tlc("Fanout", 'INIT Init\nNEXT FreeNext\nCONSTANTS Viewers = {1}\n Kinds = {"K", "P"}\n MaxMsgs = 5\n MaxSteps = 0\n'
                    ' Sim = FALSE\n Keep = 1\nINVARIANT Within\n', expect_violation=True)
    if "Within is violated" not in text:
        raise CheckError("negative control: a mechanism that keeps one group should lose messages of prompt viewers")


def wrap(hs, c, mix):
    out = plain(hs, c, mix)
    for k, s in enumerate(out):
        if k % 3 == 0:
            continue
        # other codecs and frame types; RTSP has its own checks for those
        s["proto"] = [{"rtsp": "http"}.get(p, p) for p in s["proto"]]
        kinds = {st["k"] for st in s["hist"]}
        s["vid"] = ([7, 12, 13] + ([2, 4] if not kinds & {"V", "E"} else []))[k // 3 % (5 if not kinds & {"V", "E"} else 3)]
        s["aud"] = ([0, 13] + ([2, 7, 1, 14] if "A" not in kinds else []))[k // 2 % (6 if "A" not in kinds else 2)]
    return out


def plain(hs, c, mix):
    return [{"hist": h, "proto": [P[(k + j) % 4] if (k + j // 2) % mix else "rtmp" for j in range(4)],
             "base": [0, 16777215 - 400, 0x7fffffff - 300, 0xfffffe00][k % 4], "size": k % 5} for k, h in enumerate(hs)]


def traces(c, name, binary, scen, timeout=800):
    """Replays histories, then lets TLC judge the recorded viewers against FanTrace.tla."""
    res = c.judge(name, binary, scen, timeout=timeout)
    if c.violations:
        return
    idx = [i for i in sorted(res) if res[i].get("ok") and res[i].get("obs")]
    ts = [res[i]["obs"] for i in idx]
    for t in ts:
        t["v"] = t["v"] or []
    keep = [(i, t) for i, t in zip(idx, ts) if t["v"]]
    if not keep:
        raise CheckError("no viewer was recorded")
    bad = []
    for a in range(0, len(keep), 1500):
        part = keep[a:a + 1500]
        p = os.path.join(c.scratch, "traces.json")
        with open(p, "w") as f:
            json.dump([t for _, t in part], f)
        vals, _ = c.tlc("FanTrace", "INIT Init\nNEXT Next\nINVARIANT Report\n", env={"FAN_TRACES": p}, workers=8, timeout=1500)
        bad += [(part[b["t"] - 1], b) for b in vals]
    n = sum(len(t["v"]) for _, t in keep)
    ev = sum(len(v["ev"]) for _, t in keep for v in t["v"])
    c.extra["viewers_judged"] = c.extra.get("viewers_judged", 0) + n
    c.extra["messages_judged"] = c.extra.get("messages_judged", 0) + ev
    c.log("%s: %d viewers, %d messages judged by TLC, %d rejected" % (name, n, ev, len(bad)))
    for (i, t), b in bad[:3]:
        v = t["v"][b["v"] - 1]
        c.violation({"behaviour": name, "scenario": scen[i], "verdict": b, "log": t["log"], "viewer": v},
                    "%s viewer %d, message %d: %s" % (v["proto"], b["v"], b["n"], b["why"]))
