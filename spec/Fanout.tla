------------------------------- MODULE Fanout -------------------------------
(***************************************************************************)
(* One publication and its viewers: groups of pictures kept for them, the  *)
(* position of each, headers travelling in line.  The module has the       *)
(* mechanism (two groups kept, a reader that fell further behind enters    *)
(* the current one); Fan.tla says what a viewer may see.  Checked:         *)
(* mechanism within Fan in every interleaving; generated: histories for    *)
(* the real server, the traces of whose viewers FanTrace.tla judges.       *)
(***************************************************************************)
EXTENDS Fan, TLC, Json

CONSTANTS Viewers, Kinds, MaxMsgs, MaxSteps, Sim, Keep   \* Keep: groups kept (2; 1 is the negative control)

VARIABLES log, vw, hist, done
vars == <<log, vw, hist, done>>
AllMedia == {"K", "P", "S", "D", "E"}
Off == [st |-> "off", grp |-> 0, pos |-> 0, h |-> <<0, 0, 0>>, recv |-> <<>>, lo |-> 0, pend |-> FALSE]
Init == log = <<>> /\ vw = [v \in Viewers |-> Off] /\ hist = <<>> /\ done = FALSE

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
(* Groups are named by the index of their keyframe, the one before any keyframe by 0. *)
Cur(l) == LastKey(l, Len(l))
Prev(l) == IF Cur(l) = 0 THEN 0 ELSE LastKey(l, Cur(l) - 1)
GroupEnd(l, g) == LET S == {x \in (g + 1)..Len(l) : l[x].k = "K"} IN IF S = {} THEN Len(l) ELSE Least(S) - 1
InGroup(l, g, p) == {x \in (IF g = 0 THEN 1 ELSE g)..GroupEnd(l, g) : x > p}
Kept(l) == IF Keep = 2 THEN {Cur(l), Prev(l)} ELSE {Cur(l)}

(* One read: the reader that has finished its group, or whose group is gone, enters the current one; it is   *)
(* first given the headers in force at the group's start, then the group's messages in order.                *)
Enter(s, g) == [s EXCEPT !.grp = g, !.pos = IF g = 0 THEN 0 ELSE g - 1, !.pend = TRUE]
Settle(l, s) == IF s.grp # Cur(l) /\ (s.grp \notin Kept(l) \/ (~s.pend /\ InGroup(l, s.grp, s.pos) = {}))
                  THEN Enter(s, Cur(l)) ELSE s
GroupHdr(l, g) == IF g = 0 THEN <<0, 0, 0>> ELSE Hdr(l, g - 1)
Over(h, new) == [j \in 1..3 |-> IF new[j] = 0 THEN h[j] ELSE new[j]]
ReadOne(l, s0) ==
    LET s == Settle(l, s0) IN
    IF s.pend THEN [s EXCEPT !.pend = FALSE, !.h = Over(@, GroupHdr(l, s.grp))]
    ELSE LET S == InGroup(l, s.grp, s.pos) IN
         IF S = {} THEN s
         ELSE LET i == Least(S) IN
              IF IsHdr(l[i].k) THEN [s EXCEPT !.pos = i, !.h[Hj(l[i].k)] = l[i].id]
              ELSE IF IsMedia(l, AllMedia, FirstKey(l), i) THEN [s EXCEPT !.pos = i, !.recv = Append(@, <<i, s.h>>)]
              ELSE [s EXCEPT !.pos = i]
RECURSIVE Drain(_, _)
Drain(l, s) == LET t == ReadOne(l, s) IN IF t = s THEN s ELSE Drain(l, t)

Attach(l) == [Off EXCEPT !.st = "on", !.grp = Cur(l), !.pos = IF Cur(l) = 0 THEN 0 ELSE Cur(l) - 1, !.pend = TRUE,
                         !.h = Hdr(l, Len(l)), !.lo = Len(l)]
Msg(k) == [k |-> k, id |-> Len(log) + 1]

(* ---- free interleaving, for the model checker ---- *)
FreeNext == \/ \E k \in Kinds : Len(log) < MaxMsgs /\ log' = Append(log, Msg(k)) /\ UNCHANGED <<vw, hist, done>>
            \/ \E v \in Viewers : vw[v].st = "off" /\ vw' = [vw EXCEPT ![v] = Attach(log)] /\ UNCHANGED <<log, hist, done>>
            \/ \E v \in Viewers : vw[v].st = "on" /\ ReadOne(log, vw[v]) # vw[v] /\ vw' = [vw EXCEPT ![v] = ReadOne(log, @)]
                                  /\ UNCHANGED <<log, hist, done>>

(* ---- histories for the server: one operation at a time, viewers that are not paused keep up ---- *)
Up == {v \in Viewers : vw[v].st = "on"}
LastId(l, s) == IF s.st # "on" \/ s.recv = <<>> THEN 0 ELSE l[s.recv[Len(s.recv)][1]].id
Step(op, k, id, v, l, w) == /\ log' = l /\ vw' = w
                            /\ hist' = Append(hist, [op |-> op, k |-> k, id |-> id, v |-> v,
                                                     want |-> [x \in Viewers |-> LastId(l, w[x])]])
Publish(k) == LET l == Append(log, Msg(k)) IN
    /\ Len(log) < MaxMsgs
    /\ Step("pub", k, Len(log) + 1, 0, l, [v \in Viewers |-> IF vw[v].st = "on" THEN Drain(l, vw[v]) ELSE vw[v]])
Join(v) == vw[v].st = "off" /\ Step("join", "", 0, v, log, [vw EXCEPT ![v] = Drain(log, Attach(log))])
Pause(v) == vw[v].st = "on" /\ Step("pause", "", 0, v, log, [vw EXCEPT ![v].st = "paused"])
Resume(v) == vw[v].st = "paused" /\ Step("resume", "", 0, v, log, [vw EXCEPT ![v] = Drain(log, [@ EXCEPT !.st = "on"])])
Leave(v) == vw[v].st \in {"on", "paused"} /\ Step("leave", "", 0, v, log, [vw EXCEPT ![v].st = "gone"])

HNext == /\ Len(hist) < MaxSteps /\ ~done /\ UNCHANGED done
         /\ \/ \E k \in Pick(Kinds) : Publish(k)
            \/ \E k \in Pick(Kinds \ {"M", "V", "A", "D", "E"}) : Sim /\ Publish(k)
            \/ \E k \in Pick(Kinds \ {"M", "V", "A", "D", "E"}) : Sim /\ Publish(k)
            \/ \E v \in Pick(Viewers) : Join(v)
            \/ \E v \in Pick(Viewers) : Pause(v)
            \/ \E v \in Pick(Viewers) : Resume(v)
            \/ Len(hist) % 4 = 0 /\ \E v \in Pick(Viewers) : Leave(v)
Finish == Len(hist) >= MaxSteps /\ ~done /\ done' = TRUE /\ UNCHANGED <<log, vw, hist>>
Next == HNext \/ Finish
Emit == done => PrintT("@@" \o ToJson(hist))

---------------------------------------------------------------------------
(* The mechanism keeps within what a viewer may see. *)
Within == LET fk == FirstKey(log) IN \A v \in Viewers : LET r == vw[v].recv IN \A n \in 1..Len(r) :
    /\ IF n = 1 THEN StartOK(log, AllMedia, fk, vw[v].lo, Len(log), r[1][1])
       ELSE StepOK(log, AllMedia, fk, r[n-1][1], r[n][1]) \/ SkipOK(log, r[n-1][1], r[n][1])
    /\ Under(Hdr(log, r[n][1]), r[n][2])
(* Whoever reads everything there is has the last message and the current headers. *)
CaughtUp == LET M == MediaIn(log, AllMedia, FirstKey(log), 1, Len(log)) IN
    \A v \in Viewers : vw[v].st = "on" /\ ReadOne(log, vw[v]) = vw[v] =>
        LET r == vw[v].recv IN
        /\ (r # <<>> => r[Len(r)][1] = Greatest(M))
        /\ vw[v].h = Hdr(log, Len(log))
KeyFirst == \A v \in Viewers : LET r == vw[v].recv
                                   V == {n \in 1..Len(r) : log[r[n][1]].k \in {"K", "P", "E"}}
                               IN V # {} => log[r[Least(V)][1]].k = "K"
=============================================================================
