------------------------------ MODULE FanTrace ------------------------------
(* Judges recorded viewers.  Each trace: log, and viewers [lo, hi, kinds, skip (may fall behind), fin (read   *)
(* to the end of the publication; one that falls behind before its first message has skipped, too), hdrs (its protocol carries headers), ev: <<[id, h]>>, last: headers at    *)
(* the end, pre: the newest headers it received before any media].                                           *)
EXTENDS Fan, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.FAN_TRACES)
VARIABLES t, v, n, pos, hd, fk, bad      \* hd: headers in force at pos
vars == <<t, v, n, pos, hd, fk, bad>>
Kinds(w) == {w.kinds[i] : i \in 1..Len(w.kinds)}
Init == /\ t \in 1..Len(Traces) /\ v \in 1..Len(Traces[t].v)
        /\ n = 0 /\ pos = 0 /\ hd = <<0, 0, 0>> /\ bad = "" /\ fk = FirstKey(Traces[t].log)
(* Identities are positions in the log. *)
(* What the publisher had said last when the viewer came has to be known to it before the media begin. *)
Told(w) == w.hdrs => \A j \in 1..3 : w.pre[j] >= Hdr(Traces[t].log, w.lo)[j]
Why == LET l == Traces[t].log
           w == Traces[t].v[v]
           i == w.ev[n + 1].id
           K == Kinds(w)
       IN IF i \notin 1..Len(l) \/ l[i].k \notin K THEN "received something that was not published"
          ELSE IF n = 0 /\ ~StartOK(l, K, fk, w.lo, IF w.skip THEN Len(l) ELSE w.hi, i) THEN "does not start at the group current when it joined"
          ELSE IF n > 0 /\ i <= pos THEN "goes back or repeats"
          ELSE IF n > 0 /\ ~StepOK(l, K, fk, pos, i) /\ ~w.skip THEN "misses messages although it kept up"
          ELSE IF n > 0 /\ ~StepOK(l, K, fk, pos, i) /\ ~SkipOK(l, pos, i) THEN "skips to something that is no later keyframe"
          ELSE IF n = 0 /\ ~Told(w) THEN "gets media before the headers that were current when it joined"
          ELSE IF w.hdrs /\ ~Under(HdrFrom(l, pos, hd, i), w.ev[n + 1].h)
                 THEN "sees a message under other headers than it was published under"
          ELSE ""
WhyEnd == LET l == Traces[t].log
              w == Traces[t].v[v]
              K == Kinds(w)
          IN IF ~w.fin THEN ""
             ELSE IF n > 0 /\ MediaIn(l, K, fk, pos + 1, Len(l)) # {} THEN "does not get the end of the publication"
             ELSE IF n = 0 /\ LET q == LastKey(l, IF w.skip THEN Len(l) ELSE w.hi) IN MediaIn(l, K, fk, IF q = 0 THEN 1 ELSE q, Len(l)) # {}
                    THEN "gets nothing of the publication"
             ELSE IF n = 0 /\ ~Told(w) THEN "does not get the headers that were current when it joined"
             ELSE IF w.hdrs /\ w.last # HdrFrom(l, pos, hd, Len(l)) THEN "does not have the last headers at the end"
             ELSE ""
Next == /\ bad = "" /\ UNCHANGED <<t, v, fk>>
        /\ IF n < Len(Traces[t].v[v].ev)
             THEN LET i == Traces[t].v[v].ev[n + 1].id IN
                  /\ bad' = Why /\ n' = n + 1 /\ pos' = i
                  /\ hd' = IF bad' = "" THEN HdrFrom(Traces[t].log, pos, hd, i) ELSE hd
             ELSE bad' = WhyEnd /\ bad' # "" /\ UNCHANGED <<n, pos, hd>>
Report == bad # "" => PrintT("@@" \o ToJson([t |-> t, v |-> v, n |-> n, why |-> bad]))
=============================================================================
