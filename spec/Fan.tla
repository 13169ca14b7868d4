-------------------------------- MODULE Fan --------------------------------
(* What a viewer may see of a publication.  log: the publisher's messages <<[k, id]>>, k in                 *)
(*   "M" metadata, "V" video header, "A" audio header, "K" keyframe, "P" other picture, "S" audio,           *)
(*   "D" timed data, "E" end of sequence (a video message that is no picture).                               *)
(* A position is an index into log; 0 is before it.  fk is the index of the first keyframe, 0 if none.       *)
EXTENDS Integers, Sequences, FiniteSets

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Greatest(S) == CHOOSE x \in S : \A y \in S : y <= x
IsHdr(k) == k \in {"M", "V", "A"}
Hj(k) == CASE k = "M" -> 1 [] k = "V" -> 2 [] k = "A" -> 3
KeysIn(log, a, b) == {x \in a..b : log[x].k = "K"}
LastKey(log, i) == LET S == KeysIn(log, 1, i) IN IF S = {} THEN 0 ELSE Greatest(S)
FirstKey(log) == LET S == KeysIn(log, 1, Len(log)) IN IF S = {} THEN 0 ELSE Least(S)
(* Headers in force at message i, given those in force at message b <= i: the last of each kind. *)
HdrFrom(log, b, h, i) ==
    [j \in 1..3 |-> LET S == {x \in (b + 1)..i : IsHdr(log[x].k) /\ Hj(log[x].k) = j}
                    IN IF S = {} THEN h[j] ELSE log[Greatest(S)].id]
Hdr(log, i) == HdrFrom(log, 0, <<0, 0, 0>>, i)
(* Messages of these kinds that viewers get: pictures before the first keyframe are for nobody. *)
IsMedia(log, kinds, fk, i) == log[i].k \in kinds /\ (log[i].k \in {"P", "E"} => fk # 0 /\ fk < i)
MediaIn(log, kinds, fk, a, b) == {x \in a..b : IsMedia(log, kinds, fk, x)}

(* A viewer that joins when the publisher has sent between lo and hi messages starts at the group of         *)
(* pictures current then: at its keyframe (or, before any keyframe, at the first message).                   *)
StartOK(log, kinds, fk, lo, hi, i) ==
    IF log[i].k = "K" THEN (i <= hi /\ KeysIn(log, i + 1, lo) = {}) \/ (fk = i /\ MediaIn(log, kinds, fk, 1, i - 1) = {})
    ELSE (fk = 0 \/ fk > lo) /\ IsMedia(log, kinds, fk, i) /\ MediaIn(log, kinds, fk, 1, i - 1) = {}
(* It goes on with the next message, or, when a whole group behind, at a later keyframe.                     *)
StepOK(log, kinds, fk, p, i) == i > p /\ IsMedia(log, kinds, fk, i) /\ MediaIn(log, kinds, fk, p + 1, i - 1) = {}
SkipOK(log, p, i) == log[i].k = "K" /\ i > p /\ Cardinality(KeysIn(log, p + 1, i)) >= 2
(* The headers h a viewer holds when it sees a message published under headers w. *)
Under(w, h) == \A j \in 1..3 : w[j] # 0 => h[j] = w[j]
=============================================================================
