-------------------------------- MODULE Hls ---------------------------------
(* Streams for an HLS segmenter: every order of configurations, keyframes, other pictures, audio frames,      *)
(* markers and blocking requests, with time gaps around the segment length.                                  *)
EXTENDS HlsCore, TLC, Json, FiniteSetsExt

CONSTANTS Kinds,      \* sequence (drawn from, so weighted) or set of event kinds
          VGaps, AGaps, MaxSteps, Sim, Ends   \* Ends: how it ends, subset of {"Z", "S"}
VARIABLES s, n, vt, at, hist, done
vars == <<s, n, vt, at, hist, done>>
KindSet == {Kinds[i] : i \in 1..Len(Kinds)}
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Init == s = Hls0 /\ n = 0 /\ vt = 0 /\ at = 0 /\ hist = <<>> /\ done = FALSE
Do(e) == /\ hist' = Append(hist, e) /\ n' = n + 1
         /\ s' = Step(s, n + 1, e) /\ UNCHANGED done
Media(k) == IF k \in {"K", "P"}
              THEN \E g \in Pick(VGaps) : \E v \in Pick(IF Sim THEN 1..8 ELSE {1}) : \E c \in Pick(IF Sim THEN {0, 40, 80, -20} ELSE {0}) :
                   \E z \in Pick(IF Sim THEN 0..9 ELSE {0}) :
                     /\ vt' = vt + g /\ UNCHANGED at /\ Do([k |-> k, t |-> vt + g, v |-> v, c |-> c, z |-> z])
              ELSE IF k = "A" THEN \E g \in Pick(AGaps) : \E z \in Pick(IF Sim THEN 0..9 ELSE {0}) :
                     /\ at' = MaxOf(at, IF vt > 200 THEN vt - 200 ELSE 0) + g /\ UNCHANGED vt
                     /\ Do([k |-> k, t |-> at', v |-> 1, c |-> 0, z |-> z])
              ELSE /\ UNCHANGED <<vt, at>> /\ Do([k |-> k, t |-> vt, v |-> IF Sim THEN RandomElement(1..8) ELSE 1, c |-> 0, z |-> 0])
Wait == \E m \in Pick({0, Len(s.segs), Len(s.segs) + 1}) : \E p \in Pick({-1, 0, 1, 3}) :
        \E l \in Pick(IF Sim THEN {20000, 20001, 20002, 300} ELSE {20000}) :
          /\ UNCHANGED <<vt, at>> /\ Do([k |-> "W", t |-> vt, m |-> m, p |-> p, l |-> l])
Next == \/ /\ ~done /\ n < MaxSteps
           /\ \E k \in (IF Sim THEN {Kinds[RandomElement(1..Len(Kinds))]} ELSE KindSet) : IF k = "W" THEN Wait ELSE Media(k)
        \/ /\ ~done /\ n = MaxSteps /\ done' = TRUE
           /\ \E k \in Pick(Ends) :
                LET a == [k |-> k, t |-> vt, v |-> 1, c |-> 0, z |-> 0]
                IN hist' = Append(hist, a) /\ s' = Step(s, n + 1, a) /\ UNCHANGED <<n, vt, at>>
Spec == Init /\ [][Next]_vars

(* Every frame from the first keyframe on is in exactly one segment, in order; segments start at keyframes    *)
(* and, but for the last, last at least Target; what is listed is the most recent of them.                   *)
RECURSIVE Cat(_, _)
Cat(q, k) == IF k = 0 THEN <<>> ELSE Cat(q, k - 1) \o q[k].v
Whole == LET all == Cat(s.segs, Len(s.segs)) \o (IF s.open THEN s.cur.v ELSE <<>>)
             vs == {i \in 1..Len(hist) : hist[i].k \in {"K", "P"} /\ \E j \in 1..i : hist[j].k = "K"}
         IN s.stopped \/ (/\ {all[i] : i \in 1..Len(all)} = vs
                          /\ \A i \in 1..(Len(all) - 1) : all[i] < all[i + 1])
Keyed == \A i \in 1..Len(s.segs) : hist[s.segs[i].v[1]].k = "K" /\ s.segs[i].start = hist[s.segs[i].v[1]].t
Long == \A i \in 1..Len(s.segs) : (i < Len(s.segs) \/ ~s.over) => s.segs[i].lo >= Target
Joined == \A i \in 1..(Len(s.segs) - 1) : s.segs[i].start + s.segs[i].lo = s.segs[i + 1].start
Recent == s.stopped \/ (Cardinality(Listed(s)) = (IF Len(s.segs) < Window THEN Len(s.segs) ELSE Window)
                        /\ \A q \in Listed(s) : \A r \in 0..(Len(s.segs) - 1) : r > q => r \in Listed(s))
Advance == [][ s'.stopped \/ (Len(s'.segs) \in {Len(s.segs), Len(s.segs) + 1}
                              /\ (Listed(s) # {} => LET a == Min(Listed(s)) b == Min(Listed(s')) IN b \in {a, a + 1}))]_vars
Emit == done => PrintT("@@" \o ToJson(hist))
=============================================================================
