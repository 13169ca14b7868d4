-------------------------------- MODULE Dash --------------------------------
(* Streams for a DASH segmenter. *)
EXTENDS DashCore, TLC, Json, FiniteSetsExt

CONSTANTS Kinds, VGaps, MaxSteps, Sim, Ends, Cfgs   \* Cfgs: how many configurations there are
VARIABLES s, n, vt, hist, done
vars == <<s, n, vt, hist, done>>
KindSet == {Kinds[i] : i \in 1..Len(Kinds)}
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Init == s = Dash0 /\ n = 0 /\ vt = 0 /\ hist = <<>> /\ done = FALSE
Do(e) == hist' = Append(hist, e) /\ n' = n + 1 /\ s' = Step(s, n + 1, e) /\ UNCHANGED done
Media(k) == IF k \in {"K", "P"}
              THEN \E g \in Pick(VGaps) : \E c \in Pick(IF Sim THEN {0, 40, 80, -20} ELSE {0}) : \E z \in Pick(IF Sim THEN 0..9 ELSE {0}) :
                     vt' = vt + g /\ Do([k |-> k, t |-> vt + g, v |-> 0, c |-> c, z |-> z])
              ELSE \E v \in Pick(1..Cfgs) : UNCHANGED vt /\ Do([k |-> k, t |-> vt, v |-> v, c |-> 0, z |-> 0])
Next == \/ /\ ~done /\ n < MaxSteps
           /\ \E k \in (IF Sim THEN {Kinds[RandomElement(1..Len(Kinds))]} ELSE KindSet) : Media(k)
        \/ /\ ~done /\ n = MaxSteps /\ done' = TRUE
           /\ \E k \in Pick(Ends) : LET a == [k |-> k, t |-> vt, v |-> 0, c |-> 0, z |-> 0]
                                    IN hist' = Append(hist, a) /\ s' = Step(s, n + 1, a) /\ UNCHANGED <<n, vt>>
Spec == Init /\ [][Next]_vars

RECURSIVE Cat(_, _)
Cat(q, k) == IF k = 0 THEN <<>> ELSE Cat(q, k - 1) \o q[k].s
First == IF \E i \in 1..Len(hist) : hist[i].k = "K" /\ \E j \in 1..i : hist[j].k = "V"
           THEN Min({i \in 1..Len(hist) : hist[i].k = "K" /\ \E j \in 1..i : hist[j].k = "V"}) ELSE Len(hist) + 1
(* Every picture from the first decodable one on is in exactly one segment, in order, without gaps in time. *)
Whole == LET all == Cat(s.segs, Len(s.segs)) \o s.cur
         IN s.stopped \/ (/\ {all[i].i : i \in 1..Len(all)} = {i \in First..Len(hist) : hist[i].k \in {"K", "P"}}
                          /\ \A i \in 1..(Len(all) - 1) : all[i].i < all[i + 1].i)
Keyed == \A i \in 1..Len(s.segs) : s.segs[i].s[1].key
Contiguous == \A i \in 1..(Len(s.segs) - 1) : s.segs[i].until = s.segs[i + 1].start /\ s.segs[i].until - s.segs[i].start >= Target
Advance == [][ s'.stopped \/ (Listed(s) # {} => Min(Listed(s')) - Min(Listed(s)) \in {0, 1}) ]_vars
Emit == done => PrintT("@@" \o ToJson(hist))
=============================================================================
