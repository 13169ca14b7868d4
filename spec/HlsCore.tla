------------------------------ MODULE HlsCore -------------------------------
(* What an HLS segmenter makes of a stream: complete segments, the segment in progress, and the sliding      *)
(* window a playlist shows.  An event e has k (kind), t (ms), and for media what identifies it:               *)
(*   "V"/"H" video/audio configuration, "K" keyframe, "P" other picture, "A" audio frame, "E" end of          *)
(*   sequence marker, "M" metadata, "Z" the stream ends, "S" the segmenter is stopped.                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Target == 2000     \* ms a segment lasts at least
Window == 6        \* segments a playlist lists
PartTarget == 333  \* ms a low-latency part lasts

MaxOf(a, b) == IF a > b THEN a ELSE b
Fresh(start) == [start |-> start, lastv |-> start, last |-> start, v |-> <<>>]
Hls0 == [segs |-> <<>>, late |-> 0, open |-> FALSE, cur |-> Fresh(0), key |-> FALSE, audio |-> <<>>, before |-> <<>>, over |-> FALSE, stopped |-> FALSE]

(* A segment lasts until the next keyframe; audio may run a little ahead of that, and what is left of it goes to the last segment. *)
Close(s, until) == [s EXCEPT !.segs = Append(@, [q |-> Len(s.segs), start |-> s.cur.start, v |-> s.cur.v,
                                                 lo |-> until - s.cur.start, hi |-> MaxOf(until, s.cur.last) - s.cur.start])]
Put(s, i, e) == [s EXCEPT !.cur.v = Append(@, i), !.cur.lastv = MaxOf(@, e.t), !.cur.last = MaxOf(@, e.t)]
Step(s, i, e) ==
  IF s.over \/ s.stopped THEN IF e.k = "S" THEN [s EXCEPT !.stopped = TRUE, !.open = FALSE] ELSE s
  ELSE CASE e.k = "K" -> Put(IF ~s.open THEN [s EXCEPT !.open = TRUE, !.key = TRUE, !.cur = Fresh(e.t)]
                             ELSE IF e.t - s.cur.start >= Target THEN [Close(s, e.t) EXCEPT !.cur = Fresh(e.t)]
                             ELSE s, i, e)
         [] e.k = "P" -> IF s.open THEN Put(s, i, e) ELSE s
         [] e.k = "A" -> IF s.open THEN [s EXCEPT !.audio = Append(@, i), !.cur.last = MaxOf(@, e.t), !.late = MaxOf(@, e.t)]
                         ELSE [s EXCEPT !.before = Append(@, i), !.late = MaxOf(@, e.t)]
         [] e.k = "Z" -> IF s.open THEN [Close([s EXCEPT !.cur.last = MaxOf(@, s.late)], s.cur.lastv) EXCEPT !.open = FALSE, !.over = TRUE] ELSE [s EXCEPT !.over = TRUE]
         [] e.k = "S" -> [s EXCEPT !.stopped = TRUE, !.open = FALSE]
         [] OTHER -> s
Listed(s) == IF s.stopped THEN {} ELSE {q \in 0..(Len(s.segs) - 1) : q + Window >= Len(s.segs)}
Files(s) == IF s.stopped THEN {} ELSE Listed(s) \union (IF s.open THEN {Len(s.segs)} ELSE {})
(* The last segment has no successor that says how long its last frame lasts. *)
DurOK(s, g, d) == IF s.over /\ g.q = Len(s.segs) - 1
                    THEN d > 0 /\ d >= g.lo /\ d <= (IF g.hi = 0 THEN Target ELSE g.hi) + 1000
                    ELSE d >= g.lo - 1 /\ d <= g.hi + 3
(* A blocking request for part p (negative: all) of segment m. *)
Sat(complete, cq, np, m, p) == m < complete \/ (p >= 0 /\ m = complete /\ cq = m /\ p < np)
=============================================================================
