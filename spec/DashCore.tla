------------------------------ MODULE DashCore ------------------------------
(* What a DASH segmenter makes of a stream: video only, in segments that start at keyframes and last at least *)
(* Target ms, of which the last Window are available; and what the manifest says about them.  Events e: "V"   *)
(* configuration (e.c), "K" keyframe, "P" other picture, "A", "M", "E" (audio, metadata, end of sequence: no   *)
(* matter), "Z" the stream ends, "S" the segmenter is stopped.                                                 *)
EXTENDS Integers, Sequences, FiniteSets

Target == 2000
Window == 6
Dash0 == [cfg |-> <<>>, segs |-> <<>>, cur |-> <<>>, over |-> FALSE, stopped |-> FALSE]   \* cur: <<[i, t, c, key]>>

Close(s, until) ==    \* until = -1: nothing follows
  IF s.cur = <<>> THEN s
  ELSE [s EXCEPT !.cur = <<>>, !.segs = Append(@, [start |-> s.cur[1].t, s |-> s.cur, until |-> until])]
Put(s, i, e) == [s EXCEPT !.cur = Append(@, [i |-> i, t |-> e.t, c |-> e.c, key |-> e.k = "K"])]
Step(s, i, e) ==
  IF e.k = "S" THEN [s EXCEPT !.stopped = TRUE, !.cur = <<>>]
  ELSE IF s.over \/ s.stopped THEN s
  ELSE CASE e.k = "V" -> [s EXCEPT !.cfg = <<e.v>>]
         [] e.k = "K" /\ s.cfg # <<>> -> Put(IF s.cur # <<>> /\ e.t - s.cur[1].t >= Target THEN Close(s, e.t) ELSE s, i, e)
         [] e.k = "P" /\ s.cur # <<>> -> Put(s, i, e)
         [] e.k = "Z" -> [Close(s, -1) EXCEPT !.over = TRUE]
         [] OTHER -> s
Listed(s) == IF s.stopped THEN {} ELSE {q \in 0..(Len(s.segs) - 1) : q + Window >= Len(s.segs)}
(* How long sample k of segment g lasts: until the next; nobody knows for the very last. *)
Known(g, k) == k < Len(g.s) \/ g.until >= 0
Lasts(g, k) == IF k < Len(g.s) THEN g.s[k + 1].t - g.s[k].t ELSE g.until - g.s[k].t
=============================================================================
