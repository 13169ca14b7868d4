------------------------------- MODULE RtpCore --------------------------------
(* A strict receiver of RTP payloads: H.264 (RFC 6184), H.265 (RFC 7798), AAC-hbr (RFC 3640), Opus (RFC 7587). *)
(* st: a fragmented unit (on, fu), the units completed (out), and what is wrong (err).                          *)
EXTENDS Integers, Sequences, SequencesExt

Fresh == [on |-> FALSE, fu |-> <<>>, out |-> <<>>, err |-> ""]
Err(st, e) == [st EXCEPT !.err = e]
Unit(st, u) == [st EXCEPT !.out = Append(@, u)]
Rest(p, i) == SubSeq(p, i, Len(p))

RECURSIVE Parts(_, _, _)     \* units with 16-bit sizes from byte i on
Parts(st, p, i) ==
  IF i > Len(p) THEN st
  ELSE IF i + 1 > Len(p) THEN Err(st, "truncated aggregation")
  ELSE LET n == p[i] * 256 + p[i + 1] IN
       IF n = 0 \/ i + 1 + n > Len(p) THEN Err(st, "size in an aggregation") ELSE Parts(Unit(st, SubSeq(p, i + 2, i + 1 + n)), p, i + 2 + n)

Frag(st, hdr, fh, body, types) ==
  LET s == fh \div 128 = 1  e == (fh \div 64) % 2 = 1 IN
  IF s /\ e THEN Err(st, "fragment that is both start and end")
  ELSE IF Len(body) = 0 THEN Err(st, "empty fragment")
  ELSE IF ~types THEN Err(st, "type of a fragmented unit")
  ELSE IF s /\ st.on THEN Err(st, "start within a fragmented unit")
  ELSE IF ~s /\ ~st.on THEN Err(st, "fragment without a start")
  ELSE IF ~s /\ SubSeq(st.fu, 1, Len(hdr)) # hdr THEN Err(st, "fragment of another unit")
  ELSE LET u == (IF s THEN hdr ELSE st.fu) \o body IN
       IF e THEN [st EXCEPT !.on = FALSE, !.fu = <<>>, !.out = Append(@, u)] ELSE [st EXCEPT !.on = TRUE, !.fu = u]

Take264(st, p) ==
  LET t == p[1] % 32 IN
  IF st.on /\ t # 28 THEN Err(st, "another payload within a fragmented unit")
  ELSE IF t \in 1..23 THEN Unit(st, p)
  ELSE IF t = 24 THEN Parts(st, p, 2)
  ELSE IF t = 28 /\ Len(p) > 2 THEN
         IF (p[2] \div 32) % 2 = 1 THEN Err(st, "reserved bit of a fragment")
         ELSE Frag(st, <<(p[1] \div 32) * 32 + (p[2] % 32)>>, p[2], Rest(p, 3), p[2] % 32 \in 1..23)
  ELSE Err(st, "payload type")
Take265(st, p) ==
  LET t == (p[1] \div 2) % 64 IN
  IF Len(p) < 2 THEN Err(st, "short payload")
  ELSE IF st.on /\ t # 49 THEN Err(st, "another payload within a fragmented unit")
  ELSE IF t < 48 THEN Unit(st, p)
  ELSE IF t = 48 THEN Parts(st, p, 3)
  ELSE IF t = 49 /\ Len(p) > 3 THEN Frag(st, <<(p[1] \div 128) * 128 + (p[3] % 64) * 2 + (p[1] % 2), p[2]>>, p[3], Rest(p, 4), p[3] % 64 < 48)
  ELSE Err(st, "payload type")
RECURSIVE AUs(_, _, _, _)    \* access units h.. of n, data from byte i on
AUs(st, p, h, i) ==
  LET bits == p[1] * 256 + p[2]  at == 3 + 2 * h IN
  IF h = bits \div 16 THEN IF i = Len(p) + 1 THEN st ELSE Err(st, "bytes behind the last access unit")
  ELSE LET n == p[at] * 32 + p[at + 1] \div 8 IN
       IF p[at + 1] % 8 # 0 THEN Err(st, "access unit index")
       ELSE IF n = 0 \/ i + n > Len(p) + 1 THEN Err(st, "access unit size")
       ELSE AUs(Unit(st, SubSeq(p, i, i + n - 1)), p, h + 1, i + n)
TakeAAC(st, p) ==
  IF Len(p) < 5 THEN Err(st, "short payload")
  ELSE LET bits == p[1] * 256 + p[2] IN
       IF bits = 0 \/ bits % 16 # 0 \/ 2 + bits \div 8 > Len(p) THEN Err(st, "access unit headers") ELSE AUs(st, p, 0, 3 + bits \div 8)
Take(codec, st, p) ==
  IF st.err # "" THEN st
  ELSE IF p = <<>> THEN Err(st, "empty payload")
  ELSE CASE codec = "h264" -> Take264(st, p) [] codec = "hevc" -> Take265(st, p) [] codec = "aac" -> TakeAAC(st, p) [] OTHER -> Unit(st, p)
Receive(codec, ps) == FoldLeft(LAMBDA st, p : Take(codec, st, p), Fresh, ps)

(* A packetiser: the unit whole, or its body in pieces of the given sizes (their sum is that of the body). *)
Piece(codec, u, s, e, body) ==
  LET h == IF codec = "h264" THEN u[1] % 32 ELSE (u[1] \div 2) % 64
      f == (IF s THEN 128 ELSE 0) + (IF e THEN 64 ELSE 0) + h
  IN  IF codec = "h264" THEN <<(u[1] \div 32) * 32 + 28, f>> \o body ELSE <<(u[1] \div 128) * 128 + 98 + (u[1] % 2), u[2], f>> \o body
HeadLen(codec) == IF codec = "h264" THEN 1 ELSE 2
Pieces(codec, u, cuts) ==
  LET upto[i \in 0..Len(cuts)] == IF i = 0 THEN HeadLen(codec) ELSE upto[i - 1] + cuts[i]
  IN  [i \in 1..Len(cuts) |-> Piece(codec, u, i = 1, i = Len(cuts), SubSeq(u, upto[i - 1] + 1, upto[i]))]
Whole(codec, u) == IF codec = "aac" THEN <<0, 16, Len(u) \div 32, (Len(u) % 32) * 8>> \o u ELSE u
=============================================================================
