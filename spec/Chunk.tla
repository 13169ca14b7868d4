------------------------------- MODULE Chunk -------------------------------
(***************************************************************************)
(* The RTMP chunk layer from a peer to the server (RTMP 1.0, chapter 5).   *)
(*                                                                         *)
(* A sender cuts messages into chunks: any chunk size in force, any legal  *)
(* header type, any interleaving of chunk streams, protocol control        *)
(* messages (Set Chunk Size, Abort, Window Acknowledgement Size, ping) in  *)
(* between, whole or split.  A receiver looks at the chunks only.  The     *)
(* invariants say that what the receiver extracts is what was sent.        *)
(*                                                                         *)
(* 32-bit timestamps are pairs <<hi, lo>> of 16-bit halves (TLC integers   *)
(* are 32-bit signed).                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Reps,     \* header types within a message, in small scopes
          CSs,      \* chunk stream ids messages are sent on (not 2, not 3)
          Sizes,    \* chunk sizes the peer may choose
          Lens,     \* message lengths
          Deltas,   \* timestamp increments (pairs)
          Abs,      \* absolute timestamps (pairs)
          Windows,  \* acknowledgement windows (a negative one is that much below 2^32: never reached)
          Pings,    \* ping values (4 bytes)
          Kinds,    \* kinds of message generated
          MaxLen,   \* wire operations before the closing markers
          Bads,     \* invalid control messages [typ, b]; if any, one is sent before the closing markers
          Base      \* message bytes the server received before the behaviour starts

VARIABLES snd,      \* chunk stream -> what the sender last put on it
          cur,      \* chunk stream -> message being sent, or 0
          off,      \* chunk stream -> bytes of it already sent
          msgs,     \* all messages, by id
          size,     \* sender's chunk size in force
          rcv,      \* chunk stream -> receiver's reading of the headers
          part,     \* chunk stream -> slices received of the incomplete message
          rsize,    \* chunk size the receiver applies
          win, bytes, acked,   \* receiver: window, message bytes so far, at last acknowledgement
          got,      \* receiver: completed messages [id, ts, typ, len, sid]
          want,     \* sender: completed messages, the same form
          hist, closing, done

vars == <<snd, cur, off, msgs, size, rcv, part, rsize, win, bytes, acked, got, want, hist, closing, done>>

CtlCS == 2
EndCS == 3
AllCS == CSs \cup {CtlCS, EndCS}

Add(a, b) == LET lo == a[2] + b[2]
             IN <<(a[1] + b[1] + (lo \div 65536)) % 65536, lo % 65536>>
Big(a) == a[1] > 255 \/ (a[1] = 255 /\ a[2] = 65535)      \* >= 0xFFFFFF
Zero == <<0, 0>>
MinOf(a, b) == IF a < b THEN a ELSE b

NoHdr == [have |-> FALSE, ts |-> Zero, d |-> Zero, len |-> 0, typ |-> 0, sid |-> 0, ext |-> FALSE]

Init == /\ snd = [c \in AllCS |-> NoHdr]
        /\ cur = [c \in AllCS |-> 0]
        /\ off = [c \in AllCS |-> 0]
        /\ msgs = <<>>
        /\ size = 128
        /\ rcv = [c \in AllCS |-> NoHdr]
        /\ part = [c \in AllCS |-> <<>>]
        /\ rsize = 128
        /\ win = 0 /\ bytes = Base /\ acked = 0
        /\ got = <<>> /\ want = <<>>
        /\ hist = <<>> /\ closing = 0 /\ done = FALSE

Type(k) == CASE k = "audio" -> 8 [] k = "video" -> 9 [] k = "data" -> 18
             [] k = "cmd" -> 20 [] k = "discard" -> 19 [] k = "agg" -> 22
             [] k = "setsize" -> 1 [] k = "abort" -> 2 [] k = "uc" -> 4 [] k = "ping" -> 4
             [] k = "bad" -> 0 [] k = "winack" -> 5 [] k = "bw" -> 6 [] k = "ackmsg" -> 3

MinLen(k) == CASE k = "audio" -> 2 [] k = "video" -> 5 [] k = "data" -> 12
               [] k = "cmd" -> 32 [] k = "discard" -> 0 [] OTHER -> 4

Ctl == {"setsize", "abort", "winack", "ping", "uc", "bw", "ackmsg"}
Media == {"audio", "video", "data", "agg"}

---------------------------------------------------------------------------
(* Receiver: one chunk.  w is what is on the wire: cs, fmt, the 24/32-bit   *)
(* field f, len/typ/sid where the format carries them, and slice [id, from, *)
(* n] as payload, n bytes long.                                             *)

RHdr(w) ==
    LET p == rcv[w.cs]
        new == part[w.cs] = <<>>
        f == IF w.fmt = 3 THEN p.d ELSE w.f
        ts == CASE w.fmt = 0 -> w.f
                [] w.fmt \in {1, 2} -> Add(p.ts, w.f)
                [] OTHER -> IF new THEN Add(p.ts, p.d) ELSE p.ts
    IN [have |-> TRUE, ts |-> ts, d |-> f,
        len |-> IF w.fmt <= 1 THEN w.len ELSE p.len,
        typ |-> IF w.fmt <= 1 THEN w.typ ELSE p.typ,
        sid |-> IF w.fmt = 0 THEN w.sid ELSE p.sid,
        ext |-> IF w.fmt = 3 THEN p.ext ELSE Big(w.f)]

RECURSIVE SumN(_)
SumN(s) == IF s = <<>> THEN 0 ELSE Head(s).n + SumN(Tail(s))

(* Observations: what the publisher's connection and a viewer see. *)
MediaOut(m) ==
    CASE m.kind \in {"audio", "video", "data"} -> <<[id |-> m.id, typ |-> m.typ, ts |-> m.ts, len |-> m.len, sub |-> 0]>>
      [] m.kind = "agg" -> [i \in 1..Len(m.arg) |-> [id |-> m.id, typ |-> m.arg[i].typ, len |-> m.arg[i].len, sub |-> i,
                              ts |-> Add(m.ts, m.arg[i].d)]]
      [] OTHER -> <<>>

Receive(w) ==
    LET h == RHdr(w)
        slices == Append(part[w.cs], w.slice)
        complete == SumN(slices) >= h.len
        m == msgs'[w.slice.id]
        b == bytes + h.len
        ack == complete /\ win > 0 /\ b - acked >= win
        \* the message as the receiver understands it
        rm == [m EXCEPT !.ts = h.ts, !.typ = h.typ, !.len = h.len, !.sid = h.sid]
        out == (IF ack THEN <<[t |-> "ack", n |-> b]>> ELSE <<>>)
               \o (IF ~complete THEN <<>>
                   ELSE CASE m.kind = "ping" -> <<[t |-> "pong", v |-> m.arg]>>
                          [] m.kind = "cmd" -> <<[t |-> "result", id |-> m.id]>>
                          [] OTHER -> <<>>)
    IN /\ w.slice.n = MinOf(rsize, h.len - SumN(part[w.cs]))     \* the payload the receiver takes
       /\ rcv' = [rcv EXCEPT ![w.cs] = h]
       /\ part' = IF ~complete THEN [part EXCEPT ![w.cs] = slices]
                  ELSE IF m.kind = "abort" /\ m.arg \in AllCS THEN [part EXCEPT ![w.cs] = <<>>, ![m.arg] = <<>>]
                  ELSE [part EXCEPT ![w.cs] = <<>>]
       /\ bytes' = IF complete THEN b ELSE bytes
       /\ acked' = IF ack THEN b ELSE acked
       /\ rsize' = IF complete /\ m.kind = "setsize" THEN m.arg ELSE rsize
       /\ win' = IF complete /\ m.kind = "winack" THEN m.arg ELSE win
       /\ got' = IF complete THEN Append(got, [id |-> w.slice.id, ts |-> h.ts, typ |-> h.typ, len |-> h.len, sid |-> h.sid,
                                               whole |-> \A i \in 1..Len(slices) : slices[i].id = w.slice.id])
                 ELSE got
       /\ hist' = Append(hist, [w |-> w, pub |-> out, view |-> IF complete THEN MediaOut(rm) ELSE <<>>])

---------------------------------------------------------------------------
(* Sender. *)

(* Header types that may start message m on chunk stream c. *)
Legal(c, m) ==
    LET p == snd[c]
    IN {0} \cup (IF p.have /\ p.sid = m.sid
                 THEN {1} \cup (IF p.len = m.len /\ p.typ = m.typ
                                THEN {2} \cup (IF Add(p.ts, p.d) = m.ts THEN {3} ELSE {})
                                ELSE {})
                 ELSE {})

Sub(a, b) == LET lo == a[2] - b[2]
                 c == IF lo < 0 THEN 1 ELSE 0
             IN <<(a[1] - b[1] - c + 65536) % 65536, (lo + 65536) % 65536>>

Field(c, m, fmt) == CASE fmt = 0 -> m.ts
                      [] fmt \in {1, 2} -> Sub(m.ts, snd[c].ts)
                      [] OTHER -> snd[c].d

Sent(c, m, o, n) ==      \* after n more bytes of m, o already sent
    LET complete == o + n >= m.len
    IN /\ cur' = IF ~complete THEN [cur EXCEPT ![c] = m.id]
                 ELSE IF m.kind = "abort" /\ m.arg \in AllCS THEN [cur EXCEPT ![c] = 0, ![m.arg] = 0]
                 ELSE [cur EXCEPT ![c] = 0]
       /\ off' = IF ~complete THEN [off EXCEPT ![c] = o + n]
                 ELSE IF m.kind = "abort" /\ m.arg \in AllCS THEN [off EXCEPT ![c] = 0, ![m.arg] = 0]
                 ELSE [off EXCEPT ![c] = 0]
       /\ size' = IF complete /\ m.kind = "setsize" THEN m.arg ELSE size
       /\ want' = IF complete THEN Append(want, [id |-> m.id, ts |-> m.ts, typ |-> m.typ, len |-> m.len, sid |-> m.sid, whole |-> TRUE])
                  ELSE want

Start(c, m, fmt) ==
    LET n == MinOf(size, m.len)
        f == Field(c, m, fmt)
    IN /\ cur[c] = 0
       /\ fmt \in Legal(c, m)
       /\ msgs' = Append(msgs, m)
       /\ snd' = [snd EXCEPT ![c] = [have |-> TRUE, ts |-> m.ts, d |-> f, len |-> m.len, typ |-> m.typ, sid |-> m.sid,
                                     ext |-> IF fmt = 3 THEN @.ext ELSE Big(f)]]
       /\ Sent(c, m, 0, n)
       /\ Receive([cs |-> c, fmt |-> fmt, f |-> f, ext |-> IF fmt = 3 THEN snd[c].ext ELSE Big(f),
                   len |-> m.len, typ |-> m.typ, sid |-> m.sid, kind |-> m.kind, arg |-> m.arg,
                   slice |-> [id |-> m.id, from |-> 0, n |-> n]])

\* What follows the first chunk of a message should be of type 3 (5.3.1.2.4); a header there repeats that of the message.
Repeats == IF MaxLen <= 10 THEN Reps ELSE {IF RandomElement(1..12) = 1 THEN RandomElement(0..2) ELSE 3}
Continue(c) ==
    LET m == msgs[cur[c]]
        n == MinOf(size, m.len - off[c])
    IN /\ cur[c] # 0
       /\ UNCHANGED msgs
       /\ \E fmt \in Repeats :
            LET f == CASE fmt = 0 -> m.ts [] fmt \in {1, 2} -> Zero [] OTHER -> snd[c].d
                ext == IF fmt = 3 THEN snd[c].ext ELSE Big(f)
            IN /\ snd' = [snd EXCEPT ![c].d = f, ![c].ext = ext]
               /\ Sent(c, m, off[c], n)
               /\ Receive([cs |-> c, fmt |-> fmt, f |-> f, ext |-> ext,
                           len |-> m.len, typ |-> m.typ, sid |-> m.sid, kind |-> m.kind, arg |-> 0,
                           slice |-> [id |-> m.id, from |-> off[c], n |-> n]])

Msg(k, ts, len, sid, arg) == [id |-> Len(msgs) + 1, kind |-> k, typ |-> Type(k), ts |-> ts, len |-> len, sid |-> sid, arg |-> arg]

Msgs(c) == Kinds \ Ctl
CtlArgs(k) == CASE k = "setsize" -> Sizes
                [] k = "abort" -> CSs \cup {CtlCS + 5}
                [] k = "winack" -> Windows
                [] k = "ping" -> Pings
                [] OTHER -> {0}
CtlLen(k) == CASE k \in {"setsize", "abort", "winack", "ackmsg"} -> 4
               [] k = "ping" -> 6 [] k = "uc" -> 10 [] k = "bw" -> 5

(* Exhaustive small steps. *)
Step ==
    /\ closing = 0
    /\ Len(hist) < MaxLen
    /\ UNCHANGED <<closing, done>>
    /\ \/ \E c \in CSs, k \in Kinds \ Ctl, l \in Lens, d \in Deltas :
            /\ l >= MinLen(k)
            /\ LET m == Msg(k, Add(snd[c].ts, d), l, 1, 0)
               IN \E fmt \in Legal(c, m) : Start(c, m, fmt)
       \/ \E c \in AllCS : Continue(c)
       \/ \E k \in Kinds \cap Ctl : \E a \in CtlArgs(k) :
            /\ k = "abort" => a \in CSs
            /\ Start(CtlCS, Msg(k, Zero, CtlLen(k), 0, a), 0)

(* Random long behaviours. *)
RandSub(k) == IF k = "agg"
              THEN TLCEval([i \in 1..RandomElement(1..3) |->
                    [typ |-> RandomElement({8, 9}), len |-> RandomElement(5..40), d |-> IF i = 1 THEN Zero
                                  ELSE RandomElement(Deltas \cup {<<0, RandomElement(0..65535)>>,
                                                                  <<RandomElement(0..255), RandomElement(0..65535)>>})]])
              ELSE 0
RECURSIVE SubLen(_)
SubLen(s) == IF s = <<>> THEN 0 ELSE Head(s).len + 15 + SubLen(Tail(s))

SimMedia(c) ==
    \E k \in {RandomElement(Kinds \ Ctl)}, r \in {RandomElement(1..10)}, l0 \in {RandomElement(Lens)},
       d \in {RandomElement(Deltas)}, a \in {RandomElement(Abs)}, s \in {RandomElement(0..5)} :
    LET p == snd[c]
        same == p.have /\ r <= 6 /\ p.typ \in {8, 9, 18, 20}
        k1 == IF same THEN (CASE p.typ = 8 -> "audio" [] p.typ = 9 -> "video" [] p.typ = 18 -> "data" [] OTHER -> "cmd") ELSE k
        l == IF same /\ r <= 5 THEN p.len ELSE IF l0 < MinLen(k1) THEN MinLen(k1) + l0 ELSE l0
        ts == IF r <= 3 /\ p.have THEN Add(p.ts, p.d) ELSE IF r = 10 THEN a ELSE Add(p.ts, d)
        sid == IF p.have /\ s > 1 THEN p.sid ELSE IF s = 0 THEN 16777217 ELSE 1
    IN \E sub \in {RandSub(k1)} :
       \E m \in {Msg(k1, ts, IF k1 = "agg" THEN SubLen(sub) ELSE IF same /\ l < MinLen(k1) THEN MinLen(k1) ELSE l, sid, sub)} :
       \E fmt \in {IF RandomElement(1..4) = 1 THEN 0 ELSE RandomElement(Legal(c, m))} :
       \E f2 \in {IF fmt < 3 /\ 3 \in Legal(c, m) /\ RandomElement(1..2) = 1 THEN 3 ELSE fmt} : Start(c, m, f2)

SimCtl == \E k \in {RandomElement(Kinds \cap Ctl)} : \E a \in {RandomElement(CtlArgs(k))}, t \in {RandomElement(Abs)} :
    LET m == Msg(k, t, CtlLen(k), 0, a)
    IN \E fmt \in {RandomElement(Legal(CtlCS, m))} : Start(CtlCS, m, fmt)

SimStep ==
    /\ closing = 0
    /\ Len(hist) < MaxLen
    /\ UNCHANGED <<closing, done>>
    /\ \E r \in {RandomElement(1..10)} :
        LET busy == {c \in AllCS : cur[c] # 0}
            idle == {c \in CSs : cur[c] = 0}
        IN IF busy # {} /\ (r <= 6 \/ idle = {}) THEN \E c \in {RandomElement(busy)} : Continue(c)
           ELSE IF (r = 10 /\ cur[CtlCS] = 0 /\ Kinds \cap Ctl # {}) \/ idle = {} THEN (IF cur[CtlCS] = 0 THEN SimCtl ELSE Continue(CtlCS))
           ELSE \E c \in {RandomElement(idle)} : SimMedia(c)

(* Closing: possibly an invalid control message (the server may end the session there; if it does not, nothing *)
(* has changed), a marker message for the viewer, then a command whose reply ends the publisher's side.         *)
Close ==
    /\ UNCHANGED done
    /\ Len(hist) >= MaxLen
    /\ IF cur[EndCS] # 0 THEN Continue(EndCS) /\ UNCHANGED closing
       ELSE IF closing = 0 /\ cur[CtlCS] # 0 THEN Continue(CtlCS) /\ UNCHANGED closing
       ELSE IF closing = 1 /\ cur[CtlCS] # 0 THEN Continue(CtlCS) /\ UNCHANGED closing
       ELSE /\ closing < 3
            /\ CASE closing = 0 /\ Bads # {} ->
                      /\ closing' = 1
                      /\ \E x \in (IF MaxLen > 10 THEN {RandomElement(Bads)} ELSE Bads) :
                            Start(CtlCS, [Msg("bad", Zero, Len(x.b), 0, x.b) EXCEPT !.typ = x.typ], 0)
                 [] closing <= 1 /\ ~(closing = 0 /\ Bads # {}) ->
                      closing' = 2 /\ Start(EndCS, Msg("audio", <<0, 77>>, 4, 1, 0), 0)
                 [] closing = 2 -> closing' = 3 /\ Start(EndCS, Msg("cmd", Zero, 40, 0, 0), 0)
Finish == closing = 3 /\ cur[EndCS] = 0 /\ ~done /\ done' = TRUE
          /\ UNCHANGED <<snd, cur, off, msgs, size, rcv, part, rsize, win, bytes, acked, got, want, hist, closing>>

Next == Step \/ Close \/ Finish
SimNext == SimStep \/ Close \/ Finish

---------------------------------------------------------------------------
(* C06, C07: the receiver extracts exactly the messages that were sent. *)
Reassembled == got = want
(* Both ends agree on what is in flight, so no Abort or size change desynchronises them. *)
InStep == /\ rsize = size
          /\ \A c \in AllCS : (cur[c] # 0) = (part[c] # <<>>)
          /\ \A c \in AllCS : part[c] # <<>> => SumN(part[c]) = off[c]
(* C09: acknowledgements come at least a window apart, each carrying the count at that point, and none is overdue. *)
AcksPaced == /\ acked <= bytes
             /\ (win > 0 /\ hist # <<>> /\ got # <<>> /\ msgs[got[Len(got)].id].kind # "winack") => bytes - acked < win
PingsAnswered ==
    LET P(kind) == SelectSeq(got, LAMBDA g : msgs[g.id].kind = kind)
        Out == FlattenSeq([i \in 1..Len(hist) |-> hist[i].pub])
    IN /\ [i \in 1..Len(P("ping")) |-> msgs[P("ping")[i].id].arg]
          = [i \in 1..Len(SelectSeq(Out, LAMBDA o : o.t = "pong")) |-> SelectSeq(Out, LAMBDA o : o.t = "pong")[i].v]

Emit == done => PrintT("@@" \o ToJson(hist))
=============================================================================
