----------------------------- MODULE ServerOut -----------------------------
(***************************************************************************)
(* What the server puts on one RTMP connection.  Several goroutines send   *)
(* on it: one per stream the peer plays, and the one that answers its      *)
(* commands and pings.  Each message is cut into chunks of the announced   *)
(* size; a lock keeps the chunks of one message together.  The reader is   *)
(* the peer: it must decode exactly the messages meant, each source's in   *)
(* its order.                                                              *)
(*                                                                         *)
(* Part two (module-level operators) writes a single chunk byte by byte.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Srcs,      \* sending goroutines
          Cs,        \* source -> set of chunk streams it uses
          Lens, Times, Kinds,
          PerSrc,    \* messages per source
          Size,      \* chunk size announced
          Locked     \* the chunks of one message are kept together

VARIABLES queue, idx, off, holder, rpart, decoded, corrupt, done
vars == <<queue, idx, off, holder, rpart, decoded, corrupt, done>>

AllCs == UNION {Cs[s] : s \in Srcs}
Msgs(s) == [k : Kinds, len : Lens, ts : Times, cs : Cs[s]]

Blank == /\ idx = [s \in Srcs |-> 1]
         /\ off = [s \in Srcs |-> 0]
         /\ holder = 0
         /\ rpart = [c \in AllCs |-> [src |-> 0, n |-> 0, got |-> 0, len |-> 0]]
         /\ decoded = <<>> /\ corrupt = FALSE /\ done = FALSE

Init == /\ queue \in [Srcs -> UNION {[1..k -> UNION {Msgs(s) : s \in Srcs}] : k \in {PerSrc}}]
        /\ \A s \in Srcs : \A i \in 1..PerSrc : queue[s][i].cs \in Cs[s]
        /\ Blank

Cut(a, b) == IF a < b THEN a ELSE b

SendChunk(s) ==
    /\ idx[s] <= Len(queue[s])
    /\ holder \in {0, s}
    /\ LET m == queue[s][idx[s]]
           n == Cut(Size, m.len - off[s])
           last == off[s] + n >= m.len
           p == rpart[m.cs]
           \* the reader: a header chunk starts a message, a type 3 chunk continues the one on its chunk stream
           first == off[s] = 0
           bad == IF first THEN p.src # 0 ELSE ~(p.src = s /\ p.n = idx[s] /\ p.got = off[s])
       IN /\ corrupt' = (corrupt \/ bad)
          /\ rpart' = [rpart EXCEPT ![m.cs] = IF last THEN [src |-> 0, n |-> 0, got |-> 0, len |-> 0]
                                              ELSE [src |-> s, n |-> idx[s], got |-> off[s] + n, len |-> m.len]]
          /\ decoded' = IF last THEN Append(decoded, [src |-> s, i |-> idx[s]]) ELSE decoded
          /\ off' = [off EXCEPT ![s] = IF last THEN 0 ELSE off[s] + n]
          /\ idx' = [idx EXCEPT ![s] = IF last THEN @ + 1 ELSE @]
          /\ holder' = IF Locked /\ ~last THEN s ELSE 0
    /\ UNCHANGED <<queue, done>>

Next == \/ \E s \in Srcs : SendChunk(s)
        \/ (\A s \in Srcs : idx[s] > Len(queue[s])) /\ ~done /\ done' = TRUE
           /\ UNCHANGED <<queue, idx, off, holder, rpart, decoded, corrupt>>

Intact == ~corrupt
EachInOrder == \A s \in Srcs : LET mine == SelectSeq(decoded, LAMBDA d : d.src = s)
                               IN \A i \in 1..Len(mine) : mine[i].i = i

(* Random traffic for the conformance runs: queues only, the real scheduler interleaves. *)
RECURSIVE RandQ(_, _)
RandQ(s, n) == IF n = 0 THEN <<>>
               ELSE Append(RandQ(s, n - 1), [k |-> RandomElement(Kinds), len |-> RandomElement(Lens), ts |-> RandomElement(Times), cs |-> 0])
GenInit == queue = <<>> /\ Blank
GenNext == ~done /\ done' = TRUE /\ queue' = [s \in Srcs |-> TLCEval(RandQ(s, RandomElement(1..PerSrc)))]
           /\ UNCHANGED <<idx, off, holder, rpart, decoded, corrupt>>
Emit == done => PrintT("@@" \o ToJson(queue))

---------------------------------------------------------------------------
(* One chunk, byte by byte.  32-bit values are pairs of 16-bit halves. *)
B2(x) == <<(x \div 256) % 256, x % 256>>
B4(p) == B2(p[1]) \o B2(p[2])
B3(p) == IF p[1] > 255 \/ (p[1] = 255 /\ p[2] = 65535) THEN <<255, 255, 255>> ELSE <<p[1]>> \o B2(p[2])
Ext(p) == IF p[1] > 255 \/ (p[1] = 255 /\ p[2] = 65535) THEN B4(p) ELSE <<>>
Basic(fmt, c) == IF c < 64 THEN <<fmt * 64 + c>>
                 ELSE IF c < 320 THEN <<fmt * 64, c - 64>>
                 ELSE <<fmt * 64 + 1, (c - 64) % 256, (c - 64) \div 256>>
Len3(n) == <<n \div 65536>> \o B2(n % 65536)
Chunk(x) == Basic(x.fmt, x.cs) \o
    (CASE x.fmt = 0 -> B3(x.ts) \o Len3(x.len) \o <<x.typ, 0, 0, 0, 0>> \o Ext(x.ts)
       [] x.fmt = 1 -> B3(x.d) \o Len3(x.len) \o <<x.typ>> \o Ext(x.d)
       [] x.fmt = 2 -> B3(x.d) \o Ext(x.d)
       [] x.fmt = 3 -> Ext(x.ts))
(* A reader of the basic header gets the chunk stream id back. *)
ReadCs(b) == LET k == b[1] % 64 IN IF k = 0 THEN b[2] + 64 ELSE IF k = 1 THEN b[2] + 256 * b[3] + 64 ELSE k
HdrOk == \A c \in {3, 4, 63, 64, 65, 319, 320, 321, 575, 576, 1000, 65598, 65599}, f \in 0..3 :
            ReadCs(Basic(f, c)) = c /\ Basic(f, c)[1] \div 64 = f

ChInit == queue = <<>> /\ Blank
ChNext == /\ ~done
          /\ \E f \in 0..3, c \in {3, 4, 63, 64, 65, 319, 320, 321, 575, 576, 1000, 65598, 65599},
                ts \in {<<0, 0>>, <<0, 1>>, <<255, 65534>>, <<255, 65535>>, <<256, 0>>, <<32768, 7>>, <<65535, 65535>>},
                l \in {0, 1, 128, 255, 256, 65536}, t \in {8, 20} :
             queue' = <<[fmt |-> f, cs |-> c, ts |-> ts, d |-> ts, len |-> l, typ |-> t]>>
          /\ done' = TRUE
          /\ UNCHANGED <<idx, off, holder, rpart, decoded, corrupt>>
EmitCh == done => PrintT("@@" \o ToJson([c |-> queue[1], b |-> Chunk(queue[1])]))
=============================================================================
