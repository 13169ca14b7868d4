--------------------------------- MODULE Ts ---------------------------------
(* An MPEG-TS multiplexer at the level of packets: frames of several tracks and tables go out one after the   *)
(* other, each in packets of 188 bytes that hold 184 bytes less an adaptation field; a continuity counter per  *)
(* PID.  The byte level is in TsTrace.tla, which judges what the real multiplexer wrote for these frames.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sizes, Tracks, MaxFrames, Sim, Times, Offsets   \* Times: 33-bit times as <<hi, lo>> of 17 and 16 bits
VARIABLES cc, out, hist
vars == <<cc, out, hist>>
Pids == {0, 4097, 256, 257}
PidOf(e) == IF e.k = "PAT" THEN 0 ELSE IF e.k = "PMT" THEN 4097 ELSE IF e.k = "V" THEN 256 ELSE 257
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
(* Payload capacity of the first packet (keyframes carry an eight-byte adaptation field) and of later ones. *)
Room(first, key) == IF first /\ key THEN 176 ELSE 184
HeadLen(e) == IF e.c = 0 THEN 14 ELSE 19
Split(n, first, key) == LET r == Room(first, key)
                            m == IF n <= r THEN 1 ELSE 1 + (n - r + 183) \div 184
                        IN [i \in 1..m |-> IF i = 1 THEN (IF n < r THEN n ELSE r) ELSE IF i < m THEN 184 ELSE n - r - 184 * (m - 2)]
Init == cc = [p \in Pids |-> 0] /\ out = <<>> /\ hist = <<>>
Put(e) == LET ps == IF e.k \in {"V", "A"} THEN Split(HeadLen(e) + e.n, TRUE, e.key) ELSE <<184>>
              p == PidOf(e)
          IN /\ out' = out \o [i \in 1..Len(ps) |-> [pid |-> p, cc |-> (cc[p] + i - 1) % 16, n |-> ps[i], pusi |-> i = 1]]
             /\ cc' = [cc EXCEPT ![p] = (@ + Len(ps)) % 16]
             /\ hist' = Append(hist, e)
Stream(p, y) == [p |-> p, y |-> y]
Frame == \E k \in Pick(Tracks \ {"T"}) : \E n \in Pick(Sizes) : \E d \in Pick(Times) : \E c \in Pick(Offsets) : \E key \in Pick(IF k = "V" THEN BOOLEAN ELSE {FALSE}) :
           Put([k |-> k, n |-> n, d |-> d, c |-> IF k = "V" THEN c ELSE 0, key |-> key])
Tables == \E ver \in Pick(IF Sim THEN 0..31 ELSE {0}) : \E m \in Pick(1..3) :
            \/ Put([k |-> "PAT", ver |-> ver, id |-> 1 + ver * 2000, progs |-> [i \in 1..m |-> Stream(4097 + (i - 1) * 300, i)]])
            \/ Put([k |-> "PMT", ver |-> ver, id |-> 1 + ver, pcr |-> 256, streams |-> [i \in 1..m |-> Stream(255 + i, IF i = 1 THEN 36 ELSE IF i = 2 THEN 15 ELSE 27)]])
Next == Len(hist) < MaxFrames /\ (Frame \/ ("T" \in Tracks /\ Tables))
Spec == Init /\ [][Next]_vars

Of(p) == SelectSeq(out, LAMBDA x : x.pid = p)
Continuous == \A p \in Pids : LET q == Of(p) IN \A i \in 1..(Len(q) - 1) : q[i + 1].cc = (q[i].cc + 1) % 16
Packed == \A i \in 1..Len(out) : out[i].n \in 1..184
Emit == Len(hist) = MaxFrames => PrintT("@@" \o ToJson(hist))
=============================================================================
