-------------------------------- MODULE Mp4 ---------------------------------
(* What fragmented MP4 has to describe: tracks (init segments) and runs of samples (media segments).  32- and  *)
(* 64-bit values are sequences of 16-bit words.  The byte level is in Mp4Trace.tla.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Counts, Sizes, Words, Dims, What, Sim    \* What: subset of {"avc", "rec", "hevc", "seg"}
VARIABLES e, done
vars == <<e, done>>
R(S) == RandomElement(S)
Word32 == <<R(Words), R(Words)>>
Samples(n) == [i \in 1..n |-> [n |-> R(Sizes), d |-> Word32, c |-> Word32, key |-> R(BOOLEAN)]]
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Init == done = FALSE /\ e = [k |-> "none"]
Next == /\ ~done /\ done' = TRUE
        /\ \E k \in Pick(What) :
             IF k = "seg" THEN \E n \in Pick(Counts) : e' = [k |-> k, id |-> R({1, 2, 7}), seq |-> Word32, base |-> <<R(Words), R(Words), R(Words), R(Words)>>, s |-> Samples(n)]
             ELSE \E w \in Pick(Dims) : \E h \in Pick(Dims) : \E n \in Pick(Sizes) : \E m \in Pick(Sizes) :
                    e' = [k |-> k, id |-> R({1, 2, 7}), ts |-> Word32, w |-> w, h |-> h, n |-> 4 + n, m |-> m]
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(e))
=============================================================================
