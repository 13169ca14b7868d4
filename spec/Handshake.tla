------------------------------ MODULE Handshake -----------------------------
(* The RTMP handshake, counted in bytes.  In "server" role the peer under test is the server: it reads C0 C1   *)
(* (1 + 1536 bytes), then answers S0 S1 S2 (3073 bytes), reads C2 (1536) and goes on to messages.  In "client" *)
(* role it is the pulling client: it sends C0 C1 first, reads S0 S1 S2 and answers C2.  What the driver sends  *)
(* is followed by a ping, whose answer shows that exactly the handshake was consumed.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Role, Vers, Forms, Offsets, Vwords, C2s, Cuts, Closes, Sim
Ping == 18
C1 == 1537            \* C0 C1, or S0 S1
All == 3073
Total == All + Ping
VARIABLES par, got, hist, state
vars == <<par, got, hist, state>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

(* Bytes the tested side must have sent when it has got n: at least lo, at most hi (of the handshake). *)
Out(n) == IF Role = "server"
            THEN IF par.ver # 3 THEN [lo |-> 0, hi |-> All]  \* an S0 with the version the server speaks is allowed
                 ELSE IF n < C1 THEN [lo |-> 0, hi |-> 0] ELSE [lo |-> All, hi |-> All]
            ELSE IF par.ver # 3 THEN [lo |-> C1, hi |-> C1]
                 ELSE IF n < C1 THEN [lo |-> C1, hi |-> C1] ELSE IF n < All THEN [lo |-> C1, hi |-> All] ELSE [lo |-> All, hi |-> All]
Session(n) == par.ver = 3 /\ n >= All
Ponged(n) == Session(n) /\ n = Total
(* How the answer proves that C1 was read: an echo of it, or a digest made with C1's digest. *)
Proof == IF par.form \in {"low", "high"} THEN "digest" ELSE "echo"
(* Where the digest of C1 or S1 starts (counted from 0), from the four bytes that say so. *)
DigestAt(form, o) == (IF form = "low" THEN 8 ELSE 772) + 4 + ((o[1] + o[2] + o[3] + o[4]) % 728)

Init == par = [ver |-> 3, form |-> "simple", off |-> <<0, 0, 0, 0>>, vw |-> <<0, 0>>, c2 |-> "zero"] /\ got = 0 /\ hist = <<>> /\ state = "new"
Begin == /\ state = "new" /\ state' = "open" /\ UNCHANGED <<got, hist>>
         /\ par' \in [ver : Pick(Vers), form : Pick(Forms), off : Pick(Offsets), vw : Pick(Vwords), c2 : Pick(C2s)]
(* An echo in C2 can only be sent when S1 has been received. *)
May(n) == Role = "client" \/ par.c2 # "echo" \/ n <= C1 \/ got >= C1
Send == /\ state = "open" /\ got < Total
        /\ \E n \in Pick({x \in Cuts \cup {Total} : x > got /\ May(x)}) :
             got' = n /\ hist' = Append(hist, [op |-> "send", n |-> n - got, lo |-> Out(n).lo, hi |-> Out(n).hi, session |-> Session(n), pong |-> Ponged(n)])
        /\ UNCHANGED <<par, state>>
Close == /\ state = "open" /\ Closes /\ got < Total /\ (~Sim \/ RandomElement(1..6) = 1)
         /\ hist' = Append(hist, [op |-> "close", n |-> 0, lo |-> 0, hi |-> All, session |-> FALSE, pong |-> FALSE])
         /\ state' = "closed" /\ UNCHANGED <<par, got>>
Done == state = "open" /\ got = Total /\ state' = "done" /\ UNCHANGED <<par, got, hist>>
Next == Begin \/ Send \/ Close \/ Done
Spec == Init /\ [][Next]_vars

(* A digest lies in its block, behind the offset bytes; the answer is never sent early; a session needs both sides' bytes. *)
Fits == \A f \in {"low", "high"} : LET a == DigestAt(f, par.off) b == IF f = "low" THEN 8 ELSE 772 IN a >= b + 4 /\ a + 32 <= b + 764
Ordered == \A i \in 1..Len(hist) : hist[i].session => hist[i].lo = All
Emit == state \in {"done", "closed"} => PrintT("@@" \o ToJson([role |-> Role, par |-> par, proof |-> Proof, at |-> DigestAt(par.form, par.off), hist |-> hist]))
=============================================================================
