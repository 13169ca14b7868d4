---------------------------------- MODULE Rtp ---------------------------------
(* RTP reassembly (RFC 3550, 6184, 3640) behind a network that loses, repeats and reorders packets.               *)
(* A sender packetises access units of units (NAL units, or audio frames), each whole, in fragments or aggregated; *)
(* any sequence of its packets arrives; the receiver ignores what is late or repeated, forgets the fragments it    *)
(* holds when packets are missing, and hands out the units of an access unit at its end.                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Codec,        \* "h264" or "aac"
          Forms,        \* how an access unit is sent, see Form
          MaxAU, MaxDel, Back, Sim
VARIABLES sent, nunit, nau, built, pro,     \* the sender: its packets, units and access units so far
          next, fu, pend, pts,              \* the receiver: next sequence number (-1 at first), fragments, units of the current access unit
          got, dlv, hist, done
vars == <<sent, nunit, nau, built, pro, next, fu, pend, pts, got, dlv, hist, done>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X
Video == Codec = "h264"

(* ------------------------------- the sender ------------------------------- *)
(* A packet: k one/fu/agg/odd, its units, fragment i of n (i = 0: whole), what is wrong with an aggregate's end,    *)
(* access unit, marker.                                                                                            *)
Pk(k, us, i, n, bad, a, m) == [k |-> k, us |-> us, i |-> i, n |-> n, bad |-> bad, a |-> a, m |-> m]
One(u, a, m) == <<Pk("one", <<u>>, 0, 0, "", a, m)>>
Fu(u, n, a, m) == [i \in 1..n |-> Pk("fu", <<u>>, i, n, "", a, m /\ i = n)]
Agg(u, n, bad, a, m) == <<Pk("agg", [j \in 1..n |-> u + j - 1], 0, 0, bad, a, m)>>
Odd(a, m) == <<Pk("odd", <<>>, 0, 0, "", a, m)>>
(* packets of an access unit a with units from u on, and how many units *)
Form(f, u, a) ==
  CASE f = "one" -> [p |-> One(u, a, TRUE), n |-> 1]
    [] f = "nomark" -> [p |-> One(u, a, FALSE), n |-> 1]
    [] f = "two" -> [p |-> One(u, a, FALSE) \o One(u + 1, a, TRUE), n |-> 2]
    [] f = "fu2" -> [p |-> Fu(u, 2, a, TRUE), n |-> 1]
    [] f = "fu3" -> [p |-> Fu(u, 3, a, TRUE), n |-> 1]
    [] f = "fu9" -> [p |-> Fu(u, 9, a, TRUE), n |-> 1]
    [] f = "funomark" -> [p |-> Fu(u, 3, a, FALSE), n |-> 1]
    [] f = "onefu" -> [p |-> One(u, a, FALSE) \o Fu(u + 1, 2, a, TRUE), n |-> 2]
    [] f = "fuone" -> [p |-> Fu(u, 2, a, FALSE) \o One(u + 1, a, TRUE), n |-> 2]
    [] f = "fufu" -> [p |-> Fu(u, 2, a, FALSE) \o Fu(u + 1, 3, a, TRUE), n |-> 2]
    [] f = "agg" -> [p |-> Agg(u, 2, "", a, TRUE), n |-> 2]
    [] f = "agg3" -> [p |-> Agg(u, 3, "", a, TRUE), n |-> 3]
    [] f = "aggfu" -> [p |-> Agg(u, 2, "", a, FALSE) \o Fu(u + 2, 2, a, TRUE), n |-> 3]
    [] f = "aggcut" -> [p |-> Agg(u, 2, "short", a, TRUE), n |-> 2]
    [] f = "aggstub" -> [p |-> Agg(u, 1, "stub", a, TRUE), n |-> 1]
    [] f = "aggzero" -> [p |-> Agg(u, 2, "zero", a, TRUE), n |-> 2]
    [] f = "odd" -> [p |-> One(u, a, FALSE) \o Odd(a, FALSE) \o One(u + 1, a, TRUE), n |-> 2]
Empty == [us |-> <<>>, got |-> 0]

Init == /\ sent = <<>> /\ nunit = 0 /\ nau = 0 /\ built = FALSE /\ pro = FALSE
        /\ next = 0 - 1 /\ fu = Empty /\ pend = <<>> /\ pts = 0 - 1 /\ got = <<>> /\ dlv = <<>> /\ hist = <<>> /\ done = FALSE
Send == /\ ~built /\ nau < MaxAU
        /\ \E f \in Pick(Forms) : LET x == Form(f, nunit + 1, nau + 1) IN
             /\ sent' = sent \o x.p /\ nunit' = nunit + x.n /\ nau' = nau + 1
        /\ UNCHANGED <<built, pro, next, fu, pend, pts, got, dlv, hist, done>>
(* the last access unit always arrives *)
Built == /\ ~built /\ (nau = MaxAU \/ (~Sim /\ nau > 0))
         /\ built' = TRUE /\ sent' = Append(sent, Pk("one", <<nunit + 1>>, 0, 0, "", nau + 1, TRUE)) /\ nunit' = nunit + 1 /\ nau' = nau + 1
         /\ \E b \in Pick(BOOLEAN) : pro' = b
         /\ UNCHANGED <<next, fu, pend, pts, got, dlv, hist, done>>

(* ------------------------------ the receiver ------------------------------ *)
R == [next |-> next, fu |-> fu, pend |-> pend, pts |-> pts, out |-> <<>>]
Flush(r) == IF r.pend = <<>> THEN r ELSE [r EXCEPT !.out = Append(@, [a |-> r.pts, us |-> r.pend]), !.pend = <<>>]
Payload(r, p) ==
  CASE p.k \in {"one", "agg"} -> [r EXCEPT !.pend = @ \o p.us, !.fu = Empty]
    [] p.k = "odd" -> [r EXCEPT !.fu = Empty]
    [] p.k = "fu" /\ p.i = 1 -> [r EXCEPT !.fu = [us |-> p.us, got |-> 1]]
    [] p.k = "fu" /\ p.i > 1 -> IF r.fu.us # p.us \/ r.fu.got # p.i - 1 THEN [r EXCEPT !.fu = Empty]
                                ELSE IF p.i = p.n THEN [r EXCEPT !.pend = @ \o p.us, !.fu = Empty] ELSE [r EXCEPT !.fu.got = p.i]
Take(r0, i) ==
  LET p == sent[i] IN
  IF r0.next >= 0 /\ i < r0.next THEN r0                    \* late, or a repetition
  ELSE LET r1 == [r0 EXCEPT !.fu = IF r0.next >= 0 /\ i > r0.next THEN Empty ELSE @, !.next = i + 1]
           r2 == IF p.a # r1.pts THEN [Flush(r1) EXCEPT !.fu = Empty, !.pts = p.a] ELSE r1
           r3 == Payload(r2, p)
       IN  IF p.m \/ ~Video THEN [Flush(r3) EXCEPT !.fu = IF p.m THEN Empty ELSE @] ELSE r3
Arrive(i) ==
  LET r == Take(R, i) IN
  /\ next' = r.next /\ fu' = r.fu /\ pend' = r.pend /\ pts' = r.pts
  /\ got' = got \o r.out /\ dlv' = Append(dlv, i)
  /\ hist' = Append(hist, [i |-> i, out |-> r.out])
  /\ UNCHANGED <<sent, nunit, nau, built, pro>>
Top == IF dlv = <<>> THEN 0 ELSE FoldLeft(LAMBDA a, x : IF a > x THEN a ELSE x, 0, dlv)
End == Len(sent)
(* exhaustively: any packets in any order; at random: mostly in order *)
Choice == IF ~Sim THEN 1..(End - 1)
          ELSE LET w == RandomElement(1..20) IN
               IF w <= 14 THEN {Top + 1} ELSE IF w = 15 THEN {Top + 2} ELSE IF w = 16 THEN {Top + RandomElement(2..6)}
               ELSE IF w = 17 THEN {Top} ELSE IF w = 18 THEN {Top - RandomElement(0..5)} ELSE IF w = 19 THEN {Top - RandomElement(0..Back)}
               ELSE {Top + 1}
Deliver == /\ built /\ ~done /\ (Sim \/ Len(dlv) < MaxDel)
           /\ \E x \in Choice : LET i == IF x < 1 THEN 1 ELSE IF x > End - 1 THEN End - 1 ELSE x IN
                /\ Top - i <= Back
                /\ Arrive(i) /\ done' = FALSE
Finish == /\ built /\ ~done /\ (Sim => Top >= End - 8)
          /\ Arrive(End) /\ done' = TRUE
Next == Send \/ Built \/ Deliver \/ Finish

(* ------------------------------- properties ------------------------------- *)
Units == FlattenSeq([j \in DOMAIN got |-> got[j].us])
Of(u) == {i \in DOMAIN sent : \E j \in DOMAIN sent[i].us : sent[i].us[j] = u}
AuOf(u) == sent[CHOOSE i \in Of(u) : TRUE].a
InOrder == \A i \in 1..(Len(Units) - 1) : Units[i] < Units[i + 1]                     \* sent, in order, none twice
Alike == \A j \in DOMAIN got : \A k \in DOMAIN got[j].us : AuOf(got[j].us[k]) = got[j].a  \* units of one access unit only
Runs(u) == LET a == CHOOSE i \in Of(u) : \A x \in Of(u) : i <= x  n == Cardinality(Of(u)) IN
           \E j \in 1..(Len(dlv) - n + 1) : (\A k \in 1..n : dlv[j + k - 1] = a + k - 1) /\ \A k \in 1..(j - 1) : dlv[k] < a
Whole == \A k \in DOMAIN Units : \A i \in Of(Units[k]) : \E j \in DOMAIN dlv : dlv[j] = i   \* every packet of it arrived
Progress == done => \A u \in 1..nunit : Runs(u) => \E k \in DOMAIN Units : Units[k] = u    \* whatever arrives intact is handed out
Emit == done => PrintT("@@" \o ToJson([codec |-> Codec, sent |-> sent, steps |-> hist, pro |-> pro]))
=============================================================================
