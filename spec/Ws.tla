----------------------------------- MODULE Ws ----------------------------------
(* A WebSocket viewer (RFC 6455): the upgrade, what the client may send, what the server owes it, and how it ends.   *)
(* Two server tasks write to the connection, the one that passes media on and the one that answers the client, and   *)
(* at the end a third says goodbye; a write is a frame header and its payload, under a lock.                         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Locked, MaxSteps, Sim, Tasks     \* Tasks: how much each server task writes in the mechanism model
VARIABLES st, want, pongs, hist, done,     \* the viewer, what it is owed
          wire, lock, todo, half, over     \* the mechanism
vars == <<st, want, pongs, hist, done, wire, lock, todo, half, over>>
mech == <<wire, lock, todo, half, over>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

(* ---- the session, seen from outside ---- *)
(* kinds of request; the stream "no" does not exist *)
Dials == [v : {"plain", "case", "list", "extra"}, code : {101}] \cup [v : {"nokey", "emptykey", "noconn"}, code : {400}]
         \cup [v : {"nostream", "noapp"}, code : {404}] \cup [v : {"short"}, code : {400}]
Sizes == {2, 3, 109, 110, 111, 112, 4096, 65519, 65520, 65521, 65522, 200000}     \* with 15 bytes of tag: around 125/126 and 65535/65536
CliLens == {0, 1, 124, 125}
Data == {0, 125, 126, 127, 65535, 65536, 500000}
Init == /\ st = "new" /\ want = <<>> /\ pongs = <<>> /\ hist = <<>> /\ done = FALSE
        /\ wire = <<>> /\ lock = "" /\ todo = Tasks /\ half = [t \in DOMAIN Tasks |-> 0] /\ over = FALSE
Log(e) == hist' = Append(hist, e @@ [want |-> want', pongs |-> pongs', st |-> st'])
Dial == st = "new" /\ \E d \in Pick(Dials), b \in Pick(1..4) :
  LET x == IF Sim /\ b > 1 THEN RandomElement([v : {"plain", "case", "list", "extra"}, code : {101}]) ELSE d IN
  /\ st' = (IF x.code = 101 THEN "on" ELSE "refused") /\ UNCHANGED <<want, pongs, done, mech>> /\ Log([op |-> "dial", v |-> x.v, code |-> x.code])
Media == st = "on" /\ \E n \in Pick(Sizes) : want' = Append(want, n) /\ UNCHANGED <<st, pongs, done, mech>> /\ Log([op |-> "media", n |-> n])
Ping == st = "on" /\ \E n \in Pick(CliLens) : pongs' = Append(pongs, n) /\ UNCHANGED <<st, want, done, mech>> /\ Log([op |-> "ping", n |-> n])
Say == st = "on" /\ \E n \in Pick(Data), k \in Pick({"text", "binary"}) : UNCHANGED <<st, want, pongs, done, mech>> /\ Log([op |-> k, n |-> n])
Pong == st = "on" /\ \E n \in Pick(CliLens) : UNCHANGED <<st, want, pongs, done, mech>> /\ Log([op |-> "pong", n |-> n])
(* a frame the protocol does not allow ends the viewer like its leaving *)
Ends == {"close", "closecode", "closereason", "fin", "reset", "half", "bigping", "hugeping", "fragping", "huge", "pubend", "stall", "stallfin"}
End == st = "on" /\ \E k \in Pick(Ends) : st' = k /\ UNCHANGED <<want, pongs, done, mech>> /\ Log([op |-> "end", how |-> k])
Ext == IF Sim THEN \E w \in Pick(1..20) : IF st = "new" THEN Dial ELSE IF w <= 8 THEN Media ELSE IF w <= 14 THEN Ping ELSE IF w <= 17 THEN Say ELSE IF w = 18 THEN Pong ELSE End
       ELSE Dial \/ Media \/ Ping \/ Say \/ Pong \/ End
Next == ~done /\ IF Len(hist) < MaxSteps /\ st \in {"new", "on"} THEN Ext ELSE done' = TRUE /\ UNCHANGED <<st, want, pongs, hist, mech>>
Owed == /\ Len(pongs) = Cardinality({i \in 1..Len(hist) : hist[i].op = "ping"}) /\ Len(want) = Cardinality({i \in 1..Len(hist) : hist[i].op = "media"})
        /\ \A i \in 1..(Len(hist) - 1) : hist[i].st = "on"                \* an end is the end
        /\ st = "refused" => pongs = <<>> /\ want = <<>>
View == <<st, Len(hist), want # <<>>, pongs # <<>>>>
Emit == done => PrintT("@@" \o ToJson(hist))

(* ---- the tasks that share the connection ---- *)
(* wire: <<task, number, half>>; "bye" runs once the others are told to stop, and nothing may follow its frame *)
Half1(t) == /\ half[t] = 0 /\ todo[t] > 0 /\ (Locked => lock = "" /\ ~over) /\ lock' = (IF Locked THEN t ELSE lock)
            /\ wire' = Append(wire, <<t, todo[t], 1>>) /\ half' = [half EXCEPT ![t] = 1] /\ UNCHANGED <<todo, over>>
Half2(t) == /\ half[t] = 1 /\ wire' = Append(wire, <<t, todo[t], 2>>) /\ half' = [half EXCEPT ![t] = 0] /\ todo' = [todo EXCEPT ![t] = @ - 1]
            /\ lock' = (IF Locked THEN "" ELSE lock) /\ over' = (over \/ t = "bye")
Mech == (\E t \in DOMAIN Tasks : Half1(t) \/ Half2(t)) /\ UNCHANGED <<st, want, pongs, hist, done>>
Atomic == \A i \in 1..Len(wire) : wire[i][3] = 2 => i > 1 /\ wire[i - 1] = <<wire[i][1], wire[i][2], 1>>
Goodbye == \A i \in 1..Len(wire) : wire[i] = <<"bye", 1, 2>> => i = Len(wire)
InOrder == \A i, j \in 1..Len(wire) : i < j /\ wire[i][1] = wire[j][1] => wire[i][2] >= wire[j][2]
=============================================================================
