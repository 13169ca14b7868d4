--------------------------------- MODULE TsIn ---------------------------------
(* MPEG-TS ingest (ISO 13818-1): a program of one video and one audio stream arrives as packets; which access units   *)
(* come out. A video PES packet holds an access unit; an audio PES packet holds ADTS frames, the last of which may go  *)
(* on in the next PES packet. Packets may be lost, damaged or repeated. An item that damage may or may not have        *)
(* reached (nobody can tell from the packets alone) is optional; it never comes out changed.                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS MaxSteps, Sim, Srv, Small,
          VFaults, AFaults      \* what may happen to a packet of video, audio
VARIABLES tab,                  \* tables the receiver has: 0 none, 1 PAT, 2 PMT too
          cur, next, carry,     \* PES packet in progress per stream; unit numbers; the audio unit whose last frame goes on
          t, rate, out, dam, hist, done
vars == <<tab, cur, next, carry, t, rate, out, dam, hist, done>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X
S == {"v", "a"}
None == [u |-> 0, left |-> 0, ok |-> FALSE, sized |-> FALSE, items |-> <<>>]

(* number of TS packets a PES packet takes, by the size of its pictures or frames *)
Pieces == [s |-> 1..3, m |-> 4..5, l |-> 14..15]
APieces == [s |-> 1..3, l |-> 7..8, x |-> 40..41]     \* x: a frame whose length takes all of its 13 bits
Keys == {"key", "bare", "newps", "two", "zeros"}        \* pictures with an IDR slice; all but "bare" bring parameter sets
Pics == Keys \cup {"p", "multi", "ps", "sei"}
Dur == [i \in {3, 4, 6, 11} |-> (CASE i = 3 -> 1920 [] i = 4 -> 2089 [] i = 6 -> 3840 [] OTHER -> 11520)]

Init == /\ tab = 0 /\ cur = [s \in S |-> None] /\ next = 1 /\ carry = [u |-> 0, ok |-> FALSE] /\ t = [s \in S |-> 0]
        /\ rate = 3 /\ out = [s \in S |-> <<>>] /\ dam = {} /\ hist = <<>> /\ done = FALSE
Log(e) == hist' = Append(hist, e @@ [nv |-> Len(SelectSeq(out'["v"], LAMBDA x : ~x.opt)), na |-> Len(SelectSeq(out'["a"], LAMBDA x : ~x.opt))])
Opt(q) == [i \in 1..Len(q) |-> [q[i] EXCEPT !.opt = TRUE]]

(* ---- tables ---- *)
Pat == /\ tab' = (IF tab = 0 THEN 1 ELSE tab) /\ UNCHANGED <<cur, next, carry, t, rate, out, dam, done>>
       /\ \E net \in Pick(BOOLEAN), ptr \in Pick({0, 1, 30}) : Log([op |-> "pat", net |-> net, ptr |-> ptr])
PmtKinds == {"plain", "gap", "info", "more", "long", "wide", "many"}
Pmt == /\ tab' = (IF tab = 1 THEN 2 ELSE tab) /\ UNCHANGED <<cur, next, carry, t, rate, out, dam, done>>
       /\ \E k \in Pick(PmtKinds) : Log([op |-> "pmt", k |-> k])
(* the streams go to other PIDs, between PES packets and frames *)
Whole(s) == cur[s].left = 0 /\ (cur[s].ok \/ cur[s].u = 0)
Move == /\ tab = 2 /\ (\A s \in S : Whole(s)) /\ carry.u = 0
        /\ UNCHANGED <<tab, cur, next, carry, t, rate, out, dam, done>> /\ Log([op |-> "move"])
(* packets that are none of ours, tables damaged or of the future *)
Noise == {"null", "foreign", "afonly", "junk", "crc", "future", "pat2", "ptr", "af"}
Other == \E k \in Pick(Noise) : UNCHANGED <<tab, cur, next, carry, t, rate, out, dam, done>> /\ Log([op |-> "noise", k |-> k])

(* ---- units ---- *)
Gone(f) == f \in {"lost", "tei", "scr", "sync"}
VItems(u, pic, tt, c) == <<[u |-> u, f |-> 0, pic |-> pic, t |-> tt, c |-> c, opt |-> FALSE]>>
(* frames of an audio unit that end in it: the one carried in, then its own; a carried frame belongs to the unit before *)
AItems(u, fr, cut, tt) ==
  (IF carry.u = 0 THEN <<>> ELSE <<[u |-> carry.u, f |-> carry.f, pic |-> "", t |-> carry.t, c |-> 0, opt |-> ~carry.ok]>>)
  \o [i \in 1..(IF cut THEN fr - 1 ELSE fr) |-> [u |-> u, f |-> i, pic |-> "", t |-> tt + (i - 1) * Dur[rate'], c |-> 0, opt |-> FALSE]]
(* what comes out when the next PES packet of stream s starts *)
Flush(s, sure) == out' = [out EXCEPT ![s] = @ \o (IF cur[s].ok /\ sure THEN cur[s].items ELSE Opt(cur[s].items))]
Start(s) ==
  /\ cur[s].left = 0
  /\ \E sz \in Pick(IF Small THEN {"s"} ELSE DOMAIN (IF s = "v" THEN Pieces ELSE APieces)), style \in Pick(IF Small THEN {"even"} ELSE {"even", "head", "tail"}),
       f \in Pick(IF s = "v" THEN VFaults ELSE AFaults), w \in Pick(IF Small THEN {1} ELSE 1..8), sized \in Pick(IF Small THEN {TRUE} ELSE BOOLEAN),
       pic0 \in Pick(IF s = "a" THEN {""} ELSE IF Small THEN {"key", "p"} ELSE Pics), fr \in Pick(IF s = "v" THEN {0} ELSE IF Small THEN 1..2 ELSE 1..3),
       cut \in Pick(IF s = "a" THEN BOOLEAN ELSE {FALSE}), dt \in Pick(IF Small THEN {3600} ELSE {1500, 1800, 3003, 3600, 9000}), c \in Pick(IF s = "a" \/ Small THEN {0} ELSE {0, 3003, 9000}),
       n0 \in Pick(IF Small THEN 1..2 ELSE 1..15), rare \in Pick(IF Small THEN {1} ELSE 1..6) :
     LET first == Srv /\ s = "v" /\ ~\E i \in 1..Len(hist) : hist[i].op = "start" /\ hist[i].s = "v"
         pic == IF first THEN "key" ELSE pic0
         P == IF s = "v" THEN Pieces[sz] ELSE APieces[sz]
         lo == CHOOSE x \in P : \A y \in P : x <= y
         n == IF n0 \in P THEN n0 ELSE lo + (n0 % Cardinality(P))
         st == IF n = 1 THEN "even" ELSE style
         \* a session's own faults come after its first PES packet, and where only the unit itself suffers
         flt == IF rare > 1 \/ (Srv /\ Gone(f)) THEN "" ELSE f
         ok == tab = 2 /\ ~Gone(flt)
         u == next IN
     /\ rate' = (IF s = "a" /\ ~Small /\ w = 1 /\ carry.u = 0 THEN RandomElement(DOMAIN Dur) ELSE rate)
     /\ Flush(s, ok)
     /\ LET it == IF s = "v" THEN (IF pic = "ps" /\ Srv THEN VItems(u, pic, t[s], c) ELSE VItems(u, pic, t[s], c)) ELSE AItems(u, fr, cut, t[s]) IN
        cur' = [cur EXCEPT ![s] = [u |-> u, left |-> n - 1, ok |-> ok, sized |-> sized, items |-> it]]
     /\ carry' = (IF s = "v" THEN carry ELSE IF cut THEN [u |-> u, ok |-> ok, f |-> fr, t |-> t[s] + (fr - 1) * Dur[rate']] ELSE [u |-> 0, ok |-> FALSE])
     /\ t' = [t EXCEPT ![s] = @ + (IF s = "v" THEN dt ELSE fr * Dur[rate'])]
     /\ dam' = (IF ok THEN dam ELSE dam \cup {u})
     /\ next' = next + 1
     /\ UNCHANGED <<tab, done>>
     /\ Log([op |-> "start", s |-> s, u |-> u, sz |-> sz, n |-> n, style |-> st, flt |-> flt, sized |-> sized, pic |-> pic, fr |-> fr, cut |-> cut,
             t |-> t[s], c |-> c, rate |-> rate', cin |-> carry.u, disc |-> w = 2 /\ cur[s].ok /\ flt # "dup", crc |-> w = 3, af |-> w \in 4..5])
Cont(s) ==
  /\ cur[s].left > 0
  /\ \E f \in Pick(IF s = "v" THEN VFaults ELSE AFaults), rare \in Pick(IF Small THEN {1} ELSE 1..8) :
     LET flt == IF rare > 1 \/ (Srv /\ Gone(f) /\ (s = "a" \/ cur[s].u = 1 \/ Len(out["v"]) = 0)) THEN "" ELSE f IN
     /\ cur' = [cur EXCEPT ![s].left = @ - 1, ![s].ok = @ /\ ~Gone(flt)]
     /\ carry' = (IF s = "a" /\ carry.u = cur[s].u /\ Gone(flt) THEN [carry EXCEPT !.ok = FALSE] ELSE carry)
     /\ dam' = (IF Gone(flt) THEN dam \cup {cur[s].u} ELSE dam)
     /\ UNCHANGED <<tab, next, t, rate, out, done>>
     /\ Log([op |-> "cont", s |-> s, flt |-> flt])

Step == IF Sim
        THEN \E w \in Pick(1..40), s \in Pick(S) :
             IF Srv /\ tab < 2 THEN (IF tab = 0 THEN Pat ELSE Pmt)
             ELSE IF w = 1 THEN Pmt ELSE IF w = 2 /\ tab = 2 /\ carry.u = 0 /\ (\A x \in S : Whole(x)) THEN Move ELSE IF w <= 4 THEN Pat ELSE IF w <= 6 /\ tab < 2 THEN Pmt ELSE IF w <= 7 THEN Other
             ELSE IF cur[s].left > 0 THEN Cont(s) ELSE Start(s)
        ELSE Pat \/ Pmt \/ (\E s \in S : Start(s) \/ Cont(s))
(* the session ends between PES packets, or within some whose length is known *)
Starts(s) == SelectSeq(hist, LAMBDA e : e.op = "start" /\ e.s = s)
CanEnd == \A s \in S : Whole(s) \/ (cur[s].sized /\ ~Srv /\ (Small \/ LET q == Starts(s) IN q # <<>> /\ ~Gone(q[Len(q)].flt)))
Finish == /\ done' = TRUE
          /\ out' = [s \in S |-> out[s] \o (IF cur[s].ok /\ cur[s].left = 0 THEN cur[s].items ELSE Opt(cur[s].items))]
          /\ UNCHANGED <<tab, cur, next, carry, t, rate, dam>>
          /\ Log([op |-> "end"])
Next == ~done /\ IF Len(hist) < MaxSteps THEN Step
                 ELSE IF CanEnd THEN Finish ELSE \E s \in S : IF cur[s].left > 0 THEN Cont(s) ELSE ~Whole(s) /\ Start(s)

(* ---- what ingest is for ---- *)
Order == \A s \in S : \A i, j \in 1..Len(out[s]) : i < j => out[s][i].u < out[s][j].u \/ (out[s][i].u = out[s][j].u /\ out[s][i].f < out[s][j].f)
Intact == \A s \in S : \A i \in 1..Len(out[s]) : out[s][i].u \in dam => out[s][i].opt
(* what was damaged, and what ended just before a packet that is missing: nothing else is lost *)
Local == done => \A i \in 1..Len(out["v"]) :
           out["v"][i].opt => \/ out["v"][i].u \in dam
                              \/ (cur["v"].u = out["v"][i].u /\ cur["v"].left > 0)
                              \/ LET q == Starts("v") IN \E k \in 1..(Len(q) - 1) : q[k].u = out["v"][i].u /\ q[k + 1].u \in dam /\ Gone(q[k + 1].flt)
All == done => \A s \in S : \A i \in 1..Len(Starts(s)) :
         LET e == Starts(s)[i] IN \/ s = "v" /\ \E j \in 1..Len(out[s]) : out[s][j].u = e.u
                                  \/ s = "a" /\ \A f \in 1..(IF e.cut THEN e.fr - 1 ELSE e.fr) : \E j \in 1..Len(out[s]) : out[s][j].u = e.u /\ out[s][j].f = f
(* in order of the stream's clock *)
Forward == \A s \in S : \A i \in 1..(Len(out[s]) - 1) : out[s][i].t <= out[s][i + 1].t
View == <<tab, cur, carry, out, dam, done, Len(hist)>>
Emit == done => PrintT("@@" \o ToJson([ev |-> hist, v |-> out["v"], a |-> out["a"]]))
=============================================================================
