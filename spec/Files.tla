------------------------------- MODULE Files --------------------------------
(* Which files exist for the streams of a server, and what HTTP requests may read.  Stream i belongs to an app *)
(* whose HLS mode is Mode[i] ("imm" from the start, "lazy" from the first request on, "none") and whose files  *)
(* go to the app's own directory.  A burst is a keyframe two seconds after the last one; segmenters cut there. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode,      \* sequence of modes: one per stream
          Proto,     \* sequence of "R", "T", "S" (RTMP, RTSP, SRT)
          Ops, MaxSteps, Sim
Window == 6
S == 1..Len(Mode)
VARIABLES st, hist, done
vars == <<st, hist, done>>
Off == [on |-> FALSE, k |-> 0, h |-> 0]     \* k bursts so far, h the burst HLS started at (0: not at all)
Init == st = [i \in S |-> Off] /\ hist = <<>> /\ done = FALSE
Max0(x) == IF x < 0 THEN 0 ELSE x

(* What there is of stream s: segments complete and in progress. *)
HlsFiles(s) == IF ~s.on \/ s.h = 0 \/ s.k < s.h THEN {} ELSE LET c == s.k - s.h IN Max0(c - Window)..c
DashFiles(s) == IF ~s.on \/ s.k < 2 THEN {} ELSE LET c == s.k - 1 IN Max0(c - Window)..(c - 1)
Listed(s) == HlsFiles(s) \ {s.k - s.h}
Obs(x) == [i \in S |-> LET s == x[i] IN [on |-> s.on, hls |-> Cardinality(HlsFiles(s)), first |-> IF Listed(s) = {} THEN -1 ELSE s.k - s.h - Cardinality(Listed(s)),
                                       listed |-> Cardinality(Listed(s)), dash |-> Cardinality(DashFiles(s)), dfirst |-> IF DashFiles(s) = {} THEN -1 ELSE s.k - 1 - Cardinality(DashFiles(s)),
                                       init |-> s.on /\ s.k > 0]]

(* Where a request leads: the app's directory is root/<app>; ".." goes up. *)
RECURSIVE Resolve(_, _)
Resolve(at, comps) == IF comps = <<>> THEN at
                      ELSE LET c == Head(comps)
                               to == IF c \in {"", "."} THEN at ELSE IF c = ".." THEN (IF at = <<>> THEN <<>> ELSE SubSeq(at, 1, Len(at) - 1)) ELSE Append(at, c)
                           IN Resolve(to, Tail(comps))
Inside(comps) == LET p == Resolve(<<"root", "app">>, comps) IN Len(p) >= 2 /\ SubSeq(p, 1, 2) = <<"root", "app">>

Up(x, i, s) == [x EXCEPT ![i] = s]
P(op, i, x) == hist' = Append(hist, [op |-> op, s |-> i, end |-> "", path |-> <<>>, sep |-> "", file |-> "", ok |-> FALSE, o |-> Obs(x)]) /\ st' = x /\ UNCHANGED done
Pub(i) == ~st[i].on /\ P("pub", i, Up(st, i, [on |-> TRUE, k |-> 0, h |-> IF Mode[i] = "imm" THEN 1 ELSE 0]))
Burst(i) == st[i].on /\ P("burst", i, Up(st, i, [st[i] EXCEPT !.k = @ + 1]))
Watch(i) == st[i].on /\ Mode[i] = "lazy" /\ st[i].h = 0 /\ st[i].k > 0 /\ P("watch", i, Up(st, i, [st[i] EXCEPT !.h = st[i].k]))
Ends(i) == CASE Proto[i] = "R" -> {"unpublish", "delete", "drop", "half", "bad"} [] Proto[i] = "T" -> {"teardown", "drop", "half"} [] OTHER -> {"shutdown"}
End(i) == st[i].on /\ \E e \in (IF Sim THEN {RandomElement(Ends(i))} ELSE Ends(i)) :
            LET x == Up(st, i, Off) IN hist' = Append(hist, [op |-> "end", s |-> i, end |-> e, path |-> <<>>, sep |-> "", file |-> "", ok |-> FALSE, o |-> Obs(x)]) /\ st' = x /\ UNCHANGED done
Clash(i) == st[i].on /\ P("clash", i, st)
Churn(i) == ~st[i].on /\ Proto[i] = "R" /\ P("churn", i, st)
Comps == {"..", ".", "", "sub", "live", "vod", "root"}
Names == {"secret.ts", "secret.m4s", "secret-init.mp4", "inner.ts", "inner.m4s"}
Probe(i) == /\ st[i].on
            /\ \E n \in (IF Sim THEN {RandomElement(0..4)} ELSE 0..2) : \E path \in (IF Sim THEN {[j \in 1..n |-> RandomElement(Comps)]} ELSE [1..n -> {"..", "sub"}]) :
               \E f \in (IF Sim THEN {RandomElement(Names)} ELSE Names) : \E sep \in (IF Sim THEN {RandomElement({"%2f", "%2F", "/", "%5c", "%252f"})} ELSE {"%2f"}) :
                 hist' = Append(hist, [op |-> "probe", s |-> i, end |-> "", path |-> path, sep |-> sep, file |-> f, ok |-> Inside(path), o |-> Obs(st)]) /\ UNCHANGED <<st, done>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X
Next == \/ /\ ~done /\ Len(hist) < MaxSteps
           /\ \E op \in Ops : \E i \in S :
                CASE op = "pub" -> Pub(i) [] op = "burst" -> Burst(i) [] op = "watch" -> Watch(i) [] op = "end" -> End(i)
                  [] op = "clash" -> Clash(i) [] op = "churn" -> Churn(i) [] op = "probe" -> Probe(i)
        \/ /\ ~done /\ Len(hist) = MaxSteps /\ done' = TRUE /\ UNCHANGED <<st, hist>>
Spec == Init /\ [][Next]_vars

Bounded == \A i \in S : Cardinality(HlsFiles(st[i])) <= Window + 1 /\ Cardinality(DashFiles(st[i])) <= Window
Gone == \A i \in S : ~st[i].on => HlsFiles(st[i]) = {} /\ DashFiles(st[i]) = {}
Emit == done => PrintT("@@" \o ToJson(hist))
=============================================================================
