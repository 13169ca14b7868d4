---------------------------------- MODULE Rtsp --------------------------------
(* The state machine of RTSP sessions (RFC 2326) sharing one registry of streams with RTMP publishers: the status   *)
(* of every request in every state, what it changes, and which streams exist after it.                              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Conns, Names, MaxSteps, Sim, EmitAll
VARIABLES conn, pub, hist, done
vars == <<conn, pub, hist, done>>
View == <<conn, pub>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

Fresh == [open |-> TRUE, d |-> "", set |-> {}, ing |-> "", media |-> "", iset |-> {}, play |-> "", rec |-> FALSE, sess |-> FALSE]
Init == conn = [c \in Conns |-> Fresh] /\ pub = [s \in Names |-> ""] /\ hist = <<>> /\ done = FALSE
(* pub[s]: "" none, "full"/"bare" an RTMP publisher with or without a video header, "av"/"a" announced with or without video *)
Code(p) == IF p = "" THEN 404 ELSE IF p \in {"full", "av"} THEN 200 ELSE 503

Urls == [k : {"ok"}, s : Names] \cup {[k |-> "slash", s |-> CHOOSE s \in Names : TRUE], [k |-> "query", s |-> CHOOSE s \in Names : TRUE], [k |-> "nobody", s |-> ""], [k |-> "noapp", s |-> ""], [k |-> "short", s |-> ""], [k |-> "escape", s |-> ""]}
UrlErr(u) == IF u.k \in {"short", "escape"} THEN 400 ELSE IF u.k = "noapp" THEN 404 ELSE 0
Good == {"tcp", "tcp4", "udp", "udpudp", "tcpmore", "udpmore"}
Trans == Good \cup {"none", "savp", "nochan", "badchan", "bigchan", "noport", "badport"}
TransErr(t) == IF t \in {"none", "savp", "nochan"} THEN 461 ELSE IF t \in {"badchan", "bigchan", "noport", "badport"} THEN 400 ELSE 0
R(c, m, code, sess) == [op |-> "req", c |-> c, m |-> m, code |-> code, sess |-> sess]
More(r, f) == r @@ f
Log(e, p) == hist' = Append(hist, e @@ [reg |-> [s \in Names |-> Code(p[s])], playing |-> {c \in Conns : conn[c].play # ""}])
Keep(e) == Log(e, pub) /\ UNCHANGED <<conn, pub, done>>
Set(c, v) == conn' = [conn EXCEPT ![c] = v]

Plain(c) == \E m \in Pick({"OPTIONS", "GET_PARAMETER", "SET_PARAMETER", "PAUSE", "FOO"}) :
              Keep(R(c, m, IF m \in {"OPTIONS", "GET_PARAMETER"} THEN 200 ELSE 501, "no"))
DescribeOf(c, U) == \E u \in Pick(U) :
  LET code == IF UrlErr(u) # 0 THEN UrlErr(u) ELSE IF u.s = "" THEN 404 ELSE Code(pub[u.s])
      e == R(c, "DESCRIBE", code, "no") @@ [url |-> u]
  IN  IF code # 200 THEN Keep(e) ELSE Log(e, pub) /\ Set(c, [conn[c] EXCEPT !.d = u.s]) /\ UNCHANGED <<pub, done>>
Describe(c) == DescribeOf(c, Urls)
Announce(c) == \E u \in Pick(Urls), sdp \in Pick({"av", "av", "a", "bad", "empty"}) :
  LET x == conn[c]
      code == IF UrlErr(u) # 0 THEN UrlErr(u) ELSE IF u.s # "" /\ pub[u.s] # "" THEN 461
              ELSE IF x.ing # "" \/ x.play # "" THEN 455 ELSE IF sdp \in {"bad", "empty"} THEN 400 ELSE 200
      e == R(c, "ANNOUNCE", code, "no") @@ [url |-> u, sdp |-> sdp]
  IN  /\ u.s # "" \/ code # 200
      /\ IF code # 200 THEN Keep(e)
         ELSE LET p == [pub EXCEPT ![u.s] = sdp] IN Log(e, p) /\ pub' = p /\ Set(c, [x EXCEPT !.ing = u.s, !.media = sdp]) /\ UNCHANGED done
Setup(c) == \E t \in Pick(Trans), k \in Pick({"v", "a", "other"}) :
  LET x == conn[c]
      has == IF x.ing = "" THEN {"v", "a"} ELSE IF x.media = "av" THEN {"v", "a"} ELSE {"a"}
      code == IF x.play # "" \/ x.rec THEN 455 ELSE IF TransErr(t) # 0 THEN TransErr(t) ELSE IF k \notin has THEN 404 ELSE 200
      e == R(c, "SETUP", code, IF code = 200 THEN "timeout" ELSE "no") @@ [tr |-> t, track |-> k, s |-> IF x.ing # "" THEN x.ing ELSE x.d, ing |-> x.ing # ""]
  IN  IF code # 200 THEN Keep(e)
      ELSE /\ Log(e, pub) /\ UNCHANGED <<pub, done>>
           /\ Set(c, [x EXCEPT !.sess = TRUE, !.set = IF x.ing = "" THEN @ \cup {k} ELSE @, !.iset = IF x.ing = "" THEN @ ELSE @ \cup {k}])
Play(c) ==
  LET x == conn[c]
      code == IF x.d = "" \/ x.ing # "" \/ x.set = {} THEN 455 ELSE IF pub[x.d] = "" THEN 404 ELSE 200
      e == R(c, "PLAY", code, IF code = 200 THEN "plain" ELSE "no") @@ [s |-> x.d]
  IN  IF code # 200 THEN Keep(e) ELSE Log(e, pub) /\ Set(c, [x EXCEPT !.play = IF @ = "" THEN x.d ELSE @]) /\ UNCHANGED <<pub, done>>
Record(c) ==
  LET x == conn[c]  code == IF x.ing = "" THEN 455 ELSE 200
      e == R(c, "RECORD", code, IF code = 200 /\ x.sess THEN "plain" ELSE "any") @@ [s |-> x.ing]
  IN  IF code # 200 THEN Keep(e) ELSE Log(e, pub) /\ Set(c, [x EXCEPT !.rec = TRUE]) /\ UNCHANGED <<pub, done>>
(* the stream a session announced ends with it, and its players with the stream *)
Gone(s, c) == [k \in Conns |-> IF k = c THEN [Fresh EXCEPT !.open = FALSE] ELSE IF s # "" /\ conn[k].play = s THEN [conn[k] EXCEPT !.play = ""] ELSE conn[k]]
End(c, e) == LET s == conn[c].ing  p == IF s = "" THEN pub ELSE [pub EXCEPT ![s] = ""] IN
               Log(e @@ [ends |-> {k \in Conns \ {c} : s # "" /\ conn[k].play = s}], p) /\ pub' = p /\ conn' = Gone(s, c) /\ UNCHANGED done
Teardown(c) == End(c, R(c, "TEARDOWN", 200, "no"))
Drop(c) == \E how \in Pick({"close", "half"}) : End(c, [op |-> "drop", c |-> c, how |-> how])
Reopen(c) == Log([op |-> "open", c |-> c], pub) /\ Set(c, Fresh) /\ UNCHANGED <<pub, done>>
Publish == \E s \in Pick(Names), k \in Pick({"full", "bare"}) :
  IF pub[s] = "" THEN LET p == [pub EXCEPT ![s] = k] IN Log([op |-> "pub", s |-> s, kind |-> k, code |-> 200], p) /\ pub' = p /\ UNCHANGED <<conn, done>>
  ELSE Keep([op |-> "pub", s |-> s, kind |-> k, code |-> 0])        \* refused
Unpublish == \E s \in Pick(Names) : pub[s] \in {"full", "bare"} /\
  LET p == [pub EXCEPT ![s] = ""] IN
    /\ Log([op |-> "unpub", s |-> s, ends |-> {k \in Conns : conn[k].play = s}], p) /\ pub' = p /\ UNCHANGED done
    /\ conn' = [k \in Conns |-> IF conn[k].play = s THEN [conn[k] EXCEPT !.play = ""] ELSE conn[k]]
Acts(c) == Plain(c) \/ Describe(c) \/ Announce(c) \/ Setup(c) \/ Play(c) \/ Record(c) \/ Teardown(c) \/ Drop(c)
Do(c, w) == IF ~conn[c].open THEN Reopen(c)
            ELSE CASE w = 1 -> Plain(c) [] w \in 2..3 -> DescribeOf(c, [k : {"ok"}, s : Names]) [] w = 4 -> Describe(c) [] w \in 5..6 -> Announce(c) [] w \in 7..9 -> Setup(c)
                   [] w \in 10..12 -> Play(c) [] w \in 13..14 -> Record(c) [] w = 15 -> Teardown(c) [] OTHER -> Drop(c)
Step == IF Sim THEN \E w \in Pick(1..20) : IF w <= 16 THEN \E c \in Pick(Conns) : Do(c, w) ELSE IF w <= 18 \/ \A s \in Names : pub[s] \notin {"full", "bare"} THEN Publish ELSE Unpublish
        ELSE Publish \/ Unpublish \/ \E c \in Conns : IF conn[c].open THEN Acts(c) ELSE FALSE
Next == /\ ~done /\ IF Len(hist) < MaxSteps THEN Step ELSE done' = TRUE /\ UNCHANGED <<conn, pub, hist>>
        /\ EmitAll /\ Len(hist') > Len(hist) => PrintT("@@" \o ToJson(hist'))

(* ---- what the registry and the sessions owe each other ---- *)
Owned == \A s \in Names : /\ (pub[s] \in {"av", "a"}) = (\E c \in Conns : conn[c].open /\ conn[c].ing = s)
                          /\ Cardinality({c \in Conns : conn[c].ing = s}) <= 1
Sane == \A c \in Conns : LET x == conn[c] IN
  /\ x.play # "" => pub[x.play] # "" /\ x.ing = "" /\ x.set # {}
  /\ x.rec => x.ing # ""
  /\ ~x.open => x = [Fresh EXCEPT !.open = FALSE]
Refused == [][\A i \in {Len(hist')} : (Len(hist') > Len(hist) /\ hist'[i].op = "req" /\ hist'[i].code >= 300) => UNCHANGED <<conn, pub>>]_vars
Emit == done /\ ~EmitAll => PrintT("@@" \o ToJson(hist))
=============================================================================
