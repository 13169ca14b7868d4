------------------------------- MODULE RtspRoute ------------------------------
(* Where the RTP packets of RTSP sessions go: each track has the transport of its latest SETUP, in either direction, *)
(* and what a session holds (UDP port pairs, its stream, its reader) goes with it.                                   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Conns, MaxSteps, Sim, EmitAll
VARIABLES conn,   \* sessions
          cur,    \* per stream, <<>> or what a player that joins now gets first: its latest group
          live,   \* streams that exist; stream 0 has an RTMP publisher, stream c is announced by session c
          n, hist, done
vars == <<conn, cur, live, n, hist, done>>
Streams == {0} \cup Conns
Tracks == {"v", "a"}
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

None == [k |-> "none", i |-> 0]
Fresh == [dir |-> "", src |-> 0, r |-> [t \in Tracks |-> None], old |-> [t \in Tracks |-> None], on |-> FALSE]
Closed == [Fresh EXCEPT !.dir = "closed"]
Init == conn = [c \in Conns |-> Closed] /\ cur = [s \in Streams |-> <<>>] /\ live = {0} /\ n = 0 /\ hist = <<>> /\ done = FALSE
Routes == [k : {"tcp"}, i : {0, 2, 5, 254}] \cup [k : {"udp"}, i : 1..3]

Socks(C) == LET f[S \in SUBSET (Conns \X Tracks)] == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN 2 + f[S \ {x}]
            IN  f[{x \in Conns \X Tracks : C[x[1]].r[x[2]].k = "udp"}]
(* got: what arrives and where, in order per route; udp: the UDP ports the server holds *)
Note(e, got) == hist' = Append(hist, e @@ [got |-> got, udp |-> Socks(conn'), live |-> live'])
Keep(e) == UNCHANGED <<conn, cur, live, n, done>> /\ Note(e, <<>>)
At(c, t, m) == [c |-> c, t |-> t, r |-> conn[c].r[t], m |-> m]
(* packets of tokens x = <<[t, m]..>> for the players of s *)
To(c, x) == LET y == SelectSeq(x, LAMBDA p : conn[c].r[p.t] # None) IN [i \in 1..Len(y) |-> At(c, y[i].t, y[i].m)]
ToAll(s, x) == LET ps == {c \in Conns : conn[c].dir = "play" /\ conn[c].on /\ conn[c].src = s}
                   f[S \in SUBSET ps] == IF S = {} THEN <<>> ELSE LET c == CHOOSE c \in S : TRUE IN To(c, x) \o f[S \ {c}]
               IN  f[ps]

Open(c) == conn[c].dir = "closed" /\ conn' = [conn EXCEPT ![c] = Fresh] /\ UNCHANGED <<cur, live, n, done>> /\ Note([op |-> "open", c |-> c], <<>>)
Describe(c) == live # {} /\ conn[c].dir \in {"", "play"} /\ ~conn[c].on /\ \E s \in Pick(live) :
  /\ conn' = [conn EXCEPT ![c].dir = "play", ![c].src = s] /\ UNCHANGED <<cur, live, n, done>> /\ Note([op |-> "describe", c |-> c, s |-> s], <<>>)
(* same: both tracks have one payload type; only the transport tells them apart *)
Announce(c) == conn[c].dir = "" /\ \E same \in Pick({TRUE, FALSE, FALSE}) :
  /\ conn' = [conn EXCEPT ![c].dir = IF same THEN "same" ELSE "ing"] /\ live' = live \cup {c} /\ cur' = [cur EXCEPT ![c] = <<>>] /\ UNCHANGED <<n, done>>
  /\ Note([op |-> "announce", c |-> c, same |-> same], <<>>)
Clash(a, b) == a.k = b.k /\ a.k # "none" /\ a.i = b.i
Setup(c) == conn[c].dir # "closed" /\ \E t \in Pick(Tracks), r \in Pick(Routes) :
  LET o == CHOOSE o \in Tracks : o # t
      e == [op |-> "setup", c |-> c, t |-> t, r |-> r, ing |-> conn[c].dir \in {"ing", "same"}, s |-> IF conn[c].dir = "play" THEN conn[c].src ELSE IF conn[c].dir = "" THEN 0 ELSE c]
  IN  IF conn[c].on THEN Keep(e @@ [code |-> 455])
      ELSE /\ ~Clash(r, conn[c].r[o]) /\ ~Clash(r, conn[c].old[o])
           /\ conn' = [conn EXCEPT ![c].r[t] = r, ![c].old[t] = conn[c].r[t]] /\ UNCHANGED <<cur, live, n, done>> /\ Note(e @@ [code |-> 200], <<>>)
Unknown(c) == conn[c].dir \notin {"closed"} /\ ~conn[c].on /\ Keep([op |-> "unknown", c |-> c])     \* of a track that is not there
Play(c) == LET x == conn[c] IN
  /\ x.dir = "play" /\ ~x.on /\ x.r # Fresh.r
  /\ IF x.src \notin live THEN Keep([op |-> "play", c |-> c, code |-> 404])
     ELSE conn' = [conn EXCEPT ![c].on = TRUE] /\ UNCHANGED <<cur, live, n, done>> /\ Note([op |-> "play", c |-> c, code |-> 200], To(c, cur[x.src]))
Record(c) == conn[c].dir \in {"ing", "same"} /\ ~conn[c].on /\ conn' = [conn EXCEPT ![c].on = TRUE] /\ UNCHANGED <<cur, live, n, done>>
             /\ Note([op |-> "record", c |-> c], <<>>)
(* the RTMP publisher sends a picture and an audio frame *)
Feed == 0 \in live /\ LET x == <<[t |-> "v", m |-> n + 1], [t |-> "a", m |-> n + 2]>> IN
  /\ n' = n + 2 /\ cur' = [cur EXCEPT ![0] = x] /\ UNCHANGED <<conn, live, done>> /\ Note([op |-> "feed", m |-> n + 1], ToAll(0, x))
(* a publishing session sends a packet of track t: where the track was set up, or elsewhere *)
Vias == {"ok", "other", "stray", "rtcp", "old", "alien"}
Can(c, t, via) == LET x == conn[c]  o == CHOOSE o \in Tracks : o # t IN
  CASE via = "ok" -> x.r[t].k = "tcp" \/ (x.r[t].k = "udp" /\ x.on)
    [] via = "other" -> x.dir = "ing" /\ (x.r[o].k = "tcp" \/ (x.r[o].k = "udp" /\ x.on))
    [] via = "stray" -> TRUE
    [] via = "rtcp" -> x.r[t].k = "tcp" \/ (x.r[t].k = "udp" /\ x.on)
    [] via = "old" -> x.old[t].k = "tcp" /\ ~Clash(x.old[t], x.r[t])
    [] via = "alien" -> x.r[t].k = "udp" /\ x.on
Send(c) == conn[c].dir \in {"ing", "same"} /\ \E t \in Pick(Tracks), w \in Pick(1..12) :
  LET v == IF w <= 6 THEN <<"ok", "other", "stray", "rtcp", "old", "alien">>[w] ELSE "ok"
      via == IF Can(c, t, v) THEN v ELSE "stray"
      e == [op |-> "send", c |-> c, t |-> t, via |-> via, r |-> conn[c].r[t], m |-> n + 1]
      x == <<[t |-> t, m |-> n + 1]>>
  IN  /\ Sim \/ (via = v /\ w <= 6)
      /\ n' = n + 1 /\ UNCHANGED <<conn, live, done>>
      /\ IF via = "ok" /\ conn[c].on
         THEN cur' = [cur EXCEPT ![c] = IF t = "v" THEN x ELSE @ \o x] /\ Note(e @@ [pass |-> TRUE], ToAll(c, x))
         ELSE UNCHANGED cur /\ Note(e @@ [pass |-> FALSE], <<>>)
Idle(C, s) == [k \in Conns |-> IF C[k].dir = "play" /\ C[k].on /\ C[k].src = s THEN [C[k] EXCEPT !.on = FALSE] ELSE C[k]]
Idled(s) == {k \in Conns : conn[k].dir = "play" /\ conn[k].on /\ conn[k].src = s}
End(c) == conn[c].dir # "closed" /\ \E how \in Pick({"teardown", "close", "reset", "half", "stall"}) :
  LET pubs == conn[c].dir \in {"ing", "same"} IN
  /\ conn' = [IF pubs THEN Idle(conn, c) ELSE conn EXCEPT ![c] = Closed] /\ live' = IF pubs THEN live \ {c} ELSE live
  /\ cur' = IF pubs THEN [cur EXCEPT ![c] = <<>>] ELSE cur
  /\ UNCHANGED <<n, done>> /\ Note([op |-> "end", c |-> c, how |-> how, idle |-> IF pubs THEN Idled(c) ELSE {}], <<>>)
PubEnd == 0 \in live /\ conn' = Idle(conn, 0) /\ live' = live \ {0} /\ cur' = [cur EXCEPT ![0] = <<>>] /\ UNCHANGED <<n, done>>
          /\ Note([op |-> "pubend", idle |-> Idled(0)], <<>>)
PubStart == 0 \notin live /\ live' = live \cup {0} /\ UNCHANGED <<conn, cur, n, done>> /\ Note([op |-> "pubstart"], <<>>)

Do(c, w) == IF conn[c].dir = "closed" THEN Open(c)
            ELSE IF conn[c].dir = "" THEN IF w % 2 = 0 THEN Describe(c) ELSE Announce(c)
            ELSE IF conn[c].dir = "play"
                 THEN IF conn[c].on THEN IF w <= 8 /\ 0 \in live THEN Feed ELSE IF w = 9 THEN Setup(c) ELSE End(c)
                      ELSE IF w <= 5 \/ conn[c].r = Fresh.r THEN Setup(c) ELSE IF w <= 7 THEN Play(c) ELSE IF w = 8 THEN Unknown(c) ELSE IF w <= 10 /\ live # {} THEN Describe(c) ELSE End(c)
                 ELSE IF conn[c].on THEN IF w <= 9 THEN Send(c) ELSE IF w = 10 THEN Setup(c) ELSE End(c)
                      ELSE IF w <= 5 THEN Setup(c) ELSE IF w = 6 THEN Send(c) ELSE IF w = 7 THEN Unknown(c) ELSE IF w <= 10 THEN Record(c) ELSE End(c)
Each(c) == Open(c) \/ Describe(c) \/ Announce(c) \/ Setup(c) \/ Unknown(c) \/ Play(c) \/ Record(c) \/ Send(c) \/ End(c)
Step == IF Sim THEN \E w \in Pick(1..30) : IF w <= 11 THEN \E c \in Pick(Conns) : Do(c, w)
                                           ELSE IF w <= 22 THEN \E c \in Pick(IF \E c \in Conns : conn[c].dir # "closed" THEN {c \in Conns : conn[c].dir # "closed"} ELSE Conns) : Do(c, w - 11)
                                           ELSE IF w <= 29 /\ 0 \in live THEN Feed ELSE IF 0 \in live THEN PubEnd ELSE PubStart
        ELSE Feed \/ PubEnd \/ PubStart \/ \E c \in Conns : Each(c)
Next == /\ ~done /\ IF Len(hist) < MaxSteps THEN Step \/ (Sim /\ ~ENABLED Step /\ done' = TRUE /\ UNCHANGED <<conn, cur, live, n, hist>>) ELSE done' = TRUE /\ UNCHANGED <<conn, cur, live, n, hist>>
        /\ EmitAll /\ Len(hist') > Len(hist) => PrintT("@@" \o ToJson(hist'))
View == <<conn, cur # [s \in Streams |-> <<>>], live>>

(* ---- a packet is only ever delivered on the transport of the latest SETUP of its track, to playing sessions ---- *)
Routed == \A i \in 1..Len(hist) : \A g \in ToSet(hist[i].got) : g.r # None
Apart == \A c \in Conns : ~Clash(conn[c].r["v"], conn[c].r["a"])
Free == \A c \in Conns : conn[c].dir = "closed" => conn[c] = Closed /\ c \notin live
Running == \A c \in Conns : conn[c].on => conn[c].dir \in {"play", "ing", "same"} /\ (conn[c].dir = "play" => conn[c].src \in live) /\ (conn[c].dir \in {"ing", "same"} => c \in live)
Emit == done /\ ~EmitAll => PrintT("@@" \o ToJson(hist))
=============================================================================
