------------------------------ MODULE Robust ------------------------------
(* C10.  A server with every protocol enabled, one bystander publication watched over every protocol, and hostile peers.
   A hostile session walks the legitimate stages of its protocol, may send anything at any stage (Attack), and may go
   away in any manner at any point.  The server may answer an attack only by ending that one session (Drop).  Every
   step of the others has one outcome whatever the hostile sessions did: a legitimate step of a session that has not
   misbehaved is accepted, the bystander's media reach all its viewers, newcomers are admitted, and a name whose
   session is gone has no owner.  Emitted histories are replayed against a live server; the driver picks the bytes. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N, MaxSteps, Sim, Ports, EmitAll

VARIABLES sess, owner, sent, got, done, hist
vars == <<sess, owner, sent, got, done, hist>>

Viewers == {"rtmp", "flv", "ws", "rtsp"}

\* legitimate stages: from -> to
Next1 == [rtmp |-> {<<"tcp", "shaken">>, <<"shaken", "connected">>, <<"connected", "created">>,
                    <<"created", "pub">>, <<"created", "play">>},
          rtsp |-> {<<"tcp", "described">>, <<"described", "setup">>, <<"setup", "playing">>,
                    <<"tcp", "announced">>, <<"announced", "recset">>, <<"recset", "recording">>},
          http |-> {<<"tcp", "stream">>, <<"tcp", "ws">>},
          hls |-> {<<"tcp", "list">>},
          srt |-> {<<"tcp", "induced">>, <<"induced", "conn">>, <<"conn", "live">>}]

Owns == {"pub", "announced", "recset", "recording", "live"}
Stages(p) == {"tcp"} \cup {e[2] : e \in Next1[p]}

Kinds == [rtmp |-> {"junk", "zeros", "ones", "firstfmt", "type", "ctl", "size", "abort", "huge", "many", "switch", "ext",
                    "amf", "deep", "cmd", "few", "video", "vhdr", "nals", "audio", "ahdr", "agg", "data", "hevc", "opus", "flip", "cut",
                    "steal", "media"},
          rtsp |-> {"junk", "long", "headers", "clen", "method", "url", "transport", "session", "inter", "rtp", "fua",
                    "stapa", "aac", "rtcp", "sdp", "flip", "cut", "steal", "empty"},
          http |-> {"junk", "cut", "path", "header", "pipeline", "upgrade", "frame", "wsjunk", "method"},
          hls |-> {"junk", "cut", "path", "header", "pipeline", "method"},
          srt |-> {"junk", "short", "hs", "ctl", "data", "ts", "pes", "seq", "steal"}]

How == {"fin", "reset", "half", "stall"}

None == [port |-> "", st |-> "none", dirty |-> FALSE, watched |-> FALSE]

Init == /\ sess = [i \in 1..N |-> None]
        /\ owner = {}            \* hostile sessions that own their name
        /\ sent = 0 /\ got = [v \in Viewers |-> 0]
        /\ done = FALSE /\ hist = <<>>

Log(e) == hist' = Append(hist, e)
Ev(op, i, p, k) == [op |-> op, i |-> i, port |-> p, k |-> k]

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

Open(i) == /\ sess[i].st = "none"
           /\ \E p \in Pick(Ports) :
                /\ sess' = [sess EXCEPT ![i] = [port |-> p, st |-> "tcp", dirty |-> FALSE, watched |-> FALSE]]
                /\ Log(Ev("open", i, p, ""))
           /\ UNCHANGED <<owner, sent, got, done>>

\* One name is offered over SRT: a second session with it is refused, so the model lets only one get there.
SrtFree == \A j \in 1..N : ~(sess[j].port = "srt" /\ (sess[j].st \in {"conn", "live"} \/ sess[j].dirty))

To(i) == LET s == sess[i] IN
         IF s.st \in {"none", "gone"} \/ s.dirty THEN {}
         ELSE {t \in {e[2] : e \in {f \in Next1[s.port] : f[1] = s.st}} : (s.port = "srt" /\ t = "conn") => SrtFree}

Step(i) == /\ To(i) # {}
           /\ \E t \in Pick(To(i)) :
                /\ sess' = [sess EXCEPT ![i].st = t]
                /\ owner' = IF t \in Owns THEN owner \cup {i} ELSE owner
                /\ Log(Ev("step", i, sess[i].port, t))
           /\ UNCHANGED <<sent, got, done>>

\* Whatever is sent; the session may be ended by it, which nobody else notices.
Attack(i) == LET s == sess[i] IN
             /\ s.st \notin {"none", "gone"}
             /\ \E k \in Pick(Kinds[s.port]) :
                  /\ sess' = [sess EXCEPT ![i].dirty = TRUE]
                  /\ Log(Ev("attack", i, s.port, k))
             /\ UNCHANGED <<owner, sent, got, done>>

\* The server ends a session that misbehaved: its name is free from then on.
Drop(i) == /\ ~Sim /\ sess[i].dirty /\ sess[i].st # "gone"
           /\ sess' = [sess EXCEPT ![i].st = "gone"] /\ owner' = owner \ {i}
           /\ UNCHANGED <<sent, got, done, hist>>

\* Others watch what the hostile publisher sends.
CanWatch(i) == sess[i].st \in Owns /\ i \in owner /\ ~sess[i].watched /\ ~sess[i].dirty
Watch(i) == /\ CanWatch(i)
            /\ sess' = [sess EXCEPT ![i].watched = TRUE]
            /\ Log(Ev("watch", i, sess[i].port, ""))
            /\ UNCHANGED <<owner, sent, got, done>>

Close(i) == /\ sess[i].st # "none"
            /\ \E h \in Pick(How) :
                 /\ sess' = [sess EXCEPT ![i] = None] /\ owner' = owner \ {i}
                 /\ Log(Ev("close", i, sess[i].port, h))
            /\ UNCHANGED <<sent, got, done>>

Media == /\ sent' = sent + 1 /\ got' = [v \in Viewers |-> got[v] + 1]
         /\ \E k \in Pick({"K", "P", "S", "bulk"}) : Log(Ev("media", 0, "", k))
         /\ UNCHANGED <<sess, owner, done>>

Newcomer == /\ \E p \in Pick(Ports) : Log(Ev("join", 0, p, ""))
            /\ UNCHANGED <<sess, owner, sent, got, done>>

Finish == done' = TRUE /\ UNCHANGED <<sess, owner, sent, got, hist>>

Random == \E i \in {RandomElement(1..N)}, w \in {RandomElement(1..12)} :
            IF sess[i].st = "none" THEN IF w = 1 THEN Media ELSE Open(i)
            ELSE IF w <= 5 /\ To(i) # {} THEN Step(i)
            ELSE IF w <= 6 /\ CanWatch(i) THEN Watch(i)
            ELSE IF w <= 8 /\ sess[i].dirty THEN Close(i)
            ELSE IF w = 9 THEN Media
            ELSE IF w = 10 THEN Newcomer
            ELSE Attack(i)
Free == \/ \E i \in 1..N : Open(i) \/ Step(i) \/ Attack(i) \/ Drop(i) \/ Watch(i) \/ Close(i)
        \/ Media \/ Newcomer

\* with EmitAll, the shortest history of every attack and every departure at every stage is printed
Path == \A k \in 1..Len(hist) : hist[k].op \in {"open", "step", "watch"}
Show == (EmitAll /\ Path /\ Len(hist') > Len(hist) /\ hist'[Len(hist')].op \in {"attack", "close"})
        => PrintT("@@" \o ToJson(hist'))

Next == /\ ~done
        /\ IF Len(hist) < MaxSteps THEN IF Sim THEN Random ELSE Free
           ELSE Sim /\ Finish
        /\ Show

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Isolation == \A v \in Viewers : got[v] = sent
Freed == \A i \in owner : sess[i].st \in Owns
OneSrt == Cardinality({i \in owner : sess[i].port = "srt"}) <= 1
TypeOK == \A i \in 1..N : sess[i].st = "none" \/ sess[i].st = "gone" \/ sess[i].st \in Stages(sess[i].port)

Emit == done /\ ~EmitAll => PrintT("@@" \o ToJson(hist))

View == <<sess, owner, got, sent, done>>
ViewAll == <<sess, owner, done>>
===========================================================================
