------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The server as its peers see it: RTMP connections with their commands,   *)
(* RTSP connections, HTTP/WebSocket viewers, SRT callers; applications and *)
(* stream names; who publishes what, who watches what, what each command   *)
(* is answered with, and which media reaches whom.                         *)
(*                                                                         *)
(* A publication is an instance in ins.  Media carry identities; headers   *)
(* (metadata, video header, audio header) are the identities <<m, v, a>>   *)
(* in force.  Every media frame here is a keyframe: Fanout.tla looks at    *)
(* what happens between keyframes and to viewers that fall behind.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS RC, TC, VC, SC,   \* RTMP connections, RTSP connections, HTTP viewers, SRT callers
          Apps, Names,      \* registered applications, stream names used
          SrtAt,            \* <<app, name>> of the SRT listener
          Ops,              \* operations generated
          MaxSteps, Sim

VARIABLES conn, rts, flv, srt, ins, nid, hist, done
vars == <<conn, rts, flv, srt, ins, nid, hist, done>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

NewConn == [st |-> "new", app |-> "", pub |-> 0, plays |-> <<>>]
NewRts == [st |-> "idle", pub |-> 0, rec |-> FALSE, play |-> 0]
Init == /\ conn = [c \in RC |-> NewConn]
        /\ rts = [t \in TC |-> NewRts]
        /\ flv = [v \in VC |-> [st |-> "off", in |-> 0]]
        /\ srt = [s \in SC |-> [st |-> "off", pub |-> 0]]
        /\ ins = <<>> /\ nid = 1 /\ hist = <<>> /\ done = FALSE

Owner(a, n) == LET I == {i \in 1..Len(ins) : ins[i].alive /\ ins[i].app = a /\ ins[i].name = n}
               IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
NoHdr == <<0, 0, 0>>
Inst(a, n, h) == [app |-> a, name |-> n, alive |-> TRUE, key |-> 0, keyh |-> NoHdr, hdr |-> h]

Times(c, i) == Cardinality({k \in 1..Len(conn[c].plays) : conn[c].plays[k] = i})
Watch(c, i) == conn[c].st = "up" /\ Times(c, i) > 0

(* Deliveries of frame f (0: headers only) of instance i with headers h to everybody who watches it.        *)
(* ex: the viewer's header state can be told exactly (it watches the instance once, over a protocol that    *)
(* carries headers).                                                                                        *)
DL(w, n, i, f, c, h, ex) == [w |-> w, n |-> n, i |-> i, f |-> f, c |-> c, h |-> h, ex |-> ex]
ToAll(i, f, h) ==
    SetToSeq({DL("r", c, i, f, Times(c, i), h, Times(c, i) = 1) : c \in {x \in RC : Watch(x, i)}}) \o
    SetToSeq({DL("v", v, i, f, 1, h, TRUE) : v \in {x \in VC : flv[x].st = "on" /\ flv[x].in = i}}) \o
    (IF f = 0 THEN <<>> ELSE SetToSeq({DL("t", t, i, f, 1, h, FALSE) : t \in {x \in TC : rts[x].play = i}}))
(* What a viewer that joins instance i receives. *)
Join(w, n, i, c, ex) ==
    (IF ins[i].key = 0 THEN <<>> ELSE <<DL(w, n, i, ins[i].key, 1, ins[i].keyh, ex)>>) \o
    (IF ex THEN <<DL(w, n, i, 0, 1, ins[i].hdr, TRUE)>> ELSE <<>>)

Log(r) == hist' = Append(hist, r)
Rec(op, n) == [op |-> op, n |-> n, app |-> "", name |-> "", id |-> 0, rep |-> <<>>, closed |-> FALSE,
               dl |-> <<>>, ends |-> <<>>, code |-> 0, in |-> 0]
R(op, n, extra) == Log(extra @@ Rec(op, n))          \* extra wins
None == [code |-> 0]

(* The publication i (0: none) ends: its HTTP viewers are done, its RTSP players stop. *)
EndsOf(i) == SetToSeq({v \in VC : i # 0 /\ flv[v].st = "on" /\ flv[v].in = i})
FlvAfter(i) == [v \in VC |-> IF i # 0 /\ flv[v].st = "on" /\ flv[v].in = i THEN [st |-> "done", in |-> 0] ELSE flv[v]]
InsAfter(i) == IF i = 0 THEN ins ELSE [ins EXCEPT ![i].alive = FALSE]
RtsAfter(r, i) == [t \in TC |-> IF i # 0 /\ r[t].play = i THEN [r[t] EXCEPT !.play = 0] ELSE r[t]]
End(i) == ins' = InsAfter(i) /\ flv' = FlvAfter(i)

St(code) == <<"onStatus:" \o code>>
Status(code) == "onStatus:" \o code

---------------------------------------------------------------------------
(* RTMP commands *)

(* The server closes the connection (or the client leaves); what it published ends. *)
Gone(c, op, byServer, extra) ==
    /\ End(conn[c].pub)
    /\ rts' = RtsAfter(rts, conn[c].pub)
    /\ conn' = [conn EXCEPT ![c] = [NewConn EXCEPT !.st = "gone"]]
    /\ R(op, c, [closed |-> byServer, ends |-> EndsOf(conn[c].pub)] @@ extra)
    /\ UNCHANGED <<srt, nid>>

Open(c) == /\ conn[c].st = "gone"
           /\ conn' = [conn EXCEPT ![c] = NewConn]
           /\ R("open", c, None)
           /\ UNCHANGED <<rts, flv, srt, ins, nid>>

Live(c) == conn[c].st \in {"new", "up"}
Reply(c, op, rep, extra) == R(op, c, [rep |-> rep] @@ extra) /\ UNCHANGED <<conn, rts, flv, srt, ins, nid>>

Connect(c, a) ==
    /\ Live(c)
    /\ IF conn[c].st = "up" \/ a \notin Apps
         THEN Gone(c, "connect", TRUE, [app |-> a])
         ELSE /\ conn' = [conn EXCEPT ![c].st = "up", ![c].app = a]
              /\ R("connect", c, [app |-> a, rep |-> <<"WAS", "SPB", "SCS", "UC", "_result:connect">>])
              /\ UNCHANGED <<rts, flv, srt, ins, nid>>

Simple(c, op, rep) == Live(c) /\ Reply(c, op, rep, None)

Publish(c, n) ==
    /\ Live(c)
    /\ IF conn[c].st = "new" THEN Gone(c, "publish", TRUE, [name |-> n])
       ELSE IF conn[c].pub # 0 \/ Owner(conn[c].app, n) # 0
         THEN Reply(c, "publish", St("NetStream.Publish.BadName"), [name |-> n])
         ELSE /\ ins' = Append(ins, Inst(conn[c].app, n, NoHdr))
              /\ conn' = [conn EXCEPT ![c].pub = Len(ins) + 1]
              /\ R("publish", c, [name |-> n, rep |-> St("NetStream.Publish.Start"), in |-> Len(ins) + 1])
              /\ UNCHANGED <<rts, flv, srt, nid>>

Play(c, n) ==
    /\ Live(c)
    /\ IF conn[c].st = "new" THEN Gone(c, "play", TRUE, [name |-> n])
       ELSE LET i == Owner(conn[c].app, n) IN
            IF i = 0 THEN Reply(c, "play", St("NetStream.Play.StreamNotFound"), [name |-> n])
            ELSE /\ Len(conn[c].plays) < 4
                 /\ conn' = [conn EXCEPT ![c].plays = Append(@, i)]
                 /\ R("play", c, [name |-> n, in |-> i,
                       rep |-> <<Status("NetStream.Play.Reset"), Status("NetStream.Play.Start"),
                                 Status("NetStream.Data.Start"), Status("NetStream.Play.PublishNotify")>>,
                       dl |-> Join("r", c, i, 1, Times(c, i) = 0)])
                 /\ UNCHANGED <<rts, flv, srt, ins, nid>>

(* deleteStream / closeStream end what the connection publishes; FCUnpublish does if it names it (or nothing). *)
Unpublish(c, op, n) ==
    /\ Live(c)
    /\ LET i == conn[c].pub
           hit == i # 0 /\ (op # "FCUnpublish" \/ n = "" \/ n = ins[i].name)
           e == IF hit THEN i ELSE 0
       IN /\ End(e)
          /\ rts' = RtsAfter(rts, e)
          /\ conn' = [conn EXCEPT ![c].pub = IF hit THEN 0 ELSE @]
          /\ R(op, c, [name |-> n, rep |-> St("NetStream.Unpublish.Success"), ends |-> EndsOf(e)])
          /\ UNCHANGED <<srt, nid>>

(* Media and headers: they count only if the connection publishes. *)
Media(c, k) ==
    /\ Live(c)
    /\ LET i == conn[c].pub IN
       IF i = 0 THEN R("media", c, [name |-> k, id |-> nid]) /\ UNCHANGED ins
       ELSE LET j == CASE k = "M" -> 1 [] k = "V" -> 2 [] k = "A" -> 3 [] OTHER -> 0
                h == IF j = 0 THEN ins[i].hdr ELSE [ins[i].hdr EXCEPT ![j] = nid]
            IN /\ ins' = IF j = 0 THEN [ins EXCEPT ![i].key = nid, ![i].keyh = h] ELSE [ins EXCEPT ![i].hdr = h]
               /\ R("media", c, [name |-> k, id |-> nid, in |-> i, dl |-> ToAll(i, IF j = 0 THEN nid ELSE 0, h)])
    /\ nid' = nid + 1
    /\ UNCHANGED <<conn, rts, flv, srt>>

Drop(c) == Live(c) /\ Gone(c, "drop", FALSE, None)
Half(c) == Live(c) /\ Gone(c, "half", FALSE, None)          \* leaves in the middle of a message
Malformed(c, k) == Live(c) /\ Gone(c, "malformed", TRUE, [name |-> k])

---------------------------------------------------------------------------
(* HTTP-FLV (odd) and WebSocket-FLV (even) viewers *)
Watching(v, a, n) ==
    /\ flv[v].st # "on"
    /\ LET i == Owner(a, n) IN
       IF i = 0 \/ a \notin Apps
         THEN flv' = [flv EXCEPT ![v] = [st |-> "done", in |-> 0]] /\ R("view", v, [app |-> a, name |-> n, code |-> 404])
         ELSE flv' = [flv EXCEPT ![v] = [st |-> "on", in |-> i]]
              /\ R("view", v, [app |-> a, name |-> n, code |-> 200, in |-> i, dl |-> Join("v", v, i, 1, TRUE)])
    /\ UNCHANGED <<conn, rts, srt, ins, nid>>
Leave(v) == /\ flv[v].st = "on"
            /\ flv' = [flv EXCEPT ![v] = [st |-> "off", in |-> 0]]
            /\ R("leave", v, None)
            /\ UNCHANGED <<conn, rts, srt, ins, nid>>

---------------------------------------------------------------------------
(* RTSP: whole exchanges (Rtsp.tla has the single requests) *)
Announce(t, a, n) ==
    /\ rts[t].st = "idle" /\ rts[t].pub = 0 /\ rts[t].play = 0
    /\ IF a \notin Apps THEN R("announce", t, [app |-> a, name |-> n, code |-> 404]) /\ UNCHANGED <<rts, ins, nid>>
       ELSE IF Owner(a, n) # 0 THEN R("announce", t, [app |-> a, name |-> n, code |-> 461]) /\ UNCHANGED <<rts, ins, nid>>
       ELSE /\ ins' = Append(ins, Inst(a, n, <<0, nid, 0>>))
            /\ rts' = [rts EXCEPT ![t].pub = Len(ins) + 1]
            /\ R("announce", t, [app |-> a, name |-> n, code |-> 200, id |-> nid, in |-> Len(ins) + 1])
            /\ nid' = nid + 1
    /\ UNCHANGED <<conn, flv, srt>>
Record(t) ==
    /\ rts[t].pub # 0 /\ ~rts[t].rec
    /\ rts' = [rts EXCEPT ![t].rec = TRUE]
    /\ R("record", t, [code |-> 200])
    /\ UNCHANGED <<conn, flv, srt, ins, nid>>
RtpKey(t) ==
    /\ rts[t].st = "idle"
    /\ IF rts[t].rec
         THEN LET i == rts[t].pub IN
              /\ ins' = [ins EXCEPT ![i].key = nid, ![i].keyh = ins[i].hdr]
              /\ R("rtpkey", t, [id |-> nid, in |-> i, dl |-> ToAll(i, nid, ins[i].hdr)])
         ELSE R("rtpkey", t, [id |-> nid]) /\ UNCHANGED ins
    /\ nid' = nid + 1
    /\ UNCHANGED <<conn, rts, flv, srt>>
RtspPlay(t, a, n) ==
    /\ rts[t].st = "idle" /\ rts[t].pub = 0 /\ rts[t].play = 0
    /\ LET i == Owner(a, n)
           code == IF a \notin Apps \/ i = 0 THEN 404 ELSE IF ins[i].hdr[2] = 0 THEN 503 ELSE 200
       IN IF code # 200 THEN R("rplay", t, [app |-> a, name |-> n, code |-> code]) /\ UNCHANGED rts
          ELSE rts' = [rts EXCEPT ![t].play = i]
               /\ R("rplay", t, [app |-> a, name |-> n, code |-> 200, in |-> i, id |-> ins[i].hdr[2],
                                 dl |-> Join("t", t, i, 1, FALSE)])
    /\ UNCHANGED <<conn, flv, srt, ins, nid>>
RtspGone(t, op) ==
    /\ rts[t].st = "idle" /\ (rts[t].pub # 0 \/ rts[t].play # 0)
    /\ End(rts[t].pub)
    /\ rts' = [RtsAfter(rts, rts[t].pub) EXCEPT ![t] = NewRts]       \* the driver connects again
    /\ R(op, t, [ends |-> EndsOf(rts[t].pub)])
    /\ UNCHANGED <<conn, srt, nid>>

---------------------------------------------------------------------------
(* SRT callers: the first media of a session claims the name *)
SrtUp(s) == /\ srt[s].st # "up"
            /\ srt' = [srt EXCEPT ![s] = [st |-> "up", pub |-> 0]]
            /\ R("srtup", s, None)
            /\ UNCHANGED <<conn, rts, flv, ins, nid>>
SrtKey(s) ==
    /\ srt[s].st = "up"
    /\ LET i == srt[s].pub
           o == Owner(SrtAt[1], SrtAt[2])
       IN IF i # 0
            THEN /\ ins' = [ins EXCEPT ![i].key = nid, ![i].keyh = ins[i].hdr]
                 /\ R("srtkey", s, [id |-> nid, in |-> i, dl |-> ToAll(i, nid, ins[i].hdr)])
                 /\ nid' = nid + 1 /\ UNCHANGED srt
          ELSE IF o # 0
            THEN /\ srt' = [srt EXCEPT ![s].st = "off"]       \* refused
                 /\ R("srtkey", s, [id |-> nid, closed |-> TRUE])
                 /\ nid' = nid + 1 /\ UNCHANGED ins
          ELSE /\ ins' = Append(ins, [Inst(SrtAt[1], SrtAt[2], <<0, nid, 0>>) EXCEPT !.key = nid + 1, !.keyh = <<0, nid, 0>>])
               /\ srt' = [srt EXCEPT ![s].pub = Len(ins) + 1]
               /\ R("srtkey", s, [id |-> nid + 1, in |-> Len(ins) + 1, name |-> "first"])
               /\ nid' = nid + 2
    /\ UNCHANGED <<conn, rts, flv>>
SrtShut(s) == /\ srt[s].st = "up"
              /\ End(srt[s].pub)
              /\ rts' = RtsAfter(rts, srt[s].pub)
              /\ srt' = [srt EXCEPT ![s] = [st |-> "off", pub |-> 0]]
              /\ R("srtshut", s, [ends |-> EndsOf(srt[s].pub)])
              /\ UNCHANGED <<conn, nid>>

---------------------------------------------------------------------------
PickSome(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Pubs == {c \in RC : conn[c].pub # 0}
Alive == {i \in 1..Len(ins) : ins[i].alive}
Do(o) ==
  CASE o = "open" -> \E c \in RC : Open(c)
    [] o = "connect" -> \E c \in Pick(RC) : conn[c].st = "new" /\ \E a \in Pick(Apps) : Connect(c, a)
    [] o = "badconnect" -> \E c \in Pick(RC), a \in Pick(Apps \cup {"none", ""}) : (conn[c].st = "up" \/ a \notin Apps) /\ Connect(c, a)
    [] o = "publish" -> \E c \in Pick(RC), n \in Pick(Names) : Publish(c, n)
    [] o = "play" -> \E c \in Pick(RC), n \in Pick(Names) : Play(c, n)
    [] o = "delete" -> \E c \in Pick(RC), k \in Pick({"deleteStream", "closeStream"}) : Unpublish(c, k, "")
    [] o = "fcunpublish" -> \E c \in Pick(RC), n \in Pick(Names \cup {""}) : Unpublish(c, "FCUnpublish", n)
    [] o = "media" -> \E c \in Pick(RC), k \in Pick({"K", "M", "V", "A"}) : Media(c, k)
    [] o \in {"media2", "media3"} -> \E c \in PickSome(Pubs), k \in Pick({"K", "M", "V", "A"}) : Media(c, k)
    [] o = "key" -> \E c \in PickSome(Pubs) : Media(c, "K")
    [] o = "play2" -> \E c \in Pick(RC) : \E i \in PickSome({x \in Alive : ins[x].app = conn[c].app}) : Play(c, ins[i].name)
    [] o = "view2" -> \E v \in Pick(VC), i \in PickSome(Alive) : Watching(v, ins[i].app, ins[i].name)
    [] o = "rplay2" -> \E t \in Pick(TC), i \in PickSome(Alive) : RtspPlay(t, ins[i].app, ins[i].name)
    [] o = "drop" -> \E c \in Pick(RC) : Drop(c)
    [] o = "half" -> \E c \in Pick(RC) : Half(c)
    [] o = "malformed" -> \E c \in Pick(RC), k \in Pick({"publish4", "play3", "two", "strtxn", "numname", "notamf", "unknowntype", "shortvideo"}) :
                             Malformed(c, k)
    [] o = "createStream" -> \E c \in Pick(RC) : Simple(c, o, <<"_result:sid">>)
    [] o = "hints" -> \E c \in Pick(RC), k \in Pick({"releaseStream", "FCPublish", "receiveAudio", "receiveVideo"}) : Simple(c, k, <<"_result:null">>)
    [] o = "pause" -> \E c \in Pick(RC), p \in Pick({"pause", "unpause"}) :
                        Simple(c, p, St(IF p = "pause" THEN "NetStream.Pause.Notify" ELSE "NetStream.Unpause.Notify"))
    [] o = "seek" -> \E c \in Pick(RC) : Simple(c, "seek", St("NetStream.Seek.Notify"))
    [] o = "silent" -> \E c \in Pick(RC), k \in Pick({"call", "close", "nonsense", "_result", "_error", "onStatus", "getStreamLength"}) : Simple(c, k, <<>>)
    [] o = "view" -> \E v \in Pick(VC), a \in Pick(Apps), n \in Pick(Names) : Watching(v, a, n)
    [] o = "badview" -> \E v \in Pick(VC), n \in Pick(Names) : Watching(v, "none", n)
    [] o = "leave" -> \E v \in Pick(VC) : Leave(v)
    [] o = "announce" -> \E t \in Pick(TC), a \in Pick(Apps), n \in Pick(Names) : Announce(t, a, n)
    [] o = "badannounce" -> \E t \in Pick(TC), n \in Pick(Names) : Announce(t, "none", n)
    [] o = "record" -> \E t \in Pick(TC) : Record(t)
    [] o = "rtpkey" -> \E t \in Pick(TC) : RtpKey(t)
    [] o = "rplay" -> \E t \in Pick(TC), a \in Pick(Apps), n \in Pick(Names) : RtspPlay(t, a, n)
    [] o = "rgone" -> \E t \in Pick(TC), k \in Pick({"teardown", "rdrop", "rhalf"}) : RtspGone(t, k)
    [] o = "srtup" -> \E s \in Pick(SC) : SrtUp(s)
    [] o = "srtkey" -> \E s \in Pick(SC) : SrtKey(s)
    [] o = "srtshut" -> \E s \in Pick(SC) : SrtShut(s)
    [] OTHER -> FALSE

Step == Len(hist) < MaxSteps /\ ~done /\ (\E o \in Ops : Do(o)) /\ UNCHANGED done
Finish == Len(hist) >= MaxSteps /\ ~done /\ done' = TRUE /\ UNCHANGED <<conn, rts, flv, srt, ins, nid, hist>>
Next == Step \/ Finish

(* All sessions start connected: the exhaustive runs spend their steps on what follows. *)
UpStart == /\ conn = [c \in RC |-> [NewConn EXCEPT !.st = "up", !.app = CHOOSE a \in Apps : TRUE]]
           /\ rts = [t \in TC |-> NewRts]
           /\ flv = [v \in VC |-> [st |-> "off", in |-> 0]]
           /\ srt = [s \in SC |-> [st |-> "off", pub |-> 0]]
           /\ ins = <<>> /\ nid = 1 /\ done = FALSE
           /\ hist = SetToSeq({[app |-> CHOOSE a \in Apps : TRUE,
                                rep |-> <<"WAS", "SPB", "SCS", "UC", "_result:connect">>] @@ Rec("connect", c) : c \in RC})

---------------------------------------------------------------------------
(* What must hold in every state. *)
Publishers(i) == {<<"r", c>> : c \in {x \in RC : conn[x].pub = i}} \cup {<<"t", t>> : t \in {x \in TC : rts[x].pub = i}}
                 \cup {<<"s", s>> : s \in {x \in SC : srt[x].pub = i}}
OneOwner == \A i, j \in 1..Len(ins) : ins[i].alive /\ ins[j].alive /\ ins[i].app = ins[j].app /\ ins[i].name = ins[j].name => i = j
OwnedExactly == \A i \in 1..Len(ins) : Cardinality(Publishers(i)) = IF ins[i].alive THEN 1 ELSE 0
NoGhostViewers == /\ \A v \in VC : flv[v].st = "on" => ins[flv[v].in].alive
                  /\ \A t \in TC : rts[t].play # 0 => ins[rts[t].play].alive
NoStray == \A k \in 1..Len(hist) : \A d \in 1..Len(hist[k].dl) : hist[k].dl[d].i = hist[k].in
HeadersKnown == \A i \in 1..Len(ins) : ins[i].key # 0 => \A j \in 1..3 : ins[i].keyh[j] <= ins[i].hdr[j]
Emit == done => PrintT("@@" \o ToJson(hist))

=============================================================================
