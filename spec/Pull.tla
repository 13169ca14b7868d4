---------------------------------- MODULE Pull ---------------------------------
(* A pulled stream: the relay dials its upstream, asks for the stream and publishes what comes under a local name, as *)
(* long as a local publisher does not have it. Whatever the upstream does, it tries again, after delays that double    *)
(* from one second up to Cap and start over once it has got media.                                                   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS MaxSteps, Sim, Cap, MaxWait, Tries, Slow     \* Slow: upstreams that do not answer; MaxWait: of delays that a behaviour takes
VARIABLES owner, stage, kind,   \* who has the name: "", "pull", "local"; the relay: "wait", "asking", "media"
          fails, got, waited,   \* failures in a row; whether this session got anything; seconds spent waiting
          n, hist, done
vars == <<owner, stage, kind, fails, got, waited, n, hist, done>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 2 * Pow(k - 1)
Delay(f) == IF f = 0 THEN 0 ELSE IF f > 10 THEN Cap ELSE IF Pow(f - 1) < Cap THEN Pow(f - 1) ELSE Cap
Init == owner = "" /\ stage = "wait" /\ kind = "" /\ fails = 0 /\ got = FALSE /\ waited = 0 /\ n = 0 /\ hist = <<>> /\ done = FALSE
Log(e) == hist' = Append(hist, e @@ [own |-> owner'])

(* ---- the relay and its upstream ---- *)
(* where the upstream gives up, and how: nothing listens; in the handshake; instead of the result of connect, of       *)
(* createStream; after play                                                                                            *)
Fast == {"drop", "s0", "badver", "half", "cclose", "cerror", "cstatus", "cbad", "xclose", "xerror", "xbad", "pnotfound", "pfailed", "pclose"}
Silent == {"silent0", "silents1", "csilent", "cping", "xsilent"}
Waits == waited + Delay(fails) <= MaxWait
Refused == /\ stage = "wait" /\ Waits /\ fails' = fails + 1 /\ waited' = waited + Delay(fails)
           /\ UNCHANGED <<owner, stage, kind, got, n, done>> /\ Log([op |-> "refused", gap |-> Delay(fails), next |-> Delay(fails + 1)])
Taken == /\ stage = "wait" /\ owner = "local" /\ Waits /\ fails' = fails + 1 /\ waited' = waited + Delay(fails)
         /\ UNCHANGED <<owner, stage, kind, got, n, done>> /\ Log([op |-> "taken", gap |-> Delay(fails)])
Dial == /\ stage = "wait" /\ owner = "" /\ Waits /\ owner' = "pull" /\ stage' = "asking" /\ waited' = waited + Delay(fails) /\ got' = FALSE
        /\ \E k \in Pick(IF Sim /\ RandomElement(1..3) > 1 THEN {"ok"} ELSE Fast \cup Slow \cup {"ok"}) :
             kind' = k /\ UNCHANGED <<fails, n, done>> /\ Log([op |-> "dial", gap |-> Delay(fails), k |-> k])
(* the upstream answers as it is going to *)
Answer == /\ stage = "asking"
          /\ IF kind = "ok" THEN stage' = "media" /\ UNCHANGED <<owner, fails>> ELSE stage' = "wait" /\ owner' = "" /\ fails' = fails + 1
          /\ kind' = kind /\ UNCHANGED <<got, waited, n, done>> /\ Log([op |-> "answer", k |-> kind])
Media == {"M", "V", "A", "K", "P", "S", "D"}
Up == /\ stage = "media" /\ n' = n + 1 /\ UNCHANGED <<owner, stage, kind, fails, waited, done>>
      \* pictures no one can decode before the first keyframe do not count
      /\ \E k \in Pick(Media), v \in Pick(IF Sim THEN 1..6 ELSE {1}) : LET x == IF ~got THEN "K" ELSE k IN
           got' = TRUE /\ Log([op |-> "up", k |-> x, v |-> v, id |-> n'])
(* what an upstream says besides: nothing of it changes anything here *)
Talk == {"ping", "window", "bandwidth", "chunksize", "begin", "start", "bwdone", "result", "dry",
         "delete", "unpublish", "publish", "closestream", "play", "connect", "create", "empty"}
Say == /\ stage = "media" /\ UNCHANGED <<owner, stage, kind, fails, got, waited, n, done>>
       /\ \E k \in Pick(Talk) : Log([op |-> "say", k |-> k])
Ends == {"close", "reset", "mid", "badtype", "eof", "unpub", "stop", "error"}
UpEnd == /\ stage = "media" /\ stage' = "wait" /\ owner' = "" /\ fails' = (IF got THEN 1 ELSE fails + 1)
         /\ UNCHANGED <<kind, got, waited, n, done>> /\ \E k \in Pick(Ends) : Log([op |-> "upend", k |-> k])

(* ---- a local publisher ---- *)
Publish == /\ owner # "local" /\ owner' = (IF owner = "" THEN "local" ELSE owner)
           /\ UNCHANGED <<stage, kind, fails, got, waited, n, done>> /\ Log([op |-> "publish", ok |-> owner = ""])
Own == /\ owner = "local" /\ n' = n + 1 /\ UNCHANGED <<owner, stage, kind, fails, got, waited, done>> /\ Log([op |-> "own", id |-> n'])
Leave == /\ owner = "local" /\ owner' = "" /\ UNCHANGED <<stage, kind, fails, got, waited, n, done>> /\ Log([op |-> "leave"])

LastOp == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op
Tried == Cardinality({i \in 1..Len(hist) : hist[i].op \in {"dial", "refused", "taken"}})
Again == Tried < Tries /\ Waits
Relay == IF stage = "wait" THEN Again ELSE TRUE
(* without an upstream to see, the end of one delay and the start of the next cannot be told apart *)
CanRefuse == LastOp # "refused" /\ LastOp # "taken" /\ Tried + 1 < Tries /\ waited + Delay(fails) + Delay(fails + 1) <= MaxWait /\ owner = ""
Try == \/ CanRefuse /\ Refused
       \/ LastOp # "taken" /\ LastOp # "refused" /\ Taken
       \/ Dial
Step == IF Sim
        THEN \E w \in Pick(1..30) :
               IF stage = "wait" /\ owner = "" /\ LastOp \in {"upend", "answer"} /\ w <= 8 THEN Publish
               ELSE IF owner = "local" THEN (IF w <= 10 THEN Own ELSE IF w <= 20 /\ Again /\ LastOp # "taken" THEN Taken ELSE Leave)
               ELSE IF stage = "wait" THEN (IF w <= 12 /\ CanRefuse
                                            THEN Refused ELSE Again /\ Dial)
               ELSE IF stage = "asking" THEN (IF w <= 4 THEN Publish ELSE Answer)
               ELSE IF w <= 14 THEN Up ELSE IF w <= 22 THEN Say ELSE IF w <= 24 THEN Publish ELSE IF Tried < Tries THEN UpEnd ELSE Up
        ELSE (Again /\ Try) \/ Answer \/ Up \/ Say \/ UpEnd \/ Publish \/ Own \/ Leave
Stuck == stage = "wait" /\ owner = "" /\ ~Again
Next == ~done /\ IF Len(hist) < MaxSteps /\ ~Stuck THEN Step
                 ELSE IF stage = "asking" THEN Answer ELSE done' = TRUE /\ UNCHANGED <<owner, stage, kind, fails, got, waited, n, hist>>

(* ---- what a relay is for ---- *)
Registered == stage # "wait" <=> owner = "pull"
(* only the local publisher itself ends its stream *)
Mine == [][owner = "local" => owner' = "local" \/ hist'[Len(hist')].op = "leave"]_vars
Tried2 == SelectSeq(hist, LAMBDA e : e.op \in {"dial", "refused", "taken"})
Bounded == \A i \in 1..Len(Tried2) : Tried2[i].gap <= Cap /\ (i > 1 => Tried2[i].gap >= 1)
(* delays grow from failure to failure, and start over after media *)
Grow == \A i \in 1..Len(hist), j \in 1..Len(hist) :
          LET tries == {"dial", "refused", "taken"} IN
          i < j /\ hist[i].op \in tries /\ hist[j].op \in tries /\ (\A m \in (i + 1)..(j - 1) : hist[m].op \notin tries) =>
            IF \E m \in (i + 1)..(j - 1) : hist[m].op = "up" THEN hist[j].gap = 1
            ELSE hist[j].gap = Cap \/ (hist[j].gap >= hist[i].gap * 2 /\ hist[j].gap <= hist[i].gap * 2 + 1)
View == <<owner, stage, kind, fails, got, waited, Len(hist), LastOp, done>>
Emit == done => PrintT("@@" \o ToJson(hist))
=============================================================================
