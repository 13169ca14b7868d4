-------------------------------- MODULE Srt --------------------------------
(***************************************************************************)
(* The SRT listener: two-step handshake per peer and the ARQ receiver.     *)
(* Sequence numbers are offsets from the session's initial sequence number *)
(* (the driver maps offset o to (ISN + o) mod 2^31), so one behaviour       *)
(* covers every ISN, including those that wrap.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Peers,      \* caller endpoints (each its own UDP address)
          Diffs,      \* how far from the expected number a data packet may be
          MaxLen,     \* length of a behaviour
          Acts        \* kinds of step allowed

VARIABLES st,         \* peer -> "none" | "inducted" | "live"
          cookie,     \* peer -> cookie issued last (0: none)
          used,       \* peer -> cookie its session was concluded with
          sid,        \* peer -> the peer's socket id, as told in its handshake
          exp,        \* peer -> offset of the next in-order packet
          nck,        \* cookies issued so far
          del,        \* peer -> offsets delivered in the current session
          lost,       \* peer -> offsets reported lost in the current session
          acks,       \* peer -> acknowledged offsets
          hist, done

vars == <<st, cookie, used, sid, exp, nck, del, lost, acks, hist, done>>

Init == /\ st = [p \in Peers |-> "none"]
        /\ cookie = [p \in Peers |-> 0]
        /\ used = [p \in Peers |-> 0]
        /\ sid = [p \in Peers |-> 0]
        /\ exp = [p \in Peers |-> 0]
        /\ nck = 0
        /\ del = [p \in Peers |-> <<>>]
        /\ lost = [p \in Peers |-> {}]
        /\ acks = [p \in Peers |-> <<>>]
        /\ hist = <<>>
        /\ done = FALSE

Log(act, p, arg, out, deliver) ==
    hist' = Append(hist, [act |-> act, p |-> p, arg |-> arg, out |-> out, del |-> deliver])

(* An induction request gets a fresh cookie, addressed to the caller's socket id. *)
Induct(p, s) ==
    /\ nck' = nck + 1
    /\ cookie' = [cookie EXCEPT ![p] = nck + 1]
    /\ sid' = [sid EXCEPT ![p] = s]
    /\ st' = [st EXCEPT ![p] = IF @ = "none" THEN "inducted" ELSE @]
    /\ Log("induct", p, [sid |-> s], <<[t |-> "hs", type |-> 1, cookie |-> nck + 1, dst |-> s]>>, FALSE)
    /\ UNCHANGED <<used, exp, del, lost, acks>>

(* A conclusion: c is a cookie issued to anybody, 0 (no cookie), or -1 (made up). *)
Conclude(p, c, s) ==
    LET good == st[p] # "none" /\ c = cookie[p]
        rep  == good /\ st[p] = "live" /\ used[p] = c
    IN  /\ (rep => s = sid[p])
        /\ IF good /\ ~rep
             THEN /\ st' = [st EXCEPT ![p] = "live"]
                  /\ used' = [used EXCEPT ![p] = c]
                  /\ sid' = [sid EXCEPT ![p] = s]
                  /\ exp' = [exp EXCEPT ![p] = 0]
                  /\ del' = [del EXCEPT ![p] = <<>>]
                  /\ lost' = [lost EXCEPT ![p] = {}]
                  /\ acks' = [acks EXCEPT ![p] = <<>>]
             ELSE UNCHANGED <<st, used, sid, exp, del, lost, acks>>
        /\ Log("conclude", p, [cookie |-> c, sid |-> s, fresh |-> good /\ ~rep],
               IF good THEN <<[t |-> "hs", type |-> -1, cookie |-> c, dst |-> s]>> ELSE <<>>, FALSE)
        /\ UNCHANGED <<cookie, nck>>

(* One data packet, d away from the expected number; bad: the consumer refuses it. *)
Data(p, d, bad) ==
    LET live == st[p] = "live"
        acc  == live /\ d >= 0
        e    == exp[p] + d + 1
    IN  /\ d > 1000000 => exp[p] < 1000000
        /\ IF acc
             THEN /\ exp' = [exp EXCEPT ![p] = e]
                  /\ del' = [del EXCEPT ![p] = Append(@, exp[p] + d)]
                  /\ lost' = [lost EXCEPT ![p] = IF d > 0 THEN @ \cup {<<exp[p], exp[p] + d - 1>>} ELSE @]
                  /\ acks' = [acks EXCEPT ![p] = Append(@, e)]
             ELSE UNCHANGED <<exp, del, lost, acks>>
        /\ st' = IF acc /\ bad THEN [st EXCEPT ![p] = "none"] ELSE st
        /\ cookie' = IF acc /\ bad THEN [cookie EXCEPT ![p] = 0] ELSE cookie
        /\ used' = IF acc /\ bad THEN [used EXCEPT ![p] = 0] ELSE used
        /\ Log("data", p, [off |-> exp[p] + d, bad |-> bad],
               (IF acc /\ d > 0 THEN <<[t |-> "nak", from |-> exp[p], to |-> exp[p] + d - 1, dst |-> sid[p]]>> ELSE <<>>)
               \o (IF acc /\ ~bad THEN <<[t |-> "ack", seq |-> e, dst |-> sid[p]]>> ELSE <<>>)
               \o (IF acc /\ bad THEN <<[t |-> "shutdown", dst |-> sid[p]]>> ELSE <<>>),
               acc)
        /\ UNCHANGED <<sid, nck>>

KeepAlive(p) ==
    /\ Log("keepalive", p, [x |-> 0],
           IF st[p] # "none" THEN <<[t |-> "keepalive", dst |-> sid[p]]>> ELSE <<>>, FALSE)
    /\ UNCHANGED <<st, cookie, used, sid, exp, nck, del, lost, acks>>

Shutdown(p) ==
    /\ st' = [st EXCEPT ![p] = "none"]
    /\ cookie' = [cookie EXCEPT ![p] = 0]
    /\ used' = [used EXCEPT ![p] = 0]
    /\ Log("shutdown", p, [x |-> 0], <<>>, FALSE)
    /\ UNCHANGED <<sid, exp, nck, del, lost, acks>>

(* Packets that mean nothing to the receiver: too short, unknown control type, stray ACKACK. *)
Junk(p, k) ==
    /\ Log("junk", p, [k |-> k], <<>>, FALSE)
    /\ UNCHANGED <<st, cookie, used, sid, exp, nck, del, lost, acks>>

Cookies == {0, -1} \cup 1..nck

Step ==
    /\ Len(hist) < MaxLen
    /\ \/ "induct" \in Acts /\ \E p \in Peers, s \in {11, 12} : Induct(p, s + 100 * p)
       \/ "conclude" \in Acts /\ \E p \in Peers, c \in Cookies, s \in {11, 12} : Conclude(p, c, s + 100 * p)
       \/ "data" \in Acts /\ \E p \in Peers, d \in Diffs : Data(p, d, FALSE)
       \/ "baddata" \in Acts /\ \E p \in Peers, d \in {0, 2} : Data(p, d, TRUE)
       \/ "keepalive" \in Acts /\ \E p \in Peers : KeepAlive(p)
       \/ "shutdown" \in Acts /\ \E p \in Peers : Shutdown(p)
       \/ "junk" \in Acts /\ \E p \in Peers, k \in 1..4 : Junk(p, k)

Next == \/ Step /\ UNCHANGED done
        \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE
           /\ UNCHANGED <<st, cookie, used, sid, exp, nck, del, lost, acks, hist>>

(* For long random behaviours: choose the kind of step first so that no kind dominates. *)
SimNext ==
    \/ /\ Len(hist) < MaxLen
       /\ UNCHANGED done
       /\ \E k \in {RandomElement(Acts)}, p \in {RandomElement(Peers)}, s0 \in {RandomElement({11, 12})} :
          LET s == s0 + 100 * p IN
            CASE k = "induct" -> Induct(p, s)
              [] k = "conclude" -> \E c \in {IF RandomElement(1..3) = 1 THEN RandomElement(Cookies) ELSE cookie[p]} :
                                   Conclude(p, c, IF st[p] = "live" /\ used[p] = c THEN sid[p] ELSE s)
              [] k = "data" -> \E d \in {RandomElement(Diffs)} : Data(p, d, FALSE)
              [] k = "baddata" -> \E d \in {RandomElement({0, 2})} : Data(p, d, TRUE)
              [] k = "keepalive" -> KeepAlive(p)
              [] k = "shutdown" -> Shutdown(p)
              [] k = "junk" -> \E j \in {RandomElement(1..4)} : Junk(p, j)
    \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE
       /\ UNCHANGED <<st, cookie, used, sid, exp, nck, del, lost, acks, hist>>

(* A single concluded session, for exhaustive enumeration of loss patterns. *)
LiveInit == /\ st = [p \in Peers |-> "live"]
            /\ cookie = [p \in Peers |-> p]
            /\ used = [p \in Peers |-> p]
            /\ sid = [p \in Peers |-> 100 * p + 11]
            /\ exp = [p \in Peers |-> 0]
            /\ nck = Cardinality(Peers)
            /\ del = [p \in Peers |-> <<>>]
            /\ lost = [p \in Peers |-> {}]
            /\ acks = [p \in Peers |-> <<>>]
            /\ hist = <<>>
            /\ done = FALSE

---------------------------------------------------------------------------
(* The properties, on the model. *)

InOrderOnce == \A p \in Peers : \A i, j \in 1..Len(del[p]) : i < j => del[p][i] < del[p][j]

(* Delivered packets and reported gaps tile [0, exp) exactly, so every missing number is reported once. *)
Covered(p) == {<<o, o>> : o \in ToSet(del[p])} \cup lost[p]
GapsExact == \A p \in Peers :
    st[p] = "live" =>
    /\ \A a, b \in Covered(p) : a # b => (a[2] < b[1] \/ b[2] < a[1])
    /\ LET RECURSIVE Sum(_)
           Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN (x[2] - x[1] + 1) + Sum(S \ {x})
       IN Sum(Covered(p)) = exp[p]

AcksMonotone == \A p \in Peers : \A i, j \in 1..Len(acks[p]) : i < j => acks[p][i] < acks[p][j]

OnlyAfterHandshake == \A i \in 1..Len(hist) :
    hist[i].del =>
      \E j \in 1..(i - 1) : \/ hist[j].act = "conclude" /\ hist[j].p = hist[i].p /\ hist[j].arg.fresh
                               /\ \A k \in j..(i - 1) : ~(hist[k].p = hist[i].p /\ hist[k].act = "shutdown")
                               /\ \E m \in 1..(j - 1) : hist[m].act = "induct" /\ hist[m].p = hist[i].p
                                      /\ hist[m].out[1].cookie = hist[j].arg.cookie

Emit == done => PrintT("@@" \o ToJson(hist))
=============================================================================
