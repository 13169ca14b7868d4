--------------------------------- MODULE Flv --------------------------------
(* FLV: the file a viewer of a stream receives, byte by byte except for the payloads.  A message has a kind,   *)
(* n bytes of payload and a 32-bit time stamp <<high word, low word>>.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, Sizes, Times, MaxMsgs, Sim
VARIABLES msgs, done
vars == <<msgs, done>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X
\* the X kinds have packet types and sound formats that nobody has a name for
Type(k) == IF k \in {"meta", "data"} THEN 18 ELSE IF k \in {"aac", "aacHdr", "mp3", "g711", "opus", "opusHdr", "speex", "aacX", "opusX", "anyX"} THEN 8 ELSE 9
(* the least payload each kind of message has *)
Least(k) == IF Type(k) = 9 THEN (IF k \in {"h263", "vp6", "h263key", "vp6key"} THEN 2 ELSE 7) ELSE IF Type(k) = 8 THEN 3 ELSE 40
B3(n) == <<n \div 65536, (n \div 256) % 256, n % 256>>
B4(n) == <<n \div 16777216>> \o B3(n % 16777216)
FileHeader == <<70, 76, 86, 1, 5, 0, 0, 0, 9>> \o B4(0)
TagHead(m) == <<Type(m.k)>> \o B3(m.n) \o <<m.ts[1] % 256, m.ts[2] \div 256, m.ts[2] % 256, m.ts[1] \div 256>> \o B3(0)
Tail_(m) == B4(m.n + 11)

(* Reading a head back. *)
ReadHead(h) == [ty |-> h[1], n |-> h[2] * 65536 + h[3] * 256 + h[4], ts |-> <<h[8] * 256 + h[5], h[6] * 256 + h[7]>>, sid |-> <<h[9], h[10], h[11]>>]
KeyKinds == {"key", "hevcKey", "av1Key", "h263key", "vp6key"}
Inter == {"inter", "hevcInter", "h263", "vp6", "eos"}
(* A group starts with a keyframe; what cannot be decoded is not relayed: inter frames in front of the first keyframe. *)
Keyed(q) == \E i \in 1..Len(q) : q[i].k \in KeyKinds
Delivered(q, i) == ~(q[i].k \in Inter /\ ~Keyed(SubSeq(q, 1, i)))

Init == msgs = <<>> /\ done = FALSE
Add == /\ ~done /\ Len(msgs) < MaxMsgs
       /\ \E k \in Pick(Kinds) : \E n \in Pick(Sizes) : \E ts \in Pick(Times) :
            msgs' = Append(msgs, [k |-> k, n |-> IF n < Least(k) THEN Least(k) ELSE n, ts |-> ts])
       /\ UNCHANGED done
Finish == ~done /\ msgs # <<>> /\ (Sim => Len(msgs) = MaxMsgs) /\ done' = TRUE /\ UNCHANGED msgs
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars
Faithful == \A i \in 1..Len(msgs) : ReadHead(TagHead(msgs[i])) = [ty |-> Type(msgs[i].k), n |-> msgs[i].n, ts |-> msgs[i].ts, sid |-> <<0, 0, 0>>]
(* Sent first of all to viewers, it shows that they have joined: a header sent before may reach them twice. *)
First == [k |-> "mp3", n |-> 3, ts |-> <<0, 0>>]
Emit == done => PrintT("@@" \o ToJson([file |-> FileHeader, first |-> [head |-> TagHead(First), tail |-> Tail_(First)], msgs |-> [i \in 1..Len(msgs) |-> [k |-> msgs[i].k, n |-> msgs[i].n, ts |-> msgs[i].ts, ty |-> Type(msgs[i].k), head |-> TagHead(msgs[i]), tail |-> Tail_(msgs[i]), del |-> Delivered(msgs, i)]]]))
=============================================================================
