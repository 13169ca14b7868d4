-------------------------------- MODULE RtpOut --------------------------------
(* Streams to be packetised.  "direct": every unit size against every maximum size, one access unit each.  "live":  *)
(* headers, frames and audio of a published stream; exp says which access units a player is to get on each track.    *)
EXTENDS RtpCore, FiniteSets, TLC, Json

CONSTANTS Mode, Codec, Audio, Sizes, Mtus, MaxSteps, Sim
VARIABLES hist, sets, rate, now, id, done, vexp, aexp
vars == <<hist, sets, rate, now, id, done, vexp, aexp>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

(* 32-bit arithmetic on <<hi, lo>> *)
Norm(h, l) == <<(h + l \div 65536) % 65536, l % 65536>>
Plus(x, y) == Norm(x[1] + y[1], x[2] + y[2])
Times(x, m) == Norm(x[1] * m, x[2] * m)                        \* m < 2^14
By(x, m) == Plus(Times(Times(x, m \div 256), 256), Times(x, m % 256))  \* m < 2^17
Millis(x) == LET a == x[1] \div 1000 IN <<a * 65536 + ((x[1] % 1000) * 65536 + x[2]) \div 1000, ((x[1] % 1000) * 65536 + x[2]) % 1000>>   \* seconds, milliseconds
Ticks(x, r) == LET m == Millis(x)  q == (m[2] * (r \div 10)) \div 100  IN Plus(By(<<m[1] \div 65536, m[1] % 65536>>, r), <<q \div 65536, q % 65536>>)

Types == IF Codec = "hevc" THEN {1, 0, 9, 39, 40, 19, 21, 35} ELSE {1, 6, 9, 5, 12, 23, 2}
Delim == IF Codec = "hevc" THEN 35 ELSE 9
KeyType == IF Codec = "hevc" THEN 19 ELSE 5
SetTypes == IF Codec = "hevc" THEN <<32, 33, 34>> ELSE <<7, 8>>
U(t, n, i) == [t |-> t, n |-> IF n < HeadLen(Codec) THEN HeadLen(Codec) ELSE n, id |-> i]
Init == hist = <<>> /\ sets = <<>> /\ rate = 44100 /\ now = <<0, 0>> /\ id = 1 /\ done = FALSE /\ vexp = <<>> /\ aexp = <<>>

(* direct *)
Direct == /\ Mode = "direct" /\ hist = <<>>
          /\ \E n \in Sizes, m \in Mtus, h \in {0, 3, 6} :
               hist' = <<[op |-> "unit", n |-> n, mtu |-> m, h |-> h]>>
          /\ UNCHANGED <<sets, rate, now, id, vexp, aexp, done>>

(* live *)
Header ==
  /\ \E a \in Pick({<<1, 1>>, <<1, 1>>, <<2, 2>>, <<1, 3>>, <<3, 1>>}), n \in Pick({6, 12, 40, 300}), nl \in Pick({4, 4, 2, 1}) :
       LET ss == [i \in 1..(a[1] + a[2]) |-> U(IF i <= a[1] THEN 7 ELSE 8, n + i, id + i)]
           hs == [i \in 1..(a[1] + a[2] + 1) |-> U(IF i = 1 THEN 32 ELSE IF i <= 1 + a[1] THEN 33 ELSE 34, n + i, id + i)]
       IN  /\ sets' = [s |-> IF Codec = "hevc" THEN hs ELSE ss, pending |-> TRUE, nl |-> nl]
           /\ hist' = Append(hist, [op |-> "sets", units |-> sets'.s, nl |-> nl, ts |-> now])
           /\ id' = id + Len(sets'.s) + 1
  /\ UNCHANGED <<rate, now, vexp, aexp, done>>
Frame(key, szs) ==
  \E n \in Pick(1..4), d \in Pick({0, 1, 33, 40, 1000, 70000}), cts \in Pick({0, 0, 40, 80, 300000, 0 - 40}) :
  \E sz \in {[i \in 1..n |-> RandomElement(szs)]}, ty \in {[i \in 1..n |-> RandomElement(Types)]}, aud \in {RandomElement(BOOLEAN)} :
    LET cap(x) == IF sets.nl = 1 /\ x > 255 THEN 255 ELSE IF sets.nl = 2 /\ x > 65535 THEN 65535 ELSE x
        us == [i \in 1..n |-> U(IF i = 1 /\ aud THEN Delim ELSE IF i = n /\ key THEN KeyType ELSE ty[i], cap(sz[i]), id + i)]
        t == Plus(now, <<d \div 65536, d % 65536>>)
        c == IF cts < 0 THEN 0 - cts ELSE cts
        pts == IF cts < 0 THEN Plus(t, <<65535, 65536 - c>>) ELSE Plus(t, <<c \div 65536, c % 65536>>)
        lead == us[1].t = Delim
        all == IF ~sets.pending THEN us ELSE IF lead THEN <<us[1]>> \o sets.s \o Tail(us) ELSE sets.s \o us
    IN  /\ hist' = Append(hist, [op |-> "frame", units |-> us, nl |-> sets.nl, ts |-> t, cts |-> cts, key |-> key])
        /\ vexp' = Append(vexp, [ts |-> By(pts, 90), units |-> all])
        /\ sets' = [sets EXCEPT !.pending = FALSE]
        /\ now' = t /\ id' = id + n + 1
        /\ UNCHANGED <<rate, aexp, done>>
Config == /\ \E r \in Pick({48000, 44100, 96000, 8000, 7350, 22050}) : rate' = r /\ hist' = Append(hist, [op |-> "asc", rate |-> r, ts |-> now])
          /\ UNCHANGED <<sets, now, id, vexp, aexp, done>>
Sound(szs) ==
  /\ \E n \in Pick(szs), d \in Pick({0, 21, 23, 1000, 131072}) :
       LET t == Plus(now, <<d \div 65536, d % 65536>>) IN
       /\ hist' = Append(hist, [op |-> "aud", n |-> n, id |-> id, ts |-> t])
       /\ aexp' = IF Audio = "aac" /\ n > 8191 THEN aexp ELSE Append(aexp, [ts |-> Ticks(t, IF Audio = "opus" THEN 48000 ELSE rate), units |-> <<[t |-> 0 - 1, n |-> n, id |-> id]>>])
       /\ now' = t /\ id' = id + 1
  /\ UNCHANGED <<sets, rate, vexp, done>>
Start == /\ Mode = "live" /\ hist = <<>>
         /\ \E nl \in {4}, t \in Pick({<<0, 0>>, <<0, 65000>>, <<728, 11800>>, <<32767, 65500>>, <<65000, 0>>}) :
              /\ now' = t
              /\ sets' = [s |-> [i \in 1..Len(SetTypes) |-> U(SetTypes[i], 8 + i, i)], pending |-> TRUE, nl |-> nl]
              /\ hist' = <<[op |-> "sets", units |-> sets'.s, nl |-> nl, ts |-> t], [op |-> "asc", rate |-> rate, ts |-> t]>>
         /\ id' = 5 /\ UNCHANGED <<rate, vexp, aexp, done>>
Live == /\ Mode = "live" /\ hist # <<>> /\ ~done
        /\ IF Len(hist) = 2 THEN Frame(TRUE, Sizes)
           ELSE IF Len(hist) < MaxSteps THEN
             \E w \in Pick(1..10) : IF w = 1 THEN Header ELSE IF w = 2 /\ Audio = "aac" THEN Config ELSE IF w <= 4 THEN Sound({1, 5, 100, 700, 1400, 1401, 4000, 8191} \cup (IF Audio = "aac" THEN {8192} ELSE {})) ELSE Frame(FALSE, Sizes)
           ELSE IF Len(hist) = MaxSteps THEN Frame(FALSE, {20})
           ELSE IF Len(hist) = MaxSteps + 1 THEN Sound({30})
           ELSE done' = TRUE /\ UNCHANGED <<hist, sets, rate, now, id, vexp, aexp>>
Next == Direct \/ Start \/ Live

(* The packetiser of RtpCore, with any cuts, and its receiver are inverse: checked for every unit of the direct scope. *)
Content(n, h) == IF Codec = "hevc" THEN [i \in 1..n |-> IF i = 1 THEN 2 + (h % 2) + 128 * (h \div 2) ELSE IF i = 2 THEN 8 * h + 1 ELSE (i * 7) % 256]
                 ELSE IF Codec = "h264" THEN [i \in 1..n |-> IF i = 1 THEN 32 * h + 128 * (h % 2) + 5 ELSE (i * 7) % 256] ELSE [i \in 1..n |-> (i * 7) % 256]
RECURSIVE Cuts(_, _)
Cuts(n, most) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o c : c \in Cuts(n - k, most)} : k \in 1..(IF most < n THEN most ELSE n)}
RoundTrip == Mode = "direct" /\ hist # <<>> =>
  LET x == hist[1]
      u == Content(x.n, 1)
      few == x.n <= 9
      most == x.mtu - 1 - HeadLen(Codec)
      body == x.n - HeadLen(Codec)
      cuts == IF ~few \/ most < 1 \/ body < 2 THEN {} ELSE {c \in Cuts(body, most) : Len(c) > 1}
      r == Receive(Codec, <<Whole(Codec, u)>>)
  IN  /\ x.n < 8192 => r.err = "" /\ r.out = <<u>>
      /\ Codec \in {"h264", "hevc"} => \A c \in cuts : LET ps == Pieces(Codec, u, c)  g == Receive(Codec, ps) IN
            /\ g.err = "" /\ g.out = <<u>> /\ ~g.on /\ \A i \in DOMAIN ps : Len(ps[i]) <= x.mtu
            /\ \A i \in {1, Len(ps)} : Receive(Codec, [j \in 1..(Len(ps) - 1) |-> ps[IF j < i THEN j ELSE j + 1]]).out = <<>>   \* none without its ends; those between go by sequence number, see Rtp
Emit == (done \/ (Mode = "direct" /\ hist # <<>>)) => PrintT("@@" \o ToJson([mode |-> Mode, codec |-> Codec, audio |-> Audio, steps |-> hist, vexp |-> vexp, aexp |-> aexp]))
=============================================================================
