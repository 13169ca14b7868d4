--------------------------------- MODULE Codec --------------------------------
(* Decoder configurations: AVC and HEVC decoder configuration records (ISO/IEC 14496-15), AudioSpecificConfig and *)
(* ADTS (14496-3), and what a parser that is handed a series of them knows.  Bytes are tokens: [b |-> 0..255] for *)
(* a byte, [t |-> type, n |-> size, id |-> number] for a NAL unit of n bytes.                                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Codec, Sizes, MaxSets, MaxSteps, MaxUnits, Sim
VARIABLES hist, cur, done
vars == <<hist, cur, done>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

B(x) == [b |-> x, t |-> -1, n |-> 1, id |-> 0]
N(t, n, id) == [b |-> -1, t |-> t, n |-> n, id |-> id]
B2(x) == <<B(x \div 256), B(x % 256)>>
Bs(s) == [i \in 1..Len(s) |-> B(s[i])]
Size(toks) == FoldSeq(LAMBDA x, a : a + x.n, 0, toks)
Unit(u) == B2(u.n) \o <<u>>
Units(us) == FlattenSeq([i \in 1..Len(us) |-> Unit(us[i])])

(* --- records --- *)
AvcRecord(nl, sps, pps, ext) == Bs(<<1, 66, 192, 30, 252 + nl - 1, 224 + Len(sps)>>) \o Units(sps) \o <<B(Len(pps))>> \o Units(pps) \o Bs([i \in 1..ext |-> 253 - i])
HevcRecord(nl, arrays) == Bs(<<1, 1, 96, 0, 0, 0, 144, 0, 0, 0, 0, 0, 93, 240, 0, 252, 253, 248, 248, 0, 0, 12 + nl - 1, Len(arrays)>>)
    \o FlattenSeq([i \in 1..Len(arrays) |-> <<B(128 + arrays[i].t)>> \o B2(Len(arrays[i].us)) \o Units(arrays[i].us)])

(* --- reading them back: a cursor over tokens --- *)
RECURSIVE Take(_, _)
Take(toks, k) == IF k = 0 THEN [us |-> <<>>, rest |-> toks]
    ELSE LET r == Take(SubSeq(toks, 4, Len(toks)), k - 1)
         IN  IF toks[1].b * 256 + toks[2].b = toks[3].n THEN [us |-> <<toks[3]>> \o r.us, rest |-> r.rest] ELSE Assert(FALSE, "unit size")
ReadAvc(r) == LET s == Take(SubSeq(r, 7, Len(r)), r[6].b % 32)
                  p == Take(SubSeq(s.rest, 2, Len(s.rest)), s.rest[1].b)
              IN  [nl |-> (r[5].b % 4) + 1, sets |-> s.us \o p.us]
RECURSIVE Arrays(_, _)
Arrays(toks, k) == IF k = 0 THEN <<>> ELSE LET a == Take(SubSeq(toks, 4, Len(toks)), toks[2].b * 256 + toks[3].b) IN a.us \o Arrays(a.rest, k - 1)
ReadHevc(r) == [nl |-> (r[22].b % 4) + 1, sets |-> Arrays(SubSeq(r, 24, Len(r)), r[23].b)]

(* --- AudioSpecificConfig and ADTS, as bits --- *)
Rates == <<96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350>>
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Bits(v, k) == [i \in 1..k |-> (v \div Pow2(k - i)) % 2]
Val(s) == FoldLeft(LAMBDA a, x : 2 * a + x, 0, s)
Bytes(s) == LET p == s \o [i \in 1..((8 - (Len(s) % 8)) % 8) |-> 0] IN [i \in 1..(Len(p) \div 8) |-> Val(SubSeq(p, 8 * i - 7, 8 * i))]
AscBits(a) == (IF a.aot >= 31 THEN Bits(31, 5) \o Bits(a.aot - 32, 6) ELSE Bits(a.aot, 5))
              \o (IF a.spelled THEN Bits(15, 4) \o Bits(Rates[a.sr + 1], 24) ELSE Bits(a.sr, 4)) \o Bits(a.ch, 4)
Asc(a) == Bytes(AscBits(a) \o Bits(0, 3) \o [i \in 1..(8 * a.ext) |-> i % 2])
Core(aot) == IF aot \in {5, 29} THEN 2 ELSE aot
Adts(a, n) == Bytes(Bits(4095, 12) \o Bits(0, 3) \o Bits(1, 1) \o Bits(Core(a.aot) - 1, 2) \o Bits(a.sr, 4) \o Bits(0, 1) \o Bits(a.ch, 3)
              \o Bits(0, 4) \o Bits(n + 7, 13) \o Bits(2047, 11) \o Bits(0, 2))
Field(h, from, k) == Val(SubSeq(FlattenSeq([i \in 1..Len(h) |-> Bits(h[i], 8)]), from + 1, from + k))

(* --- what a parser does --- *)
None == [nl |-> 4, sets |-> <<>>, a |-> [aot |-> 0, sr |-> 0, ch |-> 0, spelled |-> FALSE, ext |-> 0], ok |-> FALSE]
IsSPS(t) == t = (IF Codec = "hevc" THEN 33 ELSE 7)
IsPPS(t) == t = (IF Codec = "hevc" THEN 34 ELSE 8)
IsAUD(t) == t = (IF Codec = "hevc" THEN 35 ELSE 9)
IsRAP(t) == IF Codec = "hevc" THEN t \in 16..23 ELSE t = 5
Types == IF Codec = "hevc" THEN {1, 19, 20, 21, 33, 34, 35, 39} ELSE {1, 5, 6, 7, 8, 9, 12}
AnnexB(us, key) == LET own == (\E i \in DOMAIN us : IsSPS(us[i].t)) /\ (\E i \in DOMAIN us : IsPPS(us[i].t))
                       rap == key \/ \E i \in DOMAIN us : IsRAP(us[i].t)
                   IN  (IF rap /\ ~own THEN cur.sets ELSE <<>>) \o SelectSeq(us, LAMBDA u : ~IsAUD(u.t))
Id == 100 * Len(hist)
MkUnits(t, ns, base) == [i \in 1..Len(ns) |-> N(t, ns[i], Id + base + i)]
SizeSeqs(lo) == UNION {[1..k -> Sizes] : k \in lo..MaxSets}
RandSizes(lo) == LET k == RandomElement(lo..MaxSets) IN {[i \in 1..k |-> RandomElement(Sizes)]}
PickSizes(lo) == IF Sim THEN RandSizes(lo) ELSE SizeSeqs(lo)
Step(s, c) == hist' = Append(hist, s) /\ cur' = c /\ UNCHANGED done
Open == ~done /\ Len(hist) < MaxSteps

AvcRec == /\ Open /\ Codec = "avc"
          /\ \E nl \in Pick(1..4) : \E a \in PickSizes(0) : \E b \in PickSizes(0) : \E ext \in Pick({0, 4}) :
             LET sps == MkUnits(7, a, 0)  pps == MkUnits(8, b, 40)  r == AvcRecord(nl, sps, pps, ext)
             IN  \E cut \in Pick(IF Sim THEN {0, 1, 2} \cup 0..Size(r) ELSE {0, ext + 1, Size(r) - 7, Size(r) - 6, Size(r)}) :
                 LET ok == cut <= ext /\ sps # <<>> /\ pps # <<>>
                 IN  Step([op |-> "rec", bytes |-> r, cut |-> cut, ok |-> ok, sets |-> sps \o pps, nl |-> nl],
                          IF ok THEN [cur EXCEPT !.nl = nl, !.sets = sps \o pps, !.ok = TRUE] ELSE [cur EXCEPT !.ok = FALSE])
HevcRec == /\ Open /\ Codec = "hevc"
           /\ \E nl \in Pick(1..4) : \E v \in PickSizes(1) : \E a \in PickSizes(1) : \E b \in PickSizes(1) : \E order \in Pick({<<32, 33, 34>>, <<32, 33, 34, 39>>, <<33, 32, 34>>}) :
              LET us == [x \in {32, 33, 34, 39} |-> IF x = 32 THEN MkUnits(32, v, 0) ELSE IF x = 33 THEN MkUnits(33, a, 20) ELSE IF x = 34 THEN MkUnits(34, b, 40) ELSE MkUnits(39, <<9>>, 60)]
                  arr == [i \in 1..Len(order) |-> [t |-> order[i], us |-> us[order[i]]]]
                  r == HevcRecord(nl, arr)
                  sets == FlattenSeq([i \in 1..Len(order) |-> us[order[i]]])
              IN  \E cut \in Pick(IF Sim THEN {0, 0, 0, 1, Size(r) - 23, Size(r)} \cup 0..3 ELSE {0, 1}) :
                  LET ok == cut = 0
                  IN  Step([op |-> "rec", bytes |-> r, cut |-> cut, ok |-> ok, sets |-> sets, nl |-> nl], IF ok THEN [cur EXCEPT !.nl = nl, !.sets = sets, !.ok = TRUE] ELSE [cur EXCEPT !.ok = FALSE])
Fit(n) == IF cur.nl = 1 /\ n > 255 THEN 255 ELSE n
UnitSeqs == IF Sim THEN LET k == RandomElement(1..MaxUnits) IN {[i \in 1..k |-> [t |-> RandomElement(Types), n |-> RandomElement(Sizes)]]}
            ELSE UNION {[1..k -> [t : Types, n : {CHOOSE x \in Sizes : TRUE}]] : k \in 1..MaxUnits}
AU == /\ Open /\ Codec \in {"avc", "hevc"}
      /\ \E us \in UnitSeqs : \E key \in Pick(IF Codec = "hevc" THEN {TRUE} ELSE BOOLEAN) : \E bad \in Pick(IF Sim /\ Codec = "avc" THEN {0, 0, 0, 1, 2} ELSE {0}) :
           LET q == [i \in 1..Len(us) |-> N(us[i].t, Fit(us[i].n), Id + i)]
           IN  Step([op |-> "au", units |-> q, nl |-> cur.nl, key |-> key, bad |-> bad, ok |-> bad = 0, out |-> AnnexB(q, key)], cur)
AacRec == /\ Open /\ Codec = "aac"
          /\ \E aot \in Pick({1, 2, 3, 4, 5, 6, 17, 23, 29, 34, 39, 42}) : \E sr \in Pick(0..12) : \E ch \in Pick(0..7) : \E sp \in Pick(BOOLEAN) : \E ext \in Pick({0, 3}) : \E cut \in Pick({0, 1, 2, 3, 5}) :
             LET a == [aot |-> aot, sr |-> sr, ch |-> ch, spelled |-> sp, ext |-> ext]
                 b == Asc(a)
                 ok == 8 * (Len(b) - cut) >= Len(AscBits(a))
             IN  cut <= Len(b) /\ Step([op |-> "asc", bytes |-> b, cut |-> cut, ok |-> ok, a |-> IF ok THEN a ELSE cur.a], IF ok THEN [cur EXCEPT !.a = a, !.ok = TRUE] ELSE cur)
Frame == /\ Open /\ Codec = "aac" /\ cur.ok /\ Core(cur.a.aot) \in 1..4
         /\ \E n \in Pick(Sizes) : Step([op |-> "frame", n |-> n, adts |-> Adts(cur.a, n)], cur)

Init == hist = <<>> /\ cur = None /\ done = FALSE
Finish == ~done /\ hist # <<>> /\ (Sim => Len(hist) = MaxSteps) /\ done' = TRUE /\ UNCHANGED <<hist, cur>>
Next == AvcRec \/ HevcRec \/ AU \/ AacRec \/ Frame \/ Finish
Spec == Init /\ [][Next]_vars

(* A record says what it was made of; ADTS states the configuration and the length. *)
Faithful == hist # <<>> => LET s == hist[Len(hist)] IN
    CASE s.op = "rec" /\ Codec = "avc" -> ReadAvc(s.bytes) = [nl |-> s.nl, sets |-> s.sets]
      [] s.op = "rec" /\ Codec = "hevc" -> ReadHevc(s.bytes) = [nl |-> s.nl, sets |-> s.sets]
      [] s.op = "frame" -> /\ Len(s.adts) = 7 /\ Field(s.adts, 0, 12) = 4095 /\ Field(s.adts, 16, 2) + 1 = Core(cur.a.aot)
                           /\ Field(s.adts, 18, 4) = cur.a.sr /\ Field(s.adts, 23, 3) = cur.a.ch /\ Field(s.adts, 30, 13) = s.n + 7
      [] OTHER -> TRUE
Emit == done => PrintT("@@" \o ToJson([codec |-> Codec, steps |-> hist]))
=============================================================================
