--------------------------------- MODULE Amf --------------------------------
(* AMF0.  A value is a record: [t |-> "num", w] (IEEE 754, four 16-bit words), "bool", "str" (n bytes from c    *)
(* on), "long" (the long form whatever the length), "null", "undef", "obj" and "ecma" (pairs of a key string   *)
(* and a value; ecma with a count that is only a hint), "arr", "date" (milliseconds as in num, and a zone).    *)
(* Enc is the encoding, Dec a decoder written from the specification of AMF0.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Small, MaxVals, Depth, Lens, Sim, Plain
VARIABLES vals, done
vars == <<vals, done>>

Char(c, i) == 97 + ((c + i) % 26)
Chars(s) == [i \in 1..s.n |-> IF s.c = 200 THEN 128 + (i % 2) * 66 ELSE Char(s.c, i)]
H(x) == <<x \div 256, x % 256>>
H4(x) == H(x \div 65536) \o H(x % 65536)
Num(w) == FlattenSeq([i \in 1..4 |-> H(w[i])])
Str16(s) == H(s.n) \o Chars(s)
RECURSIVE Enc(_), Pairs(_)
Pairs(p) == FlattenSeq([i \in 1..Len(p) |-> Str16(p[i].k) \o Enc(TLCEval(p[i].v))]) \o <<0, 0, 9>>
Enc(v) == CASE v.t = "num" -> <<0>> \o Num(v.w)
            [] v.t = "bool" -> <<1, IF v.b THEN 1 ELSE 0>>
            [] v.t = "str" -> IF v.n > 65535 THEN <<12>> \o H4(v.n) \o Chars(v) ELSE <<2>> \o Str16(v)
            [] v.t = "long" -> <<12>> \o H4(v.n) \o Chars(v)
            [] v.t = "null" -> <<5>>
            [] v.t = "undef" -> <<6>>
            [] v.t = "obj" -> <<3>> \o Pairs(v.p)
            [] v.t = "ecma" -> <<8>> \o H4(v.h) \o Pairs(v.p)
            [] v.t = "arr" -> <<10>> \o H4(Len(v.e)) \o FlattenSeq([i \in 1..Len(v.e) |-> Enc(TLCEval(v.e[i]))])
            [] v.t = "date" -> <<11>> \o Num(v.w) \o H(v.z)
EncAll(vs) == FlattenSeq([i \in 1..Len(vs) |-> Enc(vs[i])])

(* What a value means once decoded: forms are forgotten. *)
RECURSIVE Mean(_)
Mean(v) == CASE v.t \in {"str", "long"} -> [t |-> "str", s |-> Chars(v)]
             [] v.t \in {"null", "undef"} -> [t |-> "null"]
             [] v.t \in {"obj", "ecma"} -> [t |-> "obj", p |-> TLCEval([i \in 1..Len(v.p) |-> <<Chars(v.p[i].k), TLCEval(Mean(TLCEval(v.p[i].v)))>>])]
             [] v.t = "arr" -> [t |-> "arr", e |-> TLCEval([i \in 1..Len(v.e) |-> TLCEval(Mean(TLCEval(v.e[i])))])]
             [] v.t = "date" -> [t |-> "date", w |-> v.w]
             [] OTHER -> v

(* The decoder: DecAt(b, i) is <<value's meaning, index behind it>>, or <<"short">> / <<"bad">>. *)
Word(b, i) == b[i] * 256 + b[i + 1]
RECURSIVE DecAt(_, _), DecPairs(_, _, _), DecList(_, _, _, _), DecAll(_, _, _)
Short == <<"short">>
DecAt(b, i) ==
  IF i > Len(b) THEN Short
  ELSE LET m == b[i] j == i + 1 left == Len(b) - i IN
    CASE m = 0 -> IF left < 8 THEN Short ELSE <<[t |-> "num", w |-> [x \in 1..4 |-> Word(b, j + 2 * (x - 1))]], j + 8>>
      [] m = 1 -> IF left < 1 THEN Short ELSE <<[t |-> "bool", b |-> b[j] # 0], j + 1>>
      [] m = 2 -> IF left < 2 THEN Short ELSE LET n == Word(b, j) IN IF left < 2 + n THEN Short ELSE <<[t |-> "str", s |-> SubSeq(b, j + 2, j + 1 + n)], j + 2 + n>>
      [] m = 12 -> IF left < 4 THEN Short ELSE LET n == Word(b, j) * 65536 + Word(b, j + 2) IN IF left < 4 + n THEN Short ELSE <<[t |-> "str", s |-> SubSeq(b, j + 4, j + 3 + n)], j + 4 + n>>
      [] m \in {5, 6} -> <<[t |-> "null"], j>>
      [] m = 3 -> DecPairs(b, j, <<>>)
      [] m = 8 -> IF left < 4 THEN Short ELSE DecPairs(b, j + 4, <<>>)
      [] m = 10 -> IF left < 4 THEN Short ELSE DecList(b, j + 4, Word(b, j) * 65536 + Word(b, j + 2), <<>>)
      [] m = 11 -> IF left < 10 THEN Short ELSE <<[t |-> "date", w |-> [x \in 1..4 |-> Word(b, j + 2 * (x - 1))]], j + 10>>
      [] OTHER -> <<"bad">>
DecPairs(b, i, p) ==
  IF Len(b) - i + 1 < 2 THEN Short
  ELSE LET n == Word(b, i) IN
       IF Len(b) - i + 1 < 3 + n THEN Short
       ELSE IF n = 0 /\ b[i + 2] = 9 THEN <<[t |-> "obj", p |-> p], i + 3>>
       ELSE LET d == TLCEval(DecAt(b, TLCEval(i + 2 + n))) IN IF Len(d) = 1 THEN d ELSE DecPairs(b, TLCEval(d[2]), TLCEval(Append(p, <<SubSeq(b, i + 2, i + 1 + n), d[1]>>)))
DecList(b, i, n, e) == IF n = 0 THEN <<[t |-> "arr", e |-> e], i>>
                       ELSE LET d == TLCEval(DecAt(b, i)) IN IF Len(d) = 1 THEN d ELSE DecList(b, TLCEval(d[2]), TLCEval(n - 1), TLCEval(Append(e, d[1])))
DecAll(b, i, e) == IF i = Len(b) + 1 THEN <<e, i>> ELSE LET d == TLCEval(DecAt(b, i)) IN IF Len(d) = 1 THEN d ELSE DecAll(b, TLCEval(d[2]), TLCEval(Append(e, d[1])))

(* Values *)
Words == {<<0, 0, 0, 0>>, <<32768, 0, 0, 0>>, <<16368, 0, 0, 0>>, <<49136, 0, 0, 0>>, <<16927, 65535, 65535, 65535>>, <<32752, 0, 0, 0>>,
          <<65520, 0, 0, 0>>, <<32752, 0, 0, 1>>, <<0, 0, 0, 1>>, <<32751, 65535, 65535, 65535>>, <<16400, 0, 0, 0>>, <<16592, 0, 0, 0>>, <<17024, 0, 0, 0>>, <<16313, 39321, 39321, 39322>>}
         \* the ends of the integer types: 2^7-1, -2^7, 2^8-1, 2^15-1, -2^15, 2^16-1, 2^16, 2^31-1, 2^31, -2^31, 2^32-1, 2^32, 2^53, 2^63, -2^63, 2^64-2^11
         \cup {<<16479, 49152, 0, 0>>, <<49248, 0, 0, 0>>, <<16495, 57344, 0, 0>>, <<16607, 65472, 0, 0>>, <<49376, 0, 0, 0>>, <<16623, 65504, 0, 0>>, <<16624, 0, 0, 0>>,
               <<16863, 65535, 65472, 0>>, <<16864, 0, 0, 0>>, <<49632, 0, 0, 0>>, <<16879, 65535, 65504, 0>>, <<16880, 0, 0, 0>>,
               <<17216, 0, 0, 0>>, <<17376, 0, 0, 0>>, <<50144, 0, 0, 0>>, <<17391, 65535, 65535, 65535>>}
Dates == {<<0, 0, 0, 0>>, <<16992, 0, 0, 0>>, <<17015, 16384, 0, 0>>, <<49760, 0, 0, 0>>, <<16368, 0, 0, 0>>}  \* whole milliseconds within +-200 years
Str(n, c) == [t |-> "str", n |-> n, c |-> c]
Key(n, c) == [n |-> n, c |-> c]
Atoms == {[t |-> "num", w |-> <<16368, 0, 0, 0>>], [t |-> "bool", b |-> TRUE], Str(0, 0), Str(3, 1), [t |-> "null"]}
          \cup (IF Plain THEN {} ELSE {[t |-> "long", n |-> 2, c |-> 5], [t |-> "undef"], [t |-> "date", w |-> <<17015, 16384, 0, 0>>, z |-> 0]})
Level1 == Atoms \cup {[t |-> k, p |-> q, h |-> 1] : k \in (IF Plain THEN {"obj"} ELSE {"obj", "ecma"}), q \in {<<>>} \cup {<<[k |-> Key(n, 7), v |-> a]>> : n \in {0, 2}, a \in Atoms}}
                \cup (IF Plain THEN {} ELSE {[t |-> "arr", e |-> q] : q \in {<<>>} \cup {<<a>> : a \in Atoms}})
RECURSIVE Rnd(_)
R(X) == RandomElement(X)
RKey(i) == Key(R({0, 1, 2, 5, 30}), i * 3 + R(0..2))
RPairs(d, n) == [i \in 1..n |-> [k |-> Key(i, R({i, 200})), v |-> Rnd(d - 1)]]     \* keys differ in length
Rnd(d) == LET k == R(IF d <= 0 THEN 1..9 ELSE 1..14) IN
  CASE k \in {1, 2} -> [t |-> "num", w |-> R(Words)]
    [] k = 3 -> [t |-> "num", w |-> <<R(0..65535), R(0..65535), R(0..65535), R(0..65535)>>]
    [] k = 4 -> [t |-> "bool", b |-> R(BOOLEAN)]
    [] k \in {5, 6} -> Str(R(Lens), R({0, 7, 13, 200}))
    [] k = 7 -> [t |-> "null"]
    [] k = 8 -> IF Plain THEN [t |-> "null"] ELSE [t |-> R({"undef", "null"})]
    [] k = 9 -> IF Plain THEN Str(R(Lens), 3) ELSE IF R(BOOLEAN) THEN [t |-> "long", n |-> R(Lens), c |-> 3] ELSE [t |-> "date", w |-> R(Dates), z |-> R({0, 60, 65476})]
    [] k \in {10, 11} -> [t |-> "obj", p |-> RPairs(d, R(0..3)), h |-> 0]
    [] k \in {12, 13} -> IF Plain THEN [t |-> "obj", p |-> RPairs(d, R(0..4)), h |-> 0] ELSE [t |-> "ecma", p |-> RPairs(d, R(0..3)), h |-> R({0, 1, 3, 65535})]
    [] OTHER -> IF Plain THEN [t |-> "obj", p |-> RPairs(d, 1), h |-> 0] ELSE [t |-> "arr", e |-> [i \in 1..R(0..3) |-> Rnd(d - 1)]]
RECURSIVE Deep(_, _)
Deep(n, v) == IF n = 0 THEN v ELSE Deep(n - 1, [t |-> "obj", p |-> <<[k |-> Key(1, n % 5), v |-> v]>>, h |-> 0])

Nums == {[t |-> "num", w |-> w] : w \in Words}
Init == vals = <<>> /\ done = FALSE
Add == /\ ~done /\ Len(vals) < MaxVals
       /\ \E v \in (IF Sim THEN {IF R(1..8) = 1 THEN Deep(R(1..30), Rnd(0)) ELSE Rnd(Depth)} ELSE IF Small THEN Level1 \cup (IF MaxVals = 1 THEN Nums ELSE {}) ELSE {Str(n, c) : n \in Lens, c \in {0, 200}}) : vals' = Append(vals, v)
       /\ UNCHANGED done
Finish == ~done /\ vals # <<>> /\ done' = TRUE /\ UNCHANGED vals
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars

Ends == [i \in 1..Len(vals) |-> Len(EncAll(SubSeq(vals, 1, i)))]
RoundTrip == done => \A b \in {EncAll(vals)} : DecAll(b, 1, <<>>)[1] = [i \in 1..Len(vals) |-> TLCEval(Mean(vals[i]))]
(* A prefix decodes if and only if it ends with a value. *)
EveryPrefix == done /\ Len(EncAll(vals)) < 200 =>
              \A b \in {EncAll(vals)} : \A n \in 0..Len(b) : \A d \in {DecAll(SubSeq(b, 1, n), 1, <<>>)} :
                IF n = 0 \/ \E i \in 1..Len(vals) : Ends[i] = n THEN Len(d) = 2 ELSE d = Short
Emit == done => PrintT("@@" \o ToJson([vals |-> vals, b |-> IF Len(EncAll(vals)) < 3000 THEN EncAll(vals) ELSE <<>>, ends |-> Ends]))
=============================================================================
