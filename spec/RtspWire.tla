-------------------------------- MODULE RtspWire -------------------------------
(* One direction of an RTSP connection as bytes: requests with header lines and bodies, and interleaved frames (RFC  *)
(* 2326 10.12), taken off in reads of any size.  The parser is a machine over single bytes; what it makes of a       *)
(* message must be the message, wherever the reads end.                                                               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Kinds, MaxItems, Reads, Sim, EmitAll
VARIABLES items, wire, pos, ps, evs, cuts, done
vars == <<items, wire, pos, ps, evs, cuts, done>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

(* ---- bytes: one-letter strings, "CR", "LF", "NUL", "C3", "A9", and "XK" for a thousand x ---- *)
S(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
W(c) == IF c = "XK" THEN 1000 ELSE 1
RECURSIVE Weigh(_, _)
Weigh(s, i) == IF i > Len(s) THEN 0 ELSE W(s[i]) + Weigh(s, i + 1)
Up == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lo == "abcdefghijklmnopqrstuvwxyz"
LowOf == [c \in {SubSeq(Up, i, i) : i \in 1..26} |-> LET i == CHOOSE i \in 1..26 : SubSeq(Up, i, i) = c IN SubSeq(Lo, i, i)]
Lower(c) == IF c \in DOMAIN LowOf THEN LowOf[c] ELSE c
Digits == "0123456789"
ValOf == [c \in {SubSeq(Digits, i, i) : i \in 1..10} |-> (CHOOSE i \in 1..10 : SubSeq(Digits, i, i) = c) - 1]
IsDigit(c) == c \in DOMAIN ValOf
Val(c) == ValOf[c]
RECURSIVE Number(_)
Number(s) == IF s = <<>> THEN 0 ELSE 10 * Number(Front(s)) + Val(Last(s))
Decimal(n) == IF n < 10 THEN <<SubSeq(Digits, n + 1, n + 1)>> ELSE S(ToString(n))
Blank(c) == c \in {" ", "CR", "LF", "\t"}
Trim(s) == LET k == {i \in 1..Len(s) : ~Blank(s[i])} IN IF k = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in k : \A j \in k : i <= j, CHOOSE i \in k : \A j \in k : i >= j)
Find(s, c) == LET k == {i \in 1..Len(s) : s[i] = c} IN IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : i <= j
RECURSIVE NoCR(_)
NoCR(s) == IF s # <<>> /\ Last(s) = "CR" THEN NoCR(Front(s)) ELSE s

(* ---- messages ---- *)
H(k, sep, v) == [k |-> k, sep |-> sep, v |-> v]
Extra == {<<>>, <<H("Accept", ": ", "a:b")>>, <<H("x-empty", ":", ""), H("X-More", ": ", "1"), H("USER-agent", ":", "$ RTSP/1.0")>>, <<H("Range", " :\t", " npt=0- ")>>,
          <<H("Content-Type", ":", "text/parameters"), H("Require", ": ", "$")>>}
LenName == {"Content-Length", "content-length", "CONTENT-LENGTH", "Content-length"}
Bodies == {<<>>, S("x"), S("position"), S("$") \o <<"NUL", "NUL", "NUL">>, <<"CR", "LF", "CR", "LF">>, S("OPTIONS * RTSP/1.0") \o <<"CR", "LF", "CR", "LF">>, S("$$$$$$"), <<"C3", "A9", "C3", "A9", "NUL">>, <<"XK", "LF", "XK">>, [i \in 1..70 |-> "XK"]}
Methods == {"OPTIONS", "GET_PARAMETER", "SET_PARAMETER", "FOO"}
Reqs == [k : {"req"}, m : Methods, url : {"*", "rtsp://h:554/live/x?a=$"}, ex : Extra, ln : LenName, body : Bodies, eol : {"crlf", "lf"}, zero : BOOLEAN]
(* chans: as letters; "NUL" is 0, "$" 36, "O" 79 *)
Loads == {<<>>, S("e"), S("eOPTIONS * RTSP/1.0") \o <<"CR", "LF", "CR", "LF">>, S("e$") \o <<"NUL", "NUL", "NUL">>, S("e$$$"), <<"e", "C3", "A9", "LF">>, <<"e", "XK", "CR", "LF", "XK">>, [i \in 1..66 |-> IF i = 1 THEN "e" ELSE "XK"]}
Frames == [k : {"frame"}, ch : {"NUL", "$", "O"}, p : Loads]
Bad == [k : {"bad"}, how : {"line", "colon", "len", "neg", "huge"}]
Few == [k : {"req"}, m : {"GET_PARAMETER"}, url : {"*"}, ex : {<<>>, <<H("Range", " :\t", " npt=0- ")>>}, ln : {"content-Length"}, body : {<<>>, S("$") \o <<"NUL", "LF">>, <<"CR", "LF", "CR", "LF">>}, eol : {"crlf", "lf"}, zero : {TRUE}]
       \cup [k : {"frame"}, ch : {"NUL", "$", "O"}, p : {<<>>, S("$$"), S("A B C") \o <<"CR", "LF", "CR", "LF">>}]
Some == [k : {"req"}, m : {"OPTIONS", "FOO"}, url : {"rtsp://h:554/live/x?a=$"}, ex : Extra, ln : {"CONTENT-length"}, body : Bodies, eol : {"crlf", "lf"}, zero : {TRUE}] \cup Frames
Items == IF "few" \in Kinds THEN Few ELSE IF "some" \in Kinds THEN Some ELSE (IF "req" \in Kinds THEN Reqs ELSE {}) \cup (IF "frame" \in Kinds THEN Frames ELSE {})

Eol(x) == IF x.eol = "lf" THEN <<"LF">> ELSE <<"CR", "LF">>
Lines(hs, eol) == FlattenSeq([i \in 1..Len(hs) |-> S(hs[i].k) \o S(hs[i].sep) \o hs[i].v \o eol])
HasLen(x) == x.body # <<>> \/ x.zero
Heads(x, n) == <<[k |-> "CSeq", sep |-> ": ", v |-> Decimal(n)]>> \o [i \in 1..Len(x.ex) |-> [k |-> x.ex[i].k, sep |-> x.ex[i].sep, v |-> S(x.ex[i].v)]]
               \o IF HasLen(x) THEN <<[k |-> x.ln, sep |-> ": ", v |-> Decimal(Weigh(x.body, 1))]>> ELSE <<>>
Byte16(n) == <<[hi |-> n \div 256], [lo |-> n % 256]>>
(* n: the item's number, the request's CSeq *)
BadText(h) == IF h = "line" THEN S("OPTIONS *") \o <<"CR", "LF", "CR", "LF">>
              ELSE S("OPTIONS * RTSP/1.0") \o <<"CR", "LF">> \o
                   (CASE h = "colon" -> S("CSeq 9") [] h = "len" -> S("Content-Length: five") [] h = "neg" -> S("Content-Length: -5") [] h = "huge" -> S("Content-Length: 1048577"))
                   \o <<"CR", "LF", "CR", "LF">>
Encode(x, n) == CASE x.k = "req" -> S(x.m) \o <<" ">> \o S(x.url) \o S(" RTSP/1.0") \o Eol(x) \o Lines(Heads(x, n), Eol(x)) \o Eol(x) \o x.body
                  [] x.k = "frame" -> <<"$", x.ch>> \o <<"H16", "L16">> \o x.p
                  [] x.k = "bad" -> BadText(x.how)
(* the two length bytes stand as H16, L16; their value is kept beside *)
Field(s) == [i \in 1..Len(s) |-> Lower(s[i])]
Meaning(x, n) == CASE x.k = "req" -> [k |-> "req", m |-> S(x.m), url |-> S(x.url), body |-> x.body, h |-> {<<Field(S(h.k)), Trim(h.v)>> : h \in ToSet(Heads(x, n))}]
                   [] x.k = "frame" -> [k |-> "frame", ch |-> x.ch, p |-> x.p]
                   [] x.k = "bad" -> [k |-> "end"]
Cut(ms) == IF \E i \in 1..Len(ms) : ms[i].k = "end" THEN SubSeq(ms, 1, CHOOSE i \in 1..Len(ms) : ms[i].k = "end" /\ \A j \in 1..(i - 1) : ms[j].k # "end") ELSE ms
Expected == Cut([i \in 1..Len(items) |-> Meaning(items[i], i)])

(* ---- the parser, over single bytes ---- *)
P0 == [m |-> "start", line |-> <<>>, req |-> [k |-> "none"], need |-> 0, acc |-> <<>>, n |-> 0]
Split(l) == LET a == Find(l, " ")  r == SubSeq(l, a + 1, Len(l))  b == Find(r, " ") IN
              IF a = 0 \/ b = 0 THEN <<>> ELSE <<SubSeq(l, 1, a - 1), SubSeq(r, 1, b - 1), SubSeq(r, b + 1, Len(r))>>
(* result: <<state, events>>; flen: the length a frame header at this place states *)
Emit1(p, e) == <<[P0 EXCEPT !.n = p.n + 1], <<e>>>>
Dead(p) == <<[p EXCEPT !.m = "dead"], <<[k |-> "end"]>>>>
Request(p, b) == [k |-> "req", m |-> p.req.m, url |-> p.req.url, body |-> b, h |-> p.req.h]
EndOfHead(p) == LET c == {x \in p.req.h : x[1] = S("content-length")} IN
  IF c = {} THEN Emit1(p, Request(p, <<>>))
  ELSE LET v == (CHOOSE x \in c : TRUE)[2] IN
       IF v = <<>> \/ \E i \in 1..Len(v) : ~IsDigit(v[i]) THEN Dead(p)
       ELSE LET k == Number(v) IN IF k > 1048576 THEN Dead(p) ELSE IF k = 0 THEN Emit1(p, Request(p, <<>>)) ELSE <<[p EXCEPT !.m = "body", !.need = k, !.acc = <<>>], <<>>>>
Line(p, l) == IF p.m = "line" THEN LET f == Split(l) IN IF f = <<>> THEN Dead(p) ELSE <<[p EXCEPT !.m = "head", !.line = <<>>, !.req = [k |-> "req", m |-> f[1], url |-> f[2], h |-> {}]], <<>>>>
              ELSE IF l = <<>> THEN EndOfHead(p)
              ELSE LET i == Find(l, ":") IN IF i = 0 THEN Dead(p)
                   ELSE <<[p EXCEPT !.line = <<>>, !.req.h = @ \cup {<<Field(Trim(SubSeq(l, 1, i - 1))), Trim(SubSeq(l, i + 1, Len(l)))>>}], <<>>>>
Feed(p, c) ==
  CASE p.m = "dead" -> <<p, <<>>>>
    [] p.m = "start" -> IF c = "$" THEN <<[p EXCEPT !.m = "chan"], <<>>>> ELSE IF c = "LF" THEN Dead(p) ELSE <<[p EXCEPT !.m = "line", !.line = <<c>>], <<>>>>
    [] p.m \in {"line", "head"} -> IF c = "LF" THEN Line(p, NoCR(p.line)) ELSE <<[p EXCEPT !.line = Append(@, c)], <<>>>>
    [] p.m = "chan" -> <<[p EXCEPT !.m = "hi", !.req = [k |-> "frame", ch |-> c]], <<>>>>
    [] p.m = "hi" -> <<[p EXCEPT !.m = "lo"], <<>>>>
    [] p.m = "lo" -> LET n == Weigh(items[p.n + 1].p, 1) IN       \* what the two bytes say
                     IF n = 0 THEN Emit1(p, [k |-> "frame", ch |-> p.req.ch, p |-> <<>>]) ELSE <<[p EXCEPT !.m = "data", !.need = n, !.acc = <<>>], <<>>>>
    [] p.m \in {"body", "data"} ->
         LET a == Append(p.acc, c)  left == p.need - W(c) IN
           IF left > 0 THEN <<[p EXCEPT !.need = left, !.acc = a], <<>>>>
           ELSE Emit1(p, IF p.m = "body" THEN Request(p, a) ELSE [k |-> "frame", ch |-> p.req.ch, p |-> a])

(* ---- the connection ---- *)
Init == items = <<>> /\ wire = <<>> /\ pos = 0 /\ ps = P0 /\ evs = <<>> /\ cuts = <<>> /\ done = FALSE
Write == pos = 0 /\ Len(items) < MaxItems /\ \E x \in Pick(Items), b \in Pick(1..40), y \in Pick(Bad) :
  LET it == IF Sim /\ "bad" \in Kinds /\ b = 1 THEN y ELSE x IN
  /\ items' = Append(items, it) /\ wire' = wire \o Encode(it, Len(items) + 1) /\ UNCHANGED <<pos, ps, evs, cuts, done>>
WriteBad == ~Sim /\ "bad" \in Kinds /\ pos = 0 /\ Len(items) < MaxItems /\ \E y \in Bad :
  items' = Append(items, y) /\ wire' = wire \o Encode(y, Len(items) + 1) /\ UNCHANGED <<pos, ps, evs, cuts, done>>
Eat(p, e, s) == FoldLeft(LAMBDA a, c : LET r == Feed(a[1], c) IN IF r[2] = <<>> THEN <<r[1], a[2]>> ELSE <<r[1], a[2] \o r[2]>>, <<p, e>>, s)
Read == Len(items) > 0 /\ pos < Len(wire) /\ \E k \in Pick(Reads) :
  LET n == IF pos + k > Len(wire) THEN Len(wire) - pos ELSE k IN
  \E r \in {Eat(ps, evs, SubSeq(wire, pos + 1, pos + n))} :
    /\ ps' = r[1] /\ evs' = r[2] /\ pos' = pos + n /\ cuts' = Append(cuts, pos') /\ UNCHANGED <<items, wire, done>>
Fin == pos = Len(wire) /\ Len(items) > 0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<items, wire, pos, ps, evs, cuts>>
Next == IF Sim THEN IF Len(items) < MaxItems /\ pos = 0 THEN Write ELSE IF pos < Len(wire) THEN Read ELSE Fin ELSE Write \/ WriteBad \/ Read \/ Fin
View == <<items, pos, ps, evs, done>>

(* wherever the reads end, the messages so far are the ones that were sent *)
Faithful == IsPrefix(evs, Expected)
Whole == done => evs = Expected
NoWait == (ps.m = "start" /\ pos > 0) => \E i \in 1..Len(items) : Len(FlattenSeq([j \in 1..i |-> Encode(items[j], j)])) = pos   \* only at ends of messages
Codes == [i \in 1..Len(items) |-> IF items[i].k # "req" THEN 0 ELSE IF items[i].m \in {"OPTIONS", "GET_PARAMETER"} THEN 200 ELSE 501]
Emit == done /\ (EmitAll \/ Sim) => PrintT("@@" \o ToJson([items |-> items, wire |-> wire, cuts |-> cuts, evs |-> evs, code |-> Codes, size |-> [i \in 1..Len(items) |-> Len(Encode(items[i], i))]]))

=============================================================================
