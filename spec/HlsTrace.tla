------------------------------ MODULE HlsTrace ------------------------------
(* Judges recorded runs of the HLS segmenter.  A trace has ll (low latency) and steps <<[e, o]>>: o is what    *)
(* was seen after event e: pl, the playlist (ok, msn, td, segs <<[q, d, same, parts <<[o, n, d, ind, key]>>,    *)
(* n]>>, cq, np, parts, hint); files <<q>> and junk (other files); w, the blocking requests still open before  *)
(* the event (m, p; l and e: limit and time taken in ms; done, and what it was told: rc, rq, rn; over: it had  *)
(* no answer when the stream stopped).  content <<[q, bad, v <<[d, p, n]>>, a <<[id, p]>>]>>: all segments     *)
(* ever listed.  e.n are the NAL units of a picture (numbers; below 1000 parameter sets and delimiters, those  *)
(* whose last digit is 5 or more are no picture data), e.h the parameter sets of the configuration in force.   *)
EXTENDS HlsCore, TLC, Json, IOUtils

CONSTANT Judge    \* what to judge: subset of {"list", "parts", "content"}
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, n, s, bad
vars == <<t, n, s, bad>>
Init == t \in 1..Len(Traces) /\ n = 0 /\ s = Hls0 /\ bad = ""
Set(q) == {q[i] : i \in 1..Len(q)}
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumD(_, _)
SumD(q, k) == IF k = 0 THEN 0 ELSE q[k].d + SumD(q, k - 1)
Tiled(parts) == \A i \in 1..Len(parts) : parts[i].n > 0 /\ parts[i].o = (IF i = 1 THEN 0 ELSE parts[i - 1].o + parts[i - 1].n)
Bytes(parts) == IF Len(parts) = 0 THEN 0 ELSE parts[Len(parts)].o + parts[Len(parts)].n
Indep(parts) == \A i \in 1..Len(parts) : parts[i].ind => parts[i].key

Playlist(ll, p, x) ==     \* what is wrong with playlist p in state x, "" if nothing
  IF x.stopped THEN IF p.ok /\ Len(p.segs) > 0 THEN "lists segments after the stream stopped" ELSE ""
  ELSE IF ~p.ok THEN IF Len(x.segs) > 0 \/ (ll /\ x.open) THEN "no playlist" ELSE ""
  ELSE IF {p.segs[i].q : i \in 1..Len(p.segs)} # Listed(x) \/ Len(p.segs) # Cardinality(Listed(x)) THEN "does not list the most recent complete segments"
  ELSE IF \E i \in 1..Len(p.segs) : p.segs[i].q # p.msn + i - 1 THEN "segments are not numbered on from the media sequence number"
  ELSE IF \E i \in 1..Len(p.segs) : ~p.segs[i].same THEN "a listed segment is missing or still changes"
  ELSE IF \E i \in 1..Len(p.segs) : ~DurOK(x, x.segs[p.segs[i].q + 1], p.segs[i].d) THEN "a listed duration is not the span of the segment"
  ELSE IF \E i \in 1..Len(p.segs) : p.segs[i].d > p.td THEN "a segment is longer than the target duration"
  ELSE ""
Parts(p, x) ==
  IF x.stopped \/ ~p.ok THEN ""
  ELSE IF \E i \in 1..Len(p.segs) : ~Tiled(p.segs[i].parts) \/ Bytes(p.segs[i].parts) # p.segs[i].n THEN "parts do not tile their segment"
  ELSE IF \E i \in 1..Len(p.segs) : Abs(SumD(p.segs[i].parts, Len(p.segs[i].parts)) - p.segs[i].d) > 1 + Len(p.segs[i].parts)
         THEN "part durations do not add up to the segment's"
  ELSE IF \E i \in 1..Len(p.segs) : ~Indep(p.segs[i].parts) THEN "an independent part does not start with a keyframe"
  ELSE IF x.open # (p.cq >= 0) \/ (x.open /\ p.cq # Len(x.segs)) THEN "does not announce the segment in progress"
  ELSE IF ~x.open THEN ""
  ELSE IF ~Tiled(p.parts) \/ p.hint # Bytes(p.parts) \/ p.hint > p.cn THEN "parts of the segment in progress do not tile it"
  ELSE IF ~Indep(p.parts) THEN "an independent part does not start with a keyframe"
  ELSE IF x.cur.start + SumD(p.parts, Len(p.parts)) > x.cur.last + 3 + Len(p.parts) THEN "parts of the segment in progress are too long"
  ELSE IF x.cur.lastv - x.cur.start - SumD(p.parts, Len(p.parts)) >= PartTarget + 3 + Len(p.parts) THEN "a due part is not listed"
  ELSE ""
Waits(ll, o, x) ==
  IF \E i \in 1..Len(o.w) : LET w == o.w[i] IN w.done /\ ll /\ ~w.over /\ w.e + 5 < w.l /\ ~Sat(w.rc, w.rq, w.rn, w.m, w.p) THEN "a blocking request is answered before what it asks for is listed"
  ELSE IF \E i \in 1..Len(o.w) : LET w == o.w[i] IN ~w.done /\ (x.stopped \/ ~ll \/ w.e > w.l + 1500 \/ Sat(Len(x.segs), o.pl.cq, o.pl.np, w.m, w.p)
             \/ w.m < Len(x.segs)) THEN "a blocking request is held although what it asks for is listed"
  ELSE ""
Seen(o, x) == IF o.junk > 0 THEN "stray files"
              ELSE IF Set(o.files) # Files(x) \/ Len(o.files) # Cardinality(Files(x)) THEN "the directory does not hold just the listed segments and the one in progress"
              ELSE ""
Why(x) == LET tr == Traces[t]
              o == tr.steps[n + 1].o
              list == "list" \in Judge
              parts == "parts" \in Judge /\ tr.ll
          IN IF list /\ Playlist(tr.ll, o.pl, x) # "" THEN Playlist(tr.ll, o.pl, x)
             ELSE IF list /\ Seen(o, x) # "" THEN Seen(o, x)
             ELSE IF parts /\ Parts(o.pl, x) # "" THEN Parts(o.pl, x)
             ELSE IF "parts" \in Judge THEN Waits(tr.ll, o, x)
             ELSE ""

(* ---- content of the segments, at the end ---- *)
Media(q) == SelectSeq(q, LAMBDA x : x >= 1000)
FirstPic(q) == IF \E i \in 1..Len(q) : q[i] >= 1000 /\ q[i] % 10 < 5
                 THEN CHOOSE i \in 1..Len(q) : q[i] >= 1000 /\ q[i] % 10 < 5 /\ \A j \in 1..(i - 1) : ~(q[j] >= 1000 /\ q[j] % 10 < 5)
                 ELSE Len(q) + 1
Carries(e, u, key) ==     \* unit u carries picture e
  /\ Media(u.n) = Media(e.n)
  /\ \A x \in Set(e.n) : x >= 10 /\ x < 1000 => x \in Set(u.n)
  /\ \A x \in Set(u.n) : x < 1000 => x = 9 \/ x \in Set(e.n) \/ x \in Set(e.h)
  /\ \A i \in 2..Len(u.n) : u.n[i] # 9
  /\ key => LET pre == {u.n[i] : i \in 1..(FirstPic(u.n) - 1)}
                own == {x \in Set(e.n) : x >= 10 /\ x < 1000}
            IN e.own \/ Set(e.h) \subseteq pre
  /\ key => \A i \in 1..Len(u.n) : u.n[i] >= 10 /\ u.n[i] < 1000 => i < FirstPic(u.n)
Timed(e, u) == u.d = e.t * 90 /\ u.p = (e.t + e.c) * 90
Ev(i) == Traces[t].steps[i].e
SegWhy(c, g) ==
  IF c.bad # "" THEN c.bad
  ELSE IF Len(c.v) # Len(g.v) THEN "a segment does not have the pictures of its span"
  ELSE IF \E i \in 1..Len(c.v) : ~Carries(Ev(g.v[i]), c.v[i], Ev(g.v[i]).k = "K") THEN "a picture is not as published or lacks its parameter sets"
  ELSE IF \E i \in 1..Len(c.v) : ~Timed(Ev(g.v[i]), c.v[i]) THEN "a picture has the wrong time"
  ELSE ""
RECURSIVE Audio(_, _)
Audio(q, k) == IF k = 0 THEN <<>> ELSE Audio(q, k - 1) \o q[k].a
AudioWhy(x) ==
  LET a == Audio(Traces[t].content, Len(Traces[t].content))
      full == x.before \o x.audio
      off == Len(full) - Len(a)
      (* frames before the first keyframe may be left out; at a stop the last ones were not written yet *)
      from == IF Len(a) = 0 THEN 0 ELSE IF \E i \in 1..Len(full) : full[i] = a[1].id THEN CHOOSE i \in 1..Len(full) : full[i] = a[1].id ELSE 0
  IN IF Len(a) = 0 THEN IF x.over /\ Len(x.audio) > 0 /\ x.key THEN "audio is missing" ELSE ""
     ELSE IF from = 0 THEN "an audio frame is not as published"
     ELSE IF from > Len(x.before) + 1 THEN "audio frames are missing"
     ELSE IF from + Len(a) - 1 > Len(full) THEN "audio frames are repeated"
     ELSE IF \E i \in 1..Len(a) : a[i].id # full[from + i - 1] THEN "audio frames are lost, repeated or out of order"
     ELSE IF x.over /\ from + Len(a) - 1 # Len(full) THEN "the last audio frames are missing"
     ELSE IF \E i \in 1..Len(a) : Abs(a[i].p - Ev(a[i].id).t * 90) > 270 THEN "an audio frame has the wrong time"
     ELSE ""
ContentWhy(x) ==
  LET c == Traces[t].content
      done == {i \in 1..Len(x.segs) : \E k \in 1..Len(c) : c[k].q = x.segs[i].q}
      w == {i \in 1..Len(c) : c[i].q + 1 \in 1..Len(x.segs) /\ SegWhy(c[i], x.segs[c[i].q + 1]) # ""}
  IN IF \E i \in 1..Len(c) : c[i].q # i - 1 THEN "segments were skipped"
     ELSE IF Len(c) # Len(x.segs) THEN "not all segments were listed"
     ELSE IF w # {} THEN SegWhy(c[CHOOSE i \in w : \A j \in w : i <= j], x.segs[c[CHOOSE i \in w : \A j \in w : i <= j].q + 1])
     ELSE AudioWhy(x)

Next == /\ bad = "" /\ UNCHANGED t
        /\ IF n < Len(Traces[t].steps)
             THEN LET x == Step(s, n + 1, Traces[t].steps[n + 1].e)
                  IN s' = x /\ n' = n + 1 /\ bad' = Why(x)
             ELSE "content" \in Judge /\ bad' = ContentWhy(s) /\ bad' # "" /\ UNCHANGED <<n, s>>
Report == bad # "" => PrintT("@@" \o ToJson([t |-> t, n |-> n, why |-> bad]))
=============================================================================
