----------------------------- MODULE DashTrace ------------------------------
(* Judges recorded runs of the DASH segmenter.  A trace has cfgs, the configurations used, steps <<[e, o]>>    *)
(* and content: all segments ever available, as <<[q, bad, seq, base, s <<[i, n, d, c, key]>>]>>.  o is what   *)
(* was seen after event e: mpd (ok, start, dur, ts, w, h, codec), files <<q>>, init (present), same (available  *)
(* segments are as when they came), ic (number of the configuration the init segment describes), ini (what it  *)
(* says: w, h, ts, id), junk (other files), first (WaitFirstSegment has returned).                             *)
EXTENDS DashCore, TLC, Json, IOUtils, FiniteSetsExt

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, n, s, bad
vars == <<t, n, s, bad>>
Init == t \in 1..Len(Traces) /\ n = 0 /\ s = Dash0 /\ bad = ""
Set(q) == {q[i] : i \in 1..Len(q)}
Bit(x, i) == (x \div (2 ^ i)) % 2
Rev16(x) == Bit(x, 0) * 32768 + Bit(x, 1) * 16384 + Bit(x, 2) * 8192 + Bit(x, 3) * 4096 + Bit(x, 4) * 2048 + Bit(x, 5) * 1024 + Bit(x, 6) * 512 + Bit(x, 7) * 256
            + Bit(x, 8) * 128 + Bit(x, 9) * 64 + Bit(x, 10) * 32 + Bit(x, 11) * 16 + Bit(x, 12) * 8 + Bit(x, 13) * 4 + Bit(x, 14) * 2 + Bit(x, 15)
RECURSIVE Trim(_)
Trim(q) == IF q # <<>> /\ q[Len(q)] = 0 THEN Trim(SubSeq(q, 1, Len(q) - 1)) ELSE q
Cfg(x) == Traces[t].cfgs[x.cfg[1]]
(* RFC 6381: AVC by profile, constraints and level; HEVC as in ISO/IEC 14496-15 annex E. *)
CodecOK(c, d) == IF ~c.hevc THEN d = <<1, c.prof, c.cons[1], c.lvl>>
                 ELSE d = <<2, c.space, c.prof, Rev16(c.compat[2]), Rev16(c.compat[1]), c.tier, c.lvl>> \o Trim(c.cons)
Dur(g) == g.until - g.start
Avail(x) == {x.segs[q + 1] : q \in Listed(x)}
Why(x) ==
  LET o == Traces[t].steps[n + 1].o
      m == o.mpd
      c == Cfg(x)
  IN IF o.junk > 0 THEN "stray files"
     ELSE IF Set(o.files) # Listed(x) \/ Len(o.files) # Cardinality(Listed(x)) THEN "the available segments are not the most recent complete ones"
     ELSE IF ~o.same THEN "an available segment changes"
     ELSE IF o.init # (~x.stopped /\ x.cfg # <<>>) THEN "init segment missing, or left behind"
     ELSE IF o.first # (Len(x.segs) > 0 \/ x.over \/ x.stopped) THEN "the wait for the first segment does not end with it"
     ELSE IF o.init /\ o.ic # x.cfg[1] THEN "the init segment does not have the configuration in force"
     ELSE IF o.init /\ (o.ini # [w |-> c.w, h |-> c.h, ts |-> 1000, id |-> 1]) THEN "the init segment does not describe the track"
     ELSE IF m.ok # (Listed(x) # {}) THEN "a manifest without segments, or none although there are some"
     ELSE IF ~m.ok THEN ""
     ELSE IF m.start # Min(Listed(x)) THEN "the start number is not that of the first available segment"
     ELSE IF m.ts # 1000 THEN "timescale"
     ELSE IF x.over /\ \E q \in Listed(x) : q = Len(x.segs) - 1 /\ m.dur < Max({0} \union {Dur(g) : g \in {h \in Avail(x) : h.until >= 0}}) THEN "segment duration"
     ELSE IF ~x.over /\ m.dur # Max({Dur(g) : g \in Avail(x)}) THEN "segment duration"
     ELSE IF m.w # c.w \/ m.h # c.h THEN "dimensions"
     ELSE IF ~CodecOK(c, m.codec) THEN "codec string"
     ELSE ""
Guess(g) == IF Len(g.s) > 1 THEN Max({1000, g.s[Len(g.s)].t - g.s[Len(g.s) - 1].t}) ELSE 1000
SegWhy(d, g, q) ==
  IF d.bad # "" THEN d.bad
  ELSE IF d.seq # q + 1 THEN "sequence number"
  ELSE IF d.base # g.start THEN "base decode time"
  ELSE IF Len(d.s) # Len(g.s) THEN "number of samples"
  ELSE IF \E k \in 1..Len(g.s) : d.s[k].i # g.s[k].i THEN "a sample is not as published"
  ELSE IF \E k \in 1..Len(g.s) : d.s[k].c # g.s[k].c THEN "composition offset"
  ELSE IF \E k \in 1..Len(g.s) : d.s[k].key # g.s[k].key THEN "sync flag"
  ELSE IF \E k \in 1..Len(g.s) : IF Known(g, k) THEN d.s[k].d # Lasts(g, k) ELSE d.s[k].d > Guess(g) THEN "sample duration"
  ELSE ""
ContentWhy(x) ==
  LET c == Traces[t].content
      w == {i \in 1..Len(c) : SegWhy(c[i], x.segs[i], i - 1) # ""}
  IN IF Len(c) # Len(x.segs) \/ \E i \in 1..Len(c) : c[i].q # i - 1 THEN "segments were skipped"
     ELSE IF w # {} THEN SegWhy(c[Min(w)], x.segs[Min(w)], Min(w) - 1)
     ELSE ""
Next == /\ bad = "" /\ UNCHANGED t
        /\ IF n < Len(Traces[t].steps)
             THEN LET x == Step(s, n + 1, Traces[t].steps[n + 1].e)
                  IN s' = x /\ n' = n + 1 /\ bad' = Why(x)
             ELSE bad' = ContentWhy(s) /\ bad' # "" /\ UNCHANGED <<n, s>>
Report == bad # "" => PrintT("@@" \o ToJson([t |-> t, n |-> n, why |-> bad]))
=============================================================================
