------------------------------ MODULE Mp4Trace ------------------------------
(* Judges, byte by byte, the fragmented MP4 the library builds (ISO/IEC 14496-12 and -15).  A trace is         *)
(* [e, b, cfg]: what was asked for (Mp4.tla), the bytes built, and the codec configuration record asked for.   *)
(* Sample k has the byte Pay(k, i) at position i; parameter sets are given as e.sps and e.pps.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, bad
vars == <<t, bad>>
Init == t \in 1..Len(Traces) /\ bad = "?"
Pay(k, i) == (i * 7 + k * 13 + (i \div 256) * 5) % 256
W(b, i) == b[i] * 256 + b[i + 1]                  \* 16 bits
W2(b, i) == <<W(b, i), W(b, i + 2)>>
W4(b, i) == <<W(b, i), W(b, i + 2), W(b, i + 4), W(b, i + 6)>>
Zero(b, i, n) == \A j \in i..(i + n - 1) : b[j] = 0
Bit(x, i) == (x \div (2 ^ i)) % 2

T4 == [ftyp |-> <<102, 116, 121, 112>>, moov |-> <<109, 111, 111, 118>>, mvhd |-> <<109, 118, 104, 100>>, trak |-> <<116, 114, 97, 107>>,
       tkhd |-> <<116, 107, 104, 100>>, mdia |-> <<109, 100, 105, 97>>, mdhd |-> <<109, 100, 104, 100>>, hdlr |-> <<104, 100, 108, 114>>,
       minf |-> <<109, 105, 110, 102>>, vmhd |-> <<118, 109, 104, 100>>, dinf |-> <<100, 105, 110, 102>>, dref |-> <<100, 114, 101, 102>>,
       url |-> <<117, 114, 108, 32>>, stbl |-> <<115, 116, 98, 108>>, stsd |-> <<115, 116, 115, 100>>, stts |-> <<115, 116, 116, 115>>,
       stsc |-> <<115, 116, 115, 99>>, stsz |-> <<115, 116, 115, 122>>, stco |-> <<115, 116, 99, 111>>, avc1 |-> <<97, 118, 99, 49>>,
       avcC |-> <<97, 118, 99, 67>>, hev1 |-> <<104, 101, 118, 49>>, hvc1 |-> <<104, 118, 99, 49>>, hvcC |-> <<104, 118, 99, 67>>,
       mvex |-> <<109, 118, 101, 120>>, trex |-> <<116, 114, 101, 120>>, moof |-> <<109, 111, 111, 102>>, mfhd |-> <<109, 102, 104, 100>>,
       traf |-> <<116, 114, 97, 102>>, tfhd |-> <<116, 102, 104, 100>>, tfdt |-> <<116, 102, 100, 116>>, trun |-> <<116, 114, 117, 110>>,
       mdat |-> <<109, 100, 97, 116>>, styp |-> <<115, 116, 121, 112>>, vide |-> <<118, 105, 100, 101>>]
Bad == [ty |-> <<0>>, at |-> 0, end |-> 0]
RECURSIVE Boxes(_, _, _)
Boxes(b, lo, hi) ==
  IF lo = hi + 1 THEN <<>>
  ELSE IF hi - lo < 7 \/ b[lo] # 0 THEN <<Bad>>
  ELSE LET n == b[lo + 1] * 65536 + W(b, lo + 2)
       IN IF n < 8 \/ lo + n - 1 > hi THEN <<Bad>>
          ELSE <<[ty |-> SubSeq(b, lo + 4, lo + 7), at |-> lo + 8, end |-> lo + n - 1]>> \o Boxes(b, lo + n, hi)
Sub(b, x) == Boxes(b, x.at, x.end)
Types(q) == [i \in 1..Len(q) |-> q[i].ty]
Count(q, ty) == Cardinality({i \in 1..Len(q) : q[i].ty = ty})
Once(q, tys) == (\A i \in 1..Len(q) : q[i] # Bad /\ q[i].ty \in tys) /\ \A ty \in tys : Count(q, ty) = 1
Get(q, ty) == q[CHOOSE i \in 1..Len(q) : q[i].ty = ty]
Size(x) == x.end - x.at + 1
Empty(b, x) == Size(x) = 8 /\ Zero(b, x.at, 8)

(* ---- init segments ---- *)
Stsd(e, b, x, cfg) ==
  LET q == Boxes(b, x.at + 8, x.end)
      d == q[1]
      c == Boxes(b, d.at + 78, d.end)
      want == IF e.k = "hevc" THEN {T4.hev1, T4.hvc1} ELSE {T4.avc1}
      box == IF e.k = "hevc" THEN T4.hvcC ELSE T4.avcC
      g == Get(c, box)
  IN IF ~(Zero(b, x.at, 4) /\ W2(b, x.at + 4) = <<0, 1>> /\ Len(q) = 1 /\ q[1] # Bad) THEN "sample description count"
     ELSE IF d.ty \notin want \/ Size(d) < 78 + 8 THEN "sample entry"
     ELSE IF ~(Zero(b, d.at, 6) /\ W(b, d.at + 6) = 1) THEN "data reference"
     ELSE IF W(b, d.at + 24) # e.w \/ W(b, d.at + 26) # e.h THEN "dimensions"
     ELSE IF W(b, d.at + 40) # 1 THEN "frame count"
     ELSE IF Count(c, box) # 1 \/ \E i \in 1..Len(c) : c[i] = Bad THEN "configuration box"
     ELSE IF SubSeq(b, g.at, g.end) # cfg THEN "codec configuration"
     ELSE ""
Fixed(b, x, v0, v1) == (b[x.at] = 0 /\ Size(x) = v0) \/ (b[x.at] = 1 /\ Size(x) = v1)
InitWhy(e, b, cfg) ==
  LET q == Boxes(b, 1, Len(b))
      mv == Sub(b, Get(q, T4.moov))
      tr == Sub(b, Get(mv, T4.trak))
      md == Sub(b, Get(tr, T4.mdia))
      mi == Sub(b, Get(md, T4.minf))
      st == Sub(b, Get(mi, T4.stbl))
      ex == Sub(b, Get(mv, T4.mvex))
      mvhd == Get(mv, T4.mvhd)
      tkhd == Get(tr, T4.tkhd)
      mdhd == Get(md, T4.mdhd)
      hdlr == Get(md, T4.hdlr)
      di == Sub(b, Get(mi, T4.dinf))
      dref == Get(di, T4.dref)
      refs == Boxes(b, dref.at + 8, dref.end)
      trex == Get(ex, T4.trex)
      tv == b[tkhd.at]
      dv == b[mdhd.at]
  IN IF Len(q) # 2 \/ Types(q) # <<T4.ftyp, T4.moov>> THEN "top level boxes"
     ELSE IF Size(q[1]) < 8 \/ Size(q[1]) % 4 # 0 THEN "ftyp"
     ELSE IF ~Once(mv, {T4.mvhd, T4.trak, T4.mvex}) THEN "moov"
     ELSE IF ~Fixed(b, mvhd, 100, 112) \/ W2(b, mvhd.end - 3) = <<0, 0>> \/ W2(b, mvhd.end - 3)[2] <= e.id THEN "mvhd"
     ELSE IF ~Once(tr, {T4.tkhd, T4.mdia}) THEN "trak"
     ELSE IF ~Fixed(b, tkhd, 84, 96) \/ b[tkhd.at + 3] % 2 # 1 THEN "tkhd"
     ELSE IF W2(b, tkhd.at + (IF tv = 1 THEN 20 ELSE 12)) # <<0, e.id>> THEN "track id"
     ELSE IF W2(b, tkhd.end - 7) # <<e.w, 0>> \/ W2(b, tkhd.end - 3) # <<e.h, 0>> THEN "track dimensions"
     ELSE IF ~Once(md, {T4.mdhd, T4.hdlr, T4.minf}) THEN "mdia"
     ELSE IF ~Fixed(b, mdhd, 24, 36) \/ W2(b, mdhd.at + (IF dv = 1 THEN 20 ELSE 12)) # e.ts THEN "timescale"
     ELSE IF ~(Zero(b, hdlr.at, 8) /\ Size(hdlr) >= 25 /\ SubSeq(b, hdlr.at + 8, hdlr.at + 11) = T4.vide /\ b[hdlr.end] = 0) THEN "hdlr"
     ELSE IF ~Once(mi, {T4.vmhd, T4.dinf, T4.stbl}) \/ Size(Get(mi, T4.vmhd)) # 12 THEN "minf"
     ELSE IF ~Once(di, {T4.dref}) \/ W2(b, dref.at + 4) # <<0, 1>> \/ ~Once(refs, {T4.url}) \/ W2(b, refs[1].at) # <<0, 1>> THEN "dref"
     ELSE IF ~Once(st, {T4.stsd, T4.stts, T4.stsc, T4.stsz, T4.stco}) THEN "stbl"
     ELSE IF ~(Empty(b, Get(st, T4.stts)) /\ Empty(b, Get(st, T4.stsc)) /\ Empty(b, Get(st, T4.stco))
               /\ Size(Get(st, T4.stsz)) = 12 /\ Zero(b, Get(st, T4.stsz).at, 12)) THEN "sample tables of an init segment"
     ELSE IF ~Once(ex, {T4.trex}) \/ Size(trex) # 24 \/ W2(b, trex.at + 4) # <<0, e.id>> \/ W2(b, trex.at + 8) # <<0, 1>> THEN "trex"
     ELSE Stsd(e, b, Get(st, T4.stsd), cfg)

(* ---- media segments ---- *)
Flag(x, i) == Bit(x[2] + (x[1] % 256) * 65536, i) = 1
RECURSIVE Ends(_, _, _, _)       \* Ends(...)[k]: size of the first k samples; halving keeps the recursion shallow
Ends(s, lo, hi, a) == IF lo > hi THEN <<>> ELSE IF lo = hi THEN <<a + s[lo].n>>
                      ELSE LET m == (lo + hi) \div 2
                               l == Ends(s, lo, m, a)
                           IN l \o Ends(s, m + 1, hi, l[Len(l)])
SegWhy(e, b) ==
  LET q == Boxes(b, 1, Len(b))
      q1 == IF Len(q) > 0 /\ q[1].ty = T4.styp THEN Tail(q) ELSE q
      mf == Sub(b, q1[1])
      tf == Sub(b, Get(mf, T4.traf))
      mfhd == Get(mf, T4.mfhd)
      tfhd == Get(tf, T4.tfhd)
      tfdt == Get(tf, T4.tfdt)
      trun == Get(tf, T4.trun)
      f == W2(b, trun.at)
      m == Len(e.s)
      ends == TLCEval(Ends(e.s, 1, m, 0))
      before(k) == IF k = 0 THEN 0 ELSE ends[k]
      off == q1[1].at - 8 + W(b, trun.at + 8) * 65536 + W(b, trun.at + 10)     \* of the first sample's byte
      row(k) == trun.at + 12 + (k - 1) * 16
      mdat == q1[2]
  IN IF Types(q1) # <<T4.moof, T4.mdat>> THEN "top level boxes"
     ELSE IF ~Once(mf, {T4.mfhd, T4.traf}) THEN "moof"
     ELSE IF Size(mfhd) # 8 \/ ~Zero(b, mfhd.at, 4) \/ W2(b, mfhd.at + 4) # e.seq THEN "sequence number"
     ELSE IF ~Once(tf, {T4.tfhd, T4.tfdt, T4.trun}) THEN "traf"
     ELSE IF Size(tfhd) # 8 \/ W2(b, tfhd.at) # <<2, 0>> \/ W2(b, tfhd.at + 4) # <<0, e.id>> THEN "tfhd"
     ELSE IF ~((b[tfdt.at] = 1 /\ Size(tfdt) = 12 /\ W4(b, tfdt.at + 4) = e.base)
               \/ (b[tfdt.at] = 0 /\ Size(tfdt) = 8 /\ <<0, 0>> \o W2(b, tfdt.at + 4) = e.base)) THEN "base decode time"
     ELSE IF ~(Flag(f, 0) /\ Flag(f, 8) /\ Flag(f, 9) /\ Flag(f, 10) /\ Flag(f, 11) /\ ~Flag(f, 2)) THEN "trun flags"
     ELSE IF W2(b, trun.at + 4) # <<m \div 65536, m % 65536>> \/ Size(trun) # 12 + 16 * m THEN "sample count"
     ELSE IF \E k \in 1..m : W2(b, row(k)) # e.s[k].d THEN "sample duration"
     ELSE IF \E k \in 1..m : W2(b, row(k) + 4) # <<e.s[k].n \div 65536, e.s[k].n % 65536>> THEN "sample size"
     ELSE IF \E k \in 1..m : (b[row(k) + 9] % 2 = 1) = e.s[k].key THEN "sync sample flag"
     ELSE IF \E k \in 1..m : W2(b, row(k) + 12) # e.s[k].c \/ (e.s[k].c[1] >= 32768 /\ b[trun.at] # 1) THEN "composition offset"
     ELSE IF W(b, trun.at + 8) > 4096 THEN "data offset"      \* far outside (and TLC's integers)
     ELSE IF off < mdat.at \/ off + before(m) - 1 > mdat.end THEN "data offset"
     ELSE IF \E k \in 1..m : LET o == off + before(k - 1) - 1 IN \E i \in 1..e.s[k].n : b[o + i] # Pay(k, i) THEN "sample bytes"
     ELSE IF Size(mdat) # before(m) THEN "media data size"
     ELSE ""
Next == bad = "?" /\ UNCHANGED t /\ LET x == Traces[t] IN bad' = IF x.e.k = "seg" THEN SegWhy(x.e, x.b) ELSE InitWhy(x.e, x.b, x.cfg)
Report == bad \notin {"?", ""} => PrintT("@@" \o ToJson([t |-> t, n |-> 1, why |-> bad]))
=============================================================================
