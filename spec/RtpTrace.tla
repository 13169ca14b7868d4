------------------------------- MODULE RtpTrace -------------------------------
(* Judges the RTP packets written for one track.  A trace: [codec, mtu, pt, exp, pk]: the access units expected,  *)
(* each [ts (32 bits as <<hi, lo>>), units (bytes)], and the packets, as bytes.                                    *)
EXTENDS RtpCore, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, n, k, st, bad
vars == <<t, n, k, st, bad>>
Init == t \in 1..Len(Traces) /\ n = 0 /\ k = 1 /\ st = Fresh /\ bad = ""

SeqNo(p) == p[3] * 256 + p[4]
Word(p, i) == p[i] * 256 + p[i + 1]
Inc(x) == IF x[2] = 65535 THEN <<(x[1] + 1) % 65536, 0>> ELSE <<x[1], x[2] + 1>>
Header(tr, i) ==
  LET p == tr.pk[i] IN
  IF Len(p) < 13 THEN "packet without payload"
  ELSE IF p[1] # 128 THEN "version, padding, extension or CSRC"
  ELSE IF p[2] % 128 # tr.pt THEN "payload type"
  ELSE IF i > 1 /\ SeqNo(p) # (SeqNo(tr.pk[i - 1]) + 1) % 65536 THEN "sequence number"
  ELSE IF tr.seq >= 0 /\ i = 1 /\ SeqNo(p) # tr.seq THEN "first sequence number"
  ELSE IF i > 1 /\ SubSeq(p, 9, 12) # SubSeq(tr.pk[1], 9, 12) THEN "SSRC"
  ELSE IF k > Len(tr.exp) THEN "packet behind the last access unit"
  ELSE IF <<Word(p, 5), Word(p, 7)>> \notin {tr.exp[k].ts, Inc(tr.exp[k].ts)} THEN "timestamp"
  ELSE IF st = Fresh \/ i = 1 THEN ""
  ELSE IF SubSeq(p, 5, 8) # SubSeq(tr.pk[i - 1], 5, 8) THEN "timestamps of one access unit differ"
  ELSE ""
Step ==
  LET tr == Traces[t]  i == n + 1  h == Header(tr, i)  p == tr.pk[i] IN
  IF h # "" THEN bad' = h /\ UNCHANGED <<k, st>>
  ELSE IF tr.mtu > 0 /\ Len(p) - 12 > tr.mtu THEN bad' = "larger than the maximum size" /\ UNCHANGED <<k, st>>
  ELSE \E s \in {Take(tr.codec, st, SubSeq(p, 13, Len(p)))} :
       IF s.err # "" THEN bad' = s.err /\ UNCHANGED <<k, st>>
       ELSE IF p[2] \div 128 = 0 THEN st' = s /\ UNCHANGED <<k, bad>> /\ TRUE
       ELSE /\ k' = k + 1 /\ st' = Fresh
            /\ bad' = IF s.on THEN "marker within a fragmented unit" ELSE IF s.out # tr.exp[k].units THEN "units differ" ELSE ""
Next == /\ bad = "" /\ UNCHANGED t
        /\ \/ n < Len(Traces[t].pk) /\ n' = n + 1 /\ Step
           \/ /\ n = Len(Traces[t].pk) /\ n' = n + 1 /\ UNCHANGED <<k, st>>
              /\ bad' = IF k <= Len(Traces[t].exp) THEN "access unit missing" ELSE IF st # Fresh THEN "no marker at the end" ELSE ""
              /\ bad' # ""
Report == bad # "" => PrintT("@@" \o ToJson([t |-> t, n |-> n, k |-> k, why |-> bad]))
=============================================================================
