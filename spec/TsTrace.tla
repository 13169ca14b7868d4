------------------------------ MODULE TsTrace -------------------------------
(* Judges, byte by byte, what the MPEG-TS multiplexer wrote (ISO/IEC 13818-1).  A trace is a sequence of       *)
(* [e, b]: a frame or table (see Ts.tla) and the packets written for it, as bytes.  The payload of the k-th    *)
(* frame of a trace is Pay(k, i) at position i.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, n, cc, bad
vars == <<t, n, cc, bad>>
Init == t \in 1..Len(Traces) /\ n = 0 /\ cc = <<>> /\ bad = ""

Pay(k, i) == (i * 7 + k * 13 + (i \div 256) * 5) % 256
Bit(x, i) == (x \div (2 ^ i)) % 2
PidOf(e) == IF e.k = "PAT" THEN 0 ELSE IF e.k = "PMT" THEN 4097 ELSE IF e.k = "V" THEN 256 ELSE 257

(* ---- a packet p of 188 bytes ---- *)
Pid(p) == (p[2] % 32) * 256 + p[3]
Afc(p) == (p[4] \div 16) % 4
AfLen(p) == IF Afc(p) \in {2, 3} THEN p[5] ELSE 0
At(p) == IF Afc(p) \in {2, 3} THEN 6 + p[5] ELSE 5      \* first payload byte
Pcr(p) == AfLen(p) > 0 /\ Bit(p[6], 4) = 1
Rai(p) == AfLen(p) > 0 /\ Bit(p[6], 6) = 1
PcrHi(p) == p[7] * 512 + p[8] * 2 + p[9] \div 128
PcrLo(p) == (p[9] % 128) * 512 + p[10] * 2 + p[11] \div 128
Packet(p, pid, first) ==
  IF Len(p) # 188 THEN "not a whole packet"
  ELSE IF p[1] # 71 THEN "no sync byte"
  ELSE IF Bit(p[2], 7) = 1 \/ p[4] \div 64 # 0 THEN "error or scrambling bits"
  ELSE IF Pid(p) # pid THEN "wrong PID"
  ELSE IF Afc(p) \notin {1, 3} THEN "packet without payload"
  ELSE IF (Bit(p[2], 6) = 1) # first THEN "unit start indicator wrong"
  ELSE IF Afc(p) = 3 /\ p[5] > 182 THEN "adaptation field too long"
  ELSE IF AfLen(p) > 0 /\ (p[6] % 16 # 0 \/ Bit(p[6], 7) = 1) THEN "adaptation field flags"
  ELSE IF Pcr(p) /\ (AfLen(p) < 7 \/ (p[11] \div 2) % 64 # 63 \/ (p[11] % 2) * 256 + p[12] > 299) THEN "PCR field"
  ELSE IF AfLen(p) > 0 /\ \E i \in (IF Pcr(p) THEN 13 ELSE 7)..(At(p) - 1) : p[i] # 255 THEN "stuffing in the adaptation field"
  ELSE ""
Body(p) == SubSeq(p, At(p), 188)

(* ---- PES ---- *)
StampOK(b, i, mark) == b[i] \div 16 = mark /\ b[i] % 2 = 1 /\ b[i + 2] % 2 = 1 /\ b[i + 4] % 2 = 1
StampHi(b, i) == ((b[i] \div 2) % 8) * 16384 + b[i + 1] * 64 + b[i + 2] \div 4
StampLo(b, i) == ((b[i + 2] \div 2) % 2) * 32768 + b[i + 3] * 128 + b[i + 4] \div 2
Stamp(b, i) == <<StampHi(b, i), StampLo(b, i)>>
Plus(x, c) == LET lo == x[2] + c IN IF lo >= 65536 THEN <<(x[1] + 1) % 131072, lo - 65536>>
                                   ELSE IF lo < 0 THEN <<(x[1] + 131071) % 131072, lo + 65536>> ELSE <<x[1], lo>>
Pes(e, k, b) ==
  LET h == b[9]
      two == b[8] \div 64 = 3
  IN IF Len(b) < 14 \/ b[1] # 0 \/ b[2] # 0 \/ b[3] # 1 THEN "no PES start"
     ELSE IF b[4] \div 16 # (IF e.k = "V" THEN 14 ELSE 12) THEN "wrong stream id"
     ELSE IF b[7] \div 64 # 2 \/ b[8] \div 64 \notin {2, 3} \/ b[8] % 64 # 0 THEN "PES flags"
     ELSE IF h < (IF two THEN 10 ELSE 5) \/ Len(b) < 9 + h THEN "PES header length"
     ELSE IF \E i \in (10 + (IF two THEN 10 ELSE 5))..(9 + h) : b[i] # 255 THEN "PES header stuffing"
     ELSE IF b[5] * 256 + b[6] # Len(b) - 6 /\ ~(b[5] = 0 /\ b[6] = 0 /\ e.k = "V") THEN "PES packet length"
     ELSE IF ~StampOK(b, 10, IF two THEN 3 ELSE 2) \/ (two /\ ~StampOK(b, 15, 1)) THEN "timestamp marker bits"
     ELSE IF Stamp(b, 10) # Plus(e.d, e.c) THEN "presentation time"
     ELSE IF (IF two THEN Stamp(b, 15) ELSE Stamp(b, 10)) # e.d THEN "decoding time"
     ELSE IF Len(b) # 9 + h + e.n THEN "payload length"
     ELSE IF \E i \in 1..e.n : b[9 + h + i] # Pay(k, i) THEN "payload bytes"
     ELSE ""

(* ---- tables ---- *)
Shift(c, bit) ==       \* one bit into the CRC register <<hi, lo>>
  LET top == (c[1] \div 32768) # bit
      hi == ((c[1] * 2) % 65536) + (c[2] \div 32768)
      lo == (c[2] * 2) % 65536
  IN IF top THEN <<hi ^^ 1217, lo ^^ 7607>> ELSE <<hi, lo>>
Crc(b) == LET f[i \in 0..(8 * Len(b))] == IF i = 0 THEN <<65535, 65535>> ELSE Shift(f[i - 1], Bit(b[(i - 1) \div 8 + 1], 7 - ((i - 1) % 8)))
          IN f[8 * Len(b)]
Table(e, b0) ==
  LET b == SubSeq(b0, b0[1] + 2, Len(b0))
      m == (b[2] % 16) * 256 + b[3]
      s == SubSeq(b, 1, m + 3)
      x == SubSeq(s, 9, m - 1)
  IN IF 1 + b0[1] > Len(b0) - 12 THEN "pointer field"
     ELSE IF b[1] # (IF e.k = "PAT" THEN 0 ELSE 2) THEN "table id"
     ELSE IF b[2] \div 64 # 2 \/ m < 9 \/ m + 3 > Len(b) THEN "section header"
     ELSE IF Crc(s) # <<0, 0>> THEN "CRC"
     ELSE IF \E i \in (m + 4)..Len(b) : b[i] # 255 THEN "bytes after the section"
     ELSE IF s[4] * 256 + s[5] # e.id \/ (s[6] \div 2) % 32 # e.ver \/ s[6] % 2 # 1 \/ s[7] # 0 \/ s[8] # 0 THEN "section fields"
     ELSE IF e.k = "PAT"
       THEN IF Len(x) # 4 * Len(e.progs) THEN "number of programs"
            ELSE IF \E i \in 1..Len(e.progs) : ~\E j \in 0..(Len(e.progs) - 1) :
                      x[4 * j + 1] * 256 + x[4 * j + 2] = e.progs[i].y /\ (x[4 * j + 3] % 32) * 256 + x[4 * j + 4] = e.progs[i].p THEN "programs"
            ELSE ""
       ELSE IF Len(x) # 4 + 5 * Len(e.streams) \/ x[3] % 16 # 0 \/ x[4] # 0 THEN "number of streams"
            ELSE IF (x[1] % 32) * 256 + x[2] # e.pcr THEN "PCR PID"
            ELSE IF \E i \in 1..Len(e.streams) : ~\E j \in 0..(Len(e.streams) - 1) :
                      x[5 * j + 5] = e.streams[i].y /\ (x[5 * j + 6] % 32) * 256 + x[5 * j + 7] = e.streams[i].p /\ x[5 * j + 8] % 16 = 0 /\ x[5 * j + 9] = 0
              THEN "streams"
            ELSE ""

Why(e, k, b, last) ==      \* last: continuity counter before, -1 if none
  LET m == Len(b) \div 188
      p == [i \in 1..m |-> SubSeq(b, 188 * i - 187, 188 * i)]
      pid == PidOf(e)
      w == {i \in 1..m : Packet(p[i], pid, i = 1) # ""}
  IN IF m = 0 \/ Len(b) % 188 # 0 THEN "not whole packets"
     ELSE IF w # {} THEN Packet(p[CHOOSE i \in w : TRUE], pid, (CHOOSE i \in w : TRUE) = 1)
     ELSE IF \E i \in 1..m : (IF i = 1 THEN last >= 0 /\ p[1][4] % 16 # (last + 1) % 16 ELSE p[i][4] % 16 # (p[i - 1][4] + 1) % 16) THEN "continuity counter"
     ELSE IF e.k \in {"PAT", "PMT"} THEN IF m # 1 THEN "table in several packets" ELSE Table(e, Body(p[1]))
     ELSE IF e.key /\ ~(Rai(p[1]) /\ Pcr(p[1]) /\ <<PcrHi(p[1]), PcrLo(p[1])>> = e.d /\ p[1][11] % 2 = 0 /\ p[1][12] = 0) THEN "keyframe without its PCR"
     ELSE IF \E i \in 2..m : Pcr(p[i]) \/ Rai(p[i]) THEN "PCR within a frame"
     ELSE Pes(e, k, FlattenSeq([i \in 1..m |-> Body(p[i])]))
Next == /\ bad = "" /\ n < Len(Traces[t]) /\ UNCHANGED t /\ n' = n + 1
        /\ LET x == Traces[t][n + 1]
               pid == PidOf(x.e)
           IN /\ bad' = Why(x.e, n + 1, x.b, IF pid \in DOMAIN cc THEN cc[pid] ELSE 0 - 1)
              /\ cc' = IF Len(x.b) >= 188 THEN (pid :> (x.b[Len(x.b) - 184] % 16)) @@ cc ELSE cc
Report == bad # "" => PrintT("@@" \o ToJson([t |-> t, n |-> n, why |-> bad]))
=============================================================================
