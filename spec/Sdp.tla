---------------------------------- MODULE Sdp ---------------------------------
(* Session descriptions (RFC 4566) of streams.  Parse: texts of announced sessions in many legal forms, with the   *)
(* tracks to be recovered from each.  Serve: what a player is told of a stream, after every change of its headers. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Mode, Codecs, MaxMedia, MaxSteps, Sim
VARIABLES hist, done
vars == <<hist, done>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

Alphabet == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","a","b","c","d","e","f","g","h","i","j","k","l","m",
  "n","o","p","q","r","s","t","u","v","w","x","y","z","0","1","2","3","4","5","6","7","8","9","+","/">>
Cat(s) == FoldLeft(LAMBDA a, x : a \o x, "", s)
At(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
B64(b) == Cat([i \in 1..(4 * ((Len(b) + 2) \div 3)) |->
    LET g == (i - 1) \div 4  k == (i - 1) % 4
        x == At(b, 3 * g + 1) * 65536 + At(b, 3 * g + 2) * 256 + At(b, 3 * g + 3)
    IN  IF 3 * g + k > Len(b) THEN "=" ELSE Alphabet[((x \div (IF k = 0 THEN 262144 ELSE IF k = 1 THEN 4096 ELSE IF k = 2 THEN 64 ELSE 1)) % 64) + 1]])
HexU == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
HexL == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
Hex(b, H) == Cat([i \in 1..Len(b) |-> H[(b[i] \div 16) + 1] \o H[(b[i] % 16) + 1]])
Join(s, sep) == Cat([i \in 1..Len(s) |-> IF i = 1 THEN s[i] ELSE sep \o s[i]])

(* --- codec parameters --- *)
Fill(n, x) == [i \in 1..n |-> 1 + ((i * 37 + x * 11) % 255)]
SPS(x) == <<103, 66 + (x % 3), 192, 30 + (x % 5)>> \o Fill(x % 4, x)
PPS(x) == <<104, 206>> \o Fill(x % 5, x + 3)
Nal265(t, x) == <<2 * t, 1>> \o Fill(2 + (x % 4), x)
Rates == <<96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350>>
AAC(sr, ch) == <<16 + (sr \div 2), 128 * (sr % 2) + 8 * ch>>   \* AAC-LC
Chans(ch) == IF ch = 7 THEN 8 ELSE ch

(* ============================ parsing ============================ *)
Kind(c) == CASE c \in {"h264", "h264x", "h265", "jpeg", "savp"} -> "video" [] c = "app" -> "application" [] OTHER -> "audio"
Supported(c) == c \in {"h264", "aac"}
Pt(i) == ToString(94 + 2 * i)
Proto(c) == IF c = "savp" THEN "RTP/SAVP" ELSE "RTP/AVP"
Enc(m) == LET e == CASE m.c \in {"h264", "h264x", "savp"} -> "H264" [] m.c = "h265" -> "H265" [] m.c \in {"aac", "aaclbr"} -> "mpeg4-generic" [] m.c = "latm" -> "MP4A-LATM" [] m.c = "opus" -> "opus" [] OTHER -> "x-data"
          IN  IF ~m.odd THEN e ELSE IF e = "H264" THEN "h264" ELSE IF e = "mpeg4-generic" THEN "MPEG4-GENERIC" ELSE e
Clock(m) == IF Kind(m.c) = "video" THEN "90000" ELSE IF m.c = "opus" THEN "48000/2" ELSE IF m.mono THEN ToString(Rates[m.sr + 1]) ELSE ToString(Rates[m.sr + 1]) \o "/" \o ToString(Chans(m.ch))
Sets(m) == IF m.sets = 0 THEN <<>> ELSE IF m.sets = 1 THEN <<SPS(m.x), PPS(m.x)>> ELSE IF m.sets = 2 THEN <<SPS(m.x), PPS(m.x), PPS(m.x + 1)>>
           ELSE IF m.sets = 3 THEN <<SPS(m.x), SPS(m.x + 1), PPS(m.x), PPS(m.x + 1), PPS(m.x + 2)>> ELSE <<PPS(m.x), SPS(m.x), PPS(m.x + 1), SPS(m.x + 1)>>
Key(m, k, up) == IF m.odd THEN up ELSE k
Params(m) ==
  CASE m.c \in {"h264", "h264x", "savp"} -> <<"packetization-mode=" \o (IF m.c = "h264x" THEN "2" ELSE "1")>>
            \o (IF m.sets = 0 THEN <<>> ELSE <<Key(m, "sprop-parameter-sets=", "Sprop-Parameter-Sets=") \o Join([i \in 1..Len(Sets(m)) |-> B64(Sets(m)[i])], ",")>>) \o <<"profile-level-id=42C01E">>
    [] m.c = "h265" -> <<"sprop-vps=" \o B64(Nal265(32, m.x)), "sprop-sps=" \o B64(Nal265(33, m.x)), "sprop-pps=" \o B64(Nal265(34, m.x))>>
    [] m.c \in {"aac", "aaclbr"} -> <<"streamtype=5", "profile-level-id=1", Key(m, "mode=", "Mode=") \o (IF m.c = "aaclbr" THEN "AAC-lbr" ELSE IF m.odd THEN "aac-hbr" ELSE "AAC-hbr"),
            (IF m.odd THEN "sizeLength=" ELSE "sizelength=") \o (IF m.c = "aaclbr" THEN "6" ELSE "13"), (IF m.odd THEN "indexLength=" ELSE "indexlength=") \o (IF m.c = "aaclbr" THEN "2" ELSE "3"),
            "indexdeltalength=" \o (IF m.c = "aaclbr" THEN "2" ELSE "3"), Key(m, "config=", "Config=") \o Hex(AAC(m.sr, m.ch), IF m.odd THEN HexL ELSE HexU)>>
    [] m.c = "latm" -> <<"profile-level-id=15", "object=2", "cpresent=0", "config=400024203fc0">>
    [] m.c = "opus" -> <<"sprop-stereo=1">>
    [] OTHER -> <<>>
Control(m, i) == CASE m.ctl = "none" -> "" [] m.ctl = "track" -> "trackID=" \o ToString(i - 1) [] m.ctl = "stream" -> "streamid=" \o ToString(i)
                   [] m.ctl = "num" -> (IF i = 1 THEN "1" ELSE IF i = 2 THEN "11" ELSE "111") [] m.ctl = "abs" -> "{BASE}/media" \o ToString(i) [] m.ctl = "path" -> "a/b/t" \o ToString(i)
Static(c) == c \in {"pcmu", "jpeg"}
Media(m, i) ==
  LET pt == IF m.c = "pcmu" THEN "0" ELSE IF m.c = "jpeg" THEN "26" ELSE IF m.c = "app" THEN "webrtc-datachannel" ELSE Pt(i)
      extra == ToString(95 + 2 * i)
      fmts == IF m.more = "first" THEN extra \o " " \o pt ELSE IF m.more = "last" THEN pt \o " " \o extra ELSE pt
      rtpmap == IF Static(m.c) \/ m.c = "app" THEN <<>> ELSE <<"a=rtpmap:" \o pt \o " " \o Enc(m) \o "/" \o Clock(m)>>
      fmtp == IF Params(m) = <<>> THEN <<>> ELSE <<"a=fmtp:" \o pt \o " " \o Join(Params(m), IF m.odd THEN "; " ELSE ";")>>
      rtx == IF m.more = "no" THEN <<>> ELSE <<"a=rtpmap:" \o extra \o " rtx/90000", "a=fmtp:" \o extra \o " apt=" \o pt>>
      ctl == IF m.ctl = "none" THEN <<>> ELSE <<"a=control:" \o Control(m, i)>>
  IN  <<"m=" \o Kind(m.c) \o " " \o (IF m.odd THEN "0/2 " ELSE "0 ") \o Proto(m.c) \o " " \o fmts>>
      \o (IF m.odd THEN <<"c=IN IP4 0.0.0.0", "b=AS:500">> ELSE <<>>)
      \o (CASE m.order = 1 -> rtpmap \o fmtp \o rtx \o ctl [] m.order = 2 -> ctl \o fmtp \o rtpmap \o rtx [] OTHER -> rtx \o <<"a=recvonly">> \o rtpmap \o ctl \o fmtp)
Text(ms, odd) == <<"v=0", "o=- 1 1 IN IP4 127.0.0.1", "s=No Name">> \o (IF odd THEN <<"i=about it", "u=http://x/">> ELSE <<>>) \o <<"c=IN IP4 0.0.0.0", "t=0 0">>
      \o (IF odd THEN <<"a=tool:x", "a=control:*", "a=range:npt=now-", "a=fmtp:96 config=ffff">> ELSE <<>>) \o FlattenSeq([i \in 1..Len(ms) |-> Media(ms[i], i)])
FirstOf(ms, c) == LET S == {i \in DOMAIN ms : ms[i].c = c} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Tracks(ms) ==
  LET v == FirstOf(ms, "h264")  a == FirstOf(ms, "aac")
  IN  (IF v = 0 THEN <<>> ELSE <<[kind |-> "video", pt |-> 94 + 2 * v, control |-> Control(ms[v], v), sps |-> SelectSeq(Sets(ms[v]), LAMBDA n : n[1] = 103), pps |-> SelectSeq(Sets(ms[v]), LAMBDA n : n[1] = 104), rate |-> 90000, ch |-> 0, config |-> <<>>]>>)
      \o (IF a = 0 THEN <<>> ELSE <<[kind |-> "audio", pt |-> 94 + 2 * a, control |-> Control(ms[a], a), sps |-> <<>>, pps |-> <<>>, rate |-> Rates[ms[a].sr + 1], ch |-> IF ms[a].mono THEN 1 ELSE Chans(ms[a].ch), config |-> AAC(ms[a].sr, ms[a].ch)]>>)
M(c, sets, x, sr, ch, mono, odd, more, order, ctl) == [c |-> c, sets |-> sets, x |-> x, sr |-> sr, ch |-> IF mono THEN 1 ELSE ch, mono |-> mono, odd |-> odd, more |-> more, order |-> order, ctl |-> ctl]

(* ============================ serving ============================ *)
(* The stream's headers in force; a description needs the video's. *)
None == [c |-> "none"]
Sprop(seq) == Join([i \in 1..Len(seq) |-> B64(seq[i])], ",")
VideoDesc(v) == IF v.c = "avc"
    THEN [kind |-> "video", pt |-> 96, enc |-> "H264", clock |-> 90000, ch |-> 1, control |-> "trackID=0",
          params |-> <<<<"packetization-mode", "1">>, <<"profile-level-id", Hex(SubSeq(v.sps[1], 2, 4), HexU)>>, <<"sprop-parameter-sets", Sprop(v.sps \o v.pps)>>>>]
    ELSE [kind |-> "video", pt |-> 96, enc |-> "H265", clock |-> 90000, ch |-> 1, control |-> "trackID=0",
          params |-> (IF v.vps = <<>> THEN <<>> ELSE <<<<"sprop-vps", Sprop(v.vps)>>>>) \o (IF v.sps = <<>> THEN <<>> ELSE <<<<"sprop-sps", Sprop(v.sps)>>>>) \o (IF v.pps = <<>> THEN <<>> ELSE <<<<"sprop-pps", Sprop(v.pps)>>>>)]
AudioDesc(a) == IF a.c = "aac"
    THEN [kind |-> "audio", pt |-> 97, enc |-> "mpeg4-generic", clock |-> Rates[a.sr + 1], ch |-> Chans(a.ch), control |-> "trackID=1",
          params |-> <<<<"mode", "AAC-hbr">>, <<"sizelength", "13">>, <<"indexlength", "3">>, <<"indexdeltalength", "3">>, <<"config", Hex(AAC(a.sr, a.ch), HexU)>>>>]
    ELSE [kind |-> "audio", pt |-> 97, enc |-> "opus", clock |-> 48000, ch |-> 2, control |-> "trackID=1", params |-> IF a.st THEN <<<<"sprop-stereo", "1">>>> ELSE <<>>]
Desc(v, a) == <<VideoDesc(v)>> \o (IF a.c = "none" THEN <<>> ELSE <<AudioDesc(a)>>)
V == IF hist = <<>> THEN None ELSE hist[Len(hist)].v
A == IF hist = <<>> THEN None ELSE hist[Len(hist)].a
Served(op, v, a) == [op |-> op, v |-> v, a |-> a, code |-> IF v.c = "none" THEN 503 ELSE 200, media |-> IF v.c = "none" THEN <<>> ELSE Desc(v, a)]
List(f(_), k, x) == [i \in 1..k |-> f(x + i)]

Init == hist = <<>> /\ done = FALSE
AddMedia == /\ Mode = "parse" /\ ~done /\ Len(hist) < MaxMedia
            /\ \E c \in Pick(Codecs) : \E odd \in Pick(BOOLEAN) : \E order \in Pick(1..3) : \E ctl \in Pick({"track", "stream", "num", "abs", "path", "none"}) : \E more \in Pick({"no", "first", "last"}) :
               \E sets \in (IF c = "h264" THEN Pick(0..4) ELSE {0}) : \E x \in Pick(IF Sim THEN 0..20 ELSE {1}) : \E sr \in (IF c = "aac" THEN Pick(IF Sim THEN 0..12 ELSE {3, 4}) ELSE {4}) : \E ch \in (IF c = "aac" THEN Pick(IF Sim THEN 1..7 ELSE {2}) ELSE {2}) : \E mono \in (IF c = "aac" THEN Pick(BOOLEAN) ELSE {FALSE}) :
                 hist' = Append(hist, M(c, sets, x, sr, ch, mono, odd, IF Static(c) \/ c = "app" THEN "no" ELSE more, order, ctl))
            /\ UNCHANGED done
Serve == /\ Mode = "serve" /\ ~done /\ Len(hist) < MaxSteps
         /\ \/ \E c \in Pick({"avc", "hevc"}) : \E x \in Pick(IF Sim THEN 0..20 ELSE {1}) : \E ns \in Pick(IF c = "avc" THEN 1..3 ELSE 0..2) : \E np \in Pick(IF c = "avc" THEN 1..3 ELSE {ns}) :
                 LET v == IF c = "avc" THEN [c |-> c, vps |-> <<>>, sps |-> List(SPS, ns, x), pps |-> List(PPS, np, x)]
                          ELSE [c |-> c, vps |-> [i \in 1..ns |-> Nal265(32, x + i)], sps |-> [i \in 1..ns |-> Nal265(33, x + i)], pps |-> [i \in 1..np |-> Nal265(34, x + i)]]
                 IN  hist' = Append(hist, Served("video", v, A))
            \/ \E sr \in Pick(0..12) : \E ch \in Pick(1..7) : hist' = Append(hist, Served("audio", V, [c |-> "aac", sr |-> sr, ch |-> ch, st |-> FALSE, config |-> AAC(sr, ch)]))
            \/ \E st \in Pick(BOOLEAN) : hist' = Append(hist, Served("audio", V, [c |-> "opus", sr |-> 0, ch |-> 0, st |-> st, config |-> <<>>]))
         /\ UNCHANGED done
Finish == ~done /\ hist # <<>> /\ (Sim => Len(hist) = IF Mode = "parse" THEN MaxMedia ELSE MaxSteps) /\ done' = TRUE /\ UNCHANGED hist
Next == AddMedia \/ Serve \/ Finish
Spec == Init /\ [][Next]_vars
(* At most one track of each kind, and only of media that is there and supported. *)
Sound == Mode = "parse" => LET t == Tracks(hist) IN Len(t) <= 2 /\ \A i \in DOMAIN t : Supported(hist[(t[i].pt - 94) \div 2].c)
Emit == done => PrintT("@@" \o ToJson(IF Mode = "parse" THEN [mode |-> Mode, lines |-> Text(hist, hist[1].odd), lf |-> hist[Len(hist)].order = 3, tracks |-> Tracks(hist), n |-> Len(hist), controls |-> [i \in 1..Len(hist) |-> Control(hist[i], i)], codecs |-> [i \in 1..Len(hist) |-> hist[i].c]]
                                      ELSE [mode |-> Mode, steps |-> hist]))
=============================================================================
