NA = {}
GEN = "TLA+ specification model-checked with TLC; TLC-generated behaviours replayed against the real code"
NOTES = {
 "C06": (GEN, "Chunk.tla: every behaviour in a small scope exhaustively, larger ones by random simulation; the specification's byte string is fed to a real session under several TCP segmentations."),
 "C07": (GEN, "Chunk.tla with timestamps over the full 32-bit range (boundary values and random ones)."),
 "C08": (GEN, "ServerOut.tla: writer/lock model checked exhaustively; single chunks byte by byte over the id/timestamp/length classes; concurrent senders on a real session sampled from the real scheduler."),
 "C09": (GEN, "Chunk.tla control messages; acknowledgement cadence and ping answers compared message by message with a real session."),
 "C22": (GEN + " over loopback UDP", "Model checked exhaustively in a small scope; every generated behaviour is replayed against the real listener. Assumes loopback UDP is lossless and ordered for the driver's own datagrams."),
 "C23": (GEN + " over loopback UDP", "All loss/duplication/reordering patterns of 4 packets, random longer sessions, ISNs incl. wrap-around; verdicts only from the real listener's deliveries and replies."),
}
NOTES.update({
 "C01": (GEN + "; real publishers raced against each other", "Claim.tla: the claim in every interleaving (with a two-step negative control); Session.tla: histories of attempts, refusals, departures over RTMP/RTSP/SRT replayed against a whole server. The race of the real claims samples the scheduler."),
 "C02": (GEN, "Every way a publisher can end (RTMP commands, drop, half message, malformed; RTSP teardown/drop; SRT shutdown), with viewers over RTMP, HTTP, WebSocket, RTSP, followed by republication."),
 "C05": (GEN, "Every session sends media in every state; deliveries of every viewer are compared with the specification's."),
 "C12": (GEN, "Every command in every session state: replies, status codes, transaction ids, order, closed connections."),
})
NOTES.update({
 "C03": (GEN + "; recorded viewers judged by TLC (trace validation)", "Fanout.tla: the group-of-pictures mechanism is checked against Fan.tla in every interleaving of writes and reads in a small scope; histories with joins are replayed against a server over RTMP, HTTP, WebSocket, RTSP, what every viewer received is accepted or rejected by FanTrace.tla."),
 "C04": (GEN + "; recorded viewers judged by TLC (trace validation)", "As C03, with paused, slow, leaving and freely running viewers, message sizes up to 70000 bytes, timestamps across 2^24, 2^31 and 2^32."),
})
HLS = "TLA+ specification model-checked with TLC; generated streams fed to the real segmenter; what it lists and writes judged by TLC (trace validation)"
NOTES.update({
 "C15": (HLS, "Hls.tla: segmentation and sliding window, model-checked; after every tag the playlist and the directory of the real segmenter are judged by HlsTrace.tla, with a client polling all the time for listed files that are missing or still grow."),
 "C16": (HLS, "As C15, for the content: segments are read back by an independent TS/PES/Annex B/ADTS reader and compared picture by picture, with parameter sets, time stamps across the 32-bit and 33-bit limits, AVC and HEVC, NAL length sizes 1-4."),
 "C17": (HLS, "As C15, in low-latency mode, with blocking requests for past, current and future parts, stops and time limits."),
})
TRACE = "TLA+ specification model-checked with TLC; generated behaviours run on the real code, what it did judged by TLC (trace validation)"
NOTES["C18"] = (TRACE, "Ts.tla: packets and counters; TsTrace.tla judges every byte the real multiplexer writes: packet headers, adaptation fields, PCR, PES headers and payloads, tables with their CRC; every frame size of a range, sizes around every boundary and the 16-bit PES length, 33-bit times.")
NOTES["C20"] = (TRACE, "Mp4.tla: tracks (AVC from parameter sets or from a record, HEVC) and runs of samples; Mp4Trace.tla parses every byte of the real files against the box grammar: sizes, nesting, track and sequence numbers, sample tables, data offset, payload.")
NOTES["C19"] = (TRACE, "Dash.tla: the segmenter over all streams of a small scope, long ones at random; DashTrace.tla judges manifest, directory, init segment and the samples of every segment after every tag, for AVC and HEVC configurations of many profiles and dimensions, with a client polling all the time.")
NOTES["C21"] = (GEN, 'Files.tla: which files exist for every stream while publishers come, go, race readers and clash, over RTMP, RTSP and SRT with names that are paths, dots, escapes; after every step every file below the root is counted and attributed, listed ones fetched over HTTP and their pictures traced to their stream and publication, and requests that lead out of the directory tried.')
NOTES["C11"] = (GEN, 'Handshake.tla: bytes received against bytes due, for server and pulling client; every form (simple, digest low/high, broken digests), offset, C2, every segmentation at the boundaries, closing at every point, other versions; the driver checks echo and digests with its own HMAC and that a ping right behind C2/S2 and the first command are answered.')
NOTES["C13"] = (GEN, "Amf.tla: AMF0 values, encoder and decoder (mutually inverse, every prefix an error unless it ends with a value, checked by TLC); the library decodes the specification's bytes under several readers and at every prefix, and encodes the values from every Go type.")
NOTES["C14"] = (GEN, "Flv.tla: every byte of the file but the payloads, for every kind of audio, video and data message, size class up to 2^24-1 and time; viewers over HTTP and WebSocket and the library's own tags are compared with it byte by byte.")
NOTES["C33"] = (GEN, "Codec.tla: records, AudioSpecificConfig and ADTS bit by bit with their readers, and a parser handed a series of valid and truncated ones between access units; the library's parsers, HLS segments (AVC and HEVC) and the parameter sets in RTSP descriptions are compared.")
NOTES["C32"] = (GEN, "Sdp.tla: texts of announced sessions (eleven codecs, orders, spellings, several formats and controls) with the tracks to recover, and descriptions of streams after every change of their headers; library, ANNOUNCE/SETUP, viewers' headers and DESCRIBE are compared, and the server's own descriptions parsed back.")
NOTES["C28"] = (TRACE, 'RtpOut.tla: every unit size against every maximum for the packetisers, and streams with changing headers published over RTMP and played over RTSP (TCP and UDP); RtpTrace.tla with the strict receiver RtpCore.tla judges every byte of every packet.')
NOTES["C29"] = (GEN, 'Rtp.tla: sender, network and receiver; any arrivals of the packets of one or two access units exhaustively, long streams at random; every delivery replayed on the reassemblers and, over TCP and UDP with foreign and malformed packets in between, on a recording server whose FLV viewer is compared tag by tag.')
NOTES["C26"] = (GEN, 'Rtsp.tla: sessions, their states and the stream registry; every request with every variant of target, transport and session in every reachable state over one and two sessions and one and two streams, plus long histories over three sessions, each replayed on a live server over real connections')
NOTES["C30"] = (GEN, 'RtspRoute.tla: every order of SETUPs, transports, directions and endings of one session up to a bound and long histories of three sessions, replayed on a live server with clients on addresses of their own; every packet is attributed to the channel or port it came on, and UDP sockets, goroutines, descriptors and streams are counted afterwards')
NOTES["C27"] = (GEN, 'RtspWire.tla: the byte stream and its parser as a machine over single bytes, faithful in every segmentation; random connections and reads are replayed into librtsp and into live publisher and player sessions, whose responses, media and interleaved frames are compared; every response written is parsed back')
NOTES["C31"] = (GEN, 'Ws.tla: requests, client frames of every size class and endings, each alone and mixed at random with media of every frame-length class; a strict frame reader and the counts of goroutines and descriptors judge; the lock of the writers is model-checked, with the unlocked variant as negative control.')
NOTES["C24"] = (GEN, "spec/TsIn.tla models a program's packets (PAT/PMT with stuffing, descriptors, sections over several packets, damaged and future tables; PES packets of 1 to 15 TS packets with adaptation fields, discontinuities, repeats, losses, damage) and which units come out; an item that damage may have reached is optional, never altered. cmd/tsin builds the packets with its own writer and feeds libsrt.Demuxer in packet, seven-packet, arbitrary and byte-sized pieces, and a whole server over SRT with an FLV viewer.")
NOTES["C25"] = (GEN, "spec/Pull.tla models the name's owner, the relay's session and its delays against an upstream that refuses, errs, hangs up, stays silent or lies at every step, and a local publisher that wants the name; invariants: registered iff a session runs, only the local publisher ends its own stream, delays double up to 30 s and start over after media. cmd/pull is the upstream (own RTMP peer), the local publisher and an FLV viewer; delays are measured in real time, one history up to the 30 s bound.")
NOTES["C10"] = (GEN, "Robust.tla: every kind of attack at every stage of every protocol (RTMP, RTSP over TCP and UDP, HTTP/WebSocket, HLS/DASH, SRT), with and without others watching the attacker, and random histories of up to three hostile sessions; the driver picks the bytes (damaged handshakes, chunk headers, AMF, codec records, NAL units, RTP, SDP, HTTP, WebSocket frames, SRT packets, transport streams) against a live server with all outputs on. After each step the bystander's RTMP, HTTP-FLV, WebSocket, RTSP, HLS, DASH and SRT viewers must have its media unchanged; at the end names are free, newcomers are served on every attacked port and no goroutine or descriptor is left. A crash of the server ends the driver and is charged to the history in progress.")
