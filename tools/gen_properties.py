#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for all property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "At most one live publisher owns a stream name",
  "At any moment at most one live publisher (RTMP publish, RTSP announce/record, SRT caller) owns a stream name of an application; any further attempt to publish that name is refused (RTMP: BadName status, RTSP: error response, SRT: shutdown), even when attempts race. "
  "A refused attempt, its later traffic and its departure never disturb the owner: the owner's media keeps reaching its viewers and the name stays taken until the owner itself ends.",
  ["schedules", "histories"], "every history and interleaving of publish / announce attempts, refusals, departures and republications over several connections and names",
  "Tests publish once or refuse one sequential duplicate; they never race two publishers nor check that a refused publisher leaving leaves the owner alone.",
  ["librtmp/app.go", "librtmp/command_message.go", "librtmp/rtsp_ingest.go", "librtmp/srt_server.go", "librtmp/server.go"],
  [("room registry per application", "librtmp/app.go App"), ("publish command handling", "librtmp/command_message.go"), ("ANNOUNCE handling", "librtmp/rtsp_ingest.go")],
  [("name -> live room", "which stream names are owned and by whom")])

p("C02", "A publisher's end frees the name and ends its viewers",
  "However a publishing session ends (unpublish/close/delete command, RTSP teardown, disconnect at any point, protocol error), the stream name becomes publishable again, every viewer attached to it stops receiving media (an HTTP or WebSocket viewer's response ends), and play requests for the name are refused until somebody publishes it again. "
  "Viewers of the next publisher of the same name receive only the new publisher's media and metadata.",
  ["histories", "crash_points"], "every way and point at which a publisher can end, with any number of viewers over RTMP/HTTP-FLV/RTSP, followed by republication",
  "Tests end at most one publisher in one way, mostly without viewers; they do not enumerate the ending points nor republish under the same name.",
  ["librtmp/app.go", "librtmp/room.go", "librtmp/rtmp.go", "librtmp/command_message.go", "librtmp/rtsp_server.go", "librtmp/server.go"],
  [("App.Delete / Room.Close", "librtmp/app.go, librtmp/room.go"), ("session cleanup", "librtmp/rtmp.go handler exit")],
  [("room liveness", "whether viewers' readers are still served")])

p("C03", "A late viewer gets current metadata and codec headers before media",
  "Whenever a viewer attaches to a live stream, before any media frame it receives the stream metadata and the codec configuration (video and audio sequence headers) most recently sent by the publisher, and, if the stream has video, the first video frame it receives is a keyframe. "
  "The headers in force when a media frame is delivered are those the publisher had in force for that frame.",
  ["schedules", "histories"], "every history of publisher messages (metadata, headers, key/inter/audio frames) and every join point of any number of viewers",
  "Tests join at one or two fixed points of one fixed message sequence.",
  ["librtmp/room.go", "librtmp/video.go", "librtmp/audio.go", "librtmp/data_message.go"],
  [("cached metadata and headers", "librtmp/room.go"), ("GOP cache", "librtmp/room.go broadcaster use in librtmp/video.go")],
  [("cached metadata/headers", "latest of each kind"), ("group-of-pictures cache", "frames since the last keyframe")])

p("C04", "Viewers get the publisher's media intact and in publish order",
  "Every viewer, over every delivery protocol, receives a sequence of the publisher's audio and video messages, from a keyframe if the stream has video, with payload and timestamp unchanged, in publish order and without duplicates, and may skip only forward to a keyframe; a viewer that keeps up from a keyframe on misses nothing. "
  "What one viewer does (slow, leaving, breaking) never changes what another receives.",
  ["schedules", "histories"], "every interleaving of one publisher and several viewers at different speeds, joins and departures",
  "Tests follow one viewer through a handful of frames in lock step with the publisher.",
  ["librtmp/room.go", "librtmp/video.go", "librtmp/audio.go", "librtmp/rtsp_server.go", "librtmp/server.go"],
  [("fan-out of messages", "librtmp/room.go FLVJoin/RTMPJoin"), ("media message handling", "librtmp/video.go, librtmp/audio.go")],
  [("read index per viewer", "position of each viewer in the current group of pictures")])

p("C05", "Only the owning publisher's session can put data into a stream",
  "Media, metadata and codec headers enter a stream only from the session that currently publishes it: data sent by a session that plays, was refused, has unpublished, or never published reaches no stream, and data published under one application/name never reaches viewers of another.",
  ["histories", "schedules"], "every history of commands and media over several sessions, names and applications",
  "Tests only send media from proper publishers on one name.",
  ["librtmp/command_message.go", "librtmp/video.go", "librtmp/audio.go", "librtmp/data_message.go", "librtmp/rtmp.go"],
  [("session to room binding", "librtmp/rtmp.go room field, used by the media message handlers")],
  [("session role", "publisher / player / idle")])

p("C06", "RTMP messages reassemble identically however they are chunked",
  "The messages the server extracts from an RTMP connection (type, stream id, timestamp, payload) depend only on the messages the peer sent, not on the chunk size in force, the chunk header formats used, how chunks of different chunk streams interleave, or how TCP segments the bytes.",
  ["inputs", "schedules"], "every set of messages on several chunk streams, every legal chunking, interleaving, header-format choice, chunk-size change and read segmentation",
  "Tests parse a few hand-written single-stream messages from one buffer.",
  ["librtmp/message.go", "librtmp/chunk.go", "librtmp/control_message.go"],
  [("chunk reader and message assembly", "librtmp/message.go ParseMessage, librtmp/chunk.go"), ("inbound chunk size", "librtmp/control_message.go SetChunkSize")],
  [("per-chunk-stream header state and partial payload", "what a compressed header inherits and what has been received")])

p("C07", "RTMP timestamps are reconstructed exactly",
  "The absolute timestamp the server attributes to each message equals the sender's: absolute and delta headers, repeated deltas, extended timestamps (including on continuation chunks), wrap-around modulo 2^32, and each chunk stream independently of the others.",
  ["inputs", "histories"], "every sequence of header formats, absolute/delta values over the whole 32-bit range, and chunk streams",
  "Tests use small timestamps and one chunk stream.",
  ["librtmp/chunk.go", "librtmp/message.go", "librtmp/aggregate_message.go"],
  [("timestamp state per chunk stream", "librtmp/chunk.go"), ("aggregate message timestamps", "librtmp/aggregate_message.go")],
  [("last timestamp, delta and extended flag per chunk stream", "what later headers refer to")])

p("C08", "What the server sends is a well-formed RTMP chunk stream",
  "Every byte the server sends after the handshake decodes, with an independent reader following the RTMP chunk format and the chunk size the server announced, into exactly the messages the server meant to send: for every payload length, chunk stream id (3 to 65599), timestamp (including 0xFFFFFF and above) and chunk size, and with several goroutines sending on the same connection.",
  ["inputs", "schedules"], "every message length, chunk size, chunk stream id class, timestamp range and header format; concurrent senders",
  "Tests check a few chunks with small ids and timestamps, produced by a single goroutine.",
  ["librtmp/chunk.go", "librtmp/message.go", "librtmp/rtmp.go"],
  [("chunk writer", "librtmp/chunk.go Send"), ("message splitting", "librtmp/message.go")],
  [("outbound chunk size", "announced to the peer")])

p("C09", "RTMP protocol control messages take effect exactly as specified",
  "A peer's Set Chunk Size, Abort, Window Acknowledgement Size and User Control ping take effect exactly from the next message on: each ping is answered once with its own value, an acknowledgement is sent when and only when at least a window of message bytes has arrived since the last one and carries the count received so far, an abort discards only the partial message of the chunk stream it names, and invalid control values are rejected without corrupting the session.",
  ["inputs", "histories"], "every sequence of control messages and data over several chunk streams and window/chunk sizes",
  "Tests parse single control messages; no test follows a session's acknowledgement cadence or an abort among interleaved messages.",
  ["librtmp/control_message.go", "librtmp/message.go", "librtmp/rtmp.go"],
  [("control message handling", "librtmp/control_message.go"), ("acknowledgement cadence", "librtmp/message.go")],
  [("bytes received, last acknowledged, peer window", "flow-control counters")])

p("C10", "No peer input takes the server down or disturbs other sessions",
  "Whatever bytes a peer sends on the RTMP, RTSP, HTTP/WebSocket or SRT port, at whatever point it stops or disconnects, at most that peer's own session ends with an error: the process stays up, other sessions continue to receive their media, new sessions are accepted, and nothing of a session that has gone (its stream name, its goroutines, its sockets) stays behind.",
  ["inputs", "fault_sequences"], "every malformed, truncated or out-of-order message at every protocol state, on every port",
  "Tests send a few malformed packets to isolated parsers, never to a live server with other sessions.",
  ["librtmp/message.go", "librtmp/command_message.go", "librtmp/control_message.go", "librtmp/rtsp_server.go", "librtmp/websocket.go", "libamf/amf0.go", "libsrt/listener.go", "libsrt/tsdemux.go", "libflv/tag.go"],
  [("message parsing and dispatch", "librtmp/message.go, librtmp/command_message.go"), ("RTSP request loop", "librtmp/rtsp_server.go"), ("SRT packet handling", "libsrt/listener.go")])

p("C11", "The RTMP handshake completes exactly with conforming peers",
  "For every C0/C1/C2 a conforming client can send (simple or digest handshake, digest in either position, any segmentation), the server answers with a correct S0/S1/S2 (S2 proves receipt of C1: an echo for the simple form, a valid digest for the complex form) and consumes exactly the handshake bytes, so the first command is read intact; a peer with an unsupported version gets no session.",
  ["inputs"], "every client version byte, schema, digest offset, random payload and segmentation, including commands pipelined behind the handshake",
  "Tests use one or two fixed handshakes.",
  ["librtmp/handshake.go"],
  [("handshake", "librtmp/handshake.go")])

p("C12", "RTMP commands get the replies the session state calls for",
  "At every point of a session each command (connect, createStream, publish, play, pause, seek, deleteStream, closeStream and the FC/receive variants) gets exactly the reply or error defined for the current session and stream state, with the command's own transaction id and in command order; a rejected command leaves the session usable or closes it, and never leaves a stream registered that nobody publishes.",
  ["histories"], "every sequence of commands with arbitrary transaction ids and stream names over several sessions",
  "Tests run the happy path of publish and play.",
  ["librtmp/command_message.go", "librtmp/rtmp.go"],
  [("command dispatch and replies", "librtmp/command_message.go")],
  [("session state", "connected, publishing, playing")])

p("C13", "AMF0 encoding and decoding are mutually inverse",
  "Every AMF0 value the encoder can be given (numbers, booleans, strings of any length, null, nested objects) decodes back to an equal value, and decoding a sequence of values yields exactly those values and consumes exactly their bytes, also with ECMA arrays, strict arrays, dates and nested objects in it; truncated input is an error, never a silently shortened value.",
  ["inputs"], "every AMF0 value tree, sequence of values, and truncation point",
  "Tests decode a few captured commands.",
  ["libamf/amf0.go", "librtmp/command_message.go"],
  [("AMF0 codec", "libamf/amf0.go")])

p("C14", "HTTP-FLV output is a valid FLV file of the published media",
  "What an HTTP-FLV or WebSocket-FLV viewer receives is a valid FLV stream: the 13-byte file header, then tags whose type, data size, 32-bit timestamp, stream id and following previous-tag-size are those of the message they carry, for every payload size and every timestamp; an FLV tag written by the library reads back as the same tag.",
  ["inputs", "histories"], "every tag type, payload size and timestamp over the full 32-bit range, and every message sequence",
  "Tests check a single tag with a small timestamp.",
  ["libflv/flv.go", "libflv/tag.go", "libflv/audio.go", "libflv/video.go", "librtmp/room.go"],
  [("tag framing", "libflv/tag.go, libflv/flv.go"), ("FLV join", "librtmp/room.go")])

p("C15", "HLS playlists advance consistently and reference existing segments",
  "At every moment the HLS playlist lists at most the configured number of most recent complete segments in order, its media sequence number grows by exactly one per segment that drops off, every listed segment exists on disk with its final content, each listed duration is the span of the media in that segment and none exceeds the advertised target duration, and files of segments that left the window are removed.",
  ["histories"], "every sequence of audio/video messages with arbitrary timestamps and keyframe spacing, observed after each message",
  "Tests push one fixed sequence and look at the playlist once.",
  ["libhls/hls.go", "libhls/m3u8.go"],
  [("segment rotation and playlist rendering", "libhls/hls.go, libhls/m3u8.go")],
  [("segment window and in-progress segment", "what the playlist lists")])

p("C16", "HLS segments carry every frame once, starting at a keyframe",
  "Concatenating the HLS segments of a stream gives every audio and video frame published from the first keyframe on, exactly once, in order, with its payload and its presentation/decoding time (modulo the 33-bit 90 kHz clock); every segment starts with program tables and a keyframe preceded by its parameter sets and decodes on its own.",
  ["histories", "inputs"], "every sequence of audio/video frames, timestamps over the full 32-bit range, composition offsets and frame sizes",
  "Tests check that a segment file appears and starts with a sync byte.",
  ["libhls/hls.go", "libhls/align.go", "libhls/audio_cache.go", "libmpeg/ts.go", "libmpeg/pes.go", "libavc/avc.go", "libaac/aac.go"],
  [("muxing of messages into segments", "libhls/hls.go"), ("audio batching", "libhls/audio_cache.go, libhls/align.go")])

p("C17", "Low-latency parts tile their segment and blocking reload is exact",
  "In low-latency mode the parts listed for a segment are consecutive byte ranges that together are exactly that segment's file, parts marked independent start with a keyframe, and part durations add up to the segment's. "
  "A blocking playlist request for a given segment/part returns as soon as, and not before, that segment/part is listed, or when its time limit expires or the stream ends.",
  ["histories", "schedules"], "every frame sequence and every interleaving of blocking reload requests with segment/part completion",
  "Tests ask for one part of one stream.",
  ["libhls/hls.go", "libhls/m3u8.go", "librtmp/server.go"],
  [("part accounting", "libhls/hls.go"), ("blocking reload", "libhls/hls.go WaitForPlaylist")])

p("C18", "MPEG-TS output is well-formed for every frame size",
  "For every elementary-stream payload size, timestamp and mix of tracks, the TS muxer emits whole 188-byte packets with sync byte, the track's PID, a per-PID continuity counter that increments by one per payload packet, adaptation fields whose length matches their content, a PCR on keyframes, valid PAT/PMT with CRC, and PES packets from which the original payload and PTS/DTS are recovered exactly.",
  ["inputs"], "every payload size around the packet boundaries, every 33-bit timestamp, key and non-key, with and without audio, and every sequence of frames",
  "Tests mux one or two frames of fixed sizes.",
  ["libmpeg/ts.go", "libmpeg/pes.go", "libmpeg/psi.go", "libmpeg/crc32.go"],
  [("TS packetisation", "libmpeg/ts.go"), ("PES header", "libmpeg/pes.go"), ("PSI tables", "libmpeg/psi.go")])

p("C19", "DASH manifest and media segments stay consistent",
  "At every moment the DASH manifest is a valid dynamic MPD that leads only to files that exist: its start number is that of the first available segment, the segments on disk are exactly the most recent complete ones (at most the window size), codecs string and dimensions are those of the stream, and init segment and segments do not change once available. Each video segment starts at a keyframe, lasts at least the target duration (except the last), and carries each sample once with its duration, composition offset, sync flag and bytes as published; sequence numbers count up and decode times continue without gap from one segment to the next, also where the 32-bit timestamps wrap; a repeated configuration changes nothing and stopping removes all files.",
  ["histories", "inputs"], "every sequence of audio/video messages with arbitrary timestamps and keyframe spacing",
  "Tests push one fixed sequence and check that files appear.",
  ["libdash/dash.go", "libdash/mpd.go", "libmp4/media_segment.go"],
  [("segment rotation", "libdash/dash.go"), ("manifest", "libdash/mpd.go"), ("fragment writer", "libmp4/media_segment.go")])

p("C20", "fMP4 boxes are structurally valid and describe the codec exactly",
  "Every initialization and media segment produced is a properly nested sequence of boxes whose sizes add up, whose sample tables and data offsets address exactly the sample bytes in the media data box, and whose codec configuration (avcC/hvcC, audio sample description) is that of the published stream, for every sample count, size and parameter set.",
  ["inputs"], "every track mix, parameter-set content, sample count, size, flags and timing",
  "Tests check a couple of fixed boxes.",
  ["libmp4/box.go", "libmp4/init_segment.go", "libmp4/init_segment_hevc.go", "libmp4/media_segment.go"],
  [("box writer", "libmp4/box.go"), ("init segments", "libmp4/init_segment.go"), ("media fragments", "libmp4/media_segment.go")])

p("C21", "Stream files stay in the configured directory and are removed at stop",
  "All files created for a stream lie in the configured HLS/DASH directory whatever the stream name is, two streams never write each other's files, HTTP requests can only read files of that directory, and after the stream has ended none of its segment or initialization files remain.",
  ["inputs", "histories", "schedules"], "every stream name (including separators and dot segments), request path, and point at which the stream stops",
  "Tests use plain names and stop an idle stream.",
  ["libhls/hls.go", "libdash/dash.go", "librtmp/server.go", "librtmp/app.go"],
  [("segment file naming and removal", "libhls/hls.go, libdash/dash.go"), ("HTTP file serving", "librtmp/server.go")])

p("C22", "SRT sessions start only after a valid two-step handshake",
  "The SRT listener creates a receiving session only for a conclusion request that carries the cookie it issued to that same peer, replies to each handshake step with the fields the peer needs (cookie, its own socket id, addressed to the peer's socket id), delivers no data from peers that have not completed it, and treats a repeated conclusion as a retransmission that neither restarts nor disturbs the session.",
  ["histories", "inputs"], "every sequence of handshake, data and control packets from several peers, with any cookie and socket ids, lost or repeated",
  "Tests run one successful handshake.",
  ["libsrt/listener.go", "libsrt/handshake.go", "libsrt/packet.go"],
  [("handshake state machine", "libsrt/listener.go"), ("handshake packet codec", "libsrt/handshake.go")],
  [("per-peer session", "cookie, socket ids, expected sequence number")])

p("C23", "SRT delivery is in order, at most once, with exact loss reports",
  "For every pattern of loss, duplication and reordering of data packets, each payload is handed on at most once and in increasing sequence order modulo 2^31, every gap is reported once as exactly the missing sequence numbers, acknowledgements carry the next expected sequence number and never go backwards, keepalives are answered, and nothing is delivered after shutdown.",
  ["fault_sequences", "schedules"], "every pattern of loss, duplication, reordering and sequence wrap-around from any initial sequence number",
  "Tests send a few packets with one gap and small sequence numbers.",
  ["libsrt/listener.go", "libsrt/control.go", "libsrt/packet.go"],
  [("data reception and NAK/ACK", "libsrt/listener.go"), ("loss list codec", "libsrt/control.go")],
  [("expected sequence number", "next in-order packet")])

p("C24", "TS ingest recovers access units exactly",
  "For every legal MPEG-TS packetisation of an H.264/AAC program (adaptation fields, PES split at any size, interleaved PIDs, table repetition, arbitrary delivery chunking), the demultiplexer emits each access unit exactly once, in order, with its payload and timestamps (a video PES packet holds one access unit, an audio one any ADTS frames, which may go on in the next); lost, damaged, repeated or foreign packets and tables cost at most the units they belong to or end, and never alter one. Over SRT the units reach viewers as FLV tags with the parameter sets in force.",
  ["inputs", "fault_sequences"], "every packetisation, interleaving, delivery chunk size and corrupted packet",
  "Tests demux one stream made by the repository's own muxer.",
  ["libsrt/tsdemux.go", "librtmp/srt_server.go"],
  [("TS demultiplexer", "libsrt/tsdemux.go"), ("SRT ingest into a room", "librtmp/srt_server.go")],
  [("PES accumulation per PID", "bytes of the unit in progress")])

p("C25", "Pull relay behaves as one publisher with bounded retries",
  "A pulled stream asks its upstream for the stream its URL names, is registered under its local name while the relay runs, republishes the upstream's metadata, headers and media unchanged to local viewers, reconnects after every upstream failure, error reply, end of stream or silence with delays that double from one second up to 30 s and start over once media has come, and never replaces or ends a stream that a live publisher owns; nothing the upstream says starts or ends a local stream.",
  ["fault_sequences", "histories"], "every upstream behaviour (refusal, error reply, disconnect at each step, media) and every local publisher state",
  "Tests pull from one well-behaved upstream, if at all.",
  ["librtmp/client.go", "librtmp/server.go"],
  [("pull client", "librtmp/client.go")])

p("C26", "RTSP sessions follow the RTSP state machine",
  "For every sequence of RTSP requests on a connection, each gets exactly one response, in order, with its own CSeq and the status the session state calls for (PLAY needs DESCRIBE and SETUP, RECORD needs ANNOUNCE, unknown methods, missing streams, duplicate announce and unsupported transports have their own codes), and no refused request changes the session or the stream registry.",
  ["histories"], "every sequence of requests, headers and targets over several connections, with streams present or absent",
  "Tests run the happy path of play and record.",
  ["librtmp/rtsp_server.go", "librtmp/rtsp_ingest.go"],
  [("request dispatch", "librtmp/rtsp_server.go"), ("announce/record", "librtmp/rtsp_ingest.go")],
  [("session state", "described, announced, set up, playing, recording")])

p("C27", "RTSP parsing does not depend on TCP segmentation",
  "Requests, bodies and interleaved binary frames are recognised identically however the byte stream is split into reads: every interleaved frame is taken whole with its channel, requests between frames are still answered, and a message serialised by the library parses back to the same message.",
  ["inputs", "schedules"], "every request/frame mix and every segmentation of the byte stream",
  "Tests parse whole messages from one buffer.",
  ["librtsp/message.go", "librtmp/rtsp_server.go", "librtmp/rtsp_ingest.go"],
  [("message parser", "librtsp/message.go"), ("interleaved ingest loop", "librtmp/rtsp_ingest.go")])

p("C28", "RTP packetisation round-trips every frame",
  "For every H.264, H.265, AAC and Opus frame of every size, the RTP packets of a video access unit fit the maximum size (an audio frame is one packet, AAC up to 8191 bytes), all carry consecutive sequence numbers (modulo 2^16), one timestamp per access unit in the track's clock rate, the marker on exactly the last packet of the access unit, and they reassemble to exactly the original NAL units or audio frame, in front of which a player gets the parameter sets in force when they change.",
  ["inputs"], "every frame size around the fragmentation boundaries, NAL type, count of NAL units, and starting sequence number",
  "Tests pack one small and one large NAL unit.",
  ["librtsp/rtp.go", "librtsp/h264.go", "librtsp/hevc.go", "librtsp/aac.go", "librtsp/opus.go"],
  [("packetisers", "librtsp/h264.go, hevc.go, aac.go, opus.go"), ("RTP header", "librtsp/rtp.go")])

p("C29", "RTP reassembly never emits a corrupt frame under loss",
  "For every loss, duplication or reordering (by up to 100 packets) of RTP packets, the reassembler emits only NAL units and audio frames that were sent, complete and unmodified, in order and grouped by access unit with timestamps that follow the sender's clock over its 2^32 wrap-around; a damaged unit is dropped whole and the first intact unit after the damage is delivered.",
  ["fault_sequences"], "every packet loss/duplication/reordering pattern over single, aggregated and fragmented units",
  "Tests reassemble complete loss-free sequences.",
  ["librtsp/rtp_unpack.go", "librtmp/rtsp_ingest.go"],
  [("H.264 depacketiser", "librtsp/rtp_unpack.go"), ("AAC depacketiser", "librtsp/rtp_unpack.go")],
  [("fragment buffer", "bytes of the unit in progress")])

p("C30", "RTSP transports route each track as negotiated and are released",
  "Each track's RTP packets go only to the interleaved channel or UDP port negotiated for that track, in either direction, the SETUP response states the transport actually used, and when the session ends in any way its UDP ports, stream readers and registrations are released.",
  ["configurations", "histories", "crash_points"], "every transport choice per track, order of SETUPs, direction, and ending of the session",
  "Tests set up one track over one transport and tear down cleanly.",
  ["librtmp/rtsp_server.go", "librtmp/rtsp_ingest.go"],
  [("SETUP and transport handling", "librtmp/rtsp_server.go"), ("session cleanup", "librtmp/rtsp_server.go")],
  [("track to channel/port", "negotiated transports")])

p("C31", "WebSocket handshake and frames are well-formed and atomic",
  "A WebSocket upgrade is answered with the accept key of the request's key, every server frame is a complete unmasked frame with a correct length for every payload size and is never interleaved with another frame, pings are answered by pongs with the same payload, and a client's close, disconnect or illegal frame ends that viewer at once, leaving none of its tasks behind, even if it has stopped reading; a close frame is the last the server sends.",
  ["inputs", "schedules"], "every payload size class, client frame (ping, close, fragmented, masked) and interleaving of pongs with media",
  "Tests upgrade once and read one frame.",
  ["librtmp/websocket.go", "librtmp/server.go"],
  [("WebSocket framing", "librtmp/websocket.go")])

p("C32", "SDP descriptions are faithful in both directions",
  "The SDP served for a stream describes exactly its tracks (media type, payload type, clock rate, channels, codec parameters, per-track control) as published, and parsing any legal SDP for supported codecs, including one the server itself wrote, recovers exactly those tracks and parameters; unsupported media are left out.",
  ["inputs"], "every codec combination, sample rate/channel layout, parameter-set content, attribute order and line ending",
  "Tests build and parse one H.264+AAC description.",
  ["librtsp/sdp.go", "librtsp/sdp_parse.go", "librtmp/rtsp_server.go"],
  [("SDP writer", "librtsp/sdp.go"), ("SDP parser", "librtsp/sdp_parse.go")])

p("C33", "Codec configuration records are parsed and rebuilt exactly",
  "AVC and HEVC decoder configuration records yield exactly the parameter sets and NAL length size they contain, a new record replaces the previous one entirely, AudioSpecificConfig yields object type, sample rate and channel configuration, and ADTS headers built from it state those values and the exact frame length.",
  ["inputs", "histories"], "every record content, parameter-set count and size, sequence of configuration changes, and all object type/rate/channel combinations",
  "Tests parse one fixed record.",
  ["libavc/avc.go", "libaac/aac.go", "libflv/audio.go", "libflv/video.go"],
  [("AVC/HEVC configuration parsing", "libavc/avc.go"), ("AAC configuration and ADTS", "libaac/aac.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
