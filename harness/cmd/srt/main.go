// Driver srt replays behaviours of spec/Srt.tla against a real libsrt.Listener over loopback UDP.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"sync"
	"time"

	"vh/lib"

	"github.com/sbraveyoung/GGmpeg/libsrt"
)

type out struct {
	T      string `json:"t"`
	Type   int    `json:"type"`
	Cookie int    `json:"cookie"`
	Dst    uint32 `json:"dst"`
	From   int64  `json:"from"`
	To     int64  `json:"to"`
	Seq    int64  `json:"seq"`
}

type step struct {
	Act string `json:"act"`
	P   int    `json:"p"`
	Arg struct {
		Sid    uint32 `json:"sid"`
		Cookie int    `json:"cookie"`
		Fresh  bool   `json:"fresh"`
		Off    int64  `json:"off"`
		Bad    bool   `json:"bad"`
		K      int    `json:"k"`
	} `json:"arg"`
	Out []out `json:"out"`
	Del bool  `json:"del"`
}

type scenario struct {
	Base  uint32 `json:"base"`
	Live  bool   `json:"live"`
	Burst bool   `json:"burst"`
	Steps []step `json:"steps"`
}

const mask = 0x7fffffff

type peer struct {
	conn   *net.UDPConn
	isn    uint32
	lastCk uint32
	ackNum uint32
	seqAck int64
}

type delivery struct {
	stream string
	data   []byte
}

type world struct {
	mu      sync.Mutex
	dels    []delivery
	badSet  map[string]bool
	l       *libsrt.Listener
	addr    *net.UDPAddr
	peers   map[int]*peer
	sent    *peer
	cookies []uint32 // 1-based ids -> real values
	ourSid  map[int]uint32
}

func ctrl(t uint16, info, dst uint32, body []byte) []byte {
	b := make([]byte, 16+len(body))
	binary.BigEndian.PutUint32(b[0:], 0x80000000|uint32(t)<<16)
	binary.BigEndian.PutUint32(b[4:], info)
	binary.BigEndian.PutUint32(b[8:], 777)
	binary.BigEndian.PutUint32(b[12:], dst)
	copy(b[16:], body)
	return b
}

func hsBody(ver uint32, isn uint32, typ int32, sid, cookie uint32) []byte {
	b := make([]byte, 48)
	binary.BigEndian.PutUint32(b[0:], ver)
	binary.BigEndian.PutUint16(b[6:], 2)
	binary.BigEndian.PutUint32(b[8:], isn)
	binary.BigEndian.PutUint32(b[12:], 1500)
	binary.BigEndian.PutUint32(b[16:], 8192)
	binary.BigEndian.PutUint32(b[20:], uint32(typ))
	binary.BigEndian.PutUint32(b[24:], sid)
	binary.BigEndian.PutUint32(b[28:], cookie)
	b[32] = 127
	return b
}

func dataPkt(seq uint32, payload []byte) []byte {
	b := make([]byte, 16+len(payload))
	binary.BigEndian.PutUint32(b[0:], seq&mask)
	binary.BigEndian.PutUint32(b[4:], 0xc0000001)
	binary.BigEndian.PutUint32(b[8:], 999)
	copy(b[16:], payload)
	return b
}

func (w *world) onData(stream string, p []byte) error {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.dels = append(w.dels, delivery{stream, append([]byte(nil), p...)})
	if w.badSet[string(p)] {
		return errors.New("consumer refuses")
	}
	return nil
}

func newPeer(w *world) *peer {
	c, err := net.DialUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)}, w.addr)
	if err != nil {
		panic(err)
	}
	c.SetReadBuffer(1 << 20)
	return &peer{conn: c, seqAck: -1}
}

func (p *peer) read(d time.Duration) []byte {
	buf := make([]byte, 2048)
	p.conn.SetReadDeadline(time.Now().Add(d))
	n, err := p.conn.Read(buf)
	if err != nil {
		return nil
	}
	return buf[:n]
}

// barrier returns once the listener has processed everything sent so far.
func (w *world) barrier(i int) {
	for try := 0; try < 3; try++ {
		w.sent.conn.Write(ctrl(1, 0, 0, nil))
		if b := w.sent.read(lib.D(2 * time.Second)); b != nil {
			return
		}
	}
	lib.Missing(i, "listener no longer answers another peer's keepalive")
}

func (w *world) handshake(p *peer, sid uint32, isn uint32) uint32 {
	p.conn.Write(ctrl(0, 0, 0, hsBody(4, 0, 1, sid, 0)))
	b := p.read(lib.D(2 * time.Second))
	if len(b) < 64 {
		lib.Missing(-1, "no induction reply")
	}
	ck := binary.BigEndian.Uint32(b[16+28:])
	p.conn.Write(ctrl(0, 0, 0, hsBody(5, isn, -1, sid, ck)))
	b = p.read(lib.D(2 * time.Second))
	if len(b) < 64 {
		lib.Missing(-1, "no conclusion reply")
	}
	p.isn = isn
	return ck
}

func payload(i int, p int, base uint32) []byte {
	n := []int{188, 1316, 8, 1, 1456, 376, 564}[(i*7+p+int(base%7))%7]
	b := make([]byte, n)
	for k := range b {
		b[k] = byte(k*31 + i*17 + p)
	}
	if n >= 8 {
		copy(b, fmt.Sprintf("%03d-%d  ", i, p))
	} else {
		b[0] = byte(i*4 + p)
	}
	return b
}

func listen(w *world) {
	for try := 0; ; try++ {
		c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		if err != nil {
			panic(err)
		}
		a := c.LocalAddr().(*net.UDPAddr)
		c.Close()
		l, err := libsrt.Listen(a.String(), "the-stream", w.onData)
		if err != nil {
			if try > 20 {
				panic(err)
			}
			continue
		}
		w.l, w.addr = l, a
		return
	}
}

func run(raw json.RawMessage) interface{} {
	var sc scenario
	lib.Dec(raw, &sc)
	w := &world{badSet: map[string]bool{}, peers: map[int]*peer{}, cookies: []uint32{0}, ourSid: map[int]uint32{}}
	listen(w)
	runEnd := make(chan struct{})
	go func() { w.l.Run(); close(runEnd) }()
	defer func() {
		w.l.Close()
		w.sent.conn.Close()
		for _, p := range w.peers {
			p.conn.Close()
		}
	}()
	w.sent = newPeer(w)
	w.handshake(w.sent, 0x5555, 1)
	for i := range sc.Steps {
		p := sc.Steps[i].P
		if w.peers[p] == nil {
			w.peers[p] = newPeer(w)
		}
	}
	nconc := uint32(0)
	if sc.Live {
		for p := 1; p <= len(w.peers); p++ {
			if w.peers[p] == nil {
				w.peers[p] = newPeer(w)
			}
			w.cookies = append(w.cookies, w.handshake(w.peers[p], uint32(100*p+11), sc.Base&mask))
		}
	}
	var want []delivery
	seenDel := 0
	for i, s := range sc.Steps {
		p := w.peers[s.P]
		switch s.Act {
		case "induct":
			p.conn.Write(ctrl(0, 0, 0, hsBody(4, 0, 1, s.Arg.Sid, 0)))
		case "conclude":
			var ck uint32
			switch {
			case s.Arg.Cookie == 0:
				ck = 0
			case s.Arg.Cookie < 0:
				ck = 0xdeadbeef
			default:
				ck = w.cookies[s.Arg.Cookie]
			}
			isn := p.isn
			if s.Arg.Fresh {
				nconc++
				isn = (sc.Base + 100000*(nconc-1)) & mask
			} else if len(s.Out) == 0 {
				isn = (sc.Base + 55555) & mask
			}
			p.conn.Write(ctrl(0, 0, 0, hsBody(5, isn, -1, s.Arg.Sid, ck)))
			if s.Arg.Fresh {
				p.isn = isn
				p.seqAck = -1
			}
		case "data":
			pl := payload(i, s.P, sc.Base)
			if s.Arg.Bad {
				w.mu.Lock()
				w.badSet[string(pl)] = true
				w.mu.Unlock()
			}
			p.conn.Write(dataPkt(p.isn+uint32(s.Arg.Off), pl))
			if s.Del {
				want = append(want, delivery{"the-stream", pl})
			}
		case "keepalive":
			p.conn.Write(ctrl(1, 0, 0, nil))
		case "shutdown":
			p.conn.Write(ctrl(5, 0, 0, nil))
		case "junk":
			switch s.Arg.K {
			case 1:
				p.conn.Write([]byte{1, 2, 3})
			case 2:
				p.conn.Write(ctrl(0x7fff, 5, 0, []byte{1, 2, 3, 4}))
			case 3:
				p.conn.Write(ctrl(6, 1, 0, nil))
			case 4:
				p.conn.Write(ctrl(0, 0, 0, []byte{0, 0, 0, 5, 1}))
			}
		}
		if sc.Burst {
			continue
		}
		w.barrier(i)
		w.checkOut(i, s, p)
		seenDel = w.checkDel(i, want, seenDel)
		if s.Act == "data" && s.Del {
			time.Sleep(11 * time.Millisecond)
		}
	}
	if sc.Burst {
		w.barrier(len(sc.Steps))
		w.checkDel(len(sc.Steps), want, 0)
		w.checkBurst(sc)
	}
	// nothing may arrive later either
	for pi, p := range w.peers {
		if b := p.read(time.Millisecond); b != nil && !sc.Burst {
			lib.Bad(len(sc.Steps), "peer %d received an unexpected packet % x", pi, head(b))
		}
	}
	w.l.Close()
	select {
	case <-runEnd:
	case <-time.After(lib.D(3 * time.Second)):
		lib.Missing(len(sc.Steps), "Run did not return after Close")
	}
	return nil
}

func head(b []byte) []byte {
	if len(b) > 72 {
		return b[:72]
	}
	return b
}

func (w *world) checkDel(i int, want []delivery, from int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	for k := from; k < len(w.dels) || k < len(want); k++ {
		if k >= len(want) {
			lib.Bad(i, "payload % x delivered although the specification delivers nothing more", head(w.dels[k].data))
		}
		if k >= len(w.dels) {
			lib.Missing(i, "payload #%d was not delivered", k)
		}
		if !bytes.Equal(w.dels[k].data, want[k].data) {
			lib.Bad(i, "delivery #%d is % x, specification % x", k, head(w.dels[k].data), head(want[k].data))
		}
		if w.dels[k].stream != want[k].stream {
			lib.Bad(i, "delivery #%d under stream %q", k, w.dels[k].stream)
		}
	}
	return len(want)
}

func (w *world) checkOut(i int, s step, p *peer) {
	for k, o := range s.Out {
		d := lib.D(200 * time.Millisecond)
		b := p.read(d)
		if b == nil {
			lib.Missing(i, "%s by peer %d: reply %d (%s) missing", s.Act, s.P, k, o.T)
		}
		w.match(i, s, p, o, b)
	}
	if b := p.read(500 * time.Microsecond); b != nil {
		lib.Bad(i, "%s %+v by peer %d: unexpected reply % x", s.Act, s.Arg, s.P, head(b))
	}
}

func (w *world) match(i int, s step, p *peer, o out, b []byte) {
	if len(b) < 16 || b[0]&0x80 == 0 {
		lib.Bad(i, "reply is not a control packet: % x", head(b))
	}
	typ := binary.BigEndian.Uint16(b) & 0x7fff
	dst := binary.BigEndian.Uint32(b[12:])
	info := binary.BigEndian.Uint32(b[4:])
	body := b[16:]
	wantTyp := map[string]uint16{"hs": 0, "keepalive": 1, "ack": 2, "nak": 3, "shutdown": 5}[o.T]
	if typ != wantTyp {
		lib.Bad(i, "%s: reply control type %d, specification %s", s.Act, typ, o.T)
	}
	if dst != o.Dst {
		lib.Bad(i, "%s: reply addressed to socket %d, specification %d", s.Act, dst, o.Dst)
	}
	switch o.T {
	case "hs":
		if len(body) < 48 {
			lib.Bad(i, "handshake reply of %d bytes", len(body))
		}
		ht := int32(binary.BigEndian.Uint32(body[20:]))
		sid := binary.BigEndian.Uint32(body[24:])
		ck := binary.BigEndian.Uint32(body[28:])
		if int(ht) != o.Type {
			lib.Bad(i, "handshake reply type %d, specification %d", ht, o.Type)
		}
		if sid == s.Arg.Sid || sid == 0 {
			lib.Bad(i, "handshake reply socket id %d is not the listener's", sid)
		}
		if s.Act == "induct" {
			if ck == 0 {
				lib.Bad(i, "induction reply without a cookie")
			}
			for id, c := range w.cookies {
				if id > 0 && c == ck {
					lib.Bad(i, "induction cookie %#x was issued before (id %d)", ck, id)
				}
			}
			w.cookies = append(w.cookies, ck)
			if len(w.cookies)-1 != o.Cookie {
				lib.Bad(i, "driver: cookie numbering")
			}
		} else {
			if old, ok := w.ourSid[s.P]; ok && !s.Arg.Fresh && old != sid {
				lib.Bad(i, "repeated conclusion answered with socket id %d, before %d", sid, old)
			}
			for q, x := range w.ourSid {
				if q != s.P && x == sid {
					lib.Bad(i, "two peers were given the same listener socket id")
				}
			}
			w.ourSid[s.P] = sid
		}
		if s.Act == "conclude" && binary.BigEndian.Uint32(body[8:]) != p.isn {
			lib.Bad(i, "conclusion reply initial sequence %d, peer's %d", binary.BigEndian.Uint32(body[8:]), p.isn)
		}
	case "ack":
		if len(body) < 4 {
			lib.Bad(i, "short ACK")
		}
		seq := binary.BigEndian.Uint32(body)
		if want := (p.isn + uint32(o.Seq)) & mask; seq != want {
			lib.Bad(i, "ACK of %d (%#x), specification next expected %d (%#x)", seq, seq, want, want)
		}
		if info == p.ackNum {
			lib.Bad(i, "ACK number %d repeated", info)
		}
		p.ackNum = info
	case "nak":
		from, to := (p.isn+uint32(o.From))&mask, (p.isn+uint32(o.To))&mask
		r := nak(body)
		if len(r) != 1 || r[0][0] != from || r[0][1] != to {
			lib.Bad(i, "loss report %v (% x), specification [%d..%d]", r, head(body), from, to)
		}
	}
}

// nak decodes a loss list; adjacent entries are merged.
func nak(b []byte) [][2]uint32 {
	var r [][2]uint32
	for len(b) >= 4 {
		a := binary.BigEndian.Uint32(b)
		b = b[4:]
		e := [2]uint32{a & mask, a & mask}
		if a&0x80000000 != 0 {
			if len(b) < 4 {
				return append(r, [2]uint32{0xffffffff, 0})
			}
			e[1] = binary.BigEndian.Uint32(b)
			b = b[4:]
		}
		if n := len(r); n > 0 && (r[n-1][1]+1)&mask == e[0] {
			r[n-1][1] = e[1]
			continue
		}
		r = append(r, e)
	}
	if len(b) != 0 {
		return append(r, [2]uint32{0xfffffffe, 0})
	}
	return r
}

func (w *world) checkBurst(sc scenario) {
	for pi, p := range w.peers {
		var naks, acks []out
		for _, s := range sc.Steps {
			if s.P != pi {
				continue
			}
			for _, o := range s.Out {
				if o.T == "nak" {
					naks = append(naks, o)
				} else if o.T == "ack" {
					acks = append(acks, o)
				}
			}
		}
		ai, got := 0, 0
		for {
			b := p.read(2 * time.Millisecond)
			if b == nil {
				break
			}
			typ := binary.BigEndian.Uint16(b) & 0x7fff
			switch typ {
			case 3:
				if len(naks) == 0 {
					lib.Bad(0, "more loss reports than gaps: % x", head(b))
				}
				w.match(0, step{Act: "burst"}, p, naks[0], b)
				naks = naks[1:]
			case 2:
				seq := binary.BigEndian.Uint32(b[16:])
				for ai < len(acks) && (p.isn+uint32(acks[ai].Seq))&mask != seq {
					ai++
				}
				if ai == len(acks) {
					lib.Bad(0, "ACK of %d is none of the expected numbers, or went backwards", seq)
				}
				got++
				ai++
			default:
				lib.Bad(0, "unexpected control packet type %d", typ)
			}
		}
		if len(naks) > 0 {
			lib.Missing(0, "loss report for [%d..%d] missing", naks[0].From, naks[0].To)
		}
		if len(acks) > 0 && got == 0 {
			lib.Missing(0, "no acknowledgement at all")
		}
	}
}

func main() { lib.Main(48, run) }
