// Command rtpin has the receivers of RTP packets take what a network of our own leaves of a sender's packets.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/sbraveyoung/GGmpeg/librtsp"
	"vh/flvc"
	"vh/lib"
	"vh/media"
	"vh/rtspc"
	"vh/srvx"
)

type packet struct {
	K   string `json:"k"`
	Us  []int  `json:"us"`
	I   int    `json:"i"`
	N   int    `json:"n"`
	Bad string `json:"bad"`
	A   int    `json:"a"`
	M   bool   `json:"m"`
}
type out struct {
	A  int   `json:"a"`
	Us []int `json:"us"`
}
type step struct {
	I   int   `json:"i"`
	Out []out `json:"out"`
}
type scen struct {
	Codec string   `json:"codec"`
	Sent  []packet `json:"sent"`
	Steps []step   `json:"steps"`
	Pro   bool     `json:"pro"`
	Live  string   `json:"live"`
	N     int      `json:"num"`
}

// sender makes the packets.
type sender struct {
	s    scen
	base uint32
	seq  uint16
	rate int
	frag map[int][]int // cuts of a unit
}

func (x *sender) ticks(a int) int64 {
	if x.s.Codec == "aac" {
		return int64(a) * 4096
	}
	return int64(a/4*4+[]int{0, 3, 1, 2}[a%4]+1) * 3000
}

func (x *sender) ts(a int) uint32 { return x.base + uint32(x.ticks(a)) }

func (x *sender) ms(a, k int) uint32 {
	if x.s.Codec == "aac" {
		first := x.ticks(x.s.Sent[x.s.Steps[0].I-1].A) // the first to arrive
		return uint32((int64(x.base+uint32(first)) + x.ticks(a) - first + int64(k)*1024) * 1000 / int64(x.rate))
	}
	return uint32((int64(x.base) + x.ticks(a)) / 90)
}

func (x *sender) unit(u, frags int) []byte {
	n := 3 + (u*7+x.s.N)%40
	if frags > 0 {
		n = frags*(3+u%5) + 2 + (u*13+x.s.N)%3000
	}
	b := []byte{[]byte{0x41, 0x01, 0x06, 0x67, 0x68, 0x21, 0x61}[u%7]}
	if x.s.Codec == "aac" {
		b = []byte{0x21}
		if n > 8000 {
			n = 8000
		}
	}
	for i := 0; len(b) < n; i++ {
		b = append(b, byte(1+(i*11+u*29+i>>8*3)%255))
	}
	return b
}

func (x *sender) frags(u int) int {
	for _, p := range x.s.Sent {
		if p.K == "fu" && p.Us[0] == u {
			return p.N
		}
	}
	return 0
}

// cuts of n bytes in k pieces of one byte at least
func cuts(n, k, salt int) []int {
	r := rand.New(rand.NewSource(int64(salt)))
	c := make([]int, k+1)
	for i := 1; i < k; i++ {
		lo, hi := c[i-1]+1, n-(k-i)
		w := (hi - lo) / (k - i + 1) * 2
		c[i] = lo
		if w > 0 {
			c[i] = lo + r.Intn(min(w, hi-lo)+1)
		}
	}
	c[k] = n
	return c
}

func (x *sender) payload(p packet) []byte {
	aac := x.s.Codec == "aac"
	switch p.K {
	case "one":
		b := x.unit(p.Us[0], 0)
		if aac {
			return append([]byte{0, 16, byte(len(b) >> 5), byte(len(b) << 3)}, b...)
		}
		return b
	case "fu":
		u := x.unit(p.Us[0], p.N)
		if aac {
			c := cuts(len(u), p.N, p.Us[0]+x.s.N)
			return append([]byte{0, 16, byte(len(u) >> 5), byte(len(u) << 3)}, u[c[p.I-1]:c[p.I]]...)
		}
		c := cuts(len(u)-1, p.N, p.Us[0]+x.s.N)
		h := u[0] & 31
		if p.I == 1 {
			h |= 0x80
		}
		if p.I == p.N {
			h |= 0x40
		}
		return append([]byte{u[0]&0xe0 | 28, h}, u[1+c[p.I-1]:1+c[p.I]]...)
	case "agg":
		if aac {
			b := []byte{0, byte(16 * len(p.Us))}
			var d []byte
			for _, id := range p.Us {
				u := x.unit(id, 0)
				b = append(b, byte(len(u)>>5), byte(len(u)<<3))
				d = append(d, u...)
			}
			return append(b, d...)
		}
		b := []byte{0x78}
		for _, id := range p.Us {
			u := x.unit(id, 0)
			b = append(append(b, byte(len(u)>>8), byte(len(u))), u...)
		}
		switch p.Bad {
		case "short":
			b = append(b, 0, 5, 0x41, 1, 1)
		case "stub":
			b = append(b, 7)
		case "zero":
			b = append(b, 0, 0)
		}
		return b
	}
	return append([]byte{[]byte{29, 30, 31, 0, 25, 26, 27}[(p.A+x.s.N)%7] | 0x60}, x.unit(3, 0)...)
}

// rtp adds a header, with what it may hold.
func (x *sender) rtp(pt byte, m bool, seq uint16, ts uint32, pay []byte, odd int) []byte {
	b := rtspc.RTP(pt, m, seq, ts, 0x1234, nil)
	r := rand.New(rand.NewSource(int64(seq) + int64(x.s.N)<<16))
	if odd&1 != 0 { // one to fifteen sources
		n := 1 + r.Intn(15)
		b[0] |= byte(n)
		for i := 0; i < 4*n; i++ {
			b = append(b, byte(r.Intn(256)))
		}
	}
	if odd&2 != 0 { // extension of no word and more
		n := []int{0, 1, 2, 3, 17, 255, 256, 257, 300, 515}[r.Intn(10)]
		b[0] |= 0x10
		b = append(b, 0xbe, 0xde, byte(n>>8), byte(n))
		for i := 0; i < 4*n; i++ {
			b = append(b, byte(r.Intn(256)))
		}
	}
	b = append(b, pay...)
	if odd&4 != 0 { // padding
		n := []int{1, 2, 3, 4, 100, 127, 128, 255}[r.Intn(8)]
		b[0] |= 0x20
		b = append(append(b, make([]byte, n-1)...), byte(n))
	}
	return b
}

func (x *sender) packet(i int) []byte {
	p := x.s.Sent[i-1]
	odd := 0
	if (i*31+x.s.N)%5 == 0 {
		odd = (i + x.s.N) % 8
	}
	return x.rtp(96, p.M, x.seq+uint16(i), x.ts(p.A), x.payload(p), odd)
}

// prologue is a keyframe in front of everything.
func (x *sender) prologue() []byte { return x.rtp(96, true, x.seq, x.base, media.IDR(x.s.N), 0) }

func direct(s scen, x *sender) {
	v, a := &librtsp.H264Reassembler{}, &librtsp.AACReassembler{}
	parse := func(k int, b []byte) *librtsp.RTPPacket {
		p, err := librtsp.ParseRTP(b)
		if err != nil {
			lib.Bad(k, "packet % x: %v", b[:min(len(b), 40)], err)
		}
		return p
	}
	if s.Pro && s.Codec == "h264" {
		n, ts := v.Push(parse(0, x.prologue()))
		if len(n) != 1 || !bytes.Equal(n[0], media.IDR(s.N)) || ts != x.base {
			lib.Bad(0, "first frame: % x at %d", n, ts)
		}
	}
	for j, st := range s.Steps {
		p := parse(j+1, x.packet(st.I))
		if s.Codec == "aac" {
			got := a.Push(p)
			var want [][]byte
			for _, o := range st.Out {
				for _, u := range o.Us {
					want = append(want, x.unit(u, x.frags(u)))
				}
			}
			compare(j+1, st, got, want)
			continue
		}
		i := 0
		for n, ts := v.Push(p); len(n) > 0; n, ts = v.Pop() {
			if i >= len(st.Out) {
				lib.Bad(j+1, "packet %d: access unit of %d units at %d, none expected", st.I, len(n), ts)
			}
			o := st.Out[i]
			i++
			var want [][]byte
			for _, u := range o.Us {
				want = append(want, x.unit(u, x.frags(u)))
			}
			compare(j+1, st, n, want)
			if ts != x.ts(o.A) {
				lib.Bad(j+1, "packet %d: access unit at %d, expected %d", st.I, ts, x.ts(o.A))
			}
		}
		if i != len(st.Out) {
			lib.Bad(j+1, "packet %d: %d access units, expected %d", st.I, i, len(st.Out))
		}
	}
}

func compare(k int, st step, got, want [][]byte) {
	for i := range want {
		if i >= len(got) {
			lib.Bad(k, "packet %d: %d units, expected %d", st.I, len(got), len(want))
		}
		if !bytes.Equal(got[i], want[i]) {
			lib.Bad(k, "packet %d: unit %d is % x (%d bytes), expected % x (%d)", st.I, i+1, got[i][:min(20, len(got[i]))], len(got[i]), want[i][:min(20, len(want[i]))], len(want[i]))
		}
	}
	if len(got) != len(want) {
		lib.Bad(k, "packet %d: %d units, expected %d", st.I, len(got), len(want))
	}
}

var (
	once sync.Once
	srv  *srvx.Srv
	mu   sync.Mutex
	next int
	idx  = map[int]int{44100: 4, 48000: 3, 8000: 11}
)

func live(s scen, x *sender) {
	lim := lib.D(10 * time.Second)
	once.Do(func() { srv = srvx.Start(srvx.Opt{Apps: []string{"live"}, RTSP: true, FLV: true}) })
	mu.Lock()
	next++
	name := fmt.Sprintf("i%d", next)
	mu.Unlock()
	c, err := rtspc.Dial(srv.RTSP(), lim)
	if err != nil {
		lib.Missing(0, "%v", err)
	}
	defer c.C.Close()
	c.Start()
	do := func(m, u string, h []string, body []byte) rtspc.Resp {
		r, err := c.Do(lim, m, u, h, body)
		if err != nil || r.Code != 200 {
			lib.Missing(0, "%s: %d %v", m, r.Code, err)
		}
		return r
	}
	u := "rtsp://x/live/" + name
	asc := []byte{byte(2<<3 | idx[x.rate]>>1), byte(idx[x.rate]<<7 | 2<<3)}
	sdp := "v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=x\r\nc=IN IP4 0.0.0.0\r\nt=0 0\r\n"
	if s.Codec == "h264" {
		sdp += "m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=fmtp:96 packetization-mode=1;sprop-parameter-sets=" +
			base64.StdEncoding.EncodeToString(media.SPS(1)) + "," + base64.StdEncoding.EncodeToString(media.PPS(1)) + "\r\na=control:t\r\n"
	} else {
		sdp += fmt.Sprintf("m=audio 0 RTP/AVP 96\r\na=rtpmap:96 mpeg4-generic/%d/2\r\na=fmtp:96 streamtype=5;mode=AAC-hbr;sizelength=13;indexlength=3;indexdeltalength=3;config=%X\r\na=control:t\r\n", x.rate, asc)
	}
	do("ANNOUNCE", u, []string{"Content-Type: application/sdp"}, []byte(sdp))
	var send func(b []byte)
	ch := byte(2 * (s.N % 3))
	if s.Live == "udp" {
		r := do("SETUP", u+"/t", []string{"Transport: RTP/AVP/UDP;unicast;client_port=5000-5001;mode=record"}, nil)
		tr := r.H["transport"]
		i := strings.Index(tr, "server_port=")
		if i < 0 {
			lib.Bad(0, "transport %q", tr)
		}
		port, err := strconv.Atoi(strings.SplitN(tr[i+12:], "-", 2)[0])
		if err != nil {
			lib.Bad(0, "transport %q", tr)
		}
		d, err := net.DialUDP("udp", nil, &net.UDPAddr{IP: net.ParseIP(srv.Host), Port: port})
		if err != nil {
			lib.Missing(0, "%v", err)
		}
		defer d.Close()
		n := 0
		send = func(b []byte) {
			d.Write(b)
			if n += len(b) + 700; n > 40000 {
				n = 0
				time.Sleep(3 * time.Millisecond)
			}
		}
	} else {
		do("SETUP", u+"/t", []string{fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d;mode=record", ch, ch+1)}, nil)
		send = func(b []byte) { c.C.Write(rtspc.Inter(ch, b)) }
	}
	v, err := flvc.Get(srv.HTTP(), "/live/"+name+".flv", lim)
	if err != nil || v.Status != 200 {
		lib.Missing(0, "viewer: %v", err)
	}
	defer v.C.Close()
	v.C.SetReadDeadline(time.Now().Add(3 * lim))
	rd := flvc.NewReader(v.Body)
	head := func() {
		t, err := rd.Next()
		if err != nil {
			lib.Missing(0, "header: %v", err)
		}
		if s.Codec == "h264" && !bytes.Equal(t.P, append([]byte{0x17, 0, 0, 0, 0}, media.DCR(media.SPS(1), media.PPS(1))...)) || s.Codec == "aac" && !bytes.Equal(t.P, append([]byte{0xaf, 0}, asc...)) {
			lib.Bad(0, "header % x", t.P)
		}
	}
	head()
	do("RECORD", u, nil, nil)
	r := rand.New(rand.NewSource(int64(s.N)))
	var want []flvc.Tag
	if s.Codec == "h264" {
		want = append(want, flvc.Tag{Type: 9, TS: x.base / 90, P: append([]byte{0x17, 1, 0, 0, 0}, librtspAVCC([][]byte{media.IDR(s.N)})...)})
		send(x.prologue())
	}
	for _, st := range s.Steps {
		switch r.Intn(12) {
		case 0: // of another payload type
			send(x.rtp(97, true, x.seq+uint16(r.Intn(1<<16)), r.Uint32(), []byte{0x65, 1, 2, 3}, 0))
		case 1: // no RTP
			b := [][]byte{{}, {0x80}, {0x40, 96, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x65, 1}, {0x80, 96, 0, 1, 0, 0, 0, 0, 0, 0, 0}, {0x8f, 96, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x65, 1}, {0x90, 96, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9, 9}, {0xa0, 96, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9}}
			send(b[r.Intn(len(b))])
		case 2: // RTCP, and channels of nobody
			if s.Live != "udp" {
				c.C.Write(rtspc.Inter(ch+1, x.packet(st.I)))
				c.C.Write(rtspc.Inter(77, x.packet(st.I)))
			}
		case 3:
			if s.Live != "udp" {
				do("GET_PARAMETER", u, nil, nil)
			}
		}
		send(x.packet(st.I))
		for _, o := range st.Out {
			if s.Codec == "aac" {
				for k, id := range o.Us {
					want = append(want, flvc.Tag{Type: 8, TS: x.ms(o.A, k), P: append([]byte{0xaf, 1}, x.unit(id, x.frags(id))...)})
				}
				continue
			}
			var us [][]byte
			for _, id := range o.Us {
				us = append(us, x.unit(id, x.frags(id)))
			}
			want = append(want, flvc.Tag{Type: 9, TS: x.ms(o.A, 0), P: append([]byte{0x27, 1, 0, 0, 0}, librtspAVCC(us)...)})
		}
	}
	for i, w := range want {
		t, err := rd.Next()
		for err == nil && i == 0 && t.P[1] == 0 { // the header again, inline
			t, err = rd.Next()
		}
		if err != nil {
			lib.Missing(i, "tag %d of %d: %v", i+1, len(want), err)
		}
		if t.Type != w.Type || t.TS != w.TS || !bytes.Equal(t.P, w.P) {
			differ := lib.Bad
			if s.Live == "udp" {
				differ = lib.Missing // the system may lose datagrams, too
			}
			differ(i, "tag %d of %d: type %d at %d: % x (%d bytes), expected type %d at %d: % x (%d)", i+1, len(want), t.Type, t.TS, t.P[:min(30, len(t.P))], len(t.P), w.Type, w.TS, w.P[:min(30, len(w.P))], len(w.P))
		}
	}
}

func librtspAVCC(us [][]byte) (b []byte) {
	for _, u := range us {
		b = append(append(b, byte(len(u)>>24), byte(len(u)>>16), byte(len(u)>>8), byte(len(u))), u...)
	}
	return
}

func run(raw json.RawMessage) interface{} {
	var s scen
	lib.Dec(raw, &s)
	x := &sender{s: s, rate: []int{44100, 48000, 8000}[s.N%3]}
	x.base = []uint32{0, 1 << 31, 0xffffffff - 7000, 123456789, 0xffffffff, 1<<31 - 5000}[s.N/3%6]
	x.seq = []uint16{65534, 0, 65520, 32760, 1000, 65400}[s.N/18%6]
	if s.Live != "" {
		live(s, x)
	} else {
		direct(s, x)
	}
	return nil
}

func main() { lib.Main(8, run) }
