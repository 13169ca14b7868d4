// Command rtpout records the RTP packets of units packetised by the library and of streams played over RTSP.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/sbraveyoung/GGmpeg/librtsp"
	"vh/lib"
	"vh/rtmpc"
	"vh/rtspc"
	"vh/srvx"
)

type unit struct {
	T  int `json:"t"`
	N  int `json:"n"`
	ID int `json:"id"`
}
type step struct {
	Op    string `json:"op"`
	Units []unit `json:"units"`
	NL    int    `json:"nl"`
	TS    [2]int `json:"ts"`
	Cts   int    `json:"cts"`
	Key   bool   `json:"key"`
	Rate  int    `json:"rate"`
	N     int    `json:"n"`
	ID    int    `json:"id"`
	Mtu   int    `json:"mtu"`
	H     int    `json:"h"`
}
type au struct {
	TS    [2]int `json:"ts"`
	Units []unit `json:"units"`
}
type scen struct {
	Mode  string `json:"mode"`
	Codec string `json:"codec"`
	Audio string `json:"audio"`
	Steps []step `json:"steps"`
	Vexp  []au   `json:"vexp"`
	Aexp  []au   `json:"aexp"`
	UDP   bool   `json:"udp"`
}
type expAU struct {
	TS    [2]int  `json:"ts"`
	Units [][]int `json:"units"`
}
type trace struct {
	Codec string  `json:"codec"`
	Mtu   int     `json:"mtu"`
	Pt    int     `json:"pt"`
	Seq   int     `json:"seq"`
	Exp   []expAU `json:"exp"`
	Pk    [][]int `json:"pk"`
}

func content(codec string, u unit, h int) []byte {
	var b []byte
	switch {
	case u.T < 0:
		b = []byte{0x21}
	case codec == "hevc":
		b = []byte{byte(h>>2)<<7 | byte(u.T<<1) | byte(h&1), byte(h&3)<<3 | 1}
	case codec == "h264":
		b = []byte{0x60 | byte(u.T)}
		if u.T == 6 || u.T == 9 || u.T == 12 {
			b[0] &= 31
		}
		if h != 0 {
			b[0] = byte(h&7)<<5 | byte(u.T)
		}
	}
	for i := 0; len(b) < u.N; i++ {
		b = append(b, byte(1+(i*11+u.ID*29+i>>8*3)%255))
	}
	return b[:u.N]
}

func exp(codec string, l []au) []expAU {
	out := []expAU{}
	for _, a := range l {
		e := expAU{TS: a.TS, Units: [][]int{}}
		for _, u := range a.Units {
			e.Units = append(e.Units, lib.Ints(content(codec, u, 0)))
		}
		out = append(out, e)
	}
	return out
}

func direct(s scen) interface{} {
	x := s.Steps[0]
	u := unit{T: 5, N: x.N, ID: x.N + x.Mtu}
	if s.Codec == "hevc" {
		u.T = 19
	}
	if s.Codec == "aac" || s.Codec == "opus" {
		u.T = -1
	}
	seq := (65535+x.H+x.N)&65535 - 2
	if seq < 0 {
		seq = 65534
	}
	b := content(s.Codec, u, x.H)
	in := append([]byte(nil), b...)
	p := librtsp.NewRTPPacker(96, uint32(seq)*77)
	p.SetSeq(uint16(seq))
	t := trace{Codec: s.Codec, Mtu: x.Mtu, Pt: 96, Seq: seq, Exp: []expAU{{TS: [2]int{65535, 7}, Units: [][]int{lib.Ints(b)}}}, Pk: [][]int{}}
	var ps [][]byte
	switch s.Codec {
	case "h264":
		ps = librtsp.PackNAL(b, x.Mtu)
	case "hevc":
		ps = librtsp.PackHEVCNAL(b, x.Mtu)
	case "aac":
		t.Mtu = 0
		if q := librtsp.PackAACFrame(b); q != nil {
			ps = [][]byte{q}
		} else if x.N > 8191 {
			t.Exp = []expAU{}
		}
	case "opus":
		t.Mtu = 0
		ps = [][]byte{librtsp.PackOpusFrame(b)}
	}
	for i, q := range ps {
		k := p.Pack(i == len(ps)-1, 0xffff0007, q)
		t.Pk = append(t.Pk, lib.Ints(k))
	}
	if int(p.Seq()) != (seq+len(ps))&65535 {
		lib.Bad(1, "Seq() is %d after %d packets from %d", p.Seq(), len(ps), seq)
	}
	if !bytes.Equal(b, in) {
		lib.Bad(1, "the unit was changed")
	}
	return []trace{t}
}

var (
	once sync.Once
	srv  *srvx.Srv
	mu   sync.Mutex
	next int
)

func record(codec string, us []unit, nl int) []byte {
	var b []byte
	add := func(u unit) {
		n := content(codec, u, 0)
		b = append(append(b, byte(len(n)>>8), byte(len(n))), n...)
	}
	count := func(t int) (n int) {
		for _, u := range us {
			if u.T == t {
				n++
			}
		}
		return
	}
	if codec == "h264" {
		b = []byte{1, 66, 0, 30, 0xfc | byte(nl-1), 0xe0 | byte(count(7))}
		for i, u := range us {
			if u.T == 8 && us[i-1].T == 7 {
				b = append(b, byte(count(8)))
			}
			add(u)
		}
		return b
	}
	b = make([]byte, 23)
	b[0], b[21] = 1, byte(nl-1)
	for _, t := range []int{32, 33, 34} {
		if c := count(t); c > 0 {
			b[22]++
			b = append(b, 0x80|byte(t), 0, byte(c))
			for _, u := range us {
				if u.T == t {
					add(u)
				}
			}
		}
	}
	return b
}

var rates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

func live(s scen) interface{} {
	lim := lib.D(10 * time.Second)
	once.Do(func() { srv = srvx.Start(srvx.Opt{Apps: []string{"live"}, RTSP: true}) })
	mu.Lock()
	next++
	name := fmt.Sprintf("r%d", next)
	mu.Unlock()
	a, _ := srv.Pipe()
	defer a.Close()
	c, err := rtmpc.Client(a, lim)
	if err == nil {
		if _, err = c.Connect("live", lim); err == nil {
			_, err = c.Publish(name, lim)
		}
	}
	if err == nil {
		err = c.SetSize(60000)
	}
	if err != nil {
		lib.Missing(0, "publish: %v", err)
	}
	cid, ah := byte(7), byte(0xaf)
	if s.Codec == "hevc" {
		cid = 12
	}
	if s.Audio == "opus" {
		ah = 0xdf
	}
	var x *rtspc.Conn
	var tmu sync.Mutex
	got := [2][][]byte{}
	fin := [2]chan bool{make(chan bool), make(chan bool)}
	var last [2][]byte
	take := func(track int, p []byte) {
		tmu.Lock()
		defer tmu.Unlock()
		got[track] = append(got[track], append([]byte(nil), p...))
		if last[track] != nil && bytes.HasSuffix(p, last[track]) {
			last[track] = nil
			close(fin[track])
		}
	}
	for tr, l := range [][]au{s.Vexp, s.Aexp} {
		u := l[len(l)-1].Units
		last[tr] = content(s.Codec, u[len(u)-1], 0)
	}
	play := func() {
		x, err = rtspc.Dial(srv.RTSP(), lim)
		if err != nil {
			lib.Missing(0, "%v", err)
		}
		x.Frames = func(f rtspc.Frame) {
			if f.Ch != 0 && f.Ch != 2 {
				return
			}
			take(int(f.Ch)/2, f.P)
		}
		x.Start()
		u := "rtsp://x/live/" + name
		r, err := x.Do(lim, "DESCRIBE", u, nil, nil)
		if err != nil || r.Code != 200 {
			lib.Missing(0, "DESCRIBE: %d %v", r.Code, err)
		}
		for tr := 0; tr < 2; tr++ {
			h := fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d", 2*tr, 2*tr+1)
			if s.UDP {
				l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(strings.Split(x.C.LocalAddr().String(), ":")[0])})
				if err != nil {
					lib.Missing(0, "%v", err)
				}
				l.SetReadBuffer(4 << 20)
				port := l.LocalAddr().(*net.UDPAddr).Port
				h = fmt.Sprintf("Transport: RTP/AVP;unicast;client_port=%d-%d", port, port+1)
				go func(tr int) {
					b := make([]byte, 1<<16)
					for {
						n, err := l.Read(b)
						if err != nil {
							return
						}
						take(tr, b[:n])
					}
				}(tr)
				go func() {
					for !x.Closed(time.Hour) {
					}
					l.Close()
				}()
			}
			r, err := x.Do(lim, "SETUP", u+"/trackID="+strconv.Itoa(tr), []string{h}, nil)
			if err != nil || r.Code != 200 {
				lib.Missing(0, "SETUP: %d %v", r.Code, err)
			}
		}
		r, err = x.Do(lim, "PLAY", u, nil, nil)
		if err != nil || r.Code != 200 {
			lib.Missing(0, "PLAY: %d %v", r.Code, err)
		}
	}
	defer func() {
		if x != nil {
			x.C.Close()
		}
	}()
	for i, e := range s.Steps {
		ts := uint32(e.TS[0])<<16 | uint32(e.TS[1])
		var err error
		switch e.Op {
		case "sets":
			err = c.Send(rtmpc.Msg{CS: 4, Type: 9, SID: 1, TS: ts, P: append([]byte{0x10 | cid, 0, 0, 0, 0}, record(s.Codec, e.Units, e.NL)...)})
		case "asc":
			idx := 4
			for j, r := range rates {
				if r == e.Rate {
					idx = j
				}
			}
			err = c.Send(rtmpc.Msg{CS: 4, Type: 8, SID: 1, TS: ts, P: []byte{ah, 0, byte(2<<3 | idx>>1), byte(idx<<7 | 2<<3)}})
		case "frame":
			f := byte(0x20)
			if e.Key {
				f = 0x10
			}
			p := []byte{f | cid, 1, byte(e.Cts >> 16), byte(e.Cts >> 8), byte(e.Cts)}
			for _, u := range e.Units {
				n := content(s.Codec, u, 0)
				l := []byte{byte(len(n) >> 24), byte(len(n) >> 16), byte(len(n) >> 8), byte(len(n))}
				p = append(append(p, l[4-e.NL:]...), n...)
			}
			err = c.Send(rtmpc.Msg{CS: 4, Type: 9, SID: 1, TS: ts, P: p})
		case "aud":
			err = c.Send(rtmpc.Msg{CS: 4, Type: 8, SID: 1, TS: ts, P: append([]byte{ah, 1}, content(s.Codec, unit{T: -1, N: e.N, ID: e.ID}, 0)...)})
		}
		if err != nil {
			lib.Missing(i+1, "%v", err)
		}
		if i == 1 || s.UDP {
			if _, err := c.Fence(lim); err != nil {
				lib.Missing(i+1, "%v", err)
			}
		}
		if i == 1 {
			play()
		}
		if s.UDP {
			time.Sleep(2 * time.Millisecond)
		}
	}
	var out []trace
	for tr := 0; tr < 2; tr++ {
		select {
		case <-fin[tr]:
		case <-time.After(lim):
			lib.Missing(len(s.Steps), "track %d: the last access unit does not arrive", tr)
		}
	}
	for tr, l := range [][]au{s.Vexp, s.Aexp} {
		t := trace{Codec: s.Codec, Mtu: 1400, Pt: 96, Seq: -1, Exp: exp(s.Codec, l), Pk: [][]int{}}
		if tr == 1 {
			t.Codec, t.Mtu, t.Pt = s.Audio, 0, 97
		}
		tmu.Lock()
		for _, p := range got[tr] {
			t.Pk = append(t.Pk, lib.Ints(p))
		}
		tmu.Unlock()
		out = append(out, t)
	}
	return out
}

func run(raw json.RawMessage) interface{} {
	var s scen
	lib.Dec(raw, &s)
	if s.Mode == "direct" {
		return direct(s)
	}
	return live(s)
}

func main() { lib.Main(8, run) }
