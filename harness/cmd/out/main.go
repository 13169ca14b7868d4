// Driver out checks what the server writes on an RTMP connection against spec/ServerOut.tla.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"sync"
	"time"

	"vh/lib"
	"vh/rtmpc"

	"github.com/sbraveyoung/GGmpeg/librtmp"
)

type msg struct {
	K   string `json:"k"`
	Len int    `json:"len"`
	TS  [2]int `json:"ts"`
}

type scenario struct {
	// one chunk
	C *struct {
		Fmt    int
		CS     uint32
		TS, D  [2]int
		Len    uint32
		Typ    int
	} `json:"c"`
	B []int `json:"b"`
	// traffic of several goroutines: source 1 and 2 are played streams, 3 the command loop
	Q     [][]msg `json:"q"`
	Twice bool    `json:"twice"` // both sources are the same stream, played twice
	Csize int     `json:"csize"` // publisher's chunk size
}

func u32(p [2]int) uint32 { return uint32(p[0])<<16 | uint32(p[1]) }

func chunk(sc *scenario) {
	x := sc.C
	a, b := net.Pipe()
	defer a.Close()
	defer b.Close()
	payload := make([]byte, x.Len)
	for i := range payload {
		payload[i] = byte(i * 7)
	}
	r := librtmp.NewRTMP(b, "peer", librtmp.NewServer(":0", "live"))
	ch := librtmp.NewChunk(librtmp.MessageType(x.Typ), x.Len, u32(x.TS), librtmp.MessageHeaderType(x.Fmt), x.CS, payload)
	ch.MessageTimeDelta = u32(x.D)
	go func() {
		if err := ch.Send(r); err != nil {
			fmt.Println("send:", err)
		}
		b.Close()
	}()
	a.SetReadDeadline(time.Now().Add(lib.D(10 * time.Second)))
	var got bytes.Buffer
	got.ReadFrom(a)
	want := append(lib.Bytes(sc.B), payload...)
	if !bytes.Equal(got.Bytes(), want) {
		g := got.Bytes()
		if len(g) > 24 {
			g = g[:24]
		}
		lib.Bad(0, "chunk fmt %d cs %d ts %d: wrote % x..., specification says header % x", x.Fmt, x.CS, u32(x.TS), g, lib.Bytes(sc.B))
	}
}

func payload(m msg, src, i int) (byte, []byte) {
	n := m.Len
	var b []byte
	typ := byte(8)
	fill := func(from int) {
		for j := from; j < n; j++ {
			b[j] = byte(src*97 + i*31 + j*13 + j>>8 + j>>16)
		}
	}
	switch m.K {
	case "audio":
		if n < 3 {
			n = 3
		}
		b = make([]byte, n)
		b[0] = 0x2f
		fill(1)
	case "video":
		typ = 9
		if n < 6 {
			n = 6
		}
		b = make([]byte, n)
		copy(b, []byte{0x27, 1, 0, 0, 0})
		fill(5)
	}
	return typ, b
}

func must(err error, what string) {
	if err != nil {
		lib.Missing(-1, "%s: %v", what, err)
	}
}

func session(s *rtmpc.Srv) *rtmpc.Conn {
	c, _ := s.Pipe()
	x, err := rtmpc.Client(c, lib.D(10*time.Second))
	must(err, "handshake")
	_, err = x.Connect("live", lib.D(10*time.Second))
	must(err, "connect")
	return x
}

func run(raw json.RawMessage) interface{} {
	var sc scenario
	lib.Dec(raw, &sc)
	if sc.C != nil {
		chunk(&sc)
		return nil
	}
	lim := lib.D(20 * time.Second)
	s := rtmpc.NewSrv("live")
	var pubs []*rtmpc.Conn
	names := []string{"a", "b"}
	if sc.Twice {
		names = []string{"a"}
	}
	for _, n := range names {
		p := session(s)
		defer p.C.Close()
		if code, err := p.Publish(n, lim); err != nil || code != "NetStream.Publish.Start" {
			lib.Missing(-1, "publish %s: %s %v", n, code, err)
		}
		must(p.SetSize(sc.Csize), "chunk size")
		p.Send(rtmpc.Msg{CS: 4, Type: 9, P: []byte{0x17, 1, 0, 0, 0, n[0], 0xee}})
		_, err := p.Fence(lim)
		must(err, "fence")
		pubs = append(pubs, p)
	}
	v := session(s)
	defer v.C.Close()
	v.Cmd("play", nil, "a")
	if sc.Twice {
		v.Cmd("play", nil, "a")
	} else {
		v.Cmd("play", nil, "b")
	}
	keys := 0
	for stat := 0; stat < 2 || keys < 2; {
		m, err := v.Next(lim)
		must(err, "joining")
		if m.Type == 20 && rtmpc.Code(m) == "NetStream.Play.PublishNotify" {
			stat++
		}
		if m.Type == 9 {
			keys++
		}
	}
	type want struct {
		typ byte
		ts  uint32
		p   []byte
	}
	var exp [2][]want // per played stream
	var wg sync.WaitGroup
	for k, p := range pubs {
		for i, m := range sc.Q[k] {
			t, b := payload(m, k, i)
			exp[k] = append(exp[k], want{t, u32(m.TS), b})
		}
		if sc.Twice {
			exp[1] = exp[0]
		}
		wg.Add(1)
		go func(k int, p *rtmpc.Conn) {
			defer wg.Done()
			for _, w := range exp[k] {
				if p.Send(rtmpc.Msg{CS: 4, Type: w.typ, TS: w.ts, P: w.p, SID: 1}) != nil {
					return
				}
			}
		}(k, p)
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := range sc.Q[2] {
			if i%2 == 0 {
				v.Send(rtmpc.Msg{CS: 2, Type: 4, P: []byte{0, 6, 9, 9, 0, byte(i)}})
			} else {
				v.CmdTxn("releaseStream", 5000+i, nil, "x")
			}
		}
	}()
	pos := [2]int{}
	rep := 0
	total := len(exp[0]) + len(exp[1]) + len(sc.Q[2])
	for n := 0; n < total; n++ {
		m, err := v.Next(lim)
		if err == rtmpc.ErrTimeout {
			lib.Missing(n, "message %d of %d never came", n, total)
		}
		if err != nil {
			lib.Bad(n, "the server's chunk stream: %v", err)
		}
		if m.Type == 4 || m.Type == 20 {
			if rep >= len(sc.Q[2]) {
				lib.Bad(n, "unexpected %v", m)
			}
			if rep%2 == 0 {
				if m.Type != 4 || !bytes.Equal(m.P, []byte{0, 7, 9, 9, 0, byte(rep)}) {
					lib.Bad(n, "reply %d: %v", rep, m)
				}
			} else if a, e := rtmpc.Dec(m.P); m.Type != 20 || e != nil || len(a) < 2 || a[0] != "_result" || a[1] != float64(5000+rep) {
				lib.Bad(n, "reply %d: %v", rep, m)
			}
			rep++
			continue
		}
		ok := false
		for k := 0; k < 2 && !ok; k++ {
			if pos[k] < len(exp[k]) {
				w := exp[k][pos[k]]
				if m.Type == w.typ && m.TS == w.ts && bytes.Equal(m.P, w.p) {
					pos[k]++
					ok = true
				}
			}
		}
		if !ok {
			lib.Bad(n, "decoded %v, which neither stream sends next", m)
		}
	}
	wg.Wait()
	ms, err := v.Fence(lim)
	must(err, "closing fence")
	if len(ms) > 0 {
		lib.Bad(total, "unexpected %v", ms[0])
	}
	return nil
}

func main() { lib.Main(6, run) }
