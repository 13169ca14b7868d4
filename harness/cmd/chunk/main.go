// Driver chunk replays behaviours of spec/Chunk.tla: the chunks go to a real server session over an in-memory pipe,
// what the session extracted is observed by a viewer (media) and on the publisher's own connection (replies).
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"time"

	"vh/lib"
	"vh/rtmpc"
)

type media struct {
	ID  int    `json:"id"`
	Typ int    `json:"typ"`
	TS  [2]int `json:"ts"`
	Len int    `json:"len"`
	Sub int    `json:"sub"`
}

type reply struct {
	T  string `json:"t"`
	N  int    `json:"n"`
	ID int    `json:"id"`
	V  []int  `json:"v"`
}

type step struct {
	W struct {
		CS    uint32          `json:"cs"`
		Fmt   int             `json:"fmt"`
		F     [2]int          `json:"f"`
		Ext   bool            `json:"ext"`
		Len   int             `json:"len"`
		Typ   int             `json:"typ"`
		Sid   uint32          `json:"sid"`
		Kind  string          `json:"kind"`
		Arg   json.RawMessage `json:"arg"`
		Slice struct{ ID, From, N int }
	} `json:"w"`
	Pub  []reply `json:"pub"`
	View []media `json:"view"`
}

type sub struct {
	Typ int    `json:"typ"`
	Len int    `json:"len"`
	D   [2]int `json:"d"`
}

type scenario struct {
	Steps []step `json:"steps"`
	Seg   int    `json:"seg"`
}

const prologue = 1000

func u32(p [2]int) uint32 { return uint32(p[0])<<16 | uint32(p[1]) }

func fill(b []byte, id, sub, from int) {
	for i := from; i < len(b); i++ {
		b[i] = byte(id*31 + sub*7 + i*13 + i>>8)
	}
}

// media payloads: MP3 audio, AVC inter frames, a string as script data
func payload(typ, id, n, sub int) []byte {
	b := make([]byte, n)
	switch typ {
	case 8:
		b[0] = 0x2f
		fill(b, id, sub, 1)
	case 9:
		copy(b, []byte{0x27, 1, 0, 0, 0})
		fill(b, id, sub, 5)
	case 18:
		if n > 60000 { // too long for one string: values of one byte
			copy(b, []byte{2, 0, 2, 'o', 'x', 2, 0, 2, 'a' + byte(id%26), 'a' + byte(id/26%26)})
			for i := 10; i < n; i++ {
				b[i] = 5 + byte((id+i)/3%2)
			}
			break
		}
		copy(b, []byte{2, 0, 2, 'o', 'x', 2, byte((n - 8) >> 8), byte(n - 8)})
		for i := 8; i < n; i++ {
			b[i] = 'a' + byte((id+i*7)%26)
		}
	}
	return b
}

func be(v uint32) []byte { b := make([]byte, 4); binary.BigEndian.PutUint32(b, v); return b }

func raw(id int, s *step, base uint32) []byte {
	w := s.W
	num := func() uint32 { var n int64; lib.Dec(w.Arg, &n); return uint32(n) } // a negative window is that much below 2^32
	switch w.Kind {
	case "audio", "video", "data":
		return payload(w.Typ, id, w.Len, 0)
	case "cmd":
		p := rtmpc.Enc("releaseStream", id, nil)
		if w.Len > 60000 {
			p = append(p, rtmpc.Enc("x")...)
			for len(p) < w.Len {
				p = append(p, 5)
			}
			return p
		}
		p = append(p, 2, byte((w.Len-len(p)-3)>>8), byte(w.Len-len(p)-3))
		for len(p) < w.Len {
			p = append(p, 'a'+byte(len(p)%26))
		}
		return p
	case "discard":
		b := make([]byte, w.Len)
		fill(b, id, 0, 0)
		return b
	case "agg":
		var subs []sub
		lib.Dec(w.Arg, &subs)
		var b []byte
		t0 := base + uint32(id)*2654435761
		for i, x := range subs {
			t := t0 + u32(x.D)
			b = append(b, byte(x.Typ), byte(x.Len>>16), byte(x.Len>>8), byte(x.Len), byte(t>>16), byte(t>>8), byte(t), byte(t>>24), 0, 0, 0)
			b = append(b, payload(x.Typ, id, x.Len, i+1)...)
			b = append(b, be(uint32(x.Len+11))...)
		}
		return b
	case "setsize", "abort", "winack":
		return be(num())
	case "ackmsg":
		return be(12345)
	case "bw":
		return append(be(2500000), 2)
	case "ping":
		var v []int
		lib.Dec(w.Arg, &v)
		return append([]byte{0, 6}, lib.Bytes(v)...)
	case "uc":
		return []byte{0, 3, 0, 0, 0, 1, 0, 0, 1, 0}
	case "bad":
		var v []int
		lib.Dec(w.Arg, &v)
		return lib.Bytes(v)
	}
	panic("kind " + w.Kind)
}

func wire(s *step, body []byte) []byte {
	w := s.W
	b := rtmpc.CSHeader(w.Fmt, w.CS)
	f := u32(w.F)
	short := f
	if w.Ext {
		short = 0xFFFFFF
	}
	if w.Fmt <= 2 {
		b = append(b, byte(short>>16), byte(short>>8), byte(short))
	}
	if w.Fmt <= 1 {
		b = append(b, byte(w.Len>>16), byte(w.Len>>8), byte(w.Len), byte(w.Typ))
	}
	if w.Fmt == 0 {
		b = append(b, byte(w.Sid), byte(w.Sid>>8), byte(w.Sid>>16), byte(w.Sid>>24))
	}
	if w.Ext {
		b = append(b, be(f)...)
	}
	return append(b, body[w.Slice.From:w.Slice.From+w.Slice.N]...)
}

func must(err error, what string) {
	if err != nil {
		lib.Missing(-1, "%s: %v", what, err)
	}
}

func join(srv *rtmpc.Srv, app string) (*rtmpc.Conn, chan struct{}) {
	c, done := srv.Pipe()
	x, err := rtmpc.Client(c, lib.D(10*time.Second))
	must(err, "handshake")
	_, err = x.Connect(app, lib.D(10*time.Second))
	must(err, "connect")
	return x, done
}

func run(raws json.RawMessage) interface{} {
	var sc scenario
	lib.Dec(raws, &sc)
	lim := lib.D(10 * time.Second)
	srv := rtmpc.NewSrv("live")
	sum := 0
	c, done := srv.Pipe()
	p, err := rtmpc.Client(c, lim)
	must(err, "handshake")
	defer c.Close()
	send := func(m rtmpc.Msg) {
		sum += len(m.P)
		must(p.Send(m), "prologue")
	}
	send(rtmpc.Msg{CS: 3, Type: 20, P: rtmpc.Enc("connect", 1, rtmpc.Obj{{K: "app", V: "live"}, {K: "tcUrl", V: "rtmp://h/live"}})})
	_, err = p.Until("_result", 1, lim)
	must(err, "connect")
	send(rtmpc.Msg{CS: 3, Type: 20, P: rtmpc.Enc("publish", 2, nil, "s", "live")})
	_, err = p.Until("onStatus", 2, lim)
	must(err, "publish")
	key := append([]byte{0x17, 1, 0, 0, 0}, "the keyframe"...)
	send(rtmpc.Msg{CS: 3, Type: 9, P: key, SID: 1})
	send(rtmpc.Msg{CS: 3, Type: 20, P: rtmpc.Enc("releaseStream", 3, nil, "x")})
	ms, err := p.Until("_result", 3, lim)
	must(err, "prologue")
	if len(ms) != 1 {
		lib.Bad(-1, "the publisher got %v in the prologue", ms)
	}
	v, _ := join(srv, "live")
	defer v.C.Close()
	v.Cmd("play", nil, "s")
	for gotKey, gotStat := false, false; !gotKey || !gotStat; {
		m, err := v.Next(lim)
		must(err, "waiting for the keyframe")
		if m.Type == 20 && rtmpc.Code(m) == "NetStream.Play.PublishNotify" {
			gotStat = true
		}
		if m.Type == 9 {
			if !bytes.Equal(m.P, key) {
				lib.Bad(-1, "viewer got %v instead of the keyframe", m)
			}
			gotKey = true
		}
	}
	send(rtmpc.Msg{CS: 3, Type: 19, P: make([]byte, prologue-sum)})

	// the behaviour
	var buf []byte
	var pubW []reply
	var viewW []media
	bodies := map[int][]byte{}
	var pubAt, viewAt []int
	badAt, pubSure, viewSure := -1, -1, -1
	for i := range sc.Steps {
		s := &sc.Steps[i]
		id := s.W.Slice.ID
		if bodies[id] == nil {
			b := raw(id, s, 0)
			if len(b) != s.W.Len {
				panic(fmt.Sprintf("driver: body of %s is %d, want %d", s.W.Kind, len(b), s.W.Len))
			}
			if b == nil {
				b = []byte{}
			}
			bodies[id] = b
		}
		if s.W.Kind == "bad" && badAt < 0 {
			badAt, pubSure, viewSure = i, len(pubW), len(viewW)
		}
		buf = append(buf, wire(s, bodies[id])...)
		for _, r := range s.Pub {
			pubW, pubAt = append(pubW, r), append(pubAt, i)
		}
		for _, m := range s.View {
			viewW, viewAt = append(viewW, m), append(viewAt, i)
		}
	}
	h := fnv.New64()
	h.Write(raws)
	rnd := rand.New(rand.NewSource(int64(h.Sum64()) ^ *lib.Seed))
	go func() {
		b := buf
		for len(b) > 0 {
			n := len(b)
			switch sc.Seg {
			case 1:
				n = 1
			case 2:
				n = 1 + rnd.Intn(20)
			case 3:
				n = 1 + rnd.Intn(400)
			}
			if n > len(b) {
				n = len(b)
			}
			p.C.SetWriteDeadline(time.Now().Add(lib.D(20 * time.Second)))
			if _, err := p.C.Write(b[:n]); err != nil {
				return
			}
			b = b[n:]
		}
	}()
	closed := false
	for k, r := range pubW {
		m, err := p.Next(lim)
		if err == rtmpc.ErrTimeout {
			lib.Missing(pubAt[k], "no reply %+v", r)
		}
		if err != nil {
			if badAt >= 0 && k >= pubSure {
				closed = true
				break
			}
			lib.Bad(pubAt[k], "the server ended the session (%v); expected %+v", err, r)
		}
		var ok bool
		switch r.T {
		case "ack":
			ok = m.Type == 3 && bytes.Equal(m.P, be(uint32(r.N)))
		case "pong":
			ok = m.Type == 4 && bytes.Equal(m.P, append([]byte{0, 7}, lib.Bytes(r.V)...))
		case "result":
			if m.Type == 20 {
				a, e := rtmpc.Dec(m.P)
				ok = e == nil && len(a) >= 2 && a[0] == "_result" && a[1] == float64(r.ID)
			}
		}
		if !ok {
			lib.Bad(pubAt[k], "server sent %v, specification expects %+v", m, r)
		}
	}
	sure := len(viewW)
	if closed {
		sure = viewSure
	}
	for k := 0; k < sure; k++ {
		w := viewW[k]
		m, err := v.Next(lim)
		if err != nil {
			lib.Missing(viewAt[k], "viewer did not get message %+v: %v", w, err)
		}
		want := payload(w.Typ, w.ID, w.Len, w.Sub)
		if int(m.Type) != w.Typ || m.TS != u32(w.TS) || !bytes.Equal(m.P, want) {
			lib.Bad(viewAt[k], "viewer got %v, specification expects type %d ts %d len %d % x", m, w.Typ, u32(w.TS), w.Len, want[:minInt(24, len(want))])
		}
	}
	if closed {
		select {
		case <-done:
		case <-time.After(lim):
			lib.Missing(badAt, "session closed but its handler still runs")
		}
		// other sessions go on and the name is free again
		p2, _ := join(srv, "live")
		defer p2.C.Close()
		code, err := p2.Publish("s", lim)
		must(err, "publish again")
		if code != "NetStream.Publish.Start" {
			lib.Bad(badAt, "publishing again after the rejected control message: %s", code)
		}
		return nil
	}
	// nothing more: a fence on both sides
	ms, err = p.Fence(lim)
	for _, m := range ms {
		if m.Type == 3 {
			continue // the fence's own bytes may fill the window
		}
		lib.Bad(len(sc.Steps), "unexpected message to the publisher: %v", m)
	}
	ms, err2 := v.Fence(lim)
	for _, m := range ms {
		if m.Type == 4 && len(m.P) == 6 && m.P[1] == 1 {
			continue // the stream has ended
		}
		lib.Bad(len(sc.Steps), "unexpected message to the viewer: %v", m)
	}
	if err2 != nil {
		lib.Missing(len(sc.Steps), "viewer's session: %v", err2)
	}
	return nil
}

func main() { lib.Main(8, run) }

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
