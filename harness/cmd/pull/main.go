// Command pull is the upstream of a pulled stream, a local publisher that wants its name, and a viewer.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"io"
	"math/rand"
	"net"
	"sync"
	"time"

	"vh/flvc"
	"vh/lib"
	"vh/media"
	"vh/rtmpc"
	"vh/srvx"
)

type ev struct {
	Op   string  `json:"op"`
	K    string  `json:"k"`
	V    int     `json:"v"`
	ID   int     `json:"id"`
	Gap  float64 `json:"gap"`
	Next float64 `json:"next"`
	OK   bool    `json:"ok"`
	Own  string  `json:"own"`
}
type scen struct {
	Ev []ev `json:"ev"`
	N  int  `json:"num"`
}

// dialled is a connection of the relay that said something.
type dialled struct {
	c  net.Conn
	at time.Time
}

// upstream listens on an address that can be taken away and given back.
type upstream struct {
	addr string
	l    net.Listener
	in   chan dialled
	null chan time.Time // connections that said nothing
}

func (u *upstream) listen() {
	l, err := net.Listen("tcp", u.addr)
	if err != nil {
		panic(err)
	}
	u.addr, u.l = l.Addr().String(), l
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			at := time.Now()
			go func() {
				var b [1]byte
				c.SetReadDeadline(time.Now().Add(20 * time.Second))
				if _, err := io.ReadFull(c, b[:]); err != nil {
					c.Close()
					u.null <- at
					return
				}
				c.SetReadDeadline(time.Time{})
				if b[0] != 3 {
					c.Close()
					return
				}
				u.in <- dialled{c, at}
			}()
		}
	}()
}

type viewer struct {
	f    *flvc.Stream
	mu   sync.Mutex
	tags []flvc.Tag
	err  error
}

func (v *viewer) run() {
	r := flvc.NewReader(v.f.Body)
	for {
		t, err := r.Next()
		v.mu.Lock()
		if err != nil {
			v.err = err
			v.mu.Unlock()
			return
		}
		v.tags = append(v.tags, t)
		v.mu.Unlock()
	}
}

type item struct {
	kind string
	id   int
	ts   uint32
}

type world struct {
	s     scen
	r     *rand.Rand
	lim   time.Duration
	srv   *srvx.Srv
	u     *upstream
	c     net.Conn    // to the relay
	x     *rtmpc.Conn // to the relay, once it plays
	base  time.Time   // end of the last attempt
	loose bool        // that is uncertain
	since time.Time   // when it became so
	local *rtmpc.Conn
	v     *viewer
	want  []item
	ts    uint32
	sid   uint32
	txn   int // of the relay's last command
	last  *rtmpc.Conn
}

func (w *world) get(name string) int {
	f, err := flvc.Get(w.srv.HTTP(), "/live/"+name+".flv", w.lim)
	if err != nil {
		lib.Missing(0, "%v", err)
	}
	f.C.Close()
	return f.Status
}

// registered waits until the stream is there, or is not.
func (w *world) registered(i int, yes bool) {
	want := 404
	if yes {
		want = 200
	}
	for end := time.Now().Add(w.lim); ; time.Sleep(2 * time.Millisecond) {
		st := w.get("cam")
		if st == want {
			return
		}
		if time.Now().After(end) {
			lib.Missing(i, "the stream is answered with %d, expected %d", st, want)
		}
	}
}

// watch opens a viewer.
func (w *world) watch(i int) {
	for end := time.Now().Add(w.lim); ; time.Sleep(2 * time.Millisecond) {
		f, err := flvc.Get(w.srv.HTTP(), "/live/cam.flv", w.lim)
		if err == nil && f.Status == 200 {
			w.v = &viewer{f: f}
			break
		}
		if err == nil {
			f.C.Close()
		}
		if time.Now().After(end) {
			lib.Missing(i, "no stream to view")
		}
	}
	w.want = nil
	go w.v.run()
}

// seen waits until the viewer has what was sent, and checks it.
func (w *world) seen(i int) {
	for end := time.Now().Add(w.lim); ; time.Sleep(300 * time.Microsecond) {
		w.v.mu.Lock()
		tags := append([]flvc.Tag{}, w.v.tags...)
		err := w.v.err
		w.v.mu.Unlock()
		var got []item
		for _, t := range tags {
			k, id := media.Parse(t.Type, t.P)
			if k == media.Other && t.Type == 18 && bytes.Contains(t.P, []byte("|RtmpSampleAccess")) {
				continue
			}
			x := item{k, id, t.TS}
			if len(got) > 0 && (k == media.Meta || k == media.VHdr || k == media.AHdr) { // headers may be repeated at the start
				dup := false
				for _, y := range got {
					dup = dup || y.kind == k && y.id == id
				}
				if dup {
					continue
				}
			}
			got = append(got, x)
		}
		for j, x := range got {
			if j >= len(w.want) {
				lib.Bad(i, "a viewer got %v that nobody sent", x)
			}
			if y := w.want[j]; x != y {
				lib.Bad(i, "a viewer got %v, expected %v", x, y)
			}
		}
		if len(got) == len(w.want) {
			return
		}
		if err != nil {
			lib.Bad(i, "a viewer's stream ended (%v) before %v", err, w.want[len(got)])
		}
		if time.Now().After(end) {
			lib.Missing(i, "a viewer did not get %v", w.want[len(got)])
		}
	}
}

// over waits for the end of the viewer's stream.
func (w *world) over(i int) {
	if w.v == nil {
		return
	}
	for end := time.Now().Add(w.lim); ; time.Sleep(time.Millisecond) {
		w.v.mu.Lock()
		err := w.v.err
		w.v.mu.Unlock()
		if err != nil {
			break
		}
		if time.Now().After(end) {
			lib.Missing(i, "a viewer's stream does not end")
		}
	}
	w.seen(i)
	w.v.f.C.Close()
	w.v = nil
}

// wait is for the relay's next attempt.
func (w *world) wait(i int, gap float64) {
	g := time.Duration(gap * float64(time.Second))
	late := g*5/4 + 2*time.Second
	if gap >= 25 {
		late = g + 1200*time.Millisecond // at most 30 s
	}
	base := w.base
	if w.loose {
		base = w.since
		late = 2*time.Since(w.base) + 2*time.Second
	}
	if gap == 0 {
		late = 10 * time.Second
	}
	if d := lib.D(time.Second); d > time.Second {
		late += d / 2
	}
	select {
	case d := <-w.u.in:
		if early := base.Add(g * 7 / 10); !w.loose && d.at.Before(early) {
			lib.Bad(i, "the relay tries again after %v, expected %v", d.at.Sub(base), g)
		}
		w.c = d.c
	case <-time.After(time.Until(base.Add(late))):
		lib.Missing(i, "the relay does not try again within %v, expected after %v", time.Since(base), g)
	}
	w.loose = false
}

func (w *world) read(i int, n int) []byte {
	b := make([]byte, n)
	w.c.SetReadDeadline(time.Now().Add(w.lim))
	if _, err := io.ReadFull(w.c, b); err != nil {
		lib.Missing(i, "the relay's handshake: %v", err)
	}
	return b
}

// request waits for a command of the relay.
func (w *world) request(i int, name string) (rtmpc.Msg, []interface{}) {
	for {
		m, err := w.x.Next(w.lim)
		if err != nil {
			lib.Missing(i, "the relay does not send %s: %v", name, err)
		}
		if m.Type != 20 {
			continue
		}
		v, err := rtmpc.Dec(m.P)
		if err != nil || len(v) < 3 {
			lib.Bad(i, "the relay sends the command %v (%v)", v, err)
		}
		if v[0] != name {
			lib.Bad(i, "the relay sends %v, expected %s", v[0], name)
		}
		f, _ := v[1].(float64)
		w.txn = int(f)
		return m, v
	}
}

func (w *world) status(level, code string) {
	w.x.CmdTxn("onStatus", 0, nil, rtmpc.Obj{{K: "level", V: level}, {K: "code", V: code}, {K: "description", V: "x"}})
}

func (w *world) be(n uint32) []byte { return binary.BigEndian.AppendUint32(nil, n) }

// hung waits for the relay to hang up.
func (w *world) hung(i int, limit time.Duration) {
	if w.x != nil {
		if !w.x.Closed(limit) {
			lib.Missing(i, "the relay does not hang up")
		}
	} else {
		w.c.SetReadDeadline(time.Now().Add(limit))
		if _, err := io.Copy(io.Discard, w.c); err != nil {
			if e, ok := err.(net.Error); ok && e.Timeout() {
				lib.Missing(i, "the relay does not hang up")
			}
		}
	}
	w.c.Close()
}

// answer is what the upstream does; afterwards the attempt is over, or the relay plays.
func (w *world) answer(i int, k string) {
	w.x = nil
	long := lib.D(15*time.Second) + 15*time.Second
	fail := func() { w.c.Close(); w.base = time.Now() }
	if k == "drop" {
		fail()
		return
	}
	c1 := w.read(i, 1536)
	s1 := make([]byte, 1536)
	w.r.Read(s1[8:])
	switch k {
	case "s0":
		w.c.Write([]byte{3})
		fail()
		return
	case "badver":
		w.c.Write(append([]byte{6}, append(s1, c1...)...))
		w.hung(i, w.lim)
		w.base = time.Now()
		return
	case "half":
		w.c.Write(append([]byte{3}, s1[:700]...))
		fail()
		return
	case "silent0":
		w.hung(i, long)
		w.base = time.Now()
		return
	case "silents1":
		w.c.Write(append([]byte{3}, s1...))
		w.hung(i, long)
		w.base = time.Now()
		return
	}
	w.c.Write(append([]byte{3}, append(append([]byte{}, s1...), c1...)...))
	if c2 := w.read(i, 1536); !bytes.Equal(c2[8:], s1[8:]) {
		lib.Bad(i, "C2 is no echo of S1")
	}
	w.c.SetReadDeadline(time.Time{})
	w.x = rtmpc.Raw(w.c)
	w.x.Start()
	_, v := w.request(i, "connect")
	o, _ := v[2].(map[string]interface{})
	if o["app"] != "up" || o["tcUrl"] != "rtmp://"+w.u.addr+"/up" {
		lib.Bad(i, "the relay connects with %v", o)
	}
	if w.r.Intn(2) == 0 { // what servers say first
		w.x.Send(rtmpc.Msg{CS: 2, Type: 5, P: w.be(2500000)})
		w.x.Send(rtmpc.Msg{CS: 2, Type: 6, P: append(w.be(2500000), 2)})
		w.x.SetSize(128 + w.r.Intn(4000))
		w.x.Send(rtmpc.Msg{CS: 2, Type: 4, P: make([]byte, 6)})
		w.x.CmdTxn("onBWDone", 0, nil)
	}
	ok := rtmpc.Obj{{K: "level", V: "status"}, {K: "code", V: "NetConnection.Connect.Success"}}
	no := rtmpc.Obj{{K: "level", V: "error"}, {K: "code", V: "NetConnection.Connect.Rejected"}}
	switch k {
	case "cclose":
		fail()
		return
	case "cerror":
		w.x.CmdTxn("_error", w.txn, nil, no)
		w.hung(i, w.lim)
		w.base = time.Now()
		return
	case "cstatus":
		w.status("error", "NetConnection.Connect.Failed")
		w.hung(i, w.lim)
		w.base = time.Now()
		return
	case "cbad":
		w.x.Send(rtmpc.Msg{CS: 3, Type: 20, P: []byte{0, 1, 2, 3}})
		w.hung(i, w.lim)
		w.base = time.Now()
		return
	case "csilent":
		w.hung(i, long)
		w.base = time.Now()
		return
	case "cping":
		go func(x *rtmpc.Conn) {
			for x.Send(rtmpc.Msg{CS: 2, Type: 4, P: []byte{0, 6, 0, 0, 0, 1}}) == nil {
				time.Sleep(400 * time.Millisecond)
			}
		}(w.x)
		w.hung(i, long)
		w.base = time.Now()
		return
	}
	w.x.CmdTxn("_result", w.txn, rtmpc.Obj{{K: "fmsVer", V: "FMS/3,5"}}, ok)
	w.request(i, "createStream")
	switch k {
	case "xclose":
		fail()
		return
	case "xerror":
		w.x.CmdTxn("_error", w.txn, nil, no)
		w.hung(i, w.lim)
		w.base = time.Now()
		return
	case "xbad":
		w.x.Write(append(rtmpc.CSHeader(3, 57), 1, 2, 3))
		w.hung(i, w.lim)
		w.base = time.Now()
		return
	case "xsilent":
		w.hung(i, long)
		w.base = time.Now()
		return
	}
	w.sid = uint32(1 + w.r.Intn(5))
	w.x.CmdTxn("_result", w.txn, nil, float64(w.sid))
	m, v := w.request(i, "play")
	if len(v) < 4 || v[3] != w.source()[1] || m.SID != w.sid {
		lib.Bad(i, "the relay plays %v on stream %d, expected %s on %d", v, m.SID, w.source()[1], w.sid)
	}
	switch k {
	case "pclose":
		fail()
		return
	case "pnotfound", "pfailed":
		w.status("error", map[string]string{"pnotfound": "NetStream.Play.StreamNotFound", "pfailed": "NetStream.Play.Failed"}[k])
		w.hung(i, w.lim)
		w.base = time.Now()
		return
	}
	if w.r.Intn(2) == 0 {
		w.x.Send(rtmpc.Msg{CS: 2, Type: 4, P: append([]byte{0, 0}, w.be(w.sid)...)})
		w.status("status", "NetStream.Play.Reset")
		w.status("status", "NetStream.Play.Start")
		w.x.Send(rtmpc.Msg{CS: 6, SID: w.sid, Type: 18, P: rtmpc.Enc("|RtmpSampleAccess", true, true)})
	}
	if k != "ok" {
		panic(k)
	}
}

// fence waits until the relay has dealt with what it was sent.
func (w *world) fence(i int) {
	id := w.r.Uint32()
	w.x.Send(rtmpc.Msg{CS: 2, Type: 4, P: append([]byte{0, 6}, w.be(id)...)})
	for {
		m, err := w.x.Next(w.lim)
		if err != nil {
			lib.Missing(i, "the relay does not answer a ping: %v", err)
		}
		if m.Type == 4 && bytes.Equal(m.P, append([]byte{0, 7}, w.be(id)...)) {
			return
		}
	}
}

func (w *world) send(x *rtmpc.Conn, kind string, id, v int) {
	t, p := media.Msg(kind, id)
	if kind == media.Meta && v%2 == 0 {
		p = rtmpc.Enc("onMetaData", rtmpc.Ecma{Count: 1, P: []rtmpc.KV{{K: "mark", V: float64(id)}}})
	}
	w.ts += uint32(w.r.Intn(50))
	w.want = append(w.want, item{kind, id, w.ts})
	cs := map[byte]uint32{18: 5, 8: 4, 9: 6}[t]
	if v == 3 && t != 18 {
		var b []byte
		b = append(b, t, byte(len(p)>>16), byte(len(p)>>8), byte(len(p)), byte(w.ts>>16), byte(w.ts>>8), byte(w.ts), byte(w.ts>>24), 0, 0, 0)
		b = append(append(b, p...), w.be(uint32(11+len(p)))...)
		t, p, cs = 22, b, 7
	}
	x.Send(rtmpc.Msg{CS: cs, SID: w.sid, Type: t, TS: w.ts, P: p})
}

// source is what a pull is told to take, and what it has to ask for.
func (w *world) source() [2]string {
	return [][2]string{{"/up/sun?token=a1", "sun?token=a1"}, {"/up/sun", "sun"}, {"/up/a/b/c", "a/b/c"}, {"/up/sun/?k=v&l=%2F%20", "sun/?k=v&l=%2F%20"},
		{"/up", "cam"}, {"/up/", "cam"}, {"/up?x=1", "cam?x=1"}, {"/up/Sun.1_x-y~z", "Sun.1_x-y~z"}}[w.s.N%8]
}

func run(raw json.RawMessage) interface{} {
	var s scen
	lib.Dec(raw, &s)
	w := &world{s: s, r: rand.New(rand.NewSource(int64(s.N) * 6151)), lim: lib.D(8 * time.Second)}
	w.u = &upstream{addr: srvx.Host() + ":0", in: make(chan dialled, 8), null: make(chan time.Time, 64)}
	w.u.listen()
	defer func() { w.u.l.Close() }()
	for _, e := range s.Ev { // it may be away from the start
		if e.Op == "refused" && e.Gap == 0 {
			w.u.l.Close()
		}
	}
	w.ts = uint32(w.r.Intn(3)) * 40000
	w.base = time.Now()
	w.srv = srvx.Start(srvx.Opt{Apps: []string{"live"}, FLV: true, Pulls: [][3]string{{"rtmp://" + w.u.addr + w.source()[0], "live", "cam"}}})
	got := false
	for j, e := range s.Ev {
		i := j + 1
		switch e.Op {
		case "refused":
			g := time.Duration(e.Gap * float64(time.Second))
			w.u.l.Close()
			at := w.base.Add(g)
			time.Sleep(time.Until(at.Add(time.Duration(e.Next * float64(time.Second) / 2))))
			w.u.listen()
			w.base = at
		case "taken":
			g := time.Duration(e.Gap * float64(time.Second))
			select {
			case <-w.u.null:
				w.base = time.Now()
			case d := <-w.u.in:
				d.c.Close()
				lib.Bad(i, "the relay asks for a stream whose name a local publisher has")
			case <-time.After(time.Until(w.base.Add(g + g/4 + time.Second))):
				w.loose, w.since = true, time.Now() // it need not show
			}
		case "dial":
			w.wait(i, e.Gap)
		case "answer":
			w.answer(i, e.K)
			w.registered(i, e.Own != "")
			got = false
		case "up":
			if w.v == nil {
				w.watch(i)
			}
			if !got && e.V > 3 {
				w.send(w.x, "M", 5000+e.ID, e.V)
				w.send(w.x, "V", 5000+e.ID, e.V)
				w.send(w.x, "A", 5000+e.ID, e.V)
			}
			got = true
			w.send(w.x, e.K, e.ID, e.V)
			w.seen(i)
		case "say":
			switch e.K {
			case "ping":
			case "window":
				w.x.Send(rtmpc.Msg{CS: 2, Type: 5, P: w.be(uint32(200 + w.r.Intn(5000)))})
			case "bandwidth":
				w.x.Send(rtmpc.Msg{CS: 2, Type: 6, P: append(w.be(50000), byte(w.r.Intn(3)))})
			case "chunksize":
				w.x.SetSize(1 + w.r.Intn(5000))
			case "begin", "dry":
				w.x.Send(rtmpc.Msg{CS: 2, Type: 4, P: append([]byte{0, map[string]byte{"begin": 0, "dry": 2}[e.K]}, w.be(w.sid)...)})
			case "start":
				w.status("status", "NetStream.Play.Start")
			case "bwdone":
				w.x.CmdTxn("onBWDone", 0, nil)
			case "result":
				w.x.CmdTxn("_result", 77, nil, 4.0)
			case "delete":
				w.x.CmdTxn("deleteStream", 0, nil, float64(w.sid))
			case "unpublish":
				w.x.CmdTxn("FCUnpublish", 5, nil, "cam")
			case "publish":
				w.x.CmdTxn("publish", 6, nil, "other", "live")
			case "closestream":
				w.x.CmdTxn("closeStream", 0, nil)
			case "play":
				w.x.CmdTxn("play", 8, nil, "cam")
			case "connect":
				w.x.CmdTxn("connect", 1, rtmpc.Obj{{K: "app", V: "live"}})
			case "create":
				w.x.CmdTxn("createStream", 9, nil)
			case "empty":
				w.x.CmdTxn("", 0, nil)
			default:
				panic(e.K)
			}
			w.fence(i)
			w.registered(i, true)
			if e.K == "publish" && w.get("other") != 404 {
				lib.Bad(i, "the upstream has started a stream of another name")
			}
			if w.v != nil {
				w.seen(i)
			}
		case "upend":
			switch e.K {
			case "close":
			case "reset":
				w.c.(*net.TCPConn).SetLinger(0)
			case "mid":
				b := rtmpc.Chunks(rtmpc.Msg{CS: 6, Type: 9, TS: w.ts, P: make([]byte, 100)}, 128)
				w.x.Write(b[:40])
			case "badtype":
				w.x.Send(rtmpc.Msg{CS: 6, Type: 99, P: make([]byte, 10)})
			case "eof":
				w.x.Send(rtmpc.Msg{CS: 2, Type: 4, P: append([]byte{0, 1}, w.be(w.sid)...)})
			case "unpub":
				w.status("status", "NetStream.Play.UnpublishNotify")
			case "stop":
				w.status("status", "NetStream.Play.Stop")
			case "error":
				w.status("error", "NetStream.Failed")
			}
			switch e.K {
			case "close", "reset", "mid":
				w.c.Close()
			default:
				w.hung(i, w.lim)
			}
			w.base = time.Now()
			w.over(i)
			w.registered(i, false)
		case "publish":
			c, err := net.Dial("tcp", w.srv.RTMP())
			if err != nil {
				lib.Missing(i, "%v", err)
			}
			defer c.Close()
			x, err := rtmpc.Client(c, w.lim)
			if err == nil {
				_, err = x.Connect("live", w.lim)
			}
			if err != nil {
				lib.Missing(i, "%v", err)
			}
			code, err := x.Publish("cam", w.lim)
			if err != nil {
				lib.Missing(i, "%v", err)
			}
			if want := map[bool]string{true: "NetStream.Publish.Start", false: "NetStream.Publish.BadName"}[e.OK]; code != want {
				lib.Bad(i, "a local publisher gets %s, expected %s", code, want)
			}
			if e.OK {
				w.local = x
				w.watch(i)
			} else {
				c.Close()
				if w.v != nil {
					w.seen(i)
				}
			}
		case "own":
			w.send(w.local, "K", e.ID, 1)
			w.seen(i)
		case "leave":
			w.seen(i)
			w.local.C.Close()
			w.over(i)
			w.registered(i, false)
		default:
			panic(e.Op)
		}
	}
	if w.x != nil {
		w.c.Close()
	}
	if w.local != nil {
		w.local.C.Close()
	}
	return nil
}

func main() { lib.Main(40, run) }
