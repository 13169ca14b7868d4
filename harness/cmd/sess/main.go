// Driver sess replays behaviours of spec/Session.tla against a whole server: RTMP, RTSP, HTTP, WebSocket, SRT peers.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"vh/flvc"
	"vh/lib"
	"vh/media"
	"vh/rtmpc"
	"vh/rtspc"
	"vh/srtc"
	"vh/tsx"

	"github.com/sbraveyoung/GGmpeg/librtmp"
)

type del struct {
	W  string `json:"w"`
	N  int    `json:"n"`
	I  int    `json:"i"`
	F  int    `json:"f"`
	C  int    `json:"c"`
	H  [3]int `json:"h"`
	Ex bool   `json:"ex"`
}

type step struct {
	Op     string   `json:"op"`
	N      int      `json:"n"`
	App    string   `json:"app"`
	Name   string   `json:"name"`
	ID     int      `json:"id"`
	Rep    []string `json:"rep"`
	Closed bool     `json:"closed"`
	DL     []del    `json:"dl"`
	Ends   []int    `json:"ends"`
	Code   int      `json:"code"`
	In     int      `json:"in"`
}

type scenario struct {
	Hist []step   `json:"hist"`
	Srt  []string `json:"srt"`
	Race *race    `json:"race"`
}

// sink records what one viewer receives.
type sink struct {
	mu      sync.Mutex
	cond    *sync.Cond
	w       *world
	who     string
	watch   map[int]bool       // instances it may receive from
	allowed map[int]int        // frame id -> copies
	got     map[int]int        // frame id -> copies
	hdr     map[int][3]int     // instance -> header ids last received
	check   map[int][3]int     // frame id -> headers that must be in force at it
	bad     string
	ended   bool
	endErr  error
}

func (w *world) sink(who string) *sink {
	s := &sink{w: w, who: who, watch: map[int]bool{}, allowed: map[int]int{}, got: map[int]int{}, hdr: map[int][3]int{}, check: map[int][3]int{}}
	s.cond = sync.NewCond(&s.mu)
	return s
}

func (s *sink) fail(f string, a ...interface{}) {
	if s.bad == "" {
		s.bad = s.who + ": " + fmt.Sprintf(f, a...)
	}
}

func (s *sink) event(kind string, id int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	defer s.cond.Broadcast()
	if kind == media.Inter || kind == "pps" {
		return // fillers
	}
	if kind == media.Other {
		s.fail("received media nobody sent")
		return
	}
	in := s.w.inst(id)
	if in == 0 {
		s.fail("received %s %d, which was not sent into any stream", kind, id)
		return
	}
	if !s.watch[in] {
		s.fail("received %s %d of publication %d, which it does not watch", kind, id, in)
		return
	}
	j := strings.Index("MVA", kind)
	if j >= 0 {
		h := s.hdr[in]
		h[j] = id
		s.hdr[in] = h
		return
	}
	s.got[id]++
	if s.got[id] > s.allowed[id] {
		s.fail("received %s %d of publication %d %d times, %d expected", kind, id, in, s.got[id], s.allowed[id])
	}
	if want, ok := s.check[id]; ok {
		h := s.hdr[in]
		for k := range want {
			if want[k] != 0 && h[k] != want[k] {
				s.fail("frame %d of publication %d arrived under headers %v, published under %v (metadata, video, audio)", id, in, h, want)
			}
		}
	}
}

func (s *sink) end(err error) {
	s.mu.Lock()
	s.ended, s.endErr = true, err
	s.cond.Broadcast()
	s.mu.Unlock()
}

// wait blocks until f holds (under the lock) or the limit passes.
func (s *sink) wait(limit time.Duration, f func() bool) bool {
	dead := time.Now().Add(limit)
	t := time.AfterFunc(limit, func() { s.mu.Lock(); s.cond.Broadcast(); s.mu.Unlock() })
	defer t.Stop()
	s.mu.Lock()
	defer s.mu.Unlock()
	for !f() {
		if s.bad != "" || !time.Now().Before(dead) {
			return false
		}
		s.cond.Wait()
	}
	return true
}

type rconn struct {
	*rtmpc.Conn
	done chan struct{}
	sk   *sink
	mu   sync.Mutex
	cond *sync.Cond
	reps []rtmpc.Msg
	fin  bool
	next int
}

type viewer struct {
	st *flvc.Stream
	sk *sink
	ws bool
}

type rtsp struct {
	*rtspc.Conn
	sk   *sink
	seq  uint16
	ts   uint32
	used bool
}

type srt struct {
	*srtc.Caller
	mux *tsx.Mux
	n   uint64
	hid int
}

type world struct {
	host  string
	serve func(net.Conn)
	mu    sync.Mutex
	ids   map[int]int // media id -> instance
	rc    map[int]*rconn
	vc    map[int]*viewer
	tc    map[int]*rtsp
	sc    map[int]*srt
	sinks []*sink
	srtAt []string
}

func (w *world) inst(id int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.ids[id]
}
func (w *world) own(id, in int) {
	w.mu.Lock()
	w.ids[id] = in
	w.mu.Unlock()
}

var hostN int32

func host() string {
	p := os.Getpid()
	n := atomic.AddInt32(&hostN, 1)
	return fmt.Sprintf("127.%d.%d.%d", 16+(p&63)+64*int((n>>16)&1), (p>>6)&127|int((n>>8)&1)<<7, 1+int(n)%250)
}

func free(h string) bool {
	l, err := net.Listen("tcp", h+":1935")
	if err != nil {
		return false
	}
	l.Close()
	return true
}

func newWorld(at []string, rtmpToo bool) *world {
	h := host()
	for !free(h) {
		h = host()
	}
	s := librtmp.NewServer(h+":1935", "live", "vod").WithHTTPFlv(h + ":8080").WithRTSP(h + ":8554")
	if len(at) == 2 {
		s = s.WithSRT(h+":9000", at[0], at[1])
	}
	w := &world{host: h, ids: map[int]int{}, rc: map[int]*rconn{}, vc: map[int]*viewer{}, tc: map[int]*rtsp{}, sc: map[int]*srt{}, srtAt: at,
		serve: func(c net.Conn) { librtmp.NewRTMP(c, "peer", s).HandlerServer() }}
	go s.Handler()
	dead := time.Now().Add(20 * time.Second)
	for _, p := range []string{":8080", ":8554"} {
		for {
			c, err := net.Dial("tcp", h+p)
			if err == nil {
				c.Close()
				break
			}
			if time.Now().After(dead) {
				panic("listener " + h + p + " does not come up: " + err.Error())
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	return w
}

func (w *world) close() {
	for _, c := range w.rc {
		c.C.Close()
	}
	for _, v := range w.vc {
		if v != nil && v.st != nil {
			v.st.C.Close()
		}
	}
	for _, t := range w.tc {
		t.C.Close()
	}
	for _, s := range w.sc {
		s.Shutdown()
		s.C.Close()
	}
}

func lim() time.Duration { return lib.D(5 * time.Second) }

func (w *world) open(k int, n int) *rconn {
	a, b := net.Pipe()
	done := make(chan struct{})
	go func() { defer close(done); w.serve(b) }()
	x, err := rtmpc.Client(a, lim())
	if err != nil {
		lib.Missing(k, "RTMP handshake: %v", err)
	}
	r := &rconn{Conn: x, done: done, sk: w.sink(fmt.Sprintf("RTMP connection %d", n))}
	r.cond = sync.NewCond(&r.mu)
	w.sinks = append(w.sinks, r.sk)
	w.rc[n] = r
	go func() {
		for {
			m, err := x.Next(time.Hour)
			if err != nil {
				r.mu.Lock()
				r.fin = true
				r.cond.Broadcast()
				r.mu.Unlock()
				return
			}
			if m.Type == 8 || m.Type == 9 || m.Type == 18 {
				kd, id := media.Parse(m.Type, m.P)
				r.sk.event(kd, id)
				continue
			}
			r.mu.Lock()
			r.reps = append(r.reps, m)
			r.cond.Broadcast()
			r.mu.Unlock()
		}
	}()
	return r
}

// fence waits for everything sent to be processed and returns the replies up to then.
func (r *rconn) fence(k int) []rtmpc.Msg {
	r.next++
	id := 900000 + r.next
	if err := r.CmdTxn("releaseStream", id, nil, "fence"); err != nil {
		lib.Missing(k, "the RTMP connection is dead: %v", err)
	}
	dead := time.Now().Add(lim())
	t := time.AfterFunc(lim(), func() { r.mu.Lock(); r.cond.Broadcast(); r.mu.Unlock() })
	defer t.Stop()
	r.mu.Lock()
	defer r.mu.Unlock()
	for i := 0; ; i++ {
		for i >= len(r.reps) {
			if r.fin {
				lib.Bad(k, "the server closed the RTMP connection")
			}
			if !time.Now().Before(dead) {
				lib.Missing(k, "the RTMP session does not answer releaseStream")
			}
			r.cond.Wait()
		}
		m := r.reps[i]
		if m.Type == 20 {
			if v, e := rtmpc.Dec(m.P); e == nil && len(v) >= 2 && v[0] == "_result" && v[1] == float64(id) {
				out := r.reps[:i]
				r.reps = append([]rtmpc.Msg(nil), r.reps[i+1:]...)
				return out
			}
		}
	}
}

func describe(m rtmpc.Msg, txn float64) string {
	switch m.Type {
	case 1:
		return "SCS"
	case 3:
		return "ACK"
	case 4:
		return "UC"
	case 5:
		return "WAS"
	case 6:
		return "SPB"
	}
	if m.Type != 20 {
		return fmt.Sprintf("type%d", m.Type)
	}
	v, err := rtmpc.Dec(m.P)
	if err != nil || len(v) < 3 {
		return "undecodable command"
	}
	n, _ := v[0].(string)
	sfx := ""
	if v[1] != txn {
		sfx = fmt.Sprintf(" with transaction id %v instead of %v", v[1], txn)
	}
	switch n {
	case "onStatus":
		c := rtmpc.Code(m)
		lv := ""
		for _, a := range v {
			if o, ok := a.(map[string]interface{}); ok {
				lv, _ = o["level"].(string)
			}
		}
		wantLv := "status"
		if strings.HasSuffix(c, "BadName") || strings.HasSuffix(c, "NotFound") {
			wantLv = "error"
		}
		if lv != wantLv {
			sfx += " with level " + lv
		}
		return "onStatus:" + c + sfx
	case "_result":
		if c := rtmpc.Code(m); c == "NetConnection.Connect.Success" {
			return "_result:connect" + sfx
		}
		if len(v) >= 4 {
			if _, ok := v[3].(float64); ok && v[2] == nil {
				return "_result:sid" + sfx
			}
			if v[3] == nil && v[2] == nil {
				return "_result:null" + sfx
			}
		}
	}
	return fmt.Sprintf("%v", v)
}

// ------------------------------------------------------------------ RTMP steps

func (w *world) rtmp(k int, s step) {
	if s.Op == "open" {
		w.open(k, s.N)
		return
	}
	r := w.rc[s.N]
	// what does not bear on the reply varies: transaction ids, argument values, optional arguments
	txn := []int{10 + (k*7)%90, 10 + (k*7)%90, 0, 70000, 1 << 31, 1 << 40}[(k*5+s.N)%6]
	ms := []interface{}{100, 0, -2000, 1e12, 0.5, 86400000}[(k*7+s.N)%6]
	cmd := func(name string, args ...interface{}) { r.CmdTxn(name, txn, args...) }
	switch s.Op {
	case "connect":
		app := s.App
		o := rtmpc.Obj{{K: "app", V: app}, {K: "type", V: "nonprivate"}, {K: "tcUrl", V: "rtmp://h/" + app}}
		switch (k + s.N) % 3 {
		case 1:
			o = append(o, rtmpc.Obj{{K: "fpad", V: false}, {K: "capabilities", V: 239}, {K: "audioCodecs", V: 3575}, {K: "videoCodecs", V: 252},
				{K: "videoFunction", V: 1}, {K: "flashVer", V: "LNX 9,0,124,2"}}...)
		case 2:
			o = append(rtmpc.Obj{{K: "objectEncoding", V: 0}, {K: "swfUrl", V: nil}, {K: "pageUrl", V: ""}, {K: "more", V: rtmpc.Obj{{K: "x", V: 1}}}}, o...)
		}
		cmd("connect", o)
	case "publish":
		cmd("publish", nil, s.Name, []interface{}{"live", "record", "append", "", nil}[(k+s.N)%5])
	case "play":
		cmd("play", append([]interface{}{nil, s.Name}, [][]interface{}{nil, {-2}, {-1, -1}, {0, 5000, true}, {1000}}[(k*3+s.N)%5]...)...)
	case "deleteStream":
		cmd("deleteStream", nil, []int{1, 0, 7}[(k+s.N)%3])
	case "closeStream":
		cmd("closeStream", nil)
	case "FCUnpublish":
		cmd("FCUnpublish", nil, s.Name)
	case "createStream":
		cmd("createStream", nil)
	case "releaseStream", "FCPublish":
		cmd(s.Op, nil, "a")
	case "receiveAudio", "receiveVideo":
		cmd(s.Op, nil, k%2 == 0)
	case "pause", "unpause":
		cmd("pause", nil, s.Op == "pause", ms)
	case "seek":
		cmd("seek", nil, ms)
	case "call", "close", "nonsense", "_result", "_error", "onStatus", "getStreamLength":
		cmd(s.Op, nil, "a")
	case "media":
		t, p := media.Msg(s.Name, s.ID)
		r.Send(rtmpc.Msg{CS: 4 + uint32(t&3), Type: t, SID: 1, TS: uint32(40 * k), P: p})
	case "drop":
		r.C.Close()
	case "half":
		t, p := media.Msg("K", 1<<30+k)
		b := rtmpc.Chunks(rtmpc.Msg{CS: 4, Type: t, SID: 1, P: p}, r.Size)
		r.Write(b[:1+(k*5)%(len(b)-1)])
		r.C.Close()
	case "malformed":
		raw := func(t byte, p []byte) { r.Send(rtmpc.Msg{CS: 3, Type: t, P: p}) }
		switch s.Name {
		case "publish4":
			cmd("publish", nil, "a")
		case "play3":
			cmd("play", nil)
		case "two":
			raw(20, rtmpc.Enc("pause", 1))
		case "strtxn":
			raw(20, rtmpc.Enc("publish", "x", nil, "a", "live"))
		case "numname":
			raw(20, rtmpc.Enc(7, 1, nil))
		case "notamf":
			raw(20, []byte{0xff, 1, 2})
		case "unknowntype":
			raw(99, []byte{1, 2, 3, 4})
		case "shortvideo":
			raw(9, []byte{0x17, 1})
		default:
			panic("malformed " + s.Name)
		}
	default:
		panic("op " + s.Op)
	}
	if s.Closed || s.Op == "drop" || s.Op == "half" {
		if s.Closed && !r.Closed(lim()) {
			lib.Missing(k, "%s %s %s: the server keeps the connection open", s.Op, s.App, s.Name)
		}
		select {
		case <-r.done:
		case <-time.After(lim()):
			lib.Missing(k, "the session's handler does not return after the connection ended")
		}
		r.mu.Lock()
		for _, m := range r.reps {
			if m.Type == 20 {
				defer lib.Bad(k, "%s %s %s was answered with %s, the connection should just be closed", s.Op, s.App, s.Name, describe(m, float64(txn)))
				break
			}
		}
		r.mu.Unlock()
		r.C.Close()
		return
	}
	var proto, cmds, wantP, wantC []string
	for _, m := range r.fence(k) {
		if m.Type == 4 && len(m.P) == 6 && m.P[1] == 1 {
			continue // a stream this session plays has ended
		}
		d := describe(m, float64(txn))
		if d == "ACK" {
			continue
		}
		if len(d) <= 3 {
			proto = append(proto, d)
		} else {
			cmds = append(cmds, d)
		}
	}
	for _, d := range s.Rep {
		if len(d) <= 3 {
			wantP = append(wantP, d)
		} else {
			wantC = append(wantC, d)
		}
	}
	if fmt.Sprint(cmds) != fmt.Sprint(wantC) {
		lib.Bad(k, "%s %s %s was answered %q, expected %q", s.Op, s.App, s.Name, cmds, wantC)
	}
	if fmt.Sprint(proto) != fmt.Sprint(wantP) {
		lib.Bad(k, "%s %s %s: protocol messages %q, expected %q", s.Op, s.App, s.Name, proto, wantP)
	}
}

// ------------------------------------------------------------------ HTTP / WebSocket

func (w *world) view(k int, s step) {
	sk := w.sink(fmt.Sprintf("viewer %d", s.N))
	w.vc[s.N] = &viewer{sk: sk}
	w.expect(sk, s)
	delete(w.vc, s.N)
	path := "/" + s.App + "/" + s.Name + ".flv"
	var st *flvc.Stream
	var err error
	ws := s.N%2 == 0
	ok := 200
	if ws {
		st, err = flvc.Open(w.host+":8080", path, lim())
		ok = 101
	} else {
		st, err = flvc.Get(w.host+":8080", path, lim())
	}
	if err != nil {
		lib.Missing(k, "GET %s: %v", path, err)
	}
	want := s.Code
	if want == 200 {
		want = ok
	}
	if st.Status != want {
		st.C.Close()
		lib.Bad(k, "GET %s (WebSocket: %v): status %d, expected %d", path, ws, st.Status, want)
	}
	if s.Code != 200 {
		st.C.Close()
		return
	}
	w.sinks = append(w.sinks, sk)
	w.vc[s.N] = &viewer{st: st, sk: sk, ws: ws}
	go func() {
		rd := flvc.NewReader(st.Body)
		err := rd.Header()
		for err == nil {
			var t flvc.Tag
			t, err = rd.Next()
			if err == nil {
				kd, id := media.Parse(t.Type, t.P)
				sk.event(kd, id)
			}
		}
		sk.end(err)
	}()
}

// ------------------------------------------------------------------ RTSP

func (w *world) rtsp(k, n int, fresh bool) *rtsp {
	t := w.tc[n]
	if t != nil && !fresh && !t.used {
		return t
	}
	if t != nil {
		t.C.Close()
	}
	c, err := rtspc.Dial(w.host+":8554", lim())
	if err != nil {
		lib.Missing(k, "RTSP dial: %v", err)
	}
	t = &rtsp{Conn: c, sk: w.sink(fmt.Sprintf("RTSP player %d", n))}
	t.Frames = func(f rtspc.Frame) {
		if f.Ch%2 == 1 || len(f.P) < 13 {
			return
		}
		kd, id := media.NAL(f.P[12:])
		if kd == media.Key {
			t.sk.event(kd, id)
		}
	}
	t.Start()
	w.tc[n] = t
	return t
}

func (t *rtsp) do(k int, what string, want int, m, url string, hdr []string, body []byte) rtspc.Resp {
	r, err := t.Do(lim(), m, url, hdr, body)
	if err != nil {
		lib.Missing(k, "%s %s: %v", m, url, err)
	}
	if r.Code != want {
		lib.Bad(k, "%s: %s %s answered %d, expected %d", what, m, url, r.Code, want)
	}
	return r
}

func (w *world) url(app, name string) string { return "rtsp://" + w.host + ":8554/" + app + "/" + name }

func (w *world) rtspStep(k int, s step) {
	switch s.Op {
	case "announce":
		t := w.rtsp(k, s.N, false)
		u := w.url(s.App, s.Name)
		id := s.ID
		if id == 0 {
			id = 1<<29 + k
		}
		t.do(k, s.Op, s.Code, "ANNOUNCE", u, []string{"Content-Type: application/sdp"}, media.SDP(id))
		if s.Code == 200 {
			t.used = true
			t.do(k, s.Op, 200, "SETUP", u+"/trackID=0", []string{"Transport: RTP/AVP/TCP;unicast;interleaved=0-1;mode=record"}, nil)
		}
	case "record":
		w.tc[s.N].do(k, s.Op, s.Code, "RECORD", "rtsp://"+w.host+":8554/", nil, nil)
	case "rtpkey":
		t := w.tc[s.N]
		if t == nil {
			t = w.rtsp(k, s.N, true)
		}
		t.seq++
		t.ts += 3600
		t.C.Write(rtspc.Inter(0, rtspc.RTP(96, true, t.seq, t.ts, 7, media.IDR(s.ID))))
		t.do(k, s.Op, 200, "GET_PARAMETER", "rtsp://"+w.host+":8554/", nil, nil)
	case "rplay":
		t := w.rtsp(k, s.N, false)
		u := w.url(s.App, s.Name)
		r := t.do(k, s.Op, s.Code, "DESCRIBE", u, []string{"Accept: application/sdp"}, nil)
		if s.Code != 200 {
			return
		}
		t.used = true
		want := base64.StdEncoding.EncodeToString(media.SPS(s.ID)) + "," + base64.StdEncoding.EncodeToString(media.PPS(s.ID))
		if !bytes.Contains(r.Body, []byte("sprop-parameter-sets="+want)) {
			lib.Bad(k, "DESCRIBE %s: the SDP lacks the current parameter sets (header %d):\n%s", u, s.ID, r.Body)
		}
		w.expect(t.sk, s)
		w.sinks = append(w.sinks, t.sk)
		t.do(k, s.Op, 200, "SETUP", u+"/trackID=0", []string{"Transport: RTP/AVP/TCP;unicast;interleaved=0-1"}, nil)
		t.do(k, s.Op, 200, "PLAY", u, nil, nil)
	case "teardown":
		t := w.tc[s.N]
		t.do(k, s.Op, 200, "TEARDOWN", "rtsp://"+w.host+":8554/", nil, nil)
		if !t.Closed(lim()) {
			lib.Missing(k, "the connection stays open after TEARDOWN")
		}
		t.C.Close()
	case "rdrop":
		w.tc[s.N].C.Close()
	case "rhalf":
		t := w.tc[s.N]
		b := rtspc.Inter(0, rtspc.RTP(96, true, t.seq+1, t.ts+3600, 7, media.IDR(1<<30+k)))
		if k%2 == 0 {
			b = []byte("GET_PARAMETER * RTSP/1.0\r\nCSeq: 9\r\nContent-Le")
		}
		t.C.Write(b[:len(b)-1-k%5])
		t.C.Close()
	}
	if s.Op == "teardown" || s.Op == "rdrop" || s.Op == "rhalf" {
		delete(w.tc, s.N)
	}
}

// freed waits until nobody publishes the name.
func (w *world) freed(k int, app, name, why string) {
	dead := time.Now().Add(lim())
	for {
		st, err := flvc.Get(w.host+":8080", "/"+app+"/"+name+".flv", lim())
		if err != nil {
			lib.Missing(k, "GET: %v", err)
		}
		st.C.Close()
		if st.Status == 404 {
			return
		}
		if time.Now().After(dead) {
			lib.Missing(k, "%s/%s is still published after %s", app, name, why)
		}
		time.Sleep(3 * time.Millisecond)
	}
}

// ------------------------------------------------------------------ SRT

func (w *world) srtStep(k int, s step) {
	switch s.Op {
	case "srtup":
		c, err := srtc.Dial(w.host+":9000", uint32(100+k), lim())
		if err != nil {
			lib.Missing(k, "SRT: %v", err)
		}
		if o := w.sc[s.N]; o != nil {
			o.C.Close()
		}
		c.KeepAlive(500 * time.Millisecond)
		w.sc[s.N] = &srt{Caller: c, mux: tsx.New()}
	case "srtkey":
		x := w.sc[s.N]
		if x.hid == 0 {
			x.hid = s.ID - 1
			x.Send(append(x.mux.Section(0, tsx.PATSection([2]int{1, 0x1000}), 0),
				x.mux.Section(0x1000, tsx.PMTSection(1, 0x100, nil, tsx.ES{Type: 0x1b, PID: 0x100}), 0)...))
		}
		au := func(key bool) {
			x.n += 3600
			pts := 90000 + x.n
			sc := []byte{0, 0, 0, 1}
			var b []byte
			if key {
				for _, n := range [][]byte{media.SPS(x.hid), media.PPS(x.hid), media.IDR(s.ID)} {
					b = append(append(b, sc...), n...)
				}
			} else {
				b = append(append(b, sc...), media.Pic(0)...)
			}
			x.Send(x.mux.All(0x100, tsx.PES(0xe0, &pts, nil, b, false, 0)))
		}
		au(true)
		au(false)
		alive, err := x.Fence(lim())
		if err != nil {
			lib.Missing(k, "%v", err)
		}
		if alive == s.Closed {
			lib.Bad(k, "SRT caller %d: session alive %v, expected %v", s.N, alive, !s.Closed)
		}
	case "srtshut":
		w.sc[s.N].Shutdown()
		w.sc[s.N].StopKeepAlive()
	}
}

// ------------------------------------------------------------------

// expect prepares a viewer's sink for the deliveries of the step.
func (w *world) expect(sk *sink, s step) {
	sk.mu.Lock()
	defer sk.mu.Unlock()
	if s.In != 0 && (s.Op == "view" || s.Op == "play" || s.Op == "rplay") {
		sk.watch[s.In] = true
	}
	for _, d := range s.DL {
		if d.F != 0 && w.sinkOf(d) == sk {
			sk.allowed[d.F] += d.C
			if d.Ex {
				sk.check[d.F] = d.H
			} else {
				delete(sk.check, d.F)
			}
		}
	}
}

func (w *world) sinkOf(d del) *sink {
	switch d.W {
	case "r":
		return w.rc[d.N].sk
	case "v":
		if v := w.vc[d.N]; v != nil {
			return v.sk
		}
	case "t":
		if t := w.tc[d.N]; t != nil {
			return t.sk
		}
	}
	return nil
}

func (w *world) run(hist []step) {
	type pub struct {
		app, name string
	}
	pubs := map[string]pub{} // "t1" -> what it publishes
	app := map[int]string{}
	for k, s := range hist {
		if s.ID != 0 && s.In != 0 && s.Op != "rplay" {
			w.own(s.ID, s.In)
			if s.Name == "first" {
				w.own(s.ID-1, s.In)
			}
		}
		if s.Op != "view" && s.Op != "rplay" {
			seen := map[*sink]bool{}
			for _, d := range s.DL {
				if sk := w.sinkOf(d); !seen[sk] {
					seen[sk] = true
					if s.Op != "play" {
						w.expect(sk, s)
					}
				}
			}
			if s.Op == "play" && s.In != 0 {
				w.expect(w.rc[s.N].sk, s)
			}
		}
		switch s.Op {
		case "view":
			w.view(k, s)
		case "leave":
			w.vc[s.N].st.C.Close()
			delete(w.vc, s.N)
		case "announce":
			w.rtspStep(k, s)
			if s.Code == 200 {
				pubs[fmt.Sprint("t", s.N)] = pub{s.App, s.Name}
			}
		case "record", "rtpkey", "rplay", "teardown", "rdrop", "rhalf":
			w.rtspStep(k, s)
			if p, ok := pubs[fmt.Sprint("t", s.N)]; ok && (s.Op == "teardown" || s.Op == "rdrop" || s.Op == "rhalf") {
				w.freed(k, p.app, p.name, "RTSP "+s.Op)
				delete(pubs, fmt.Sprint("t", s.N))
			}
		case "srtup", "srtkey", "srtshut":
			w.srtStep(k, s)
			if s.Op == "srtkey" && s.Name == "first" {
				pubs[fmt.Sprint("s", s.N)] = pub{w.srtAt[0], w.srtAt[1]}
			}
			if p, ok := pubs[fmt.Sprint("s", s.N)]; ok && s.Op == "srtshut" {
				w.freed(k, p.app, p.name, "SRT shutdown")
				delete(pubs, fmt.Sprint("s", s.N))
			}
		default:
			w.rtmp(k, s)
			if s.Op == "connect" && !s.Closed {
				app[s.N] = s.App
			}
		}
		for _, d := range s.DL {
			sk := w.sinkOf(d)
			if sk == nil {
				continue
			}
			if d.F != 0 {
				if !sk.wait(lim(), func() bool { return sk.got[d.F] >= sk.allowed[d.F] }) && sk.bad == "" {
					lib.Missing(k, "%s %s: %s does not receive frame %d of publication %d", s.Op, s.Name, sk.who, d.F, d.I)
				}
			} else if d.Ex {
				if !sk.wait(lim(), func() bool { return sk.hdr[d.I] == d.H }) && sk.bad == "" {
					lib.Missing(k, "%s %s: %s has headers %v of publication %d, expected %v", s.Op, s.Name, sk.who, sk.hdr[d.I], d.I, d.H)
				}
			}
		}
		for _, n := range s.Ends {
			v := w.vc[n]
			if !v.sk.wait(lim(), func() bool { return v.sk.ended }) && v.sk.bad == "" {
				lib.Missing(k, "%s: the response of viewer %d does not end with its publisher", s.Op, n)
			}
			if v.sk.bad == "" && v.sk.endErr != io.EOF {
				lib.Bad(k, "%s: the response of viewer %d does not end cleanly: %v", s.Op, n, v.sk.endErr)
			}
			v.st.C.Close()
			delete(w.vc, n)
		}
		w.verify(k)
	}
	time.Sleep(30 * time.Millisecond)
	w.verify(len(hist))
}

func (w *world) verify(k int) {
	for _, sk := range w.sinks {
		sk.mu.Lock()
		b := sk.bad
		sk.mu.Unlock()
		if b != "" {
			lib.Bad(k, "%s", b)
		}
	}
	for n, v := range w.vc {
		if v == nil {
			continue
		}
		v.sk.mu.Lock()
		e, err := v.sk.ended, v.sk.endErr
		v.sk.mu.Unlock()
		if e {
			lib.Bad(k, "the response of viewer %d ended although its publisher lives (%v)", n, err)
		}
	}
}

func main() {
	lib.Main(6, func(raw json.RawMessage) interface{} {
		var s scenario
		lib.Dec(raw, &s)
		if s.Race != nil {
			runRace(s.Race)
			return nil
		}
		w := newWorld(s.Srt, false)
		defer w.close()
		for n := 1; n <= 3; n++ {
			w.open(0, n)
		}
		w.run(s.Hist)
		return nil
	})
}
