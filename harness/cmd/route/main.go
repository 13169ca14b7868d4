// Command route checks where RTP packets of RTSP sessions go, and what is left of sessions that ended.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"vh/flvc"
	"vh/lib"
	"vh/media"
	"vh/rtmpc"
	"vh/rtspc"
	"vh/srvx"
)

type route struct {
	K string `json:"k"`
	I int    `json:"i"`
}
type got struct {
	C int    `json:"c"`
	T string `json:"t"`
	R route  `json:"r"`
	M int    `json:"m"`
}
type step struct {
	Op   string `json:"op"`
	C    int    `json:"c"`
	S    int    `json:"s"`
	Same bool   `json:"same"`
	T    string `json:"t"`
	R    route  `json:"r"`
	Ing  bool   `json:"ing"`
	Code int    `json:"code"`
	M    int    `json:"m"`
	Via  string `json:"via"`
	Pass bool   `json:"pass"`
	How  string `json:"how"`
	Idle []int  `json:"idle"`
	Got  []got  `json:"got"`
	Udp  int    `json:"udp"`
	Live []int  `json:"live"`
}
type scen struct {
	Steps []step `json:"steps"`
	N     int    `json:"num"`
}

type key struct {
	c int
	r string // "tcp:0", "udp:1", "flv"
}

// port is a client's pair of UDP ports.
type port struct {
	rtp, rtcp *net.UDPConn
	server    int // the RTP port of the server's latest answer
}
type sess struct {
	x     *rtspc.Conn
	ing   bool
	same  bool
	set   map[string]route
	old   map[string]route
	srvp  map[string]int // server port per track
	seq   map[string]uint16
	id    string
	pause sync.Mutex
}
type world struct {
	s     scen
	lim   time.Duration
	pre   string
	mu    sync.Mutex
	cond  *sync.Cond
	log   map[key][]string
	want  map[key][]string
	bad   string
	dep   map[key]*rtspc.Depack
	c     map[int]*sess
	udp   map[[2]int]*port
	pub   *rtmpc.Conn
	ctl   *rtspc.Conn
	ts    uint32
	flv   []net.Conn
	own   int
	from  map[[2]int]int // expected source port
	alien *net.UDPConn
}

var (
	once sync.Once
	srv  *srvx.Srv
	next int
)

func (w *world) name(s int) string { return fmt.Sprintf("%s-%d", w.pre, s) }
func (w *world) url(s int) string {
	return "rtsp://" + srv.Host + ":8554/live/" + w.name(s)
}

// local is the address of client c.
func local(c int) string {
	p := strings.Split(srv.Host, ".")
	a, _ := strconv.Atoi(p[1])
	return fmt.Sprintf("127.%d.%s.%d", a+100, p[2], c)
}

func (w *world) note(k key, s string) {
	w.mu.Lock()
	w.log[k] = append(w.log[k], s)
	w.cond.Broadcast()
	w.mu.Unlock()
}
func (w *world) wrong(f string, a ...interface{}) {
	w.mu.Lock()
	if w.bad == "" {
		w.bad = fmt.Sprintf(f, a...)
	}
	w.cond.Broadcast()
	w.mu.Unlock()
}

// packet records an RTP packet that arrived at a player.
func (w *world) packet(k key, b []byte) {
	_, pt, _, _, _, p, err := rtspc.RTPHead(b)
	if err != nil {
		w.wrong("session %d, %s: %v", k.c, k.r, err)
		return
	}
	if pt == 97 {
		us, err := rtspc.AAC(p)
		if err != nil || len(us) != 1 || len(us[0]) < 7 {
			w.wrong("session %d, %s: audio payload % x", k.c, k.r, p)
			return
		}
		w.note(k, fmt.Sprintf("a%d", media.Get(us[0][2:])))
		return
	}
	w.mu.Lock()
	d := w.dep[k]
	if d == nil {
		d = &rtspc.Depack{}
		w.dep[k] = d
	}
	ns, err := d.H264(p)
	w.mu.Unlock()
	if err != nil {
		w.wrong("session %d, %s: %v", k.c, k.r, err)
		return
	}
	for _, n := range ns {
		if kind, id := media.NAL(n); kind == media.Key {
			w.note(k, fmt.Sprintf("v%d", id))
		}
	}
}

func (w *world) port(st, c, i int) *port {
	if p := w.udp[[2]int{c, i}]; p != nil {
		return p
	}
	p := &port{}
	ip := net.ParseIP(local(c))
	var err error
	if p.rtp, err = net.ListenUDP("udp", &net.UDPAddr{IP: ip, Port: 21000 + 2*i}); err != nil {
		lib.Missing(st, "%v", err)
	}
	if p.rtcp, err = net.ListenUDP("udp", &net.UDPAddr{IP: ip, Port: 21001 + 2*i}); err != nil {
		lib.Missing(st, "%v", err)
	}
	p.rtp.SetReadBuffer(8 << 20)
	w.own += 2
	w.udp[[2]int{c, i}] = p
	k := key{c, fmt.Sprintf("udp:%d", i)}
	go func() {
		b := make([]byte, 65536)
		for {
			n, from, err := p.rtp.ReadFromUDP(b)
			if err != nil {
				return
			}
			w.mu.Lock()
			exp := w.from[[2]int{c, i}]
			w.mu.Unlock()
			if exp != 0 && from.Port != exp {
				w.wrong("session %d: RTP from port %d, SETUP stated %d", c, from.Port, exp)
			}
			w.packet(k, append([]byte(nil), b[:n]...))
		}
	}()
	go func() {
		b := make([]byte, 65536)
		for {
			n, _, err := p.rtcp.ReadFromUDP(b)
			if err != nil {
				return
			}
			if n > 1 && (b[1]&0x7f == 96 || b[1]&0x7f == 97) {
				w.wrong("session %d: RTP at the RTCP port", c)
			}
		}
	}()
	return p
}

// sockets counts the UDP sockets of this process.
func sockets() int {
	ino := map[string]bool{}
	for _, f := range []string{"/proc/self/net/udp", "/proc/self/net/udp6"} {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if p := strings.Fields(l); len(p) > 9 && p[0] != "sl" {
				ino["socket:["+p[9]+"]"] = true
			}
		}
	}
	n := 0
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && ino[l] {
			n++
		}
	}
	return n
}

func fds() int {
	es, _ := os.ReadDir("/proc/self/fd")
	return len(es)
}

func (w *world) poll(limit time.Duration, f func() bool) bool {
	end := time.Now().Add(limit)
	for !f() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(500 * time.Microsecond)
	}
	return true
}

func (w *world) do(st int, c int, code int, m, u string, h []string, body []byte) rtspc.Resp {
	r, err := w.c[c].x.Do(w.lim, m, u, h, body)
	if err != nil {
		if errors.Is(err, rtspc.ErrFormat) {
			lib.Bad(st, "%s: %v", m, err)
		}
		lib.Missing(st, "%s: %v", m, err)
	}
	if r.Code != code {
		lib.Bad(st, "session %d: %s %s %v answered %d, expected %d", c, m, u, h, r.Code, code)
	}
	return r
}

func (w *world) dial(st, c int) {
	d := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.ParseIP(local(c))}, Timeout: w.lim}
	nc, err := d.Dial("tcp", srv.RTSP())
	if err != nil {
		lib.Missing(st, "%v", err)
	}
	nc.(*net.TCPConn).SetReadBuffer(1 << 18)
	s := &sess{x: rtspc.New(nc), set: map[string]route{}, old: map[string]route{}, srvp: map[string]int{}, seq: map[string]uint16{"v": uint16(w.s.N * 7919), "a": uint16(65530 + w.s.N)}}
	s.x.Frames = func(f rtspc.Frame) {
		s.pause.Lock()
		s.pause.Unlock()
		w.packet(key{c, fmt.Sprintf("tcp:%d", f.Ch)}, f.P)
	}
	w.mu.Lock()
	for k := range w.dep {
		if k.c == c {
			delete(w.dep, k)
		}
	}
	w.mu.Unlock()
	s.x.Start()
	w.c[c] = s
}

func (w *world) setup(st int, e step) {
	s := w.c[e.C]
	var tr string
	// where the client has its RTCP is its own affair
	rtcp := 1
	if w.s.N%5 == 3 && e.R.I < 100 {
		rtcp = 100
	}
	switch e.R.K {
	case "tcp":
		tr = fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d", e.R.I, e.R.I+rtcp)
		if w.s.N%3 == 1 {
			tr = fmt.Sprintf("RTP/AVP/TCP;interleaved=%d", e.R.I)
			rtcp = 1
		}
	case "udp":
		w.port(st, e.C, e.R.I)
		a := 21000 + 2*e.R.I
		tr = fmt.Sprintf("%s;unicast;client_port=%d-%d", []string{"RTP/AVP", "RTP/AVP/UDP"}[w.s.N%2], a, a+rtcp)
		if w.s.N%4 == 2 {
			tr = fmt.Sprintf("RTP/AVP;client_port=%d;unicast", a)
			rtcp = 1
		}
	}
	switch w.s.N % 7 { // parameters that others send
	case 2:
		tr = strings.Replace(tr, ";", ";destination=::1;", 1)
	case 3:
		tr += ";ssrc=1A2B3C4D"
	case 5:
		tr = strings.Replace(tr, ";", "; ", -1) + "; ttl=127"
	}
	if e.Ing {
		tr += ";mode=record"
	}
	u := w.url(e.S) + map[string]string{"v": "/trackID=0", "a": "/trackID=1"}[e.T]
	if e.Ing && w.s.N%3 == 2 {
		u += "/"
	}
	r := w.do(st, e.C, e.Code, "SETUP", u, []string{"Transport: " + tr}, nil)
	if e.Code != 200 {
		return
	}
	if s.set[e.T].K == "tcp" {
		s.old[e.T] = s.set[e.T]
	} else {
		delete(s.old, e.T)
	}
	s.set[e.T] = e.R
	t := r.H["transport"]
	parts := map[string]string{}
	ps := strings.Split(t, ";")
	for _, p := range ps[1:] {
		kv := strings.SplitN(p, "=", 2)
		parts[kv[0]] = strings.Join(kv[1:], "")
	}
	if e.R.K == "tcp" {
		if ps[0] != "RTP/AVP/TCP" || parts["interleaved"] != fmt.Sprintf("%d-%d", e.R.I, e.R.I+rtcp) || parts["server_port"] != "" || parts["client_port"] != "" {
			lib.Bad(st, "SETUP with %q answered %q", tr, t)
		}
	} else {
		a := 21000 + 2*e.R.I
		if ps[0] != "RTP/AVP" && ps[0] != "RTP/AVP/UDP" || parts["client_port"] != fmt.Sprintf("%d-%d", a, a+rtcp) || parts["interleaved"] != "" {
			lib.Bad(st, "SETUP with %q answered %q", tr, t)
		}
		var x, y int
		if n, err := fmt.Sscanf(parts["server_port"], "%d-%d", &x, &y); n != 2 || err != nil || x <= 0 || y != x+1 || x%2 != 0 {
			lib.Bad(st, "SETUP with %q answered %q", tr, t)
		}
		for c, o := range w.c {
			for k, p := range o.srvp {
				if (c != e.C || k != e.T) && p == x {
					lib.Bad(st, "server port %d for two tracks", x)
				}
			}
		}
		s.srvp[e.T] = x
		w.mu.Lock()
		w.from[[2]int{e.C, e.R.I}] = x
		w.mu.Unlock()
	}
	if e.R.K != "udp" {
		delete(s.srvp, e.T)
	}
	id := strings.SplitN(r.H["session"], ";", 2)[0]
	if id == "" || s.id != "" && s.id != id {
		lib.Bad(st, "session %q, then %q", s.id, id)
	}
	s.id = id
}

func (w *world) sdp(same bool) []byte {
	apt := 97
	if same {
		apt = 96
	}
	return []byte("v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=x\r\nc=IN IP4 0.0.0.0\r\nt=0 0\r\n" +
		"m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=fmtp:96 packetization-mode=1;sprop-parameter-sets=" +
		base64.StdEncoding.EncodeToString(media.SPS(1)) + "," + base64.StdEncoding.EncodeToString(media.PPS(1)) + "\r\na=control:trackID=0\r\n" +
		fmt.Sprintf("m=audio 0 RTP/AVP %d\r\na=rtpmap:%d mpeg4-generic/44100/2\r\na=fmtp:%d streamtype=5;mode=AAC-hbr;sizelength=13;indexlength=3;indexdeltalength=3;config=1210\r\na=control:trackID=1\r\n", apt, apt, apt))
}

func (w *world) viewer(st, c int) {
	v, err := flvc.Get(srv.HTTP(), "/live/"+w.name(c)+".flv", w.lim)
	if err != nil || v.Status != 200 {
		lib.Missing(st, "viewer of %d: %v", c, err)
	}
	w.flv = append(w.flv, v.C)
	go func() {
		rd := flvc.NewReader(v.Body)
		for {
			t, err := rd.Next()
			if err != nil {
				return
			}
			switch k, id := media.Parse(t.Type, t.P); k {
			case media.Key:
				w.note(key{c, "flv"}, fmt.Sprintf("v%d", id))
			case media.Audio:
				w.note(key{c, "flv"}, fmt.Sprintf("a%d", id))
			case media.VHdr, media.AHdr:
			default:
				if !(t.Type == 8 && t.P[1] == 0) { // the announced config is not one of media's
					w.wrong("viewer of %d: tag type %d: % x", c, t.Type, t.P[:min(len(t.P), 40)])
				}
			}
		}
	}()
}

// rtp is the next packet of a track.
func (w *world) rtp(s *sess, t string, m int, use bool) []byte {
	seq := s.seq[t]
	if use {
		s.seq[t]++
	}
	w.ts += 3600
	if t == "v" {
		return rtspc.RTP(96, true, seq, w.ts, 7, media.IDR(m))
	}
	_, p := media.Msg(media.Audio, m)
	p = p[2:]
	pt := byte(97)
	if s.same {
		pt = 96
	}
	return rtspc.RTP(pt, true, seq, w.ts, 8, append([]byte{0, 16, byte(len(p) >> 5), byte(len(p) << 3)}, p...))
}

func (w *world) send(st int, e step) {
	s := w.c[e.C]
	b := w.rtp(s, e.T, e.M, e.Pass)
	other := map[string]string{"v": "a", "a": "v"}[e.T]
	tcp := func(ch int) {
		if _, err := s.x.C.Write(rtspc.Inter(byte(ch), b)); err != nil {
			lib.Missing(st, "%v", err)
		}
	}
	to := func(c *net.UDPConn, p int) {
		c.WriteToUDP(b, &net.UDPAddr{IP: net.ParseIP(srv.Host), Port: p})
	}
	via := func(t string) {
		if r := s.set[t]; r.K == "tcp" {
			tcp(r.I)
		} else {
			to(w.udp[[2]int{e.C, r.I}].rtp, s.srvp[t])
		}
	}
	switch e.Via {
	case "ok":
		via(e.T)
	case "other":
		via(other)
	case "stray":
		tcp(100 + w.s.N%3*70)
	case "rtcp":
		if s.set[e.T].K == "tcp" {
			tcp(s.set[e.T].I + 1)
		} else {
			to(w.udp[[2]int{e.C, s.set[e.T].I}].rtcp, s.srvp[e.T]+1)
		}
	case "old":
		if r, ok := s.old[e.T]; ok {
			tcp(r.I)
		}
	case "alien":
		if w.alien == nil {
			var err error
			if w.alien, err = net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(local(9))}); err != nil {
				lib.Missing(st, "%v", err)
			}
			w.own++
		}
		to(w.alien, s.srvp[e.T])
	}
}

func (w *world) publish(st int) {
	a, _ := srv.Pipe()
	c, err := rtmpc.Client(a, w.lim)
	if err == nil {
		_, err = c.Connect("live", w.lim)
	}
	if err == nil {
		var code string
		if code, err = c.Publish(w.name(0), w.lim); err == nil && code != "NetStream.Publish.Start" {
			err = errors.New(code)
		}
	}
	if err != nil {
		lib.Missing(st, "publisher: %v", err)
	}
	w.pub = c
	for _, k := range []string{media.VHdr, media.AHdr} {
		t, p := media.Msg(k, 3)
		c.Send(rtmpc.Msg{CS: 4, Type: t, SID: 1, P: p})
	}
	if _, err := c.Fence(w.lim); err != nil {
		lib.Missing(st, "publisher: %v", err)
	}
}

func (w *world) feed(m int) {
	w.ts += 3600
	nal := append(media.IDR(m), bytes.Repeat([]byte{0x55}, []int{0, 100, 1389, 3000}[m/2%4])...)
	p := append([]byte{0x17, 1, 0, 0, 0, 0, 0, 0, 0}, nal...)
	binary.BigEndian.PutUint32(p[5:], uint32(len(nal)))
	w.pub.Send(rtmpc.Msg{CS: 4, Type: 9, SID: 1, TS: w.ts / 90, P: p})
	_, a := media.Msg(media.Audio, m+1)
	w.pub.Send(rtmpc.Msg{CS: 4, Type: 8, SID: 1, TS: w.ts / 90, P: a})
}

// stall has the session stop reading until the server cannot send any more.
func (w *world) stall(st int, e step) {
	w.c[e.C].pause.Lock()
	nal := append([]byte{0x41, 0x9a}, bytes.Repeat([]byte{0x55}, 60000)...)
	p := append([]byte{0x27, 1, 0, 0, 0, 0, 0, 0, 0}, nal...)
	binary.BigEndian.PutUint32(p[5:], uint32(len(nal)))
	for i := 0; i < 110; i++ {
		w.pub.Send(rtmpc.Msg{CS: 4, Type: 9, SID: 1, TS: w.ts / 90, P: p})
	}
	if _, err := w.pub.Fence(w.lim); err != nil {
		lib.Missing(st, "publisher beside a stalled player: %v", err)
	}
}

func (w *world) end(st int, e step) {
	s := w.c[e.C]
	delete(w.c, e.C)
	how := e.How
	if how == "stall" {
		if s.set["v"].K != "tcp" || s.ing || w.pub == nil || w.s.N%4 != 0 {
			how = "reset"
		} else {
			w.c[e.C] = s
			w.stall(st, e)
			delete(w.c, e.C)
		}
	}
	switch how {
	case "teardown":
		r, err := s.x.Do(w.lim, "TEARDOWN", w.url(0), nil, nil)
		if err != nil || r.Code != 200 {
			lib.Missing(st, "TEARDOWN: %v %v", r.Code, err)
		}
		if !s.x.Closed(w.lim) {
			lib.Missing(st, "the connection stays open behind TEARDOWN")
		}
	case "reset":
		s.x.C.(*net.TCPConn).SetLinger(0)
	case "half":
		s.x.C.Write([][]byte{[]byte("SETUP rtsp://x/y RTSP/1.0\r\nCSeq: 1\r\nTran"), {'$', 0, 10, 0, 1, 2, 3}, []byte("ANNOUNCE rtsp://x/live/z RTSP/1.0\r\nCSeq: 1\r\nContent-Length: 100\r\n\r\nv=0")}[w.s.N%3])
	}
	s.x.C.Close()
	if how == "stall" {
		s.pause.Unlock()
	}
}

func (w *world) alive(st int, e step, wait bool) {
	ok := map[int]int{}
	for _, s := range e.Live {
		ok[s] = 200
	}
	for s := 0; s <= 3; s++ {
		want := ok[s]
		if want == 0 {
			want = 404
		}
		w.poll(w.lim, func() bool {
			r, err := w.ctl.Do(w.lim, "DESCRIBE", w.url(s), nil, nil)
			if err != nil {
				lib.Missing(st, "control connection: %v", err)
			}
			if r.Code == want {
				return true
			}
			if !wait {
				lib.Bad(st, "after %s: stream %d answers %d, expected %d", e.Op, s, r.Code, want)
			}
			return false
		})
		r, _ := w.ctl.Do(w.lim, "DESCRIBE", w.url(s), nil, nil)
		if r.Code != want {
			lib.Missing(st, "after %s %s: stream %d answers %d, expected %d", e.Op, e.How, s, r.Code, want)
		}
	}
	for _, c := range e.Idle {
		if !w.poll(w.lim, func() bool {
			r, err := w.c[c].x.Do(w.lim, "SETUP", w.url(0)+"/trackID=7", []string{"Transport: RTP/AVP/TCP;interleaved=0-1"}, nil)
			if err != nil {
				lib.Missing(st, "player %d of a stream that ended: %v", c, err)
			}
			return r.Code == 404
		}) {
			lib.Missing(st, "player %d is still playing a stream that ended", c)
		}
	}
}

// settle waits for what is to arrive, and complains of anything else.
func (w *world) settle(st int, final bool) {
	end := time.Now().Add(w.lim)
	t := time.AfterFunc(w.lim, func() { w.mu.Lock(); w.cond.Broadcast(); w.mu.Unlock() })
	defer t.Stop()
	w.mu.Lock()
	defer w.mu.Unlock()
	for {
		if w.bad != "" {
			lib.Bad(st, "%s", w.bad)
		}
		all := true
		for k, l := range w.log {
			x := w.want[k]
			if k.r == "flv" || strings.HasPrefix(k.r, "tcp") {
				for i := range l {
					if i >= len(x) || l[i] != x[i] {
						lib.Bad(st, "session %d, %s: got %v, expected %v", k.c, k.r, l, x)
					}
				}
			} else {
				seen := map[string]bool{}
				for _, v := range x {
					seen[v] = true
				}
				for _, v := range l {
					if !seen[v] {
						lib.Bad(st, "session %d, %s: got %v, expected %v", k.c, k.r, l, x)
					}
				}
			}
		}
		for k, x := range w.want {
			if len(w.log[k]) < len(x) {
				all = false
				if time.Now().After(end) {
					lib.Missing(st, "session %d, %s: got %v, expected %v", k.c, k.r, w.log[k], x)
				}
			}
		}
		if all {
			break
		}
		w.cond.Wait()
	}
	for k, x := range w.want {
		for i, v := range w.log[k] {
			if x[i] != v {
				lib.Missing(st, "session %d, %s: got %v, expected %v", k.c, k.r, w.log[k], x)
			}
		}
	}
}

func scenario(s scen) {
	lim := lib.D(8 * time.Second)
	next++
	w := &world{s: s, lim: lim, pre: fmt.Sprintf("r%d", next), log: map[key][]string{}, want: map[key][]string{}, dep: map[key]*rtspc.Depack{}, c: map[int]*sess{}, udp: map[[2]int]*port{}, from: map[[2]int]int{}}
	w.cond = sync.NewCond(&w.mu)
	gor, fd := runtime.NumGoroutine(), fds()
	base := sockets()
	defer func() {
		for _, x := range w.c {
			x.x.C.Close()
		}
		if w.pub != nil {
			w.pub.C.Close()
		}
		if w.ctl != nil {
			w.ctl.C.Close()
		}
		for _, v := range w.flv {
			v.Close()
		}
		for _, p := range w.udp {
			p.rtp.Close()
			p.rtcp.Close()
		}
		if w.alien != nil {
			w.alien.Close()
		}
	}()
	var err error
	if w.ctl, err = rtspc.Dial(srv.RTSP(), lim); err != nil {
		lib.Missing(0, "%v", err)
	}
	w.ctl.Start()
	w.publish(0)
	for i, e := range s.Steps {
		st := i + 1
		wait := false
		// arrivals are expected from before the step acts
		w.mu.Lock()
		for _, g := range e.Got {
			k := key{g.C, fmt.Sprintf("%s:%d", g.R.K, g.R.I)}
			w.want[k] = append(w.want[k], fmt.Sprintf("%s%d", g.T, g.M))
		}
		if e.Op == "send" && e.Pass {
			k := key{e.C, "flv"}
			w.want[k] = append(w.want[k], fmt.Sprintf("%s%d", e.T, e.M))
		}
		w.mu.Unlock()
		switch e.Op {
		case "open":
			w.dial(st, e.C)
		case "describe":
			w.do(st, e.C, 200, "DESCRIBE", w.url(e.S), nil, nil)
		case "announce":
			w.do(st, e.C, 200, "ANNOUNCE", w.url(e.C), []string{"Content-Type: application/sdp"}, w.sdp(e.Same))
			w.c[e.C].ing, w.c[e.C].same = true, e.Same
			w.viewer(st, e.C)
			wait = true
		case "setup":
			w.setup(st, e)
		case "play":
			w.do(st, e.C, e.Code, "PLAY", w.url(0), []string{"Session: " + w.c[e.C].id}, nil)
		case "record":
			w.do(st, e.C, 200, "RECORD", w.url(e.C), []string{"Session: " + w.c[e.C].id}, nil)
		case "feed":
			w.feed(e.M)
		case "unknown":
			w.do(st, e.C, 404, "SETUP", w.url(0)+"/trackID=9", []string{"Transport: RTP/AVP;unicast;client_port=21000-21001"}, nil)
		case "send":
			w.send(st, e)
		case "end":
			w.end(st, e)
			wait = true
		case "pubend":
			w.pub.C.Close()
			w.pub = nil
			wait = true
		case "pubstart":
			w.publish(st)
			wait = true
		default:
			panic(e.Op)
		}
		if wait {
			w.alive(st, e, true)
		}
		if !w.poll(lim, func() bool { return sockets()-base-w.own == e.Udp }) {
			lib.Missing(st, "after %s %s: the server holds %d UDP ports, expected %d", e.Op, e.How, sockets()-base-w.own, e.Udp)
		}
		w.settle(st, false)
	}
	n := len(s.Steps)
	time.Sleep(3 * time.Millisecond)
	w.settle(n, true)
	// everything ends
	for c, x := range w.c {
		if s.N%2 == 0 {
			x.x.Do(lim, "TEARDOWN", w.url(0), nil, nil)
		}
		x.x.C.Close()
		delete(w.c, c)
	}
	if !w.poll(lim, func() bool { return sockets()-base-w.own == 0 }) {
		lib.Missing(n, "sessions ended, and the server holds %d UDP ports", sockets()-base-w.own)
	}
	if s.N%2 == 0 && w.pub != nil { // the stream may go on for ever without a frame
		if !w.poll(lim, func() bool { return w.none(1, 2, 3) }) {
			lib.Missing(n, "sessions ended, and their streams are there")
		}
		for _, v := range w.flv {
			v.Close()
		}
		for _, p := range w.udp {
			p.rtp.Close()
			p.rtcp.Close()
		}
		if w.alien != nil {
			w.alien.Close()
		}
		// besides: the control connection (2 goroutines, 2 descriptors) and the publisher (what it took at the start is not known)
		w.quiet(n, "of sessions that ended (their stream goes on)", held+gor, fd+2)
		w.pub.C.Close()
		w.pub = nil
	} else {
		if w.pub != nil {
			w.pub.C.Close()
			w.pub = nil
		}
		if !w.poll(lim, func() bool { return w.none(0, 1, 2, 3) }) {
			lib.Missing(n, "sessions ended, and their streams are there")
		}
	}
	w.ctl.C.Close()
	for _, v := range w.flv {
		v.Close()
	}
	for _, p := range w.udp {
		p.rtp.Close()
		p.rtcp.Close()
	}
	if w.alien != nil {
		w.alien.Close()
	}
	w.quiet(n, "of sessions that ended", gor, fd)
}

var held int // goroutines of a control connection and a publisher

func (w *world) none(ss ...int) bool {
	for _, s := range ss {
		if r, err := w.ctl.Do(w.lim, "DESCRIBE", w.url(s), nil, nil); err != nil || r.Code != 404 {
			return false
		}
	}
	return true
}

func (w *world) quiet(n int, what string, gor, fd int) {
	if !w.poll(w.lim, func() bool { return runtime.NumGoroutine() <= gor && fds() <= fd }) {
		b := make([]byte, 1<<16)
		b = b[:runtime.Stack(b, true)]
		if len(b) > 6000 {
			b = b[:6000]
		}
		lib.Missing(n, "%d goroutines %s, %d expected; %d descriptors, %d expected\n%s", runtime.NumGoroutine(), what, gor, fds(), fd, b)
	}
}

func run(raw json.RawMessage) interface{} {
	var s scen
	lib.Dec(raw, &s)
	once.Do(func() {
		// sockets that are dropped without being closed must not vanish with the next collection
		debug.SetGCPercent(-1)
		debug.SetMemoryLimit(1 << 30)
		srv = srvx.Start(srvx.Opt{Apps: []string{"live"}, RTSP: true, FLV: true})
		scenario(scen{N: 1})
		// what a control connection and a publisher take
		time.Sleep(5 * time.Millisecond)
		g := runtime.NumGoroutine()
		w := &world{lim: 8 * time.Second, pre: "warm"}
		w.ctl, _ = rtspc.Dial(srv.RTSP(), w.lim)
		w.ctl.Start()
		w.publish(0)
		w.ctl.Do(w.lim, "OPTIONS", "*", nil, nil)
		time.Sleep(5 * time.Millisecond)
		held = runtime.NumGoroutine() - g
		w.pub.C.Close()
		w.ctl.C.Close()
		w.poll(w.lim, func() bool { return runtime.NumGoroutine() <= g })
	})
	scenario(s)
	return nil
}

func main() { lib.Main(1, run) }
