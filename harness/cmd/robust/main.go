// Command robust replays histories of Robust.tla: hostile sessions against a live server that serves a bystander.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"vh/flvc"
	"vh/lib"
	"vh/media"
	"vh/rtmpc"
	"vh/rtspc"
	"vh/srtc"
	"vh/srvx"
	"vh/tsx"
)

type ev struct {
	Op   string `json:"op"`
	I    int    `json:"i"`
	Port string `json:"port"`
	K    string `json:"k"`
}
type scen struct {
	Ev  []ev  `json:"ev"`
	Num int64 `json:"num"`
	SB  bool  `json:"sb"` // the bystander's second stream comes over SRT
}

const by = "bystander"

func lim() time.Duration { return lib.D(8 * time.Second) }

func letters(n int) string {
	s := ""
	for i := 0; i < 7; i++ {
		s += string(rune('a' + n%26))
		n /= 26
	}
	return s
}

// ---- the bystander ----

type viewer struct {
	proto string
	mu    sync.Mutex
	cond  *sync.Cond
	seen  map[int]string
	bad   string
	err   error
	raw   [][]byte // SRT: tags
	c     io.Closer
}

func newViewer(p string) *viewer {
	v := &viewer{proto: p, seen: map[int]string{}}
	v.cond = sync.NewCond(&v.mu)
	return v
}

func (v *viewer) note(k string, id int, what []byte) {
	v.mu.Lock()
	defer v.mu.Unlock()
	if k == media.Other && v.bad == "" {
		v.bad = fmt.Sprintf("receives % x", what[:min(len(what), 40)])
	}
	v.seen[id] = k
	v.cond.Broadcast()
}
func (v *viewer) end(err error) {
	v.mu.Lock()
	v.err = err
	v.cond.Broadcast()
	v.mu.Unlock()
}

// wait reports what keeps the viewer from having message id.
func (v *viewer) wait(k string, id int, d time.Duration) string {
	dead := time.Now().Add(d)
	t := time.AfterFunc(d, func() { v.mu.Lock(); v.cond.Broadcast(); v.mu.Unlock() })
	defer t.Stop()
	v.mu.Lock()
	defer v.mu.Unlock()
	for {
		if v.bad != "" {
			return "the bystander's " + v.proto + " viewer " + v.bad
		}
		if g, ok := v.seen[id]; ok {
			if g != k {
				return fmt.Sprintf("the bystander's %s viewer got %s %d, published was %s", v.proto, g, id, k)
			}
			return ""
		}
		if v.err != nil {
			return fmt.Sprintf("the bystander's %s viewer is cut off: %v", v.proto, v.err)
		}
		if !time.Now().Before(dead) {
			return fmt.Sprintf("the bystander's %s viewer does not get %s %d", v.proto, k, id)
		}
		v.cond.Wait()
	}
}

type world struct {
	s    *srvx.Srv
	sb   bool
	pub  *rtmpc.Conn
	vs   []*viewer
	sub  *srtc.Caller
	sv   *viewer
	id   int
	ts   uint32
	key  int
	dir  string
	tm   *tsx.Mux
	tpts uint64
	base int // goroutines of the server, the bystander and its viewers
	fds  int
}

func must(err error, f string, a ...interface{}) {
	if err != nil {
		lib.Missing(0, f+": %v", append(a, err)...)
	}
}

func dialRTMP(s *srvx.Srv) (*rtmpc.Conn, error) {
	c, err := net.DialTimeout("tcp", s.RTMP(), lim())
	if err != nil {
		return nil, err
	}
	return rtmpc.Client(c, lim())
}

func (w *world) watch(proto, name string) (*viewer, error) {
	v := newViewer(proto)
	switch proto {
	case "rtmp":
		x, err := dialRTMP(w.s)
		if err != nil {
			return nil, err
		}
		v.c = x.C
		if _, err = x.Connect("live", lim()); err != nil {
			return nil, err
		}
		id, _ := x.Cmd("createStream", nil)
		if _, err = x.Until("_result", id, lim()); err != nil {
			return nil, err
		}
		x.Send(rtmpc.Msg{CS: 3, SID: 1, Type: 20, P: rtmpc.Enc("play", 4, nil, name)})
		go func() {
			for {
				m, err := x.Next(time.Hour)
				if err != nil {
					v.end(err)
					return
				}
				if m.Type == 8 || m.Type == 9 || m.Type == 18 {
					k, id := media.Parse(m.Type, m.P)
					v.note(k, id, m.P)
				}
			}
		}()
	case "flv", "ws":
		f := flvc.Get
		want := 200
		if proto == "ws" {
			f, want = flvc.Open, 101
		}
		st, err := f(w.s.HTTP(), "/live/"+name+".flv", lim())
		if err != nil {
			return nil, err
		}
		if st.Status != want {
			st.C.Close()
			return nil, fmt.Errorf("status %d", st.Status)
		}
		v.c = st.C
		go func() {
			rd := flvc.NewReader(st.Body)
			for {
				t, err := rd.Next()
				if err != nil {
					v.end(err)
					return
				}
				k, id := media.Parse(t.Type, t.P)
				v.note(k, id, t.P)
			}
		}()
	case "rtsp":
		x, err := rtspc.Dial(w.s.RTSP(), lim())
		if err != nil {
			return nil, err
		}
		v.c = x.C
		var dp rtspc.Depack
		x.Frames = func(f rtspc.Frame) {
			if f.Ch&1 != 0 {
				return
			}
			_, pt, _, _, _, p, err := rtspc.RTPHead(f.P)
			if err != nil {
				v.note(media.Other, 0, f.P)
				return
			}
			if pt == 97 {
				us, err := rtspc.AAC(p)
				if err != nil {
					v.note(media.Other, 0, p)
				}
				for _, u := range us {
					v.note(media.Audio, media.Get(u[2:]), u)
				}
				return
			}
			ns, err := dp.H264(p)
			if err != nil {
				v.note(media.Other, 0, p)
			}
			for _, n := range ns {
				if k, id := media.NAL(n); k == media.Key || k == media.Inter {
					v.note(k, id, n)
				}
			}
		}
		x.Start()
		url := "rtsp://" + w.s.RTSP() + "/live/" + name
		do := func(m, u string, h ...string) error {
			r, err := x.Do(lim(), m, u, h, nil)
			if err == nil && r.Code != 200 {
				err = fmt.Errorf("%s: %d", m, r.Code)
			}
			return err
		}
		for _, e := range []func() error{
			func() error { return do("DESCRIBE", url) },
			func() error {
				return do("SETUP", url+"/trackID=0", "Transport: RTP/AVP/TCP;unicast;interleaved=0-1")
			},
			func() error {
				return do("SETUP", url+"/trackID=1", "Transport: RTP/AVP/TCP;unicast;interleaved=2-3")
			},
			func() error { return do("PLAY", url) },
		} {
			if err := e(); err != nil {
				x.C.Close()
				return nil, err
			}
		}
		go func() {
			for !x.Closed(time.Hour) {
			}
			v.end(errors.New("closed"))
		}()
	}
	return v, nil
}

// send publishes one bystander message and waits until everybody has it.
func (w *world) send(step int, kind string, pad int, more ...*viewer) {
	w.id++
	if kind == media.Key {
		w.key++
	}
	w.ts += 40
	if kind == media.Key {
		w.ts += 960
	}
	t, p := media.Msg(kind, w.id)
	if pad > 0 {
		n := len(p) - 9 + pad
		p = append(p, bytes.Repeat([]byte{0xa5}, pad)...)
		binary.BigEndian.PutUint32(p[5:], uint32(n))
	}
	if err := w.pub.Send(rtmpc.Msg{CS: 4, SID: 1, Type: t, TS: w.ts, P: p}); err != nil {
		_, e := w.pub.All()
		lib.Bad(step, "the bystander's publication is cut off: %v %v", err, e)
	}
	for _, v := range append(w.vs[:len(w.vs):len(w.vs)], more...) {
		if m := v.wait(kind, w.id, lim()); m != "" {
			if strings.Contains(m, "does not get") {
				lib.Missing(step, "%s", m)
			}
			lib.Bad(step, "%s", m)
		}
	}
}

// tsFrame is a key frame over SRT.
func (w *world) tsFrame(m *tsx.Mux, x *srtc.Caller, id int) {
	w.tpts += 90000
	b := m.Section(0, tsx.PATSection([2]int{1, 0x100}), 0)
	b = append(b, m.Section(0x100, tsx.PMTSection(1, 0x101, nil, tsx.ES{Type: 27, PID: 0x101}), 0)...)
	var p []byte
	for _, n := range [][]byte{media.SPS(1), media.PPS(1), media.IDR(id)} {
		p = append(append(p, 0, 0, 0, 1), n...)
	}
	x.Send(append(b, m.All(0x101, tsx.PES(0xe0, &w.tpts, nil, p, true, 0))...))
}

// srtGets sends frames until the viewer has one sent from now on.
func (w *world) srtGets(m *tsx.Mux, x *srtc.Caller, v *viewer) bool {
	dead := time.Now().Add(lim())
	for time.Now().Before(dead) {
		w.id++
		from := w.id
		w.tsFrame(m, x, w.id)
		w.id++
		w.tsFrame(m, x, w.id) // ends the first
		for k := 0; k < 30; k++ {
			v.mu.Lock()
			for id := from; id <= w.id; id++ {
				if v.seen[id] == media.Key {
					v.mu.Unlock()
					return true
				}
			}
			v.mu.Unlock()
			time.Sleep(time.Duration(k) * time.Millisecond)
		}
	}
	return false
}

// srtViewer watches the SRT stream: tags are only searched for the frames.
func (w *world) srtViewer() (*viewer, error) {
	st, err := flvc.Get(w.s.HTTP(), "/live/srtin.flv", lim())
	if err != nil {
		return nil, err
	}
	if st.Status != 200 {
		st.C.Close()
		return nil, fmt.Errorf("status %d", st.Status)
	}
	v := newViewer("SRT stream's")
	v.c = st.C
	go func() {
		rd := flvc.NewReader(st.Body)
		for {
			t, err := rd.Next()
			if err != nil {
				v.end(err)
				return
			}
			for i := 0; i+7 <= len(t.P); i++ {
				if t.P[i] == 0x65 && t.P[i+1] == 0x88 {
					v.note(media.Key, media.Get(t.P[i+2:]), t.P)
				}
			}
		}
	}()
	return v, nil
}

func status(addr, path string) int {
	code, _, _ := fetch(addr, path)
	return code
}
func fetch(addr, path string) (int, []byte, error) {
	c := http.Client{Timeout: lim(), Transport: &http.Transport{DisableKeepAlives: true}}
	r, err := c.Get("http://" + addr + path)
	if err != nil {
		return 0, nil, err
	}
	defer r.Body.Close()
	if r.StatusCode == 200 && strings.HasSuffix(path, ".flv") {
		return 200, nil, nil
	}
	b, err := io.ReadAll(r.Body)
	return r.StatusCode, b, err
}

func start(sb bool) *world {
	w := &world{sb: sb, dir: lib.Scratch(), tm: tsx.New()}
	if err := os.Chdir(w.dir); err != nil {
		panic(err)
	}
	w.s = srvx.Start(srvx.Opt{Apps: []string{"live"}, FLV: true, RTSP: true, SRT: []string{"live", "srtin"}, HLS: true, Dir: w.dir + "/hls", DASH: true})
	var err error
	w.pub, err = dialRTMP(w.s)
	must(err, "bystander")
	_, err = w.pub.Connect("live", lim())
	must(err, "bystander")
	code, err := w.pub.Publish(by, lim())
	if err != nil || code != "NetStream.Publish.Start" {
		lib.Missing(0, "bystander: %s %v", code, err)
	}
	w.pub.SetSize(60000)
	for i, k := range []string{media.Meta, media.VHdr, media.AHdr} {
		t, p := media.Msg(k, i+1)
		w.pub.Send(rtmpc.Msg{CS: 4, SID: 1, Type: t, P: p})
	}
	w.id = 100
	for i := 0; i < 4; i++ {
		w.send(0, media.Key, 0)
		w.send(0, media.Audio, 0)
	}
	_, err = w.pub.Fence(lim())
	must(err, "bystander")
	for _, p := range []string{"rtmp", "flv", "ws", "rtsp"} {
		v, err := w.watch(p, by)
		must(err, "bystander's %s viewer", p)
		if m := v.wait(media.Key, w.id-1, lim()); m != "" {
			lib.Missing(0, "%s", m)
		}
		w.vs = append(w.vs, v)
	}
	if sb {
		w.sub, err = srtc.Dial(w.s.SRT(), 99, lim())
		must(err, "bystander over SRT")
		w.sub.KeepAlive(time.Second)
		w.tsFrame(w.tm, w.sub, 1)
		w.tsFrame(w.tm, w.sub, 2)
		dead := time.Now().Add(lim())
		for {
			if w.sv, err = w.srtViewer(); err == nil {
				break
			}
			if time.Now().After(dead) {
				lib.Missing(0, "bystander over SRT: %v", err)
			}
			time.Sleep(5 * time.Millisecond)
		}
		if !w.srtGets(w.tm, w.sub, w.sv) {
			lib.Missing(0, "bystander over SRT: no media")
		}
	}
	w.base, w.fds = 1<<30, 1<<30
	for i := 0; i < 30; i++ {
		w.base, w.fds = min(w.base, runtime.NumGoroutine()), min(w.fds, fds())
		time.Sleep(5 * time.Millisecond)
	}
	return w
}

func (w *world) health(step int) {
	for _, k := range []string{media.Key, media.Inter, media.Audio} {
		w.send(step, k, 0)
	}
	if w.sb {
		if !w.srtGets(w.tm, w.sub, w.sv) {
			lib.Missing(step, "the viewer of the bystander's SRT stream gets nothing")
		}
	}
	w.vs[0].mu.Lock()
	for _, v := range w.vs[1:] {
		v.mu.Lock()
	}
	for _, v := range w.vs {
		if len(v.seen) > 10000 {
			v.seen = map[int]string{}
		}
		v.mu.Unlock()
	}
}

// gone checks that nothing is left of the sessions that have ended: no goroutine and no file descriptor.
func (w *world) gone(step int) {
	dead := time.Now().Add(lim() + 7*time.Second)
	for {
		g, f := runtime.NumGoroutine(), fds()
		if g <= w.base+2 && f <= w.fds+2 {
			return
		}
		if time.Now().After(dead) {
			b := make([]byte, 1<<16)
			lib.Missing(step, "after all sessions have gone %d goroutines and %d descriptors are left of them\n%s", g-w.base, f-w.fds, b[:runtime.Stack(b, true)])
		}
		time.Sleep(10 * time.Millisecond)
		w.send(step, media.Key, 0)
	}
}

func fds() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(d)
}

// lists checks the bystander's segments.
func (w *world) lists(step int) {
	for _, f := range []string{"index.m3u8", "index.mpd"} {
		addr := w.s.HLS()
		dead := time.Now().Add(lim())
		for {
			c, b, err := fetch(addr, "/live/"+by+"/"+f)
			if c == 200 && f == "index.m3u8" {
				// some segment of the list is there
				for _, l := range strings.Split(string(b), "\n") {
					if l = strings.TrimSpace(l); l != "" && l[0] != '#' {
						if sc, sb, _ := fetch(addr, "/live/"+by+"/"+l); sc == 200 && len(sb) > 0 && len(sb)%188 == 0 {
							c = 1
						}
					}
				}
			}
			if c == 1 || c == 200 && f == "index.mpd" {
				break
			}
			if time.Now().After(dead) {
				lib.Missing(step, "%s of the bystander: %d %v", f, c, err)
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
}

// ---- hostile sessions ----

type att struct {
	port, st, name string
	dirty          bool
	c              net.Conn
	x              *rtmpc.Conn
	rx             *rtspc.Conn
	udp            *net.UDPConn
	upeer          []*net.UDPAddr // where its RTP goes
	inter          byte
	peer, seq      uint32
	rseq           uint16
	ck             uint32
	srtData        bool
	watchers       []*viewer
	stop           chan struct{}
}

func (w *world) free(step int, name, why string) {
	dead := time.Now().Add(lim() + 4*time.Second)
	for {
		c := status(w.s.HTTP(), "/live/"+name+".flv")
		if c == 404 {
			return
		}
		if time.Now().After(dead) {
			lib.Missing(step, "the name of a session that is gone (%s) is still in use: %d", why, c)
		}
		time.Sleep(3 * time.Millisecond)
	}
}

func (a *att) drain() {
	c := a.c
	go func() {
		b := make([]byte, 65536)
		for {
			if _, err := c.Read(b); err != nil {
				return
			}
		}
	}()
}

func (w *world) open(step int, a *att) {
	if a.port == "srt" {
		u, _ := net.ResolveUDPAddr("udp", w.s.SRT())
		c, err := net.DialUDP("udp", nil, u)
		must(err, "udp")
		a.c = c
		return
	}
	addr := map[string]string{"rtmp": w.s.RTMP(), "rtsp": w.s.RTSP(), "http": w.s.HTTP(), "hls": w.s.HLS()}[a.port]
	c, err := net.DialTimeout("tcp", addr, lim())
	if err != nil {
		lib.Missing(step, "port %s does not accept: %v", a.port, err)
	}
	a.c = c
}

func (w *world) srtAsk(step int, a *att, b []byte) []byte {
	buf := make([]byte, 2000)
	dead := time.Now().Add(lim())
	for time.Now().Before(dead) {
		a.c.Write(b)
		a.c.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
		n, err := a.c.Read(buf)
		if err == nil && n >= 64 && binary.BigEndian.Uint32(buf)>>16 == 0x8000 {
			a.c.SetReadDeadline(time.Time{})
			return buf[:n]
		}
	}
	lib.Missing(step, "no answer to a handshake over SRT")
	return nil
}

func (w *world) step(step int, a *att, to string, r *rand.Rand) {
	need := func(err error) {
		if err != nil {
			lib.Missing(step, "a session of good standing does not get to %q: %v", to, err)
		}
	}
	do := func(m, u string, h []string, body []byte) rtspc.Resp {
		p, err := a.rx.Do(lim(), m, u, h, body)
		if err == nil && p.Code != 200 {
			err = fmt.Errorf("%s: %d", m, p.Code)
		}
		need(err)
		return p
	}
	if a.port == "rtsp" && a.rx == nil {
		a.rx = rtspc.New(a.c)
		a.rx.Start()
	}
	url := "rtsp://" + w.s.RTSP() + "/live/"
	setup := func(name, mode string) {
		t := "RTP/AVP/TCP;unicast;interleaved=0-1" + mode
		udp := r.Intn(2) == 0
		if udp {
			u, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
			need(err)
			a.udp = u
			p := u.LocalAddr().(*net.UDPAddr).Port
			t = fmt.Sprintf("RTP/AVP;unicast;client_port=%d-%d%s", p, p+1, mode)
		}
		resp := do("SETUP", url+name+"/trackID=0", []string{"Transport: " + t}, nil)
		if udp {
			var p, q int
			h := resp.H["transport"]
			if i := strings.Index(h, "server_port="); i >= 0 {
				fmt.Sscanf(h[i:], "server_port=%d-%d", &p, &q)
			}
			ip := net.ParseIP(w.s.Host)
			a.upeer = []*net.UDPAddr{{IP: ip, Port: p}, {IP: ip, Port: q}}
		}
	}
	switch to {
	case "shaken":
		x, err := rtmpc.Client(a.c, lim())
		need(err)
		a.x = x
	case "connected":
		_, err := a.x.Connect("live", lim())
		need(err)
	case "created":
		id, err := a.x.Cmd("createStream", nil)
		need(err)
		_, err = a.x.Until("_result", id, lim())
		need(err)
	case "pub":
		code, err := a.x.Publish(a.name, lim())
		if err == nil && code != "NetStream.Publish.Start" {
			err = errors.New(code)
		}
		need(err)
		for i, k := range []string{media.Meta, media.VHdr, media.AHdr, media.Key, media.Audio}[:r.Intn(6)] {
			t, p := media.Msg(k, i+1)
			need(a.x.Send(rtmpc.Msg{CS: 4, SID: 1, Type: t, TS: uint32(20 * i), P: p}))
		}
	case "play":
		need(a.x.Send(rtmpc.Msg{CS: 3, SID: 1, Type: 20, P: rtmpc.Enc("play", 4, nil, by)}))
		dead := time.Now().Add(lim())
		for {
			m, err := a.x.Next(time.Until(dead))
			need(err)
			if m.Type == 9 {
				break
			}
		}
	case "described":
		do("DESCRIBE", url+by, nil, nil)
	case "setup":
		setup(by, "")
	case "playing":
		do("PLAY", url+by, nil, nil)
	case "announced":
		s := avSDP()
		if r.Intn(3) == 0 {
			s = media.SDP(3)
		}
		do("ANNOUNCE", url+a.name, []string{"Content-Type: application/sdp"}, s)
	case "recset":
		setup(a.name, ";mode=record")
	case "recording":
		do("RECORD", url+a.name, nil, nil)
	case "stream", "list":
		p := "/live/" + by + ".flv"
		if to == "list" {
			p = "/live/" + by + "/index.m3u8"
		}
		fmt.Fprintf(a.c, "GET %s HTTP/1.1\r\nHost: h\r\n\r\n", p)
		a.c.SetReadDeadline(time.Now().Add(lim()))
		b := make([]byte, 12)
		_, err := io.ReadFull(a.c, b)
		a.c.SetReadDeadline(time.Time{})
		if err == nil && string(b) != "HTTP/1.1 200" {
			err = fmt.Errorf("%q", b)
		}
		need(err)
	case "ws":
		fmt.Fprintf(a.c, "GET /live/%s.flv HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n", by)
		a.c.SetReadDeadline(time.Now().Add(lim()))
		b := make([]byte, 12)
		_, err := io.ReadFull(a.c, b)
		a.c.SetReadDeadline(time.Time{})
		if err == nil && string(b) != "HTTP/1.1 101" {
			err = fmt.Errorf("%q", b)
		}
		need(err)
	case "induced":
		p := w.srtAsk(step, a, srtc.Ctrl(0, 0, 0, srtc.HS(4, 0, 1, 5, 0)))
		a.ck = binary.BigEndian.Uint32(p[16+28:])
	case "conn":
		p := w.srtAsk(step, a, srtc.Ctrl(0, 0, 0, srtc.HS(5, 1000, -1, 5, a.ck)))
		a.seq = 1000
		a.peer = binary.BigEndian.Uint32(p[16+24:])
	case "live":
		if w.sb {
			return // refused: the name is taken
		}
		m := tsx.New()
		dead := time.Now().Add(lim())
		for {
			w.id += 2
			for k := 0; k < 2; k++ {
				b := m.Section(0, tsx.PATSection([2]int{1, 0x100}), 0)
				b = append(b, m.Section(0x100, tsx.PMTSection(1, 0x101, nil, tsx.ES{Type: 27, PID: 0x101}), 0)...)
				p := append(append([]byte{0, 0, 0, 1}, media.SPS(1)...), append([]byte{0, 0, 0, 1}, media.PPS(1)...)...)
				p = append(append(p, 0, 0, 0, 1), media.IDR(w.id)...)
				w.tpts += 90000
				b = append(b, m.All(0x101, tsx.PES(0xe0, &w.tpts, nil, p, true, 0))...)
				h := make([]byte, 16)
				binary.BigEndian.PutUint32(h, a.seq)
				binary.BigEndian.PutUint32(h[4:], 0xc0000001)
				binary.BigEndian.PutUint32(h[12:], a.peer)
				a.seq++
				a.c.Write(append(h, b...))
			}
			time.Sleep(3 * time.Millisecond)
			if status(w.s.HTTP(), "/live/srtin.flv") == 200 {
				break
			}
			if time.Now().After(dead) {
				lib.Missing(step, "a publisher of good standing is not accepted over SRT")
			}
		}
		a.srtData = true
	}
	a.st = to
}

func (w *world) attack(a *att, kind string, r *rand.Rand) {
	wr := func(c net.Conn, b []byte) {
		c.SetWriteDeadline(time.Now().Add(lib.D(3 * time.Second)))
		if r.Intn(3) == 0 && len(b) < 3000 { // in pieces
			for len(b) > 0 {
				n := 1 + r.Intn(len(b))
				if _, err := c.Write(b[:n]); err != nil {
					return
				}
				b = b[n:]
			}
			return
		}
		c.Write(b)
	}
	switch a.port {
	case "rtmp":
		b := rtmpBytes(r, kind, by, 128)
		if a.st == "tcp" && r.Intn(2) == 0 { // as the handshake
			h := append([]byte{[]byte{3, 6, 0, 32, byte(r.Intn(256))}[r.Intn(5)]}, rnd(r, 1536)...)
			if r.Intn(2) == 0 {
				copy(h[5:9], []byte{0, 0, 0, 0})
			}
			b = append(h, b...)
		}
		if a.x == nil && !a.dirty {
			a.drain()
		}
		wr(a.c, b)
	case "rtsp":
		if a.rx == nil && !a.dirty {
			a.drain()
		}
		b := rtspBytes(r, kind, by, "rtsp://"+w.s.RTSP()+"/live/"+a.name, a.inter, &a.rseq)
		if a.udp != nil && len(a.upeer) == 2 {
			for i := 0; i < 20; i++ {
				k := kind
				switch kind {
				case "rtp", "fua", "stapa", "aac":
				default:
					k = "rtp"
				}
				p := rtpPacket(r, k, &a.rseq)
				if i%5 == 4 {
					p = rtcp(r)
				}
				a.udp.WriteToUDP(p, a.upeer[i%5/4])
			}
		}
		wr(a.c, b)
	case "http", "hls":
		if !a.dirty {
			a.drain()
		}
		wr(a.c, httpBytes(r, kind, by))
	case "srt":
		if !a.dirty {
			a.drain()
		}
		for _, p := range srtPackets(r, kind, a.peer, &a.seq) {
			a.c.Write(p)
		}
		a.srtData = true
	}
	a.dirty = true
}

// watch lets others watch what a hostile publisher sends; they get no promise but the end.
func (w *world) spy(a *att) {
	stop := make(chan struct{})
	a.stop = stop
	name := a.name
	if a.port == "srt" {
		name = "srtin"
	}
	go func() {
		left := []string{"rtmp", "flv", "ws", "rtsp"}
		for {
			var again []string
			for _, p := range left {
				v, err := w.watch(p, name)
				if err != nil {
					again = append(again, p)
					continue
				}
				go func() { <-stop; v.c.Close() }()
			}
			left = again
			select {
			case <-stop:
				return
			case <-time.After(20 * time.Millisecond):
			}
			if len(left) == 0 {
				return
			}
		}
	}()
}

// end makes the session go away. Nothing is claimed about one that stalls until it is ended for good.
func (w *world) end(step int, a *att, how string, r *rand.Rand) {
	defer func() {
		if a.stop != nil {
			close(a.stop)
			a.stop = nil
		}
	}()
	if a.port == "srt" {
		if how == "fin" || !a.srtData || r.Intn(12) > 0 {
			for i := 0; i < 3; i++ {
				a.c.Write(srtc.Ctrl(5, 0, a.peer, nil))
			}
		}
		a.c.Close()
		if !w.sb && a.srtData {
			w.free(step, "srtin", "SRT")
		}
		return
	}
	t, _ := a.c.(*net.TCPConn)
	switch how {
	case "half":
		t.CloseWrite()
		if a.port == "rtmp" && a.x != nil {
			w.send(step, media.Key, 0) // a viewer is found gone by its next tag
			a.x.Closed(lib.D(300 * time.Millisecond))
		}
	case "reset":
		t.SetLinger(0)
	}
	a.c.Close()
	if a.udp != nil {
		a.udp.Close()
	}
	if a.port == "rtmp" || a.port == "rtsp" {
		w.free(step, a.name, a.port+" "+a.st)
	}
}

// join lets somebody new in.
func (w *world) join(step int, port string, r *rand.Rand, srtBusy bool) {
	see := func(proto string) {
		v, err := w.watch(proto, by)
		if err != nil {
			lib.Missing(step, "a newcomer over %s is not admitted: %v", proto, err)
		}
		w.send(step, media.Key, 0, v)
		v.c.Close()
	}
	switch port {
	case "rtmp":
		see("rtmp")
		x, err := dialRTMP(w.s)
		if err == nil {
			_, err = x.Connect("live", lim())
		}
		code := ""
		n := "new" + letters(r.Intn(1e9))
		if err == nil {
			code, err = x.Publish(n, lim())
		}
		if err != nil || code != "NetStream.Publish.Start" {
			lib.Missing(step, "a newcomer cannot publish over RTMP: %s %v", code, err)
		}
		x.C.Close()
		w.free(step, n, "newcomer")
	case "rtsp":
		see("rtsp")
	case "http":
		see([]string{"flv", "ws"}[r.Intn(2)])
	case "hls":
		w.lists(step)
	case "srt":
		x, err := srtc.Dial(w.s.SRT(), 7, lim())
		if err != nil {
			lib.Missing(step, "a newcomer over SRT is not admitted: %v", err)
		}
		if !w.sb && !srtBusy {
			m := tsx.New()
			w.id++
			dead := time.Now().Add(lim())
			var v *viewer
			for {
				w.tsFrame(m, x, w.id)
				time.Sleep(2 * time.Millisecond)
				if v, err = w.srtViewer(); err == nil {
					break
				}
				if time.Now().After(dead) {
					lib.Missing(step, "a newcomer cannot publish over SRT: %v", err)
				}
			}
			if !w.srtGets(m, x, v) {
				lib.Missing(step, "a newcomer's media over SRT do not arrive")
			}
			v.c.Close()
		}
		for i := 0; i < 2; i++ {
			x.Shutdown()
		}
		x.C.Close()
		if !w.sb && !srtBusy {
			w.free(step, "srtin", "SRT newcomer")
		}
	}
}

var cur *world
var seqN int

func run(raw json.RawMessage) interface{} {
	var s scen
	lib.Dec(raw, &s)
	r := rand.New(rand.NewSource(s.Num*7919 + *lib.Seed))
	ok := false
	defer func() {
		if !ok {
			cur = nil // the next scenario starts afresh
		}
	}()
	if cur == nil || cur.sb != s.SB {
		cur = start(s.SB)
	}
	w := cur
	as := map[int]*att{}
	var stalled []*att
	ports := map[string]bool{}
	srtBusy := func() bool {
		for _, a := range as {
			if a.port == "srt" && (a.dirty || a.st == "conn" || a.st == "live") {
				return true
			}
		}
		for _, a := range stalled {
			if a.port == "srt" {
				return true
			}
		}
		return false
	}
	for i, e := range s.Ev {
		i++
		a := as[e.I]
		switch e.Op {
		case "open":
			seqN++
			a = &att{port: e.Port, st: "tcp", name: "evil" + letters(seqN)}
			as[e.I] = a
			ports[e.Port] = true
			w.open(i, a)
		case "step":
			w.step(i, a, e.K, r)
		case "attack":
			w.attack(a, e.K, r)
			w.send(i, media.Inter, 0)
		case "watch":
			w.spy(a)
		case "media":
			if e.K == "bulk" {
				for k := 0; k < 20; k++ {
					w.send(i, media.Inter, 50000)
				}
			} else {
				w.send(i, e.K, 0)
			}
		case "join":
			w.join(i, e.Port, r, srtBusy())
		case "close":
			if e.K == "stall" && a.port != "srt" {
				// it stays and reads nothing more
				stalled = append(stalled, a)
				if a.st == "play" || a.st == "playing" || a.st == "stream" || a.st == "ws" {
					if a.x != nil {
						a.x.Pause(true)
					}
					for k := 0; k < 20; k++ {
						w.send(i, media.Inter, 50000)
					}
				}
			} else {
				w.end(i, a, e.K, r)
			}
			delete(as, e.I)
		}
	}
	n := len(s.Ev) + 1
	w.health(n)
	for k := range s.Ev { // in a fixed order
		if a := as[k+1]; a != nil {
			w.end(n, a, []string{"fin", "reset", "half"}[r.Intn(3)], r)
			delete(as, k+1)
		}
	}
	for _, a := range stalled {
		if a.x != nil {
			a.x.Pause(false)
		}
		w.end(n, a, "fin", r)
	}
	w.health(n)
	for _, p := range []string{"rtmp", "rtsp", "http", "hls", "srt"} {
		if ports[p] {
			w.join(n, p, r, false)
		}
	}
	if s.Num%16 == 0 {
		w.lists(n)
	}
	w.gone(n)
	ok = true
	return nil
}

func main() { lib.Main(1, run) }
