// Command files publishes streams of all sorts of names to a server with HLS and DASH and looks at the files.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/sbraveyoung/GGmpeg/libhls"
	"vh/lib"
	"vh/media"
	"vh/mp4x"
	"vh/rtmpc"
	"vh/rtspc"
	"vh/srtc"
	"vh/srvx"
	"vh/tsx"
)

type so struct {
	On     bool `json:"on"`
	HLS    int  `json:"hls"`
	First  int  `json:"first"`
	Listed int  `json:"listed"`
	Dash   int  `json:"dash"`
	DFirst int  `json:"dfirst"`
	Init   bool `json:"init"`
}

type step struct {
	Op   string   `json:"op"`
	S    int      `json:"s"`
	End  string   `json:"end"`
	Path []string `json:"path"`
	Sep  string   `json:"sep"`
	File string   `json:"file"`
	OK   bool     `json:"ok"`
	O    []so     `json:"o"`
}

type scen struct {
	Mode  []string `json:"mode"`
	Proto []string `json:"proto"`
	App   []string `json:"app"`
	Name  []string `json:"name"`
	Hist  []step   `json:"hist"`
}

// stream is one stream of the scenario.
type stream struct {
	app, name, proto, mode string
	n                      int // publications so far
	k                      int
	r                      *rtmpc.Conn
	t                      *rtspc.Conn
	seq                    uint16
	s                      *srtc.Caller
	mux                    *tsx.Mux
}

type world struct {
	scen
	root  string
	x     *srvx.Srv
	st    []*stream
	owner map[int][2]int // frame id -> stream, publication
	next  int
	quit  []func()
}

func lim() time.Duration { return lib.D(8 * time.Second) }

var modes = map[string]libhls.HLS_MODE{"imm": libhls.IMMEDIATELY, "lazy": libhls.DELAY, "none": libhls.NONE}

func (w *world) id(i int) int {
	w.next++
	w.owner[w.next] = [2]int{i, w.st[i].n}
	return w.next
}

// get makes a request whose target is not touched on the way.
func (w *world) get(target string) (code int, body []byte, err error) {
	c, err := net.Dial("tcp", w.x.HLS())
	if err != nil {
		return 0, nil, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(lim()))
	fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n", target)
	r, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		return 0, nil, err
	}
	defer r.Body.Close()
	body, err = io.ReadAll(r.Body)
	return r.StatusCode, body, err
}

func (w *world) base(i int) string {
	return "/" + url.PathEscape(w.st[i].app) + "/" + strings.ReplaceAll(url.PathEscape(w.st[i].name), ".", "%2E") + "/"
}

// reachable: paths with empty or dot segments are redirected by the HTTP library.
func (w *world) reachable(i int) bool {
	n := w.st[i].name
	for _, p := range strings.Split(strings.ReplaceAll(n, "\\", "/"), "/") {
		if p == "" || p == "." || p == ".." {
			return false
		}
	}
	return true
}

// ---- publishing

func (w *world) rtmp() *rtmpc.Conn {
	a, _ := w.x.Pipe()
	c, err := rtmpc.Client(a, lim())
	if err != nil {
		panic(err)
	}
	w.quit = append(w.quit, func() { a.Close() })
	return c
}

func (w *world) pub(k, i int) {
	s := w.st[i]
	s.n++
	s.k = 0
	switch s.proto {
	case "R":
		s.r = w.rtmp()
		if _, err := s.r.Connect(s.app, lim()); err != nil {
			lib.Missing(k, "connect: %v", err)
		}
		code, err := s.r.Publish(s.name, lim())
		if err != nil || code != "NetStream.Publish.Start" {
			lib.Missing(k, "publish %q: %s %v", s.name, code, err)
		}
		w.head(i)
		if _, err := s.r.Fence(lim()); err != nil {
			lib.Missing(k, "%v", err)
		}
	case "T":
		c, err := rtspc.Dial(w.x.RTSP(), lim())
		if err != nil {
			lib.Missing(k, "RTSP: %v", err)
		}
		c.Start()
		w.quit = append(w.quit, func() { c.C.Close() })
		s.t, s.seq = c, 0
		u := "rtsp://" + w.x.RTSP() + "/" + url.PathEscape(s.app) + "/" + url.PathEscape(s.name)
		for _, q := range []struct {
			m, u string
			h    []string
			b    []byte
		}{{"ANNOUNCE", u, []string{"Content-Type: application/sdp"}, media.SDP(w.id(i))},
			{"SETUP", u + "/trackID=0", []string{"Transport: RTP/AVP/TCP;unicast;interleaved=0-1;mode=record"}, nil}, {"RECORD", u, nil, nil}} {
			r, err := c.Do(lim(), q.m, q.u, q.h, q.b)
			if err != nil || r.Code != 200 {
				lib.Missing(k, "%s %s: %d %v", q.m, u, r.Code, err)
			}
		}
	case "S":
		c, err := srtc.Dial(w.x.SRT(), uint32(1000+w.next*7+s.n), lim())
		if err != nil {
			lib.Missing(k, "SRT: %v", err)
		}
		w.quit = append(w.quit, func() { c.Shutdown(); c.StopKeepAlive(); c.C.Close() })
		c.KeepAlive(500 * time.Millisecond)
		s.s, s.mux = c, tsx.New()
		c.Send(append(s.mux.Section(0, tsx.PATSection([2]int{1, 0x1000}), 0),
			s.mux.Section(0x1000, tsx.PMTSection(1, 0x100, nil, tsx.ES{Type: 0x1b, PID: 0x100}), 0)...))
		w.au(i, false) // registers the stream
		w.au(i, false)
		if alive, err := c.Fence(lim()); err != nil || !alive {
			lib.Missing(k, "SRT publication: %v %v", alive, err)
		}
	}
}

func (w *world) head(i int) {
	s := w.st[i]
	for _, kd := range []string{media.VHdr, media.AHdr} {
		t, p := media.Msg(kd, w.id(i))
		s.r.Send(rtmpc.Msg{CS: 4, Type: t, SID: 1, P: p})
	}
}

func (w *world) au(i int, key bool) {
	s := w.st[i]
	pts := uint64(90000 + s.k*183600 + 3600)
	sc := []byte{0, 0, 0, 1}
	var b []byte
	if key {
		pts -= 3600
		for _, n := range [][]byte{media.SPS(7), media.PPS(7), media.IDR(w.id(i))} {
			b = append(append(b, sc...), n...)
		}
	} else {
		b = append(append(b, sc...), media.Pic(w.id(i))...)
	}
	s.s.Send(s.mux.All(0x100, tsx.PES(0xe0, &pts, nil, b, false, 0)))
}

func (w *world) frame(i int, kind string, ts int) {
	t, p := media.Msg(kind, w.id(i))
	w.st[i].r.Send(rtmpc.Msg{CS: 4 + uint32(t&3), Type: t, SID: 1, TS: uint32(ts), P: p})
}

func (w *world) burst(k, i int) {
	s := w.st[i]
	s.k++
	ts := s.k * 2040
	switch s.proto {
	case "R":
		w.frame(i, media.Key, ts)
		w.frame(i, media.Audio, ts+3)
		w.frame(i, media.Inter, ts+900)
		w.frame(i, media.Audio, ts+903)
		if _, err := s.r.Fence(lim()); err != nil {
			lib.Missing(k, "%v", err)
		}
	case "T":
		for _, n := range []struct {
			b  []byte
			ts int
		}{{media.IDR(w.id(i)), ts}, {media.Pic(w.id(i)), ts + 900}} {
			s.seq++
			s.t.C.Write(rtspc.Inter(0, rtspc.RTP(96, true, s.seq, uint32(n.ts*90), 7, n.b)))
		}
		if r, err := s.t.Do(lim(), "GET_PARAMETER", "rtsp://h/", nil, nil); err != nil || r.Code != 200 {
			lib.Missing(k, "RTSP publisher: %d %v", r.Code, err)
		}
	case "S":
		w.au(i, true)
		w.au(i, false)
		if alive, err := s.s.Fence(lim()); err != nil || !alive {
			lib.Missing(k, "SRT publication: %v %v", alive, err)
		}
	}
}

func (w *world) freed(k, i int) {
	for dl := time.Now().Add(lim()); ; {
		code, _, err := w.get("/" + url.PathEscape(w.st[i].app) + "/" + strings.ReplaceAll(url.PathEscape(w.st[i].name), ".", "%2E") + "/nothing")
		_ = code
		if err != nil {
			lib.Missing(k, "GET: %v", err)
		}
		// a new claim of the name tells whether it is free
		c := w.rtmp()
		if _, err := c.Connect(w.st[i].app, lim()); err != nil {
			lib.Missing(k, "connect: %v", err)
		}
		got, err := c.Publish(w.st[i].name, lim())
		if err != nil {
			lib.Missing(k, "publish: %v", err)
		}
		if got == "NetStream.Publish.Start" {
			c.Cmd("FCUnpublish", nil, w.st[i].name)
			c.Fence(lim())
			c.C.Close()
			return
		}
		c.C.Close()
		if time.Now().After(dl) {
			lib.Missing(k, "%s/%s is not given up", w.st[i].app, w.st[i].name)
		}
		time.Sleep(3 * time.Millisecond)
	}
}

func (w *world) end(k, i int, how string) {
	s := w.st[i]
	switch s.proto + how {
	case "Runpublish":
		s.r.Cmd("FCUnpublish", nil, s.name)
		if _, err := s.r.Fence(lim()); err != nil {
			lib.Missing(k, "%v", err)
		}
		return
	case "Rdelete":
		s.r.Cmd("deleteStream", nil, 1)
		if _, err := s.r.Fence(lim()); err != nil {
			lib.Missing(k, "%v", err)
		}
		return
	case "Rdrop":
		s.r.C.Close()
	case "Rhalf":
		t, p := media.Msg(media.Key, 1<<28)
		b := rtmpc.Chunks(rtmpc.Msg{CS: 4, Type: t, SID: 1, TS: 1, P: p}, s.r.Size)
		s.r.Write(b[:len(b)-3])
		s.r.C.Close()
	case "Rbad":
		s.r.Send(rtmpc.Msg{CS: 3, Type: 20, P: []byte{0xff, 1, 2}})
	case "Tteardown":
		s.t.Do(lim(), "TEARDOWN", "rtsp://h/", nil, nil)
	case "Tdrop":
		s.t.C.Close()
	case "Thalf":
		s.t.C.Write([]byte{'$', 0, 0, 90, 1, 2, 3})
		s.t.C.Close()
	case "Sshutdown":
		s.s.Shutdown()
		s.s.StopKeepAlive()
	default:
		panic(s.proto + how)
	}
	w.freed(k, i)
}

// ---- looking

type tree map[string][]byte // path below root -> content

func (w *world) tree() tree {
	t := tree{}
	filepath.Walk(w.root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			rel, _ := filepath.Rel(w.root, p)
			b, _ := os.ReadFile(p)
			t[rel] = b
		}
		return nil
	})
	return t
}

var fixed = []string{"secret.ts", "secret.m4s", "secret-init.mp4", "live/sub/inner.ts", "live/sub/inner.m4s", "live/sub/secret.ts"}

func kindOf(p string) string {
	switch {
	case strings.HasSuffix(p, "-init.mp4"):
		return "init"
	case strings.HasSuffix(p, ".m4s"):
		return "dash"
	case strings.HasSuffix(p, ".ts"):
		return "hls"
	}
	return "other"
}

// count says how many files of each kind each app has, and names what does not belong anywhere.
func (w *world) count() (map[string]int, []string, tree) {
	t := w.tree()
	m := map[string]int{}
	var stray []string
next:
	for p := range t {
		for _, f := range fixed {
			if p == f {
				continue next
			}
		}
		dir := filepath.Dir(p)
		ok := false
		for _, s := range w.st {
			ok = ok || dir == s.app
		}
		if !ok || kindOf(p) == "other" {
			stray = append(stray, p)
			continue
		}
		m[dir+"/"+kindOf(p)]++
	}
	sort.Strings(stray)
	return m, stray, t
}

func (w *world) want(o []so) (lo, hi map[string]int) {
	lo, hi = map[string]int{}, map[string]int{}
	for i, s := range o {
		a := w.st[i].app
		for _, k := range []string{"hls", "dash", "init"} {
			n := map[string]int{"hls": s.HLS, "dash": s.Dash}[k]
			x := n
			if k == "init" {
				if s.Init {
					n, x = 1, 1
				} else if s.On {
					x = 1
				}
			}
			lo[a+"/"+k] += n
			hi[a+"/"+k] += x
		}
	}
	return
}

func within(m, lo, hi map[string]int) bool {
	for k := range hi {
		if m[k] < lo[k] || m[k] > hi[k] {
			return false
		}
	}
	for k, n := range m {
		if _, ok := hi[k]; !ok && n > 0 {
			return false
		}
	}
	return true
}

// tokens of the pictures in a segment
func (w *world) check(k, i int, what string, nals [][]byte) {
	for _, n := range nals {
		kd, id := media.NAL(n)
		if kd != media.Key && kd != media.Inter {
			continue
		}
		if w.owner[id] != [2]int{i, w.st[i].n} {
			lib.Bad(k, "%s of stream %d (%q) has picture %d, which belongs to stream and publication %v", what, i+1, w.st[i].name, id, w.owner[id])
		}
	}
}

func avcc(b []byte) (out [][]byte) {
	for len(b) >= 4 {
		n := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		if n < 0 || n > len(b)-4 {
			return
		}
		out = append(out, b[4:4+n])
		b = b[4+n:]
	}
	return
}

var tmplRe = regexp.MustCompile(`startNumber="(\d+)"[^>]* initialization="([^"]*)"[^>]* media="([^"]*)"`)

func (w *world) look(k int, o []so) {
	lo, hi := w.want(o)
	var m map[string]int
	var stray []string
	for dl := time.Now().Add(lim()); ; time.Sleep(2 * time.Millisecond) {
		m, stray, _ = w.count()
		if len(stray) > 0 {
			lib.Bad(k, "files where none belong: %q", stray)
		}
		if within(m, lo, hi) {
			break
		}
		if time.Now().After(dl) {
			lib.Missing(k, "files by app and kind: %v, expected %v to %v", m, lo, hi)
		}
	}
	inApp := func(app string, b []byte) bool {
		for p, c := range w.tree() { // anew: a file read above may not have been complete
			if strings.HasPrefix(p, app+"/") && bytes.Equal(b, c) {
				return true
			}
		}
		return false
	}
	for i, s := range o {
		if !w.reachable(i) {
			continue
		}
		url0 := w.base(i)
		if !s.On {
			for _, f := range []string{"index.m3u8", "index.mpd"} {
				code, _, err := w.get(url0 + f)
				if err != nil || code != 404 {
					lib.Bad(k, "GET %s%s of no stream: %d %v", url0, f, code, err)
				}
			}
			continue
		}
		if s.Listed > 0 {
			var names []string
			var pl []byte
			for dl := time.Now().Add(lim()); ; time.Sleep(2 * time.Millisecond) {
				var code int
				var err error
				code, pl, err = w.get(url0 + "index.m3u8")
				if err != nil || code != 200 {
					lib.Bad(k, "GET %sindex.m3u8: %d %v", url0, code, err)
				}
				names = nil
				for _, l := range strings.Split(string(pl), "\n") {
					if l != "" && l[0] != '#' {
						names = append(names, l)
					}
				}
				if len(names) == s.Listed && strings.Contains(string(pl), fmt.Sprintf("#EXT-X-MEDIA-SEQUENCE:%d\n", s.First)) {
					break
				}
				if time.Now().After(dl) {
					lib.Missing(k, "playlist of stream %d (%q) with %d segments from %d:\n%s", i+1, w.st[i].name, s.Listed, s.First, pl)
				}
			}
			for _, n := range names {
				code, b, err := w.get(url0 + n)
				if err != nil || code != 200 {
					lib.Bad(k, "GET %s%s, which is listed: %d %v", url0, n, code, err)
				}
				if !inApp(w.st[i].app, b) {
					lib.Bad(k, "GET %s%s does not return a file of the app's directory", url0, n)
				}
				d, err := tsx.Demux(b)
				if err != nil {
					lib.Bad(k, "segment %s: %v", n, err)
				}
				for _, u := range d.Units {
					if u.SID&0xf0 == 0xe0 {
						nals, _ := tsx.NALs(u.Payload)
						w.check(k, i, "segment "+n, nals)
					}
				}
			}
		}
		if s.Dash > 0 {
			var sub [][]byte
			for dl := time.Now().Add(lim()); ; time.Sleep(2 * time.Millisecond) {
				code, b, err := w.get(url0 + "index.mpd")
				if err != nil || code != 200 {
					if code == 404 && time.Now().Before(dl) {
						continue
					}
					lib.Bad(k, "GET %sindex.mpd: %d %v", url0, code, err)
				}
				sub = tmplRe.FindSubmatch(b)
				if sub == nil {
					lib.Bad(k, "manifest without template:\n%s", b)
				}
				if string(sub[1]) == strconv.Itoa(s.DFirst) {
					break
				}
				if time.Now().After(dl) {
					lib.Missing(k, "manifest of stream %d (%q) that starts at %d:\n%s", i+1, w.st[i].name, s.DFirst, b)
				}
			}
			code, b, err := w.get(url0 + string(sub[2]))
			if err != nil || code != 200 || !inApp(w.st[i].app, b) {
				lib.Bad(k, "GET %s%s, the init segment: %d %v", url0, sub[2], code, err)
			}
			for q := s.DFirst; q < s.DFirst+s.Dash; q++ {
				n := strings.ReplaceAll(string(sub[3]), "$Number$", strconv.Itoa(q))
				code, b, err := w.get(url0 + n)
				if err != nil || code != 200 || !inApp(w.st[i].app, b) {
					lib.Bad(k, "GET %s%s, a segment: %d %v", url0, n, code, err)
				}
				g, err := mp4x.Media(b)
				if err != nil {
					lib.Bad(k, "segment %s: %v", n, err)
				}
				for _, x := range g.Samples {
					w.check(k, i, "segment "+n, avcc(x.Data))
				}
			}
		}
	}
}

func (w *world) churn(k, i int, o []so) {
	s := w.st[i]
	lo, hi := w.want(o)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for _, f := range []string{"index.m3u8", "index.mpd", "x-0.ts", "index.m3u8"} {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				w.get(w.base(i) + f)
				time.Sleep(200 * time.Microsecond)
			}
		}()
	}
	finish := func() bool {
		close(stop)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
			return true
		case <-time.After(lim()):
			return false
		}
	}
	bad := ""
	for n := 0; n < 6 && bad == ""; n++ {
		s.n++
		c := w.rtmp()
		if _, err := c.Connect(s.app, lim()); err != nil {
			finish()
			lib.Missing(k, "connect: %v", err)
		}
		if code, err := c.Publish(s.name, lim()); err != nil || code != "NetStream.Publish.Start" {
			finish()
			lib.Missing(k, "publish: %s %v", code, err)
		}
		s.r = c
		w.head(i)
		for j := 1; j <= n; j++ {
			w.frame(i, media.Key, j*2040)
			w.frame(i, media.Inter, j*2040+900)
			time.Sleep(time.Duration(n*300) * time.Microsecond)
		}
		if n%2 == 0 {
			c.Cmd("FCUnpublish", nil, s.name)
		} else {
			c.Cmd("deleteStream", nil, 1)
		}
		if _, err := c.Fence(lim()); err != nil {
			finish()
			lib.Missing(k, "%v", err)
		}
		for j := 0; j < 3 && bad == ""; j++ {
			m, stray, _ := w.count()
			if len(stray) > 0 || !within(m, lo, hi) {
				bad = fmt.Sprintf("after a short publication of %s/%s there are files %v (%q), expected %v", s.app, s.name, m, stray, hi)
			}
			time.Sleep(time.Millisecond)
		}
		c.C.Close()
	}
	if !finish() {
		lib.Missing(k, "a request for a stream that has ended is not answered")
	}
	if bad != "" {
		lib.Bad(k, "%s", bad)
	}
}

func (w *world) step(k int, e step) {
	i := e.S - 1
	s := w.st[i]
	switch e.Op {
	case "pub":
		w.pub(k, i)
	case "burst":
		w.burst(k, i)
		if w.st[i].k == 1 { // no file tells that DASH has read this one; a second burst at once would make it skip it
			time.Sleep(20 * time.Millisecond)
		}
	case "end":
		w.end(k, i, e.End)
	case "churn":
		w.churn(k, i, e.O)
	case "watch":
		if !w.reachable(i) {
			panic("cannot watch " + s.name)
		}
		done := make(chan string, 1)
		go func() {
			code, b, err := w.get(w.base(i) + "index.m3u8")
			if err == nil {
				err = fmt.Errorf("%d bytes", len(b))
			}
			done <- fmt.Sprint(code, " ", err)
		}()
		w.quit = append(w.quit, func() { <-done })
	case "clash":
		c := w.rtmp()
		if _, err := c.Connect(s.app, lim()); err != nil {
			lib.Missing(k, "connect: %v", err)
		}
		code, err := c.Publish(s.name, lim())
		if err != nil || code == "NetStream.Publish.Start" {
			lib.Bad(k, "second publisher: %s %v", code, err)
		}
		for j, kd := range []string{media.VHdr, media.Key, media.Key} {
			t, p := media.Msg(kd, 1<<27+j)
			c.Send(rtmpc.Msg{CS: 4, Type: t, SID: 1, TS: uint32(j * 5000), P: p})
		}
		c.C.Close()
	case "probe":
		f := strings.Join(append(append([]string(nil), e.Path...), e.File), e.Sep)
		for _, p := range []string{w.base(i) + f, w.base(i) + strings.ReplaceAll(f, "..", "%2e%2e"), "/" + s.app + "/" + f, "/" + f} {
			code, b, err := w.get(p)
			if err != nil {
				lib.Missing(k, "GET %s: %v", p, err)
			}
			if code != 200 && code != 206 {
				continue
			}
			_, _, t := w.count()
			for q, c := range t {
				if bytes.Equal(b, c) && !strings.HasPrefix(q, s.app+"/") {
					lib.Bad(k, "GET %s returns %s, which lies outside of %s", p, q, s.app)
				}
			}
			if !e.OK && p == w.base(i)+f {
				lib.Bad(k, "GET %s, which leads out of the directory, is answered: %d %.40q", p, code, b)
			}
		}
	}
	w.look(k, e.O)
}

func run(raw json.RawMessage) interface{} {
	w := &world{owner: map[int][2]int{}}
	lib.Dec(raw, &w.scen)
	dir := lib.Scratch()
	w.root = filepath.Join(dir, "root")
	o := srvx.Opt{FLV: true, RTSP: true, HLS: true, DASH: true, Modes: map[string]libhls.HLS_MODE{}, Dirs: map[string]string{}}
	for i := range w.Mode {
		s := &stream{app: w.App[i], name: w.Name[i], proto: w.Proto[i], mode: w.Mode[i]}
		w.st = append(w.st, s)
		if _, ok := o.Modes[s.app]; !ok {
			o.Apps = append(o.Apps, s.app)
		}
		o.Modes[s.app] = modes[s.mode]
		o.Dirs[s.app] = filepath.Join(w.root, s.app)
		if s.proto == "S" {
			o.SRT = []string{s.app, s.name}
		}
	}
	for _, f := range fixed {
		os.MkdirAll(filepath.Dir(filepath.Join(w.root, f)), 0o755)
		os.WriteFile(filepath.Join(w.root, f), []byte("fixed "+f), 0o644)
	}
	w.x = srvx.Start(o)
	defer func() {
		for _, s := range w.st {
			if s.r != nil {
				s.r.C.Close()
			}
		}
		for _, f := range w.quit {
			f()
		}
		os.RemoveAll(dir)
	}()
	for k, e := range w.Hist {
		w.step(k+1, e)
	}
	n := len(w.Hist)
	for i, s := range w.Hist[n-1].O {
		if s.On {
			w.end(n+1, i, map[string]string{"R": "unpublish", "T": "teardown", "S": "shutdown"}[w.st[i].proto])
		}
	}
	off := make([]so, len(w.st))
	w.look(n+1, off)
	time.Sleep(20 * time.Millisecond)
	m, stray, _ := w.count()
	for _, c := range m {
		if c > 0 {
			lib.Bad(n+1, "files left after all streams ended: %v", m)
		}
	}
	if len(stray) > 0 {
		lib.Bad(n+1, "stray files: %q", stray)
	}
	return nil
}

func main() { lib.Main(6, run) }
