// Command rtsps walks RTSP sessions through the states of the specification.
package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"vh/lib"
	"vh/media"
	"vh/rtmpc"
	"vh/rtspc"
	"vh/srvx"
)

type url struct{ K, S string }
type step struct {
	Op    string         `json:"op"`
	C     int            `json:"c"`
	M     string         `json:"m"`
	Code  int            `json:"code"`
	Sess  string         `json:"sess"`
	URL   url            `json:"url"`
	Sdp   string         `json:"sdp"`
	Tr    string         `json:"tr"`
	Track string         `json:"track"`
	S     string         `json:"s"`
	Ing   bool           `json:"ing"`
	How   string         `json:"how"`
	Kind  string         `json:"kind"`
	Ends  []int          `json:"ends"`
	Reg   map[string]int `json:"reg"`
}
type scen struct {
	Steps []step `json:"steps"`
	Batch bool   `json:"batch"`
	N     int    `json:"num"`
}

var (
	once sync.Once
	srv  *srvx.Srv
	mu   sync.Mutex
	next int
)

type world struct {
	s    scen
	pre  string
	lim  time.Duration
	c    map[int]*rtspc.Conn
	ctl  *rtspc.Conn
	pubs map[string]*rtmpc.Conn
	sess map[int]string
}

func (w *world) path(u url) string {
	base := "rtsp://" + srv.Host + ":8554"
	switch u.K {
	case "ok":
		return base + "/live/" + w.name(u.S)
	case "slash":
		return base + "/live/" + w.name(u.S) + "/"
	case "query":
		return base + "/live/" + w.name(u.S) + "?a=b&c=%2f"
	case "nobody":
		return base + "/live/" + w.pre + "nobody"
	case "noapp":
		return base + "/other/" + w.pre + "x"
	case "short":
		return []string{base + "/live", base, base + "/", base + "/live/"}[w.s.N%4]
	}
	return base + "/live/%zz"
}

func (w *world) name(s string) string { return w.pre + s }

func sdp(kind string) []byte {
	h := "v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=x\r\nc=IN IP4 0.0.0.0\r\nt=0 0\r\n"
	v := "m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=fmtp:96 packetization-mode=1;sprop-parameter-sets=" +
		base64.StdEncoding.EncodeToString(media.SPS(1)) + "," + base64.StdEncoding.EncodeToString(media.PPS(1)) + "\r\na=control:v\r\n"
	a := "m=audio 0 RTP/AVP 97\r\na=rtpmap:97 mpeg4-generic/44100/2\r\na=fmtp:97 streamtype=5;mode=AAC-hbr;sizelength=13;indexlength=3;indexdeltalength=3;config=1210\r\na=control:a\r\n"
	switch kind {
	case "av":
		return []byte(h + v + a)
	case "a":
		return []byte(h + a)
	case "bad":
		return []byte(h + "m=video 0 RTP/AVP 26\r\na=control:v\r\n")
	}
	return nil
}

var transports = map[string]string{
	"tcp": "RTP/AVP/TCP;unicast;interleaved=0-1", "tcp4": "RTP/AVP/TCP;unicast;interleaved=4-5", "udp": "RTP/AVP;unicast;client_port=47000-47001",
	"udpudp": "RTP/AVP/UDP;unicast;client_port=47000-47001", "none": "", "savp": "RTP/SAVP;unicast;client_port=47000-47001", "nochan": "RTP/AVP/TCP;unicast",
	"tcpmore": "RTP/AVP/TCP;destination=::1;unicast;interleaved=254-255;mode=\"PLAY,RECORD\"", "udpmore": "RTP/AVP;unicast;source=[fe80::1];client_port=47000-47005;ssrc=1A2B",
	"badchan": "RTP/AVP/TCP;unicast;interleaved=a-b", "bigchan": "RTP/AVP/TCP;unicast;interleaved=255-256", "noport": "RTP/AVP;unicast", "badport": "RTP/AVP;unicast;client_port=0-70000",
}

func (w *world) request(e step) (url string, hdr []string, body []byte) {
	switch e.M {
	case "DESCRIBE":
		return w.path(e.URL), []string{"Accept: application/sdp"}, nil
	case "ANNOUNCE":
		return w.path(e.URL), []string{"Content-Type: application/sdp"}, sdp(e.Sdp)
	case "SETUP":
		u := w.path([]struct{ K, S string }{{"ok", e.S}}[0])
		t := "/" + e.Track
		if !e.Ing {
			t = map[string]string{"v": "/trackID=0", "a": "/trackID=1", "other": "/trackID=2"}[e.Track]
		}
		if v := transports[e.Tr]; v != "" {
			hdr = []string{"Transport: " + v}
		}
		return u + t, hdr, nil
	case "OPTIONS":
		return "*", nil, nil
	}
	s := e.S
	if s == "" {
		s = "a"
	}
	return w.path([]struct{ K, S string }{{"ok", s}}[0]), nil, nil
}

func (w *world) send(k int, e step) (b []byte, seq string) {
	u, h, body := w.request(e)
	return w.c[e.C].Req(e.M, u, h, body)
}

func (w *world) check(k int, e step, seq string) {
	r, err := w.c[e.C].Next(w.lim)
	if err != nil {
		if errors.Is(err, rtspc.ErrFormat) {
			lib.Bad(k, "%s: %v", e.M, err)
		}
		lib.Missing(k, "%s: %v", e.M, err)
	}
	if r.H["cseq"] != seq {
		lib.Bad(k, "%s: CSeq %q, expected %s", e.M, r.H["cseq"], seq)
	}
	if r.Code != e.Code {
		lib.Bad(k, "connection %d: %s answered %d, expected %d", e.C, e.M, r.Code, e.Code)
	}
	id := strings.SplitN(r.H["session"], ";", 2)[0]
	if (e.Sess == "timeout" || e.Sess == "plain") && id == "" {
		lib.Bad(k, "%s: no session in the response", e.M)
	}
	if id != "" {
		if old := w.sess[e.C]; old != "" && old != id {
			lib.Bad(k, "%s: session %q, it was %q", e.M, id, old)
		}
		w.sess[e.C] = id
		for c, o := range w.sess {
			if c != e.C && o == id {
				lib.Bad(k, "connections %d and %d have the session %q", c, e.C, id)
			}
		}
	}
	if e.M == "OPTIONS" {
		for _, m := range []string{"OPTIONS", "DESCRIBE", "ANNOUNCE", "SETUP", "PLAY", "RECORD", "TEARDOWN"} {
			if !strings.Contains(r.H["public"], m) {
				lib.Bad(k, "OPTIONS: %q", r.H["public"])
			}
		}
	}
	if e.M == "SETUP" && e.Code == 200 {
		for _, p := range []string{"interleaved=", "client_port="} { // what it asked for, it is told
			if i := strings.Index(transports[e.Tr], p); i >= 0 {
				if v := strings.SplitN(transports[e.Tr][i:], ";", 2)[0]; !strings.Contains(r.H["transport"]+";", v+";") {
					lib.Bad(k, "SETUP with %q answered %q", transports[e.Tr], r.H["transport"])
				}
			}
		}
	}
	if e.M == "DESCRIBE" && e.Code == 200 && (r.H["content-type"] != "application/sdp" || len(r.Body) == 0 || r.H["content-base"] == "") {
		lib.Bad(k, "DESCRIBE: %v", r.H)
	}
	if e.Code != 200 && len(r.Body) > 0 {
		lib.Bad(k, "%s: body with status %d", e.M, e.Code)
	}
}

func (w *world) registry(k int, e step, wait bool) {
	end := time.Now().Add(w.lim)
	for s, code := range e.Reg {
		for {
			r, err := w.ctl.Do(w.lim, "DESCRIBE", w.path(struct{ K, S string }{"ok", s}), nil, nil)
			if err != nil {
				lib.Missing(k, "control connection: %v", err)
			}
			if r.Code == code {
				break
			}
			if !wait {
				lib.Bad(k, "after %s %s: stream %s answers %d, expected %d", e.Op, e.M, s, r.Code, code)
			}
			if time.Now().After(end) {
				lib.Missing(k, "after %s %s: stream %s answers %d, expected %d", e.Op, e.M, s, r.Code, code)
			}
			time.Sleep(time.Millisecond)
		}
	}
	// players of a stream that ended become idle
	for _, c := range e.Ends {
		for {
			r, err := w.c[c].Do(w.lim, "SETUP", w.path(struct{ K, S string }{"ok", "a"})+"/trackID=7", []string{"Transport: " + transports["tcp"]}, nil)
			if err != nil {
				lib.Missing(k, "player %d of a stream that ended: %v", c, err)
			}
			if r.Code == 404 {
				break
			}
			if r.Code != 455 {
				lib.Bad(k, "SETUP of a track that is not there answered %d", r.Code)
			}
			if time.Now().After(end) {
				lib.Missing(k, "player %d is still playing a stream that ended", c)
			}
			time.Sleep(time.Millisecond)
		}
	}
}

func (w *world) dial(k, c int) {
	x, err := rtspc.Dial(srv.RTSP(), w.lim)
	if err != nil {
		lib.Missing(k, "%v", err)
	}
	x.Start()
	w.c[c] = x
	delete(w.sess, c)
}

func run(raw json.RawMessage) interface{} {
	var s scen
	lib.Dec(raw, &s)
	once.Do(func() { srv = srvx.Start(srvx.Opt{Apps: []string{"live"}, RTSP: true}) })
	mu.Lock()
	next++
	w := &world{s: s, pre: fmt.Sprintf("n%d", next), lim: lib.D(8 * time.Second), c: map[int]*rtspc.Conn{}, pubs: map[string]*rtmpc.Conn{}, sess: map[int]string{}}
	mu.Unlock()
	var err error
	if w.ctl, err = rtspc.Dial(srv.RTSP(), w.lim); err != nil {
		lib.Missing(0, "%v", err)
	}
	w.ctl.Start()
	defer func() {
		w.ctl.C.Close()
		for _, x := range w.c {
			x.C.Close()
		}
		for _, p := range w.pubs {
			p.C.Close()
		}
	}()
	for i := 0; i < len(s.Steps); i++ {
		e := s.Steps[i]
		k := i + 1
		wait := false
		if e.C > 0 && w.c[e.C] == nil {
			w.dial(k, e.C)
		}
		switch e.Op {
		case "req":
			j := i + 1
			for s.Batch && j < len(s.Steps) && s.Steps[j].Op == "req" && s.Steps[j].C == e.C && s.Steps[j-1].M != "TEARDOWN" {
				j++
			}
			var all []byte
			var seqs []string
			for n := i; n < j; n++ {
				b, seq := w.send(n+1, s.Steps[n])
				all = append(all, b...)
				seqs = append(seqs, seq)
			}
			if _, err := w.c[e.C].C.Write(all); err != nil {
				lib.Missing(k, "connection %d: %v", e.C, err)
			}
			for n := i; n < j; n++ {
				w.check(n+1, s.Steps[n], seqs[n-i])
			}
			i = j - 1
			e = s.Steps[i]
			if e.M == "TEARDOWN" {
				wait = true
				if !w.c[e.C].Closed(w.lim) {
					lib.Missing(i+1, "the connection stays open behind TEARDOWN")
				}
			}
			if w.c[e.C].Pending() > 0 {
				lib.Bad(i+1, "more responses than requests")
			}
		case "drop":
			x := w.c[e.C]
			if e.How == "half" {
				x.C.Write([]byte("OPTIONS * RTSP/1.0\r\nCSeq: "))
			}
			x.C.Close()
			wait = true
		case "open":
			w.dial(k, e.C)
		case "pub":
			a, _ := srv.Pipe()
			c, err := rtmpc.Client(a, w.lim)
			if err == nil {
				_, err = c.Connect("live", w.lim)
			}
			var code string
			if err == nil {
				code, err = c.Publish(w.name(e.S), w.lim)
			}
			if e.Code == 0 {
				a.Close()
				if err == nil && code == "NetStream.Publish.Start" {
					lib.Bad(k, "RTMP: a name in use is published again")
				}
				break
			}
			if err != nil || code != "NetStream.Publish.Start" {
				lib.Missing(k, "RTMP publish: %v %s", err, code)
			}
			if e.Kind == "full" {
				_, p := media.Msg(media.VHdr, 5)
				c.Send(rtmpc.Msg{CS: 4, Type: 9, SID: 1, P: p})
			}
			if _, err := c.Fence(w.lim); err != nil {
				lib.Missing(k, "RTMP publish: %v", err)
			}
			w.pubs[e.S] = c
		case "unpub":
			w.pubs[e.S].C.Close()
			delete(w.pubs, e.S)
			wait = true
		}
		w.registry(i+1, e, wait)
	}
	return nil
}

func main() { lib.Main(12, run) }
