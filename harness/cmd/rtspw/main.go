// Command rtspw replays byte streams of RtspWire.tla: into the library's parser, and into live sessions of publishers and players.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"github.com/sbraveyoung/GGmpeg/librtsp"
	"vh/flvc"
	"vh/lib"
	"vh/media"
	"vh/rtmpc"
	"vh/rtspc"
	"vh/srvx"
)

type item struct {
	K  string   `json:"k"`
	Ch string   `json:"ch"`
	P  []string `json:"p"`
}
type ev struct {
	K    string        `json:"k"`
	M    []string      `json:"m"`
	URL  []string      `json:"url"`
	Body []string      `json:"body"`
	H    [][2][]string `json:"h"`
	Ch   string        `json:"ch"`
	P    []string      `json:"p"`
}
type scen struct {
	Items []item   `json:"items"`
	Wire  []string `json:"wire"`
	Cuts  []int    `json:"cuts"`
	Evs   []ev     `json:"evs"`
	Code  []int    `json:"code"`
	Size  []int    `json:"size"`
	Mode  string   `json:"mode"`
	N     int      `json:"num"`
}

func str(c string) string {
	switch c {
	case "CR":
		return "\r"
	case "LF":
		return "\n"
	case "NUL":
		return "\x00"
	case "C3":
		return "\xc3"
	case "A9":
		return "\xa9"
	case "XK":
		return string(bytes.Repeat([]byte("x"), 1000))
	}
	return c
}
func text(s []string) string {
	var b bytes.Buffer
	for _, c := range s {
		b.WriteString(str(c))
	}
	return b.String()
}

// chunks turns the wire into the byte runs that are written at once.
func (s scen) chunks(head func(i int) []byte) [][]byte {
	var exp [][]byte
	k := 0
	for i, it := range s.Items {
		for j := 0; j < s.Size[i]; j++ {
			c := s.Wire[k]
			k++
			if it.K != "frame" || j < 2 || j >= 4 {
				b := []byte(str(c))
				if it.K == "frame" && j == 4 {
					b = append(head(i), b...)
				}
				exp = append(exp, b)
				continue
			}
			n := len(text(it.P))
			if n > 0 {
				n += 12
			}
			if j == 2 {
				exp = append(exp, []byte{byte(n >> 8)})
			} else {
				exp = append(exp, []byte{byte(n)})
			}
		}
	}
	var out [][]byte
	from := 0
	for _, c := range s.Cuts {
		out = append(out, bytes.Join(exp[from:c], nil))
		from = c
	}
	return out
}

// segments is a reader that returns one run per read.
type segments struct{ s [][]byte }

func (x *segments) Read(b []byte) (int, error) {
	for len(x.s) > 0 && len(x.s[0]) == 0 {
		x.s = x.s[1:]
	}
	if len(x.s) == 0 {
		return 0, io.EOF
	}
	n := copy(b, x.s[0])
	x.s[0] = x.s[0][n:]
	return n, nil
}

func library(s scen) {
	br := bufio.NewReaderSize(&segments{s.chunks(nil)}, []int{16, 4096, 40, 70000}[s.N%4])
	for i, e := range s.Evs {
		r, err := librtsp.ReadRequest(br)
		if e.K == "end" {
			if err == nil {
				lib.Bad(i+1, "a malformed request is parsed: %v", r)
			}
			return
		}
		if err != nil {
			lib.Bad(i+1, "request %d: %v", i+1, err)
		}
		if r.Method != text(e.M) || r.URL != text(e.URL) || r.Version != "RTSP/1.0" || string(r.Body) != text(e.Body) {
			lib.Bad(i+1, "request %d: %q %q %q with a body of %d, expected %q %q with %d", i+1, r.Method, r.URL, r.Version, len(r.Body), text(e.M), text(e.URL), len(text(e.Body)))
		}
		for _, h := range e.H {
			if v := r.Headers.Get(text(h[0])); v != text(h[1]) {
				lib.Bad(i+1, "request %d: header %s is %q, expected %q", i+1, text(h[0]), v, text(h[1]))
			}
		}
		if len(r.Headers) != len(e.H) {
			lib.Bad(i+1, "request %d: %d headers, expected %d", i+1, len(r.Headers), len(e.H))
		}
		// what the library writes means what it was given
		w := librtsp.Response{StatusCode: s.Code[i], Reason: "Some Reason", Headers: librtsp.Headers{}, Body: []byte(text(e.Body))}
		for _, h := range e.H {
			if k := text(h[0]); k != "content-length" {
				w.Headers.Set(k, text(h[1]))
			}
		}
		var wire []byte
		for k := 0; k < 3; k++ {
			wire = append(wire, w.Bytes()...)
		}
		rb := bufio.NewReader(bytes.NewReader(wire))
		for k := 0; k < 3; k++ {
			p, err := rtspc.ReadResp(rb)
			if err != nil {
				lib.Bad(i+1, "response %d: %v: %q", k+1, err, wire[:min(len(wire), 300)])
			}
			if p.Code != s.Code[i] || p.Reason != "Some Reason" || string(p.Body) != text(e.Body) {
				lib.Bad(i+1, "response %d: %d %q with a body of %d", k+1, p.Code, p.Reason, len(p.Body))
			}
			for _, h := range e.H {
				if key := text(h[0]); key != "content-length" && p.H[key] != text(h[1]) {
					lib.Bad(i+1, "response: header %s is %q, expected %q", key, p.H[key], text(h[1]))
				}
			}
		}
		if rb.Buffered() > 0 {
			lib.Bad(i+1, "bytes behind the responses")
		}
	}
	if r, err := librtsp.ReadRequest(br); err != io.EOF {
		lib.Bad(len(s.Evs), "behind the last request: %v %v", r, err)
	}
}

var (
	once sync.Once
	srv  *srvx.Srv
	mu   sync.Mutex
	next int
)

func live(s scen) {
	lim := lib.D(8 * time.Second)
	once.Do(func() { srv = srvx.Start(srvx.Opt{Apps: []string{"live"}, RTSP: true, FLV: true}) })
	mu.Lock()
	next++
	name := fmt.Sprintf("w%d", next)
	mu.Unlock()
	url := "rtsp://" + srv.Host + ":8554/live/" + name
	c, err := rtspc.Dial(srv.RTSP(), lim)
	if err != nil {
		lib.Missing(0, "%v", err)
	}
	defer c.C.Close()
	c.C.(*net.TCPConn).SetNoDelay(true)
	do := func(m, u string, h []string, body []byte) rtspc.Resp {
		r, err := c.Do(lim, m, u, h, body)
		if err != nil || r.Code != 200 {
			lib.Missing(0, "%s: %d %v", m, r.Code, err)
		}
		return r
	}
	ch := []string{"NUL", "$", "O"}[s.N%3]
	chn := str(ch)[0]
	var rd *flvc.Reader
	var got []int
	var pub *rtmpc.Conn
	var gm sync.Mutex
	if s.Mode == "rec" {
		c.Start()
		do("ANNOUNCE", url, []string{"Content-Type: application/sdp"}, media.SDP(1))
		do("SETUP", url+"/trackID=0", []string{fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d;mode=record", chn, chn+1)}, nil)
		v, err := flvc.Get(srv.HTTP(), "/live/"+name+".flv", lim)
		if err != nil || v.Status != 200 {
			lib.Missing(0, "viewer: %v", err)
		}
		defer v.C.Close()
		v.C.SetReadDeadline(time.Now().Add(3 * lim))
		rd = flvc.NewReader(v.Body)
		if _, err := rd.Next(); err != nil {
			lib.Missing(0, "viewer: %v", err)
		}
		do("RECORD", url, nil, nil)
	} else {
		a, _ := srv.Pipe()
		pub, err = rtmpc.Client(a, lim)
		if err == nil {
			_, err = pub.Connect("live", lim)
		}
		if err == nil {
			_, err = pub.Publish(name, lim)
		}
		if err != nil {
			lib.Missing(0, "publisher: %v", err)
		}
		defer pub.C.Close()
		_, p := media.Msg(media.VHdr, 1)
		pub.Send(rtmpc.Msg{CS: 4, Type: 9, SID: 1, P: p})
		if _, err := pub.Fence(lim); err != nil {
			lib.Missing(0, "publisher: %v", err)
		}
		dep := &rtspc.Depack{}
		c.Frames = func(f rtspc.Frame) {
			gm.Lock()
			defer gm.Unlock()
			if f.Ch != chn {
				got = append(got, -1)
				return
			}
			_, _, _, _, _, pl, err := rtspc.RTPHead(f.P)
			var ns [][]byte
			if err == nil {
				ns, err = dep.H264(pl)
			}
			if err != nil {
				got = append(got, -2)
			}
			for _, n := range ns {
				if k, id := media.NAL(n); k == media.Key {
					got = append(got, id)
				}
			}
		}
		c.Start()
		do("DESCRIBE", url, nil, nil)
		do("SETUP", url+"/trackID=0", []string{fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d", chn, chn+1)}, nil)
		do("PLAY", url, nil, nil)
	}
	seq := uint16(s.N * 131)
	ts := uint32(90000)
	runs := s.chunks(func(i int) []byte {
		h := rtspc.RTP(96, true, seq, ts, 5, nil)
		if s.Items[i].Ch == ch {
			seq++
			ts += 9000
		}
		return h
	})
	fed := 0
	feed := func() {
		if pub == nil {
			return
		}
		fed++
		nal := append(media.IDR(fed), bytes.Repeat([]byte{'$'}, fed%3*1700)...)
		pub.Send(rtmpc.Msg{CS: 4, Type: 9, SID: 1, TS: uint32(fed * 40), P: append([]byte{0x17, 1, 0, 0, 0, byte(len(nal) >> 24), byte(len(nal) >> 16), byte(len(nal) >> 8), byte(len(nal))}, nal...)})
	}
	ended := len(s.Evs) > 0 && s.Evs[len(s.Evs)-1].K == "end"
	for i, b := range runs {
		if len(b) == 0 {
			continue
		}
		if _, err := c.C.Write(b); err != nil && !ended {
			lib.Missing(i, "%v", err)
		}
		if i%7 == 0 && fed < 20 {
			feed()
		}
		if len(runs) < 400 || i%11 == 0 {
			time.Sleep(time.Duration(150+s.N%3*200) * time.Microsecond)
		}
	}
	n := 0
	for i, e := range s.Evs {
		if e.K != "req" {
			continue
		}
		r, err := c.Next(lim)
		if err != nil {
			if errors.Is(err, rtspc.ErrFormat) {
				lib.Bad(i+1, "response to item %d: %v", i+1, err)
			}
			lib.Missing(i+1, "response to item %d (%s): %v", i+1, text(e.M), err)
		}
		if r.Code != s.Code[i] || r.H["cseq"] != fmt.Sprint(i+1) {
			lib.Bad(i+1, "item %d (%s): answered %d with CSeq %q, expected %d", i+1, text(e.M), r.Code, r.H["cseq"], s.Code[i])
		}
		n++
	}
	if rd != nil {
		for i, e := range s.Evs {
			if e.K != "frame" || e.Ch != ch || len(e.P) == 0 {
				continue
			}
			nal := text(e.P)
			want := append([]byte{0x17, 1, 0, 0, 0, byte(len(nal) >> 24), byte(len(nal) >> 16), byte(len(nal) >> 8), byte(len(nal))}, nal...)
			t, err := rd.Next()
			for err == nil && t.Type == 9 && t.P[1] == 0 {
				t, err = rd.Next()
			}
			if err != nil {
				lib.Missing(i+1, "frame of item %d: %v", i+1, err)
			}
			if t.Type != 9 || !bytes.Equal(t.P, want) {
				lib.Bad(i+1, "frame of item %d (%d bytes) came out as %d: % x", i+1, len(nal), len(t.P), t.P[:min(40, len(t.P))])
			}
		}
	}
	if pub != nil && !ended {
		feed()
		end := time.Now().Add(lim)
		for {
			gm.Lock()
			g := append([]int(nil), got...)
			gm.Unlock()
			for k, id := range g {
				if id < 0 || k > 0 && id <= g[k-1] {
					lib.Bad(0, "a player's frames: %v", g)
				}
			}
			if len(g) > 0 && g[len(g)-1] == fed {
				break
			}
			if time.Now().After(end) {
				lib.Missing(0, "a player's frames: %v, expected up to %d", g, fed)
			}
			time.Sleep(200 * time.Microsecond)
		}
	}
	if ended {
		if !c.Closed(lim) {
			lib.Missing(len(s.Evs), "the session goes on behind a malformed request")
		}
	} else {
		if r, err := c.Do(lim, "OPTIONS", "*", nil, nil); err != nil || r.Code != 200 {
			lib.Missing(len(s.Evs), "OPTIONS at the end: %v %v", r, err)
		}
	}
	if c.Pending() > 0 {
		lib.Bad(len(s.Evs), "more responses than requests")
	}
	_ = n
}

func run(raw json.RawMessage) interface{} {
	var s scen
	lib.Dec(raw, &s)
	if s.Mode == "lib" {
		library(s)
	} else {
		live(s)
	}
	return nil
}

func main() { lib.Main(16, run) }
