// Command sdp compares session descriptions, parsed by the library and served by a server, with the specification's.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/sbraveyoung/GGmpeg/librtsp"
	"vh/lib"
	"vh/rtmpc"
	"vh/rtspc"
	"vh/srvx"
)

type track struct {
	Kind    string  `json:"kind"`
	PT      int     `json:"pt"`
	Control string  `json:"control"`
	SPS     [][]int `json:"sps"`
	PPS     [][]int `json:"pps"`
	Rate    int     `json:"rate"`
	Ch      int     `json:"ch"`
	Config  []int   `json:"config"`
}

type media struct {
	Kind    string      `json:"kind"`
	PT      int         `json:"pt"`
	Enc     string      `json:"enc"`
	Clock   int         `json:"clock"`
	Ch      int         `json:"ch"`
	Control string      `json:"control"`
	Params  [][2]string `json:"params"`
}

type vid struct {
	C   string  `json:"c"`
	VPS [][]int `json:"vps"`
	SPS [][]int `json:"sps"`
	PPS [][]int `json:"pps"`
}

type aud struct {
	C      string `json:"c"`
	ST     bool   `json:"st"`
	Config []int  `json:"config"`
}

type step struct {
	Op    string  `json:"op"`
	V     vid     `json:"v"`
	A     aud     `json:"a"`
	Code  int     `json:"code"`
	Media []media `json:"media"`
}

type scen struct {
	Mode     string   `json:"mode"`
	Lines    []string `json:"lines"`
	LF       bool     `json:"lf"`
	Tracks   []track  `json:"tracks"`
	Controls []string `json:"controls"`
	Codecs   []string `json:"codecs"`
	Steps    []step   `json:"steps"`
	Live     bool     `json:"live"`
	Name     string   `json:"name"`
}

func bs(a [][]int) (out [][]byte) {
	for _, x := range a {
		out = append(out, lib.Bytes(x))
	}
	return
}

func eq(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// compare checks what the library made of a text against the tracks in it.
func compare(k int, text string, p *librtsp.ParsedSDP, tracks []track, base string) {
	var v, a *track
	for i := range tracks {
		if tracks[i].Kind == "video" {
			v = &tracks[i]
		} else {
			a = &tracks[i]
		}
	}
	bad := func(f string, x ...interface{}) { lib.Bad(k, "%s in\n%s", fmt.Sprintf(f, x...), text) }
	if p.HasVideo != (v != nil) || p.HasAudio != (a != nil) {
		bad("tracks recovered: video %v, audio %v, expected %v, %v", p.HasVideo, p.HasAudio, v != nil, a != nil)
	}
	if v != nil {
		sps, pps := [][]byte(nil), [][]byte(nil)
		if p.SPS != nil {
			sps = append([][]byte{p.SPS}, p.MoreSPS...)
		}
		if p.PPS != nil {
			pps = append([][]byte{p.PPS}, p.MorePPS...)
		}
		if int(p.VideoPayloadType) != v.PT || p.VideoControl != strings.ReplaceAll(v.Control, "{BASE}", base) {
			bad("video payload type %d, control %q, expected %d, %q", p.VideoPayloadType, p.VideoControl, v.PT, v.Control)
		}
		if !eq(sps, bs(v.SPS)) || !eq(pps, bs(v.PPS)) {
			bad("parameter sets % x, % x, expected % x, % x", sps, pps, bs(v.SPS), bs(v.PPS))
		}
	}
	if a != nil {
		if int(p.AudioPayloadType) != a.PT || p.AudioControl != strings.ReplaceAll(a.Control, "{BASE}", base) || p.AudioRate != a.Rate || p.AudioChans != a.Ch || !bytes.Equal(p.AudioConfig, lib.Bytes(a.Config)) {
			bad("audio payload type %d, control %q, %d Hz, %d channels, configuration % x, expected %+v", p.AudioPayloadType, p.AudioControl, p.AudioRate, p.AudioChans, p.AudioConfig, *a)
		}
	}
}

// describe reads a description strictly.
func describe(text string) (out []media, err error) {
	if !strings.HasSuffix(text, "\r\n") {
		return nil, fmt.Errorf("the last line does not end")
	}
	lines := strings.Split(strings.TrimSuffix(text, "\r\n"), "\r\n")
	const order = "vosiuepcbtrzkam"
	pos, seen := 0, map[byte]int{}
	fmtp := map[string]string{}
	fin := func() {
		if len(out) > 0 {
			m := &out[len(out)-1]
			f, ok := fmtp[strconv.Itoa(m.PT)]
			if ok {
				for _, kv := range strings.Split(f, ";") {
					i := strings.Index(kv, "=")
					if i < 0 {
						err = fmt.Errorf("parameter %q", kv)
						return
					}
					m.Params = append(m.Params, [2]string{strings.ToLower(strings.TrimSpace(kv[:i])), kv[i+1:]})
				}
			}
			fmtp = map[string]string{}
		}
	}
	for _, l := range lines {
		if len(l) < 3 || l[1] != '=' || strings.ContainsAny(l, "\r\n\x00") {
			return nil, fmt.Errorf("line %q", l)
		}
		if len(out) == 0 || l[0] == 'm' {
			p := strings.IndexByte(order, l[0])
			if p < pos && l[0] != 'a' {
				return nil, fmt.Errorf("line %q is out of order", l)
			}
			pos = p
		}
		if len(out) == 0 {
			seen[l[0]]++
		}
		switch l[0] {
		case 'm':
			fin()
			f := strings.Fields(l[2:])
			if len(f) != 4 || f[2] != "RTP/AVP" {
				return nil, fmt.Errorf("line %q", l)
			}
			pt, e := strconv.Atoi(f[3])
			if e != nil || pt < 96 || pt > 127 {
				return nil, fmt.Errorf("line %q", l)
			}
			for _, m := range out {
				if m.PT == pt {
					return nil, fmt.Errorf("payload type %d twice", pt)
				}
			}
			out = append(out, media{Kind: f[0], PT: pt, Ch: 1, Params: [][2]string{}})
		case 'a':
			if len(out) == 0 {
				continue
			}
			m := &out[len(out)-1]
			pre := func(s string) (string, bool) {
				s = fmt.Sprintf("a=%s:%d ", s, m.PT)
				return strings.TrimPrefix(l, s), strings.HasPrefix(l, s)
			}
			if v, ok := pre("rtpmap"); ok {
				f := strings.Split(v, "/")
				if m.Enc != "" || len(f) < 2 || len(f) > 3 {
					return nil, fmt.Errorf("line %q", l)
				}
				m.Enc = f[0]
				if m.Clock, err = strconv.Atoi(f[1]); err != nil {
					return
				}
				if len(f) == 3 {
					if m.Ch, err = strconv.Atoi(f[2]); err != nil {
						return
					}
				}
			} else if v, ok := pre("fmtp"); ok {
				if fmtp[strconv.Itoa(m.PT)] != "" {
					return nil, fmt.Errorf("line %q", l)
				}
				fmtp[strconv.Itoa(m.PT)] = v
			} else if strings.HasPrefix(l, "a=control:") {
				if m.Control != "" {
					return nil, fmt.Errorf("line %q", l)
				}
				m.Control = l[10:]
			} else if strings.HasPrefix(l, "a=rtpmap") || strings.HasPrefix(l, "a=fmtp") {
				return nil, fmt.Errorf("line %q", l)
			}
		}
	}
	fin()
	for _, k := range []byte("vost") {
		if seen[k] != 1 {
			return nil, fmt.Errorf("%d lines %c=", seen[k], k)
		}
	}
	return
}

// matches compares a served description with the specification's.
func matches(k int, text string, want []media) {
	got, err := describe(text)
	if err != nil {
		lib.Bad(k, "malformed description: %v in\n%s", err, text)
	}
	if len(got) != len(want) {
		lib.Bad(k, "%d tracks described, expected %d, in\n%s", len(got), len(want), text)
	}
	for i, g := range got {
		w := want[i]
		if g.Kind != w.Kind || g.PT != w.PT || !strings.EqualFold(g.Enc, w.Enc) || g.Clock != w.Clock || g.Ch != w.Ch || g.Control != w.Control {
			lib.Bad(k, "track %d is %+v, expected %+v", i, g, w)
		}
		have := map[string]string{}
		for _, p := range g.Params {
			if _, dup := have[p[0]]; dup {
				lib.Bad(k, "parameter %s twice in\n%s", p[0], text)
			}
			have[p[0]] = p[1]
		}
		all := map[string]bool{}
		for _, p := range w.Params {
			all[p[0]] = true
			v, ok := have[p[0]]
			if !ok || v != p[1] && !(p[0] != "sprop-parameter-sets" && !strings.HasPrefix(p[0], "sprop-") && strings.EqualFold(v, p[1])) {
				lib.Bad(k, "parameter %s is %q, expected %q, in\n%s", p[0], v, p[1], text)
			}
		}
		for n := range have {
			if strings.HasPrefix(n, "sprop-") && !all[n] && have[n] != "0" {
				lib.Bad(k, "parameter %s=%s in\n%s", n, have[n], text)
			}
		}
	}
}

var (
	once sync.Once
	srv  *srvx.Srv
	mu   sync.Mutex
	next int
)

func start(s scen) (name, esc string) {
	once.Do(func() { srv = srvx.Start(srvx.Opt{Apps: []string{"live"}, RTSP: true}) })
	mu.Lock()
	next++
	name = fmt.Sprintf("s%d%s", next, s.Name)
	mu.Unlock()
	for _, c := range []byte(name) {
		if c >= 'a' && c <= 'z' || c >= '0' && c <= '9' {
			esc += string(c)
		} else {
			esc += fmt.Sprintf("%%%02X", c)
		}
	}
	return
}

func client(lim time.Duration) *rtmpc.Conn {
	a, _ := srv.Pipe()
	c, err := rtmpc.Client(a, lim)
	if err == nil {
		_, err = c.Connect("live", lim)
	}
	if err != nil {
		lib.Missing(0, "connect: %v", err)
	}
	return c
}

func record(v vid) []byte {
	units := func(b []byte, us [][]int) []byte {
		for _, u := range us {
			b = append(append(b, byte(len(u)>>8), byte(len(u))), lib.Bytes(u)...)
		}
		return b
	}
	if v.C == "avc" {
		s := lib.Bytes(v.SPS[0])
		b := units([]byte{1, s[1], s[2], s[3], 0xff, 0xe0 | byte(len(v.SPS))}, v.SPS)
		return units(append(b, byte(len(v.PPS))), v.PPS)
	}
	b := []byte{1, 1, 0x60, 0, 0, 0, 0x90, 0, 0, 0, 0, 0, 93, 0xf0, 0, 0xfc, 0xfd, 0xf8, 0xf8, 0, 0, 0x0f, 3}
	for i, us := range [][][]int{v.VPS, v.SPS, v.PPS} {
		b = units(append(b, 0x80|byte(32+i), 0, byte(len(us))), us)
	}
	return b
}

func serve(s scen) {
	lim := lib.D(10 * time.Second)
	name, esc := start(s)
	c := client(lim)
	defer c.C.Close()
	if code, err := c.Publish(name, lim); err != nil || code != "NetStream.Publish.Start" {
		lib.Missing(0, "publish: %v %v", code, err)
	}
	d, err := rtspc.Dial(srv.RTSP(), lim)
	if err != nil {
		lib.Missing(0, "%v", err)
	}
	defer d.C.Close()
	d.Start()
	for i, e := range s.Steps {
		k := i + 1
		var p []byte
		typ := byte(8)
		switch {
		case e.Op == "video" && e.V.C == "avc":
			typ, p = 9, append([]byte{0x17, 0, 0, 0, 0}, record(e.V)...)
		case e.Op == "video":
			typ, p = 9, append([]byte{0x1c, 0, 0, 0, 0}, record(e.V)...)
		case e.A.C == "aac":
			p = append([]byte{0xaf, 0}, lib.Bytes(e.A.Config)...)
		default:
			p = append([]byte{0xde, 0}, "OpusHead\x01\x01\x00\x00\x80\xbb\x00\x00\x00\x00\x00"...)
			if e.A.ST {
				p[0] |= 1
			}
		}
		c.Send(rtmpc.Msg{CS: 4, Type: typ, SID: 1, TS: uint32(i), P: p})
		if _, err := c.Fence(lim); err != nil {
			lib.Missing(k, "%v", err)
		}
		r, err := d.Do(lim, "DESCRIBE", "rtsp://x/live/"+esc, []string{"Accept: application/sdp"}, nil)
		if err != nil {
			lib.Missing(k, "DESCRIBE: %v", err)
		}
		if r.Code != e.Code {
			lib.Bad(k, "DESCRIBE: %d, expected %d", r.Code, e.Code)
		}
		if r.Code != 200 {
			continue
		}
		if r.H["content-type"] != "application/sdp" {
			lib.Bad(k, "content type %q", r.H["content-type"])
		}
		matches(k, string(r.Body), e.Media)
		// and what the library reads in it
		var ts []track
		for _, m := range e.Media {
			if m.Enc == "H264" {
				ts = append(ts, track{Kind: "video", PT: m.PT, Control: m.Control, SPS: e.V.SPS, PPS: e.V.PPS})
			}
			if m.Enc == "mpeg4-generic" {
				ts = append(ts, track{Kind: "audio", PT: m.PT, Control: m.Control, Rate: m.Clock, Ch: m.Ch, Config: e.A.Config})
			}
		}
		p2, err := librtsp.ParseSDP(r.Body)
		if (err == nil) != (len(ts) > 0) {
			lib.Bad(k, "parsing the server's description: %v\n%s", err, r.Body)
		}
		if err == nil {
			compare(k, string(r.Body), p2, ts, "")
		}
	}
}

func announce(s scen) {
	end := "\r\n"
	if s.LF {
		end = "\n"
	}
	text := strings.Join(s.Lines, end) + end
	// the library
	const any = "rtsp://host/live/x"
	t := strings.ReplaceAll(text, "{BASE}", any)
	p, err := librtsp.ParseSDP([]byte(t))
	if (err == nil) != (len(s.Tracks) > 0) {
		lib.Bad(0, "error %v parsing\n%s", err, t)
	}
	if err == nil {
		compare(0, t, p, s.Tracks, any)
	}
	if !s.Live {
		return
	}
	lim := lib.D(10 * time.Second)
	name, esc := start(s)
	base := "rtsp://" + srv.RTSP() + "/live/" + esc
	d, err := rtspc.Dial(srv.RTSP(), lim)
	if err != nil {
		lib.Missing(0, "%v", err)
	}
	defer d.C.Close()
	d.Start()
	do := func(k int, m, url string, hdr []string, body []byte) rtspc.Resp {
		r, err := d.Do(lim, m, url, hdr, body)
		if err != nil {
			lib.Missing(k, "%s: %v", m, err)
		}
		return r
	}
	want := 200
	if len(s.Tracks) == 0 {
		want = 400
	}
	if r := do(1, "ANNOUNCE", base, []string{"Content-Type: application/sdp"}, []byte(strings.ReplaceAll(text, "{BASE}", base))); r.Code != want {
		lib.Bad(1, "ANNOUNCE: %d, expected %d, for\n%s", r.Code, want, text)
	}
	if want != 200 {
		return
	}
	// every track is known by its control, the others are not
	count := map[string]int{}
	for _, c := range s.Controls {
		count[c]++
	}
	for i, c := range s.Controls {
		if count[c] > 1 {
			continue // ambiguous
		}
		want := 404
		for _, t := range s.Tracks {
			if t.Control == c && t.PT == 94+2*(i+1) {
				want = 200
			}
		}
		url := base
		if strings.HasPrefix(c, "{BASE}") {
			url = strings.ReplaceAll(c, "{BASE}", base)
		} else if c != "" {
			url += "/" + c
		}
		if (len(text)+i)%3 == 0 {
			url += "/"
		}
		if r := do(2+i, "SETUP", url, []string{fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d", 2*i, 2*i+1)}, nil); r.Code != want {
			lib.Bad(2+i, "SETUP of %s (%s): %d, expected %d, for\n%s", url, s.Codecs[i], r.Code, want, text)
		}
	}
	// viewers get the headers of the tracks
	c := client(lim)
	defer c.C.Close()
	c.CmdTxn("createStream", 4, nil)
	c.CmdTxn("play", 5, nil, name)
	msgs, err := c.Fence(lim)
	if err != nil {
		lib.Missing(20, "play: %v", err)
	}
	var need [][]byte
	var v *track
	for j, t := range s.Tracks {
		if t.Kind == "video" && len(t.SPS) > 0 {
			v = &s.Tracks[j]
			need = append(need, append([]byte{0x17, 0, 0, 0, 0}, record(vid{C: "avc", SPS: t.SPS, PPS: t.PPS})...))
		}
		if t.Kind == "audio" {
			b := byte(0xaf)
			if t.Ch == 1 {
				b = 0xae
			}
			need = append(need, append([]byte{b, 0}, lib.Bytes(t.Config)...))
		}
	}
	got := map[string]bool{}
	take := func(ms []rtmpc.Msg) {
		for _, m := range ms {
			if m.Type != 8 && m.Type != 9 {
				continue
			}
			ok := false
			for _, n := range need {
				ok = ok || bytes.Equal(m.P, n)
			}
			if !ok {
				lib.Bad(20, "header % x, expected one of % x, for\n%s", m.P, need, text)
			}
			got[string(m.P)] = true
		}
	}
	take(msgs)
	for dl := time.Now().Add(lim); len(got) < len(need); {
		m, err := c.Next(time.Until(dl))
		if err != nil {
			lib.Missing(20, "%d of %d headers arrive: %v", len(got), len(need), err)
		}
		take([]rtmpc.Msg{m})
	}
	// and a player is told the same
	if v == nil {
		return
	}
	e, err := rtspc.Dial(srv.RTSP(), lim)
	if err != nil {
		lib.Missing(21, "%v", err)
	}
	defer e.C.Close()
	e.Start()
	r, err := e.Do(lim, "DESCRIBE", base, nil, nil)
	if err != nil || r.Code != 200 {
		lib.Missing(21, "DESCRIBE of an announced stream: %d %v", r.Code, err)
	}
	b64 := func(us [][]int) (out []string) {
		for _, u := range us {
			out = append(out, base64.StdEncoding.EncodeToString(lib.Bytes(u)))
		}
		return
	}
	w := []media{}
	for _, t := range s.Tracks {
		if t.Kind == "video" {
			w = append(w, media{Kind: "video", PT: 96, Enc: "H264", Clock: 90000, Ch: 1, Control: "trackID=0", Params: [][2]string{{"sprop-parameter-sets", strings.Join(append(b64(t.SPS), b64(t.PPS)...), ",")}}})
		} else {
			w = append(w, media{Kind: "audio", PT: 97, Enc: "mpeg4-generic", Clock: t.Rate, Ch: t.Ch, Control: "trackID=1", Params: [][2]string{{"config", fmt.Sprintf("%X", lib.Bytes(t.Config))}}})
		}
	}
	sort.SliceStable(w, func(i, j int) bool { return w[i].PT < w[j].PT })
	matches(21, string(r.Body), w)
}

func run(raw json.RawMessage) interface{} {
	var s scen
	lib.Dec(raw, &s)
	if s.Mode == "parse" {
		announce(s)
	} else {
		serve(s)
	}
	return nil
}

func main() { lib.Main(8, run) }
