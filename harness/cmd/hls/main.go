// Command hls feeds streams to the HLS segmenter and records what it lists and writes after every tag.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/sbraveyoung/GGmpeg/libflv"
	"github.com/sbraveyoung/GGmpeg/libhls"
	"vh/lib"
	"vh/media"
	"vh/tsx"
)

type ev struct {
	K string `json:"k"`
	T int    `json:"t"`
	V int    `json:"v"`
	C int    `json:"c"`
	Z int    `json:"z"`
	M int    `json:"m"`
	P int    `json:"p"`
	L int    `json:"l"`
}

type scen struct {
	LL   bool   `json:"ll"`
	HEVC bool   `json:"hevc"`
	NL   int    `json:"nl"` // bytes of a NAL unit's length prefix
	Base int64  `json:"base"`
	Name string `json:"name"`
	Skew int    `json:"skew"` // of the audio timestamps
	Hist []ev   `json:"hist"`
}

type obj = map[string]interface{}

// ---- media

type asc struct{ aot, rate, ch int }

var rates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
var ascs = []asc{{2, 4, 2}, {2, 3, 2}, {2, 5, 1}, {2, 11, 1}, {1, 4, 6}, {5, 6, 2}, {2, 7, 7}, {2, 3, 4}}

type gen struct {
	hevc  bool
	nl    int
	toks  map[string]int // NAL unit -> token
	audio map[string]int // frame -> step
	acfg  map[int]asc    // step of an audio frame -> configuration
	cfg   int
	a     asc
	hdr   []int // parameter sets in force
}

// fill makes up n bytes without start codes in them.
func fill(b []byte, n, seed int) []byte {
	for i := 0; i < n; i++ {
		b = append(b, byte(1+(i*7+seed*13)%255))
	}
	return b
}

func (g *gen) nal(typ, tok, size int) []byte {
	var h []byte
	if g.hevc {
		h = []byte{byte(typ << 1), 1}
	} else {
		h = []byte{map[bool]byte{true: 0x60, false: 0x20}[typ != 6 && typ != 12] | byte(typ)}
	}
	b := append(h, media.Put(tok)...)
	b = fill(b, size, tok)
	b = append(b, 0x80)
	g.toks[string(b)] = tok
	return b
}

func (g *gen) frame(nals [][]byte) []byte {
	var out []byte
	for _, n := range nals {
		l := len(n)
		p := []byte{byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}
		out = append(append(out, p[4-g.nl:]...), n...)
	}
	return out
}

var sizes = []int{0, 1, 10, 130, 160, 170, 178, 184, 400, 3000}

// sets are the parameter sets of configuration k.
func (g *gen) sets(k int) (nals [][]byte, toks []int) {
	types := []int{7, 8, 8}
	if g.hevc {
		types = []int{32, 33, 34}
	}
	if k%3 == 0 && !g.hevc {
		types = []int{7, 8}
	}
	if k%3 == 2 && !g.hevc {
		types = []int{7, 7, 8, 8, 8}
	}
	for i, t := range types {
		tok := 10 + (k*8+i)%900
		nals = append(nals, g.nal(t, tok, 3+k%7))
		toks = append(toks, tok)
	}
	return
}

func be16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }

func (g *gen) record(nals [][]byte) []byte {
	if g.hevc {
		b := []byte{1, 1, 0x60, 0, 0, 0, 0x90, 0, 0, 0, 0, 0, 93, 0xf0, 0, 0xfc, 0xfd, 0xf8, 0xf8, 0, 0, byte(0x0c | g.nl - 1), byte(len(nals))}
		for _, n := range nals {
			b = append(b, 0x80|n[0]>>1, 0, 1)
			b = append(append(b, be16(len(n))...), n...)
		}
		return b
	}
	var sps, pps [][]byte
	for _, n := range nals {
		if n[0]&31 == 7 {
			sps = append(sps, n)
		} else {
			pps = append(pps, n)
		}
	}
	b := []byte{1, 0x42, 0x80, 0x1e, byte(0xfc | g.nl - 1), byte(0xe0 | len(sps))}
	for _, n := range sps {
		b = append(append(b, be16(len(n))...), n...)
	}
	b = append(b, byte(len(pps)))
	for _, n := range pps {
		b = append(append(b, be16(len(n))...), n...)
	}
	return b
}

func aud(hevc bool) []byte {
	if hevc {
		return []byte{35 << 1, 1, 0x50}
	}
	return []byte{9, 0xf0}
}

// picture makes the NAL units of step i; own: it brings SPS and PPS along.
func (g *gen) picture(i int, e ev) (nals [][]byte, toks []int, own bool) {
	key := e.K == "K"
	slot := 0
	add := func(kind string) {
		typ := map[string]int{"I": 5, "S": 1, "sei": 6, "fill": 12}[kind]
		if g.hevc {
			typ = map[string]int{"I": 19, "S": 1, "sei": 39, "fill": 38}[kind]
		}
		size := 3
		s := slot
		if kind == "I" || kind == "S" {
			size = sizes[e.Z%len(sizes)] + i%5
			if g.nl == 1 && size > 240 {
				size = 240 - i%5
			}
		} else {
			s += 5 // no picture data
		}
		tok := 1000 + i*10 + s
		slot++
		nals = append(nals, g.nal(typ, tok, size))
		toks = append(toks, tok)
	}
	sets := func(n int) {
		ns, ts := g.sets(g.cfg)
		for k := range ns {
			if k < n {
				nals, toks = append(nals, ns[k]), append(toks, ts[k])
			}
		}
	}
	delim := func() { nals, toks = append(nals, aud(g.hevc)), append(toks, 9) }
	pic := "S"
	if key {
		pic = "I"
	}
	switch e.V {
	case 2:
		add("sei")
		add(pic)
	case 3:
		delim()
		add("sei")
		add(pic)
	case 4:
		sets(9)
		own = true
		add(pic)
	case 5:
		delim()
		sets(9)
		own = true
		add(pic)
		add(pic)
	case 6:
		add(pic)
		add(pic)
		add("fill")
	case 7:
		sets(1)
		add(pic)
	case 8:
		add("sei")
		if key && !g.hevc {
			add("S") // a recovery point
		} else {
			add(pic)
		}
	default:
		add(pic)
	}
	return
}

// ---- reading playlists and segments

type part struct {
	O, N int
	D    int
	Ind  bool
	Key  bool
	uri  string
}

type seg struct {
	q     int
	d     int
	uri   string
	parts []part
}

type list struct {
	ok      bool
	msn, td int
	segs    []seg
	cq      int
	curi    string
	parts   []part
	hint    int
}

var numRe = regexp.MustCompile(`-(\d+)\.ts$`)
var partRe = regexp.MustCompile(`^#EXT-X-PART:DURATION=([0-9.]+),URI="([^"]*)",BYTERANGE="(\d+)@(\d+)"(,INDEPENDENT=YES)?$`)
var hintRe = regexp.MustCompile(`^#EXT-X-PRELOAD-HINT:TYPE=PART,URI="([^"]*)",BYTERANGE-START=(\d+)$`)

func ms(s string) int {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return -1
	}
	return int(math.Round(f * 1000))
}

func file(uri string) string {
	s, err := url.PathUnescape(uri)
	if err != nil {
		return ""
	}
	return s
}

func num(uri string) int {
	m := numRe.FindStringSubmatch(file(uri))
	if m == nil {
		return -2
	}
	n, _ := strconv.Atoi(m[1])
	return n
}

// parse reads a playlist strictly enough to notice malformed ones.
func parse(b []byte) (l list, err error) {
	l.cq = -1
	if len(b) == 0 {
		return l, nil
	}
	l.ok = true
	l.msn, l.td = -1, -1
	lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	if lines[0] != "#EXTM3U" {
		return l, fmt.Errorf("playlist starts with %q", lines[0])
	}
	var parts []part
	dur := -1
	for _, s := range lines[1:] {
		switch {
		case strings.HasPrefix(s, "#EXT-X-TARGETDURATION:"):
			n, e := strconv.Atoi(s[22:])
			if e != nil || l.td >= 0 {
				return l, fmt.Errorf("%q", s)
			}
			l.td = n * 1000
		case strings.HasPrefix(s, "#EXT-X-MEDIA-SEQUENCE:"):
			n, e := strconv.Atoi(s[22:])
			if e != nil || l.msn >= 0 || len(l.segs) > 0 {
				return l, fmt.Errorf("%q", s)
			}
			l.msn = n
		case strings.HasPrefix(s, "#EXTINF:"):
			c := strings.IndexByte(s, ',')
			if c < 0 || dur >= 0 {
				return l, fmt.Errorf("%q", s)
			}
			dur = ms(s[8:c])
		case strings.HasPrefix(s, "#EXT-X-PART:"):
			m := partRe.FindStringSubmatch(s)
			if m == nil {
				return l, fmt.Errorf("%q", s)
			}
			n, _ := strconv.Atoi(m[3])
			o, _ := strconv.Atoi(m[4])
			parts = append(parts, part{O: o, N: n, D: ms(m[1]), Ind: m[5] != "", uri: m[2]})
		case strings.HasPrefix(s, "#EXT-X-PRELOAD-HINT:"):
			m := hintRe.FindStringSubmatch(s)
			if m == nil || l.cq >= 0 {
				return l, fmt.Errorf("%q", s)
			}
			l.curi, l.cq = m[1], num(m[1])
			l.hint, _ = strconv.Atoi(m[2])
		case strings.HasPrefix(s, "#"):
		case s == "":
			return l, fmt.Errorf("empty line in playlist")
		default:
			if dur < 0 {
				return l, fmt.Errorf("segment %q without duration", s)
			}
			for _, p := range parts {
				if p.uri != s {
					return l, fmt.Errorf("part of %q listed with segment %q", p.uri, s)
				}
			}
			l.segs = append(l.segs, seg{num(s), dur, s, parts})
			dur, parts = -1, nil
		}
	}
	for _, p := range parts {
		if p.uri != l.curi {
			return l, fmt.Errorf("part of %q after the last segment", p.uri)
		}
	}
	l.parts = parts
	if l.td < 0 || l.msn < 0 || dur >= 0 {
		return l, fmt.Errorf("incomplete playlist")
	}
	return l, nil
}

type content struct {
	b   []byte
	sum [32]byte
}

const wrap = int64(1) << 33

func rel(x uint64, base int64) int {
	d := (int64(x) - base*90) % wrap
	if d < 0 {
		d += wrap
	}
	if d >= wrap/2 {
		d -= wrap
	}
	if d > 1<<30 || d < -(1<<30) {
		d = 1 << 30
	}
	return int(d)
}

func (g *gen) tokens(payload []byte) []int {
	nals, err := tsx.NALs(payload)
	if err != nil {
		return []int{-1}
	}
	out := []int{}
	for _, n := range nals {
		if bytes.Equal(n, aud(g.hevc)) {
			out = append(out, 9)
		} else if t, ok := g.toks[string(n)]; ok {
			out = append(out, t)
		} else {
			out = append(out, -2)
		}
	}
	return out
}

// take reads one segment.
func (g *gen) take(q int, b []byte, base int64) obj {
	vs, as := []obj{}, []obj{}
	bad := ""
	fail := func(f string, a ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	st, err := tsx.Demux(b)
	if err != nil {
		fail("not valid MPEG-TS: %v", err)
	}
	if len(st.Tables) < 2 || st.Tables[0].Packet != 0 || st.Tables[0].PID != 0 || st.Tables[1].Packet != 1 || st.Tables[1].ID != 2 {
		fail("segment does not start with PAT and PMT")
	}
	pcr := -1
	for _, t := range st.Tables {
		if t.ID == 2 {
			pcr = t.PCR
			v := 0x1b
			if g.hevc {
				v = 0x24
			}
			seen := map[int]bool{}
			for _, k := range t.Streams {
				seen[k] = true
			}
			if !seen[v] || len(t.Streams) > 2 {
				fail("PMT lists %v", t.Streams)
			}
		}
	}
	first := true
	for _, u := range st.Units {
		switch {
		case u.SID&0xf0 == 0xe0:
			if first {
				first = false
				if !u.RAI || u.PCR < 0 {
					fail("segment's first picture is no random access point with PCR")
				}
			}
			if u.PCR >= 0 {
				if d := rel(u.DTS, 0) - rel(uint64(u.PCR), 0); d < 0 || d > 90000 {
					fail("PCR %d for decoding time %d", u.PCR, u.DTS)
				}
				if u.PID != pcr {
					fail("PCR on PID %d, not %d", u.PID, pcr)
				}
			}
			vs = append(vs, obj{"d": rel(u.DTS, base), "p": rel(u.PTS, base), "n": g.tokens(u.Payload)})
		case u.SID&0xe0 == 0xc0:
			fs, err := tsx.ADTS(u.Payload)
			if err != nil {
				fail("audio: %v", err)
			}
			p := float64(rel(u.PTS, base))
			for _, f := range fs {
				id := g.audio[string(f.Data)]
				if id > 0 {
					a := g.acfg[id]
					want := a.aot
					if want == 5 {
						want = 2
					}
					if f.Profile != want || f.Rate != a.rate || f.Chan != a.ch {
						fail("ADTS header says %d/%d/%d for configuration %v", f.Profile, f.Rate, f.Chan, a)
					}
				}
				as = append(as, obj{"id": id, "p": int(math.Round(p))})
				if f.Rate < len(rates) {
					p += 1024 * 90000 / float64(rates[f.Rate])
				}
			}
		default:
			fail("stream %02x", u.SID)
		}
	}
	return obj{"q": q, "bad": bad, "v": vs, "a": as}
}

// ---- feeding

type reader struct {
	ask chan struct{}
	tag chan interface{}
}

func (r *reader) Read() (interface{}, bool) {
	r.ask <- struct{}{}
	t, ok := <-r.tag
	return t, ok
}

type waiter struct {
	m, p, l int
	began   time.Time
	mu      sync.Mutex
	done    bool
	e       int
	res     list
	over    bool
}

func sat(l list, m, p int) bool {
	n := 0
	if len(l.segs) > 0 {
		n = l.segs[len(l.segs)-1].q + 1
	}
	return m < n || p >= 0 && m == n && l.cq == m && p < len(l.parts)
}

func run(raw json.RawMessage) interface{} {
	var s scen
	lib.Dec(raw, &s)
	dir := lib.Scratch()
	defer os.RemoveAll(dir)
	sub := filepath.Join(dir, "seg")
	g := &gen{hevc: s.HEVC, nl: s.NL, toks: map[string]int{}, audio: map[string]int{}, acfg: map[int]asc{}, hdr: []int{}}
	if g.nl == 0 {
		g.nl = 4
	}
	h := libhls.NewHls().WithStreamID(s.Name).WithDir(sub).WithLowLatency(s.LL)
	r := &reader{make(chan struct{}), make(chan interface{})}
	ended := make(chan error, 1)
	go func() { ended <- h.Start(r) }()
	finished := false
	sync1 := func(i int) {
		select {
		case <-r.ask:
		case err := <-ended:
			finished = true
			if err != nil {
				lib.Bad(i, "segmenter gave up: %v", err)
			}
		case <-time.After(lib.D(15 * time.Second)):
			lib.Missing(i, "segmenter does not ask for the next tag")
		}
	}
	sync1(0)

	cont := map[int]*content{}
	segs := []obj{}
	var waits []*waiter
	// a client that polls all the time
	var pmu sync.Mutex
	sizes := map[int]int64{}
	pollBad := ""
	quit := make(chan struct{})
	var pwg sync.WaitGroup
	pwg.Add(1)
	go func() {
		defer pwg.Done()
		for {
			select {
			case <-quit:
				return
			default:
			}
			l, _ := parse(h.Playlist())
			for _, x := range l.segs {
				fi, err := os.Stat(filepath.Join(sub, file(x.uri)))
				if err != nil {
					l2, _ := parse(h.Playlist())
					for _, y := range l2.segs {
						if y.uri == x.uri {
							if _, err := os.Stat(filepath.Join(sub, file(x.uri))); err != nil {
								l3, _ := parse(h.Playlist())
								for _, z := range l3.segs {
									if z.uri == x.uri {
										pmu.Lock()
										pollBad = fmt.Sprintf("segment %s is listed without its file", x.uri)
										pmu.Unlock()
									}
								}
							}
						}
					}
					continue
				}
				pmu.Lock()
				if n, ok := sizes[x.q]; ok && n != fi.Size() {
					pollBad = fmt.Sprintf("segment %s grew from %d to %d bytes after it was listed", x.uri, n, fi.Size())
				}
				sizes[x.q] = fi.Size()
				pmu.Unlock()
			}
			runtime.Gosched()
			time.Sleep(50 * time.Microsecond)
		}
	}()
	defer func() { close(quit); pwg.Wait() }()

	steps := []obj{}
	look := func(i int, e obj) {
		raw := h.Playlist()
		l, err := parse(raw)
		if err != nil {
			lib.Bad(i, "malformed playlist: %v\n%s", err, raw)
		}
		ents, _ := os.ReadDir(sub)
		files, junk := []int{}, 0
		for _, f := range ents {
			if n := num(url.PathEscape(f.Name())); n >= 0 && !f.IsDir() {
				files = append(files, n)
			} else {
				junk++
			}
		}
		if up, _ := os.ReadDir(dir); len(up) > 1 {
			junk += len(up) - 1
		}
		sort.Ints(files)
		inspect := func(uri string, ps []part) []obj {
			out := []obj{}
			var b []byte
			if len(ps) > 0 {
				b, _ = os.ReadFile(filepath.Join(sub, file(uri)))
			}
			for _, p := range ps {
				if p.Ind && p.O+p.N <= len(b) && p.O >= 0 {
					if st, err := tsx.Demux(b[p.O : p.O+p.N]); len(st.Tables) >= 2 && st.Tables[0].Packet == 0 {
						_ = err // a part may end within a unit that goes on
						for _, u := range st.Units {
							if u.SID&0xf0 == 0xe0 {
								p.Key = u.RAI
								break
							}
						}
					}
				}
				out = append(out, obj{"o": p.O, "n": p.N, "d": p.D, "ind": p.Ind, "key": p.Key})
			}
			return out
		}
		ss := []obj{}
		for _, x := range l.segs {
			b, err := os.ReadFile(filepath.Join(sub, file(x.uri)))
			same := err == nil
			if c := cont[x.q]; c == nil {
				cont[x.q] = &content{b, sha256.Sum256(b)}
				segs = append(segs, g.take(x.q, b, s.Base))
			} else if same {
				same = c.sum == sha256.Sum256(b)
			}
			ss = append(ss, obj{"q": x.q, "d": x.d, "same": same, "n": len(b), "parts": inspect(x.uri, x.parts)})
		}
		pmu.Lock()
		for q, n := range sizes {
			if c := cont[q]; c != nil && int64(len(c.b)) != n {
				pollBad = fmt.Sprintf("segment %d had %d of %d bytes when it was listed", q, n, len(c.b))
			}
		}
		if pollBad != "" {
			lib.Bad(i, "%s", pollBad)
		}
		pmu.Unlock()
		cn := 0
		if l.cq >= 0 {
			if fi, err := os.Stat(filepath.Join(sub, file(l.curi))); err == nil {
				cn = int(fi.Size())
			}
		}
		ws := []obj{}
		stopped := e["k"] == "S"
		for _, w := range waits {
			get := func() (bool, obj) {
				w.mu.Lock()
				defer w.mu.Unlock()
				el := w.e
				if !w.done {
					el = int(time.Since(w.began) / time.Millisecond)
				}
				n, q := 0, w.res.cq
				if len(w.res.segs) > 0 {
					n = w.res.segs[len(w.res.segs)-1].q + 1
				}
				return w.done, obj{"m": w.m, "p": w.p, "l": w.l, "e": el, "done": w.done, "rc": n, "rq": q, "rn": len(w.res.parts), "over": w.over}
			}
			due := stopped || !s.LL || sat(l, w.m, w.p) || e["k"] == "T" && w.l < 1000
			dl := time.Now().Add(lib.D(8 * time.Second))
			ok, o := get()
			for due && !ok && time.Now().Before(dl) {
				time.Sleep(time.Millisecond)
				ok, o = get()
			}
			if !ok && !due {
				time.Sleep(300 * time.Microsecond)
				_, o = get()
			}
			ws = append(ws, o)
		}
		// requests that have their answer need not be looked at again
		var left []*waiter
		for k, w := range waits {
			if ws[k]["done"] != true {
				left = append(left, w)
			}
		}
		waits = left
		pl := obj{"ok": l.ok, "msn": l.msn, "td": l.td, "segs": ss, "cq": l.cq, "cn": cn, "np": len(l.parts), "parts": inspect(l.curi, l.parts), "hint": l.hint}
		steps = append(steps, obj{"e": e, "o": obj{"pl": pl, "files": files, "junk": junk, "w": ws}})
	}

	hist := append([]ev{{K: "H", V: 1 + len(s.Hist)%len(ascs)}}, s.Hist...)
	if hist[len(hist)-1].K == "Z" {
		hist = append(hist, ev{K: "S", T: hist[len(hist)-1].T})
	}
	for i0, e := range hist {
		i := i0 + 1
		o := obj{"k": e.K, "t": e.T, "c": e.C, "n": []int{}, "h": []int{}, "own": false}
		ts := uint32(s.Base + int64(e.T))
		var tag interface{}
		video := func(first, typ byte, cts int, data []byte) {
			b := append([]byte{first, typ, byte(cts >> 16), byte(cts >> 8), byte(cts)}, data...)
			t, err := libflv.ParseVideoTag(libflv.TagBase{TagType: libflv.VIDEO_TAG, DataSize: uint32(len(b)), TimeStamp: ts}, b)
			if err != nil {
				lib.Bad(i, "ParseVideoTag: %v", err)
			}
			tag = t
		}
		audio := func(b []byte, at uint32) {
			t, err := libflv.ParseAudioTag(libflv.TagBase{TagType: libflv.AUDIO_TAG, DataSize: uint32(len(b)), TimeStamp: at}, b)
			if err != nil {
				lib.Bad(i, "ParseAudioTag: %v", err)
			}
			tag = t
		}
		codec := byte(7)
		if s.HEVC {
			codec = 12
		}
		switch e.K {
		case "V":
			g.cfg++
			ns, toks := g.sets(g.cfg)
			g.hdr = toks
			video(0x10|codec, 0, 0, g.record(ns))
		case "H":
			g.a = ascs[(e.V-1)%len(ascs)]
			audio([]byte{0xaf, 0, byte(g.a.aot<<3 | g.a.rate>>1), byte(g.a.rate<<7 | g.a.ch<<3)}, ts)
		case "K", "P":
			ns, toks, own := g.picture(i, e)
			o["n"], o["own"], o["h"] = toks, own, g.hdr
			first := 0x20 | codec
			if e.K == "K" {
				first = 0x10 | codec
			}
			if i%7 == 3 && e.K == "P" {
				first = 0x30 | codec // disposable
			}
			video(first, 1, e.C, g.frame(ns))
		case "A":
			t := e.T + s.Skew
			if t < 0 {
				t = 0
			}
			o["t"] = t
			b := fill(media.Put(i), []int{1, 20, 160, 178, 184, 371, 600, 1500, 0, 40}[e.Z%10], i)
			g.audio[string(b)] = i
			g.acfg[i] = g.a
			audio(append([]byte{0xaf, 1}, b...), uint32(s.Base+int64(t)))
		case "E":
			video(0x10|codec, 2, 0, nil)
		case "M":
			tag = &libflv.MetaTag{TagBase: libflv.TagBase{TagType: libflv.SCRIPT_DATA_TAG, TimeStamp: ts}}
		case "W":
			w := &waiter{m: e.M, p: e.P, l: e.L, began: time.Now()}
			waits = append(waits, w)
			started := make(chan struct{})
			go func() {
				close(started)
				b := h.WaitForPlaylist(w.m, w.p, time.Duration(w.l)*time.Millisecond)
				el := int(time.Since(w.began) / time.Millisecond)
				l, _ := parse(b)
				w.mu.Lock()
				w.res, w.done, w.e = l, true, el
				w.mu.Unlock()
			}()
			<-started
			time.Sleep(300 * time.Microsecond)
		case "T":
			for _, w := range waits {
				if d := time.Until(w.began.Add(time.Duration(w.l+20) * time.Millisecond)); w.l < 1000 && d > 0 {
					time.Sleep(d)
				}
			}
		case "Z":
			close(r.tag)
			select {
			case err := <-ended:
				finished = true
				if err != nil {
					lib.Bad(i, "segmenter gave up: %v", err)
				}
			case <-time.After(lib.D(15 * time.Second)):
				lib.Missing(i, "segmenter does not end with its stream")
			}
		case "S":
			for _, w := range waits {
				w.mu.Lock()
				w.over = !w.done
				w.mu.Unlock()
			}
			h.Stop()
		}
		if tag != nil && !finished {
			r.tag <- tag
			sync1(i)
		}
		look(i, o)
	}
	if !finished {
		// tags that come after the stop leave no trace
		for k := 0; k < 3 && !finished; k++ {
			b := append([]byte{0x17, 1, 0, 0, 0}, g.frame([][]byte{g.nal(5, 1000+k, 10)})...)
			t, _ := libflv.ParseVideoTag(libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: uint32(s.Base + 3000000 + int64(k)*3000)}, b)
			r.tag <- t
			sync1(len(hist))
		}
		if !finished {
			close(r.tag)
			<-ended
		}
	}
	look(len(hist), obj{"k": "S", "t": 0, "c": 0, "n": []int{}, "h": []int{}, "own": false})
	return obj{"ll": s.LL, "steps": steps, "content": segs}
}

func main() { lib.Main(8, run) }
