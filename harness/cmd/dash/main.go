// Command dash feeds streams to the DASH segmenter and records what it announces and writes after every tag.
package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/sbraveyoung/GGmpeg/libdash"
	"github.com/sbraveyoung/GGmpeg/libflv"
	"vh/lib"
	"vh/media"
	"vh/mp4x"
)

type ev struct {
	K string `json:"k"`
	T int    `json:"t"`
	V int    `json:"v"`
	C int    `json:"c"`
	Z int    `json:"z"`
}

type cfg struct {
	HEVC   bool   `json:"hevc"`
	Space  int    `json:"space"`
	Prof   int    `json:"prof"`
	Tier   int    `json:"tier"`
	Compat [2]int `json:"compat"`
	Cons   []int  `json:"cons"`
	Lvl    int    `json:"lvl"`
	W      int    `json:"w"`
	H      int    `json:"h"`
	Poc    int    `json:"poc"`   // picture order count type
	Field  bool   `json:"field"` // field coding possible
	Sub    []int  `json:"sub"`   // present flags of the sub-layers
	Ord    int    `json:"ord"`   // order of parameter sets in the record
	NL     int    `json:"nl"`
	ID     int    `json:"id"`  // id of the sequence parameter set
	Off    [3]int `json:"off"` // picture order count offsets
	Chroma int    `json:"chroma"`
}

type scen struct {
	Cfgs []cfg  `json:"cfgs"`
	Base int64  `json:"base"`
	Name string `json:"name"`
	Hist []ev   `json:"hist"`
}

type obj = map[string]interface{}

// ---- parameter sets

type bw struct {
	b []byte
	n int
}

func (w *bw) u(v uint32, n int) {
	for i := n - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[w.n/8] |= byte(v>>uint(i)&1) << uint(7-w.n%8)
		w.n++
	}
}

func (w *bw) ue(v uint32) {
	v++
	n := 0
	for x := v; x > 1; x >>= 1 {
		n++
	}
	w.u(0, n)
	w.u(v, n+1)
}

func (w *bw) end() []byte {
	w.u(1, 1)
	return w.b
}

// escape puts emulation prevention bytes in.
func escape(b []byte) (out []byte) {
	z := 0
	for _, x := range b {
		if z >= 2 && x <= 3 {
			out = append(out, 3)
			z = 0
		}
		out = append(out, x)
		if x == 0 {
			z++
		} else {
			z = 0
		}
	}
	return
}

func (c cfg) avcSPS() []byte {
	w := &bw{}
	w.ue(uint32(c.ID))
	switch c.Prof {
	case 100, 110, 122, 244:
		w.ue(uint32(c.Chroma))
		if c.Chroma == 3 {
			w.u(0, 1)
		}
		w.ue(0)
		w.ue(0)
		w.u(0, 2)
	}
	w.ue(2)
	w.ue(uint32(c.Poc))
	switch c.Poc {
	case 0:
		w.ue(4)
	case 1:
		w.u(0, 1)
		w.ue(uint32(c.Off[0]))
		w.ue(uint32(c.Off[1]))
		w.ue(2)
		w.ue(1)
		w.ue(uint32(c.Off[2]))
	}
	w.ue(4)
	w.u(0, 1)
	w.ue(uint32(c.W/16 - 1))
	if c.Field {
		w.ue(uint32(c.H/32 - 1))
		w.u(0, 1)
		w.u(0, 1)
	} else {
		w.ue(uint32(c.H/16 - 1))
		w.u(1, 1)
	}
	w.u(1, 1)
	w.u(0, 2)
	return append([]byte{0x67}, escape(append([]byte{byte(c.Prof), byte(c.Cons[0]), byte(c.Lvl)}, w.end()...))...)
}

func (c cfg) hevcSPS() []byte {
	w := &bw{}
	w.u(0, 4)
	w.u(uint32(len(c.Sub)), 3)
	w.u(1, 1)
	w.u(uint32(c.Space), 2)
	w.u(uint32(c.Tier), 1)
	w.u(uint32(c.Prof), 5)
	w.u(uint32(c.Compat[0]), 16)
	w.u(uint32(c.Compat[1]), 16)
	for _, x := range c.Cons {
		w.u(uint32(x), 8)
	}
	w.u(uint32(c.Lvl), 8)
	for _, f := range c.Sub {
		w.u(uint32(f), 2)
	}
	if len(c.Sub) > 0 {
		for i := len(c.Sub); i < 8; i++ {
			w.u(0, 2)
		}
	}
	for _, f := range c.Sub {
		if f&2 != 0 {
			for k := 0; k < 11; k++ {
				w.u(0x61, 8)
			}
		}
		if f&1 != 0 {
			w.u(90, 8)
		}
	}
	w.ue(uint32(c.ID))
	w.ue(uint32(c.Chroma))
	if c.Chroma == 3 {
		w.u(0, 1)
	}
	w.ue(uint32(c.W))
	w.ue(uint32(c.H))
	w.u(0, 1)
	w.ue(0)
	w.ue(0)
	w.ue(4)
	return append([]byte{33 << 1, 1}, escape(w.end())...)
}

func l16(b []byte, n []byte) []byte { return append(append(b, byte(len(n)>>8), byte(len(n))), n...) }

func (c cfg) record(k int) []byte {
	tail := media.Put(k)
	if c.HEVC {
		b := []byte{1, byte(c.Space<<6 | c.Tier<<5 | c.Prof), byte(c.Compat[0] >> 8), byte(c.Compat[0]), byte(c.Compat[1] >> 8), byte(c.Compat[1])}
		for _, x := range c.Cons {
			b = append(b, byte(x))
		}
		b = append(b, byte(c.Lvl), 0xf0, 0, 0xfc, 0xfd, 0xf8, 0xf8, 0, 0, byte(0x0c|c.NL-1))
		sets := [][]byte{append([]byte{32 << 1, 1}, tail...), c.hevcSPS(), append([]byte{34 << 1, 1}, tail...), append([]byte{39 << 1, 1}, tail...)}
		order := [][]int{{0, 1, 2}, {0, 0, 1, 2}, {1, 0, 2}, {3, 0, 2, 1}}[c.Ord%4]
		var arr []byte
		n := 0
		for i := 0; i < len(order); i++ {
			j := i
			for j+1 < len(order) && order[j+1] == order[i] {
				j++
			}
			arr = append(arr, 0x80|sets[order[i]][0]>>1, 0, byte(j-i+1))
			for x := i; x <= j; x++ {
				arr = l16(arr, sets[order[x]])
			}
			n++
			i = j
		}
		return append(append(b, byte(n)), arr...)
	}
	b := []byte{1, byte(c.Prof), byte(c.Cons[0]), byte(c.Lvl), byte(0xfc | c.NL - 1), byte(0xe1 + c.Ord%2)}
	b = l16(b, c.avcSPS())
	if c.Ord%2 == 1 {
		b = l16(b, append([]byte{0x67, 66, 0, 30}, tail...))
	}
	return l16(append(b, 1), append([]byte{0x68, 0xce}, tail...))
}

// ---- the manifest

type mpd struct {
	XMLName xml.Name `xml:"urn:mpeg:dash:schema:mpd:2011 MPD"`
	Type    string   `xml:"type,attr"`
	AST     string   `xml:"availabilityStartTime,attr"`
	Pub     string   `xml:"publishTime,attr"`
	Min     string   `xml:"minBufferTime,attr"`
	Upd     string   `xml:"minimumUpdatePeriod,attr"`
	Shift   string   `xml:"timeShiftBufferDepth,attr"`
	Prof    string   `xml:"profiles,attr"`
	Period  []struct {
		Start string `xml:"start,attr"`
		AS    []struct {
			Mime string `xml:"mimeType,attr"`
			Rep  []struct {
				ID     string `xml:"id,attr"`
				Codecs string `xml:"codecs,attr"`
				BW     int    `xml:"bandwidth,attr"`
				W      int    `xml:"width,attr"`
				H      int    `xml:"height,attr"`
				Tmpl   []struct {
					TS    int    `xml:"timescale,attr"`
					Dur   int64  `xml:"duration,attr"`
					Start int    `xml:"startNumber,attr"`
					Init  string `xml:"initialization,attr"`
					Media string `xml:"media,attr"`
				} `xml:"SegmentTemplate"`
			} `xml:"Representation"`
		} `xml:"AdaptationSet"`
	} `xml:"Period"`
}

var durRe = regexp.MustCompile(`^PT[0-9]+(\.[0-9]+)?S$`)

type man struct {
	ok           bool
	start, dur   int
	ts, w, h     int
	codec        []int
	init, media  string
	ast          string
}

func hex(s string) int {
	n, err := strconv.ParseUint(s, 16, 32)
	if err != nil {
		return -1
	}
	return int(n)
}

func codecs(s string) []int {
	p := strings.Split(s, ".")
	if p[0] == "avc1" && len(p) == 2 && len(p[1]) == 6 {
		return []int{1, hex(p[1][:2]), hex(p[1][2:4]), hex(p[1][4:])}
	}
	if (p[0] == "hev1" || p[0] == "hvc1") && len(p) >= 4 && len(p[1]) > 0 && len(p[3]) > 1 {
		space := 0
		if c := p[1][0]; c >= 'A' && c <= 'C' {
			space = int(c-'A') + 1
			p[1] = p[1][1:]
		}
		prof, e1 := strconv.Atoi(p[1])
		lvl, e2 := strconv.Atoi(p[3][1:])
		comp := hex(p[2])
		tier := strings.IndexByte("LH", p[3][0])
		if e1 != nil || e2 != nil || comp < 0 || tier < 0 {
			return []int{-1}
		}
		out := []int{2, space, prof, comp >> 16, comp & 0xffff, tier, lvl}
		for _, x := range p[4:] {
			out = append(out, hex(x))
		}
		return out
	}
	return []int{0}
}

func parse(b []byte) (m man, err error) {
	m.codec = []int{}
	if len(b) == 0 {
		return
	}
	var x mpd
	d := xml.NewDecoder(bytes.NewReader(b))
	if err = d.Decode(&x); err != nil {
		return
	}
	if x.Type != "dynamic" || !durRe.MatchString(x.Min) || !durRe.MatchString(x.Upd) || !durRe.MatchString(x.Shift) || x.Prof == "" {
		return m, fmt.Errorf("attributes of the manifest")
	}
	for _, s := range []string{x.AST, x.Pub} {
		t, e := time.Parse(time.RFC3339, s)
		if e != nil || time.Since(t) > time.Hour || time.Since(t) < -time.Minute {
			return m, fmt.Errorf("time %q", s)
		}
	}
	if len(x.Period) != 1 || len(x.Period[0].AS) != 1 || len(x.Period[0].AS[0].Rep) != 1 || len(x.Period[0].AS[0].Rep[0].Tmpl) != 1 {
		return m, fmt.Errorf("structure of the manifest")
	}
	a := x.Period[0].AS[0]
	r := a.Rep[0]
	t := r.Tmpl[0]
	if a.Mime != "video/mp4" || r.ID == "" || r.BW <= 0 {
		return m, fmt.Errorf("representation")
	}
	return man{true, t.Start, int(t.Dur), t.TS, r.W, r.H, codecs(r.Codecs), t.Init, t.Media, x.AST}, nil
}

// number is the segment number file has according to the template, -1 if it is no segment.
func number(tmpl, file string) int {
	p := strings.SplitN(tmpl, "$Number$", 2)
	if len(p) != 2 {
		return -1
	}
	pre, e1 := url.PathUnescape(p[0])
	suf, e2 := url.PathUnescape(p[1])
	if e1 != nil || e2 != nil || !strings.HasPrefix(file, pre) || !strings.HasSuffix(file, suf) || len(file) <= len(pre)+len(suf) {
		return -1
	}
	s := file[len(pre) : len(file)-len(suf)]
	n, err := strconv.Atoi(s)
	if err != nil || strconv.Itoa(n) != s {
		return -1
	}
	return n
}

func resolve(tmpl string, n int) string {
	s, err := url.PathUnescape(strings.ReplaceAll(tmpl, "$Number$", strconv.Itoa(n)))
	if err != nil || strings.ContainsAny(s, "/?#") {
		return "\x00"
	}
	return s
}

// ---- feeding

type reader struct {
	ask chan struct{}
	tag chan interface{}
}

func (r *reader) Read() (interface{}, bool) {
	r.ask <- struct{}{}
	t, ok := <-r.tag
	return t, ok
}

func run(raw json.RawMessage) interface{} {
	var s scen
	lib.Dec(raw, &s)
	dir := lib.Scratch()
	defer os.RemoveAll(dir)
	sub := filepath.Join(dir, "seg")
	h := libdash.NewDASH().WithStreamID(s.Name).WithDir(sub)
	r := &reader{make(chan struct{}), make(chan interface{})}
	ended := make(chan error, 1)
	var mu sync.Mutex
	first := false
	go func() {
		h.WaitFirstSegment()
		mu.Lock()
		first = true
		mu.Unlock()
	}()
	go func() { ended <- h.Start(r) }()
	finished := false
	sync1 := func(i int) {
		select {
		case <-r.ask:
		case err := <-ended:
			finished = true
			if err != nil {
				lib.Bad(i, "segmenter gave up: %v", err)
			}
		case <-time.After(lib.D(15 * time.Second)):
			lib.Missing(i, "segmenter does not ask for the next tag")
		}
	}
	sync1(0)

	// a client that polls all the time: what the manifest starts with is there, whole
	var pmu sync.Mutex
	poll := ""
	sizes := map[int]int64{}
	quit := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-quit:
				return
			default:
			}
			m, err := parse(h.Manifest())
			if err == nil && m.ok {
				f := filepath.Join(sub, resolve(m.media, m.start))
				fi, e := os.Stat(f)
				_, e2 := os.Stat(filepath.Join(sub, resolve(m.init, 0)))
				m2, _ := parse(h.Manifest())
				pmu.Lock()
				if m2.ok && m2.start == m.start {
					if e != nil || e2 != nil {
						poll = fmt.Sprintf("the manifest starts with segment %d, whose file or init segment is not there: %v %v", m.start, e, e2)
					} else {
						if n, ok := sizes[m.start]; ok && n != fi.Size() {
							poll = fmt.Sprintf("segment %d grew from %d to %d bytes when it was available", m.start, n, fi.Size())
						}
						sizes[m.start] = fi.Size()
					}
				}
				pmu.Unlock()
			}
			time.Sleep(50 * time.Microsecond)
		}
	}()
	defer func() { close(quit); wg.Wait() }()

	sent := map[string]int{} // sample -> step
	recs := map[string]int{} // configuration record -> number
	cont := map[int][]byte{}
	content := []obj{}
	steps := []obj{}
	ast := ""
	shift := int64(0)
	take := func(q int, b []byte) obj {
		o := obj{"q": q, "bad": "", "seq": 0, "base": 0, "s": []obj{}}
		g, err := mp4x.Media(b)
		if err != nil {
			o["bad"] = err.Error()
			return o
		}
		if g.ID != 1 {
			o["bad"] = "track id"
		}
		o["seq"] = int(g.Seq)
		d := int64(g.Base) - s.Base
		if q == 0 { // the first timestamp is known modulo 2^32
			for shift = 0; d+shift < -(1 << 31); shift += 1 << 32 {
			}
		}
		d += shift
		if d < -(1<<30) || d > 1<<30 {
			d = -(1 << 30)
		}
		o["base"] = int(d)
		ss := []obj{}
		for _, x := range g.Samples {
			dur := x.Dur
			if dur > 1<<30 {
				dur = 1 << 30
			}
			ss = append(ss, obj{"i": sent[string(x.Data)], "n": len(x.Data), "d": int(dur), "c": int(int32(x.CTS)), "key": x.Key})
		}
		o["s"] = ss
		return o
	}
	look := func(i int, e ev) {
		raw := h.Manifest()
		m, err := parse(raw)
		if err != nil {
			lib.Bad(i, "malformed manifest: %v\n%s", err, raw)
		}
		if m.ok {
			if ast == "" {
				ast = m.ast
			} else if ast != m.ast {
				lib.Bad(i, "availability start time changes from %s to %s", ast, m.ast)
			}
		}
		ents, _ := os.ReadDir(sub)
		tm, ti := m.media, m.init
		if !m.ok { // the names it will have
			n := url.PathEscape(url.QueryEscape(s.Name))
			tm, ti = n+"-$Number$.m4s", n+"-init.mp4"
		}
		files, junk, init := []int{}, 0, false
		same := true
		for _, f := range ents {
			if n := number(tm, f.Name()); n >= 0 && !f.IsDir() {
				files = append(files, n)
			} else if f.Name() == resolve(ti, 0) {
				init = true
			} else {
				junk++
			}
		}
		if up, _ := os.ReadDir(dir); len(up) > 1 {
			junk += len(up) - 1
		}
		sort.Ints(files)
		for _, n := range files {
			b, err := os.ReadFile(filepath.Join(sub, resolve(tm, n)))
			if err != nil {
				same = false
			} else if old, ok := cont[n]; !ok {
				cont[n] = b
				content = append(content, take(n, b))
			} else if !bytes.Equal(old, b) {
				same = false
			}
		}
		ic := 0
		ini := obj{"w": 0, "h": 0, "ts": 0, "id": 0}
		if init {
			b, _ := os.ReadFile(filepath.Join(sub, resolve(ti, 0)))
			if !bytes.Equal(b, h.InitSegment()) {
				lib.Bad(i, "the init segment in the directory is not the one handed out")
			}
			t, err := mp4x.Init(b)
			if err != nil {
				lib.Bad(i, "init segment: %v", err)
			}
			ic = recs[t.Entry+string(t.Record)]
			ini = obj{"w": t.W, "h": t.H, "ts": t.TS, "id": t.ID}
		}
		pmu.Lock()
		for q, n := range sizes {
			if b, ok := cont[q]; ok && int64(len(b)) != n {
				poll = fmt.Sprintf("segment %d had %d of %d bytes when it became available", q, n, len(b))
			}
		}
		if poll != "" {
			lib.Bad(i, "%s", poll)
		}
		pmu.Unlock()
		got := func() bool { mu.Lock(); defer mu.Unlock(); return first }
		want := len(content) > 0 || finished || e.K == "S"
		for dl := time.Now().Add(lib.D(5 * time.Second)); want && !got() && time.Now().Before(dl); {
			time.Sleep(time.Millisecond)
		}
		o := obj{"mpd": obj{"ok": m.ok, "start": m.start, "dur": m.dur, "ts": m.ts, "w": m.w, "h": m.h, "codec": m.codec},
			"files": files, "init": init, "same": same, "ic": ic, "ini": ini, "junk": junk, "first": got()}
		steps = append(steps, obj{"e": e, "o": o})
	}

	hist := s.Hist
	if hist[len(hist)-1].K == "Z" {
		hist = append(hist, ev{K: "S", T: hist[len(hist)-1].T})
	}
	hevc, nl := false, 4
	var lastRec []byte
	for i0, e := range hist {
		i := i0 + 1
		ts := uint32(s.Base + int64(e.T))
		var tag interface{}
		video := func(ft, typ byte, cts int, data []byte) {
			c := byte(7)
			if hevc {
				c = 12
			}
			b := append([]byte{ft<<4 | c, typ, byte(cts >> 16), byte(cts >> 8), byte(cts)}, data...)
			t, err := libflv.ParseVideoTag(libflv.TagBase{TagType: libflv.VIDEO_TAG, DataSize: uint32(len(b)), TimeStamp: ts}, b)
			if err != nil {
				lib.Bad(i, "ParseVideoTag: %v", err)
			}
			tag = t
		}
		switch e.K {
		case "V":
			c := s.Cfgs[e.V-1]
			hevc, nl = c.HEVC, c.NL
			lastRec = c.record(e.V)
			k := "avcC"
			if hevc {
				k = "hvcC"
			}
			recs[k+string(lastRec)] = e.V
			video(1, 0, 0, lastRec)
		case "K", "P":
			size := []int{0, 1, 10, 130, 160, 178, 184, 220, 3000, 70000}[e.Z%10]
			if nl == 1 && size > 240 || nl == 2 && size > 65000 {
				size = 240
			}
			n := []byte{0x41}
			if e.K == "K" {
				n[0] = 0x65
			}
			if hevc {
				n = []byte{1 << 1, 1}
				if e.K == "K" {
					n[0] = 19 << 1
				}
			}
			n = append(n, media.Put(i)...)
			for k := 0; k < size; k++ {
				n = append(n, byte(1+(k*7+i*13)%255))
			}
			l := len(n)
			b := append([]byte{byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}[4-nl:], n...)
			sent[string(b)] = i
			ft := byte(2)
			if e.K == "K" {
				ft = 1
			} else if i%7 == 3 {
				ft = 3
			}
			video(ft, 1, e.C, b)
		case "A":
			b := append([]byte{0xaf, 1}, media.Put(i)...)
			t, err := libflv.ParseAudioTag(libflv.TagBase{TagType: libflv.AUDIO_TAG, DataSize: uint32(len(b)), TimeStamp: ts}, b)
			if err != nil {
				lib.Bad(i, "ParseAudioTag: %v", err)
			}
			tag = t
		case "E":
			video(1, 2, 0, nil)
		case "M":
			tag = &libflv.MetaTag{TagBase: libflv.TagBase{TagType: libflv.SCRIPT_DATA_TAG, TimeStamp: ts}}
		case "Z":
			close(r.tag)
			select {
			case err := <-ended:
				finished = true
				if err != nil {
					lib.Bad(i, "segmenter gave up: %v", err)
				}
			case <-time.After(lib.D(15 * time.Second)):
				lib.Missing(i, "segmenter does not end with its stream")
			}
		case "S":
			h.Stop()
		}
		if tag != nil && !finished {
			r.tag <- tag
			sync1(i)
		}
		look(i, e)
	}
	last := ev{K: "S"}
	if !finished {
		// tags that come after the stop leave no trace
		for k := 0; k < 4 && !finished; k++ {
			b := append([]byte{0x17, 1, 0, 0, 0, 0, 0, 0, 6, 0x65}, media.Put(90000+k)...)
			if k == 0 && lastRec != nil {
				b = append([]byte{0x17, 0, 0, 0, 0}, lastRec...)
			}
			t, _ := libflv.ParseVideoTag(libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: uint32(s.Base + 3000000 + int64(k)*3000)}, b)
			r.tag <- t
			sync1(len(hist))
		}
		if !finished {
			close(r.tag)
			<-ended
			finished = true
		}
	}
	look(len(hist), last)
	return obj{"cfgs": s.Cfgs, "steps": steps, "content": content}
}

func main() { lib.Main(8, run) }
