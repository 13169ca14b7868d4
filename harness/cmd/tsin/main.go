// Command tsin feeds transport streams to the demultiplexer, and to a server over SRT, and compares what comes out.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"slices"
	"sync"
	"time"

	"github.com/sbraveyoung/GGmpeg/libsrt"
	"vh/flvc"
	"vh/lib"
	"vh/srtc"
	"vh/srvx"
	"vh/tsx"
)

type ev struct {
	Op    string `json:"op"`
	K     string `json:"k"`
	Net   bool   `json:"net"`
	Ptr   int    `json:"ptr"`
	S     string `json:"s"`
	U     int    `json:"u"`
	Sz    string `json:"sz"`
	N     int    `json:"n"`
	Style string `json:"style"`
	Flt   string `json:"flt"`
	Sized bool   `json:"sized"`
	Pic   string `json:"pic"`
	Fr    int    `json:"fr"`
	Cut   bool   `json:"cut"`
	T     int    `json:"t"`
	C     int    `json:"c"`
	Rate  int    `json:"rate"`
	Cin   int    `json:"cin"`
	Disc  bool   `json:"disc"`
	CRC   bool   `json:"crc"`
	AF    bool   `json:"af"`
	NV    int    `json:"nv"`
	NA    int    `json:"na"`
}
type item struct {
	U   int    `json:"u"`
	F   int    `json:"f"`
	Pic string `json:"pic"`
	T   int    `json:"t"`
	C   int    `json:"c"`
	Opt bool   `json:"opt"`
}
type scen struct {
	Ev   []ev   `json:"ev"`
	V    []item `json:"v"`
	A    []item `json:"a"`
	Mode string `json:"mode"` // lib, srt
	N    int    `json:"num"`
}

// unit is what is in an access unit.
type unit struct {
	nals   [][]byte // video
	body   []byte
	sized  bool
	frames [][]byte // audio: whole ADTS frames
}

// bases are where the stream's clock starts, in 90 kHz units.
var bases = []uint64{0, 90000, 1 << 32, 1<<33 - 20000, 1<<33 - 90000*3}

type world struct {
	s     scen
	r     *rand.Rand
	m     *tsx.Mux
	pmt   int
	pid   map[string]int
	used  map[int]bool
	units map[int]*unit
	left  map[string][][]byte // packets still to come of the unit in progress
	tail  []byte              // of the audio frame that goes on
	base  uint64
	rates map[int]int
	ps    int
}

func (w *world) fresh() int {
	for {
		if p := 0x20 + w.r.Intn(0x1fd0); !w.used[p] && p&0xff != 0x47 && p>>8 != 0x07 {
			w.used[p] = true
			return p
		}
	}
}

// fill makes n bytes that look like no sync byte, start code or syncword.
func (w *world) fill(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(0x50 + w.r.Intn(0xa0))
	}
	return b
}

func (w *world) video(e ev) *unit {
	n := map[string]int{"s": 1 + w.r.Intn(40), "m": 380 + w.r.Intn(40), "l": 2000}[e.Sz]
	u := &unit{}
	add := func(head byte, body []byte) { u.nals = append(u.nals, append([]byte{head}, body...)) }
	sps := func(id int) { add(0x67, append([]byte{0x42, 0x80, 0x1e}, byte(0x50+id), 0x88)) }
	pps := func(id int) { add(0x68, []byte{0xce, byte(0x50 + id)}) }
	if w.r.Intn(2) == 0 {
		add(9, []byte{0xf0})
	}
	switch e.Pic {
	case "key", "zeros":
		sps(w.ps)
		pps(w.ps)
		if w.r.Intn(2) == 0 {
			add(6, []byte{5, 4, 1, 2, 3, 4, 0x80})
		}
		add(0x65, w.fill(n))
	case "bare":
		add(0x65, w.fill(n))
	case "newps":
		w.ps++
		sps(w.ps)
		pps(w.ps)
		add(0x65, w.fill(n))
	case "two":
		sps(w.ps)
		sps(w.ps + 1)
		pps(w.ps)
		pps(w.ps + 1)
		add(0x65, w.fill(n))
	case "p":
		add(0x41, w.fill(n))
	case "multi":
		add(0x41, w.fill(n/2+1))
		add(0x41, w.fill(n/2+1))
	case "ps":
		w.ps++
		sps(w.ps)
		pps(w.ps)
	case "sei":
		add(6, []byte{5, 2, 1, 2, 0x80})
		add(0x01, w.fill(n))
	default:
		panic(e.Pic)
	}
	for i, x := range u.nals {
		if i == 0 || w.r.Intn(2) == 0 {
			u.body = append(u.body, 0)
		}
		u.body = append(append(u.body, 0, 0, 1), x...)
		if e.Pic == "zeros" {
			u.body = append(u.body, make([]byte, w.r.Intn(3))...)
		}
	}
	return u
}

func (w *world) audio(e ev) *unit {
	u := &unit{}
	for i := 0; i < e.Fr; i++ {
		n := 2 + w.r.Intn(12)
		if e.Sz == "l" {
			n = 200 + w.r.Intn(50)
		}
		if e.Sz == "x" && i == 0 {
			n = 1990 + w.r.Intn(4500)
		}
		h := 7
		if e.CRC {
			h = 9
		}
		n += h
		f := []byte{0xff, 0xf1, 1<<6 | byte(e.Rate)<<2, 2<<6 | byte(n>>11), byte(n >> 3), byte(n<<5) | 0x1f, 0xfc}
		if e.CRC {
			f[1] = 0xf0
			f = append(f, 0x55, 0x66)
		}
		u.frames = append(u.frames, append(f, w.fill(n-h)...))
	}
	u.body = append(u.body, w.tail...)
	w.tail = nil
	for i, f := range u.frames {
		if i == len(u.frames)-1 && e.Cut {
			k := max(1, len(f)-60) // what goes on fits into a short unit
			k += w.r.Intn(len(f) - k)
			u.body = append(u.body, f[:k]...)
			w.tail = f[k:]
			break
		}
		u.body = append(u.body, f...)
	}
	return u
}

func (w *world) time(ticks int) uint64 { return (w.base + uint64(ticks)) & (1<<33 - 1) }

// sizes are those of the pieces of a PES packet.
func sizes(rest, n int, style string, head int) []int {
	sz := make([]int, n)
	first, k := 0, n
	if style == "head" {
		sz[0] = head
		rest -= head
		first = 1
	} else if style == "tail" {
		sz[n-1] = 1
		rest--
		k--
	}
	for i := first; i < k; i++ {
		sz[i] = rest / (k - i)
		rest -= sz[i]
	}
	return sz
}

// start builds the packets of a unit.
func (w *world) start(e ev) {
	var u *unit
	sid := byte(0xc0)
	stuff := 0
	if w.r.Intn(3) == 0 {
		stuff = w.r.Intn(4)
	}
	pts := w.time(e.T + e.C)
	var dts *uint64
	if e.S == "v" {
		sid = 0xe0
		u = w.video(e)
		if e.C != 0 || w.r.Intn(3) == 0 {
			d := w.time(e.T)
			dts = &d
		}
	} else {
		u = w.audio(e)
	}
	u.sized = e.Sized
	w.units[e.U] = u
	var pes []byte
	var sz []int
	for sz == nil || slices.Contains(sz, 112) { // adaptation field of 0x47 bytes
		pes = tsx.PES(sid, &pts, dts, u.body, e.Sized, stuff)
		sz = sizes(len(pes), e.N, e.Style, 1+w.r.Intn(8))
		stuff++
	}
	var out [][]byte
	if e.Disc {
		w.m.CC[w.pid[e.S]] += byte(2 + w.r.Intn(13))
	}
	for i, n := range sz {
		var af []byte
		switch {
		case i == 0 && e.Disc:
			af = []byte{0x80}
		case i == 0 && e.AF && e.S == "v":
			af = []byte{0x50, 1, 2, 3, 4, 0x7e, 0} // random access, PCR
		case e.AF && n < 160:
			af = []byte{0x02, 3, 0xaa, 0xbb, 0xcc} // private data
		}
		if n+len(af) > 182 || n < 1 {
			panic(fmt.Sprint("piece of ", n))
		}
		b, left := w.m.Packet(w.pid[e.S], i == 0, pes[:n], n, af)
		if len(left) > 0 || len(b) != 188 {
			panic("packet")
		}
		out = append(out, b)
		pes = pes[n:]
	}
	w.left[e.S] = out
}

// packet is the next one of a stream, as it arrives.
func (w *world) packet(s, flt string) []byte {
	b := append([]byte{}, w.left[s][0]...)
	w.left[s] = w.left[s][1:]
	switch flt {
	case "lost":
		return nil
	case "dup":
		return append(b, b...)
	case "tei":
		b[1] |= 0x80
		copy(b[60:], w.fill(20))
	case "scr":
		b[3] |= 0x80
		copy(b[60:], w.fill(20))
	case "sync":
		b[0] = 0x46
	}
	return b
}

func (w *world) null() []byte {
	return append([]byte{0x47, 0x1f, 0xff, 0x10}, bytes.Repeat([]byte{0xff}, 184)...)
}

// section puts a section into as many packets as it takes.
func (w *world) section(pid int, s []byte, ptr int) []byte {
	if len(s)+ptr+1 <= 184 {
		return w.m.Section(pid, s, ptr)
	}
	b := append([]byte{byte(ptr)}, bytes.Repeat([]byte{0xff}, ptr)...)
	b = append(b, s...)
	var out []byte
	for first := true; len(b) > 0; first = false {
		for len(b) < 184 {
			b = append(b, 0xff)
		}
		p, left := w.m.Packet(pid, first, b[:184], 0, nil)
		out, b = append(out, p...), append(left, b[184:]...)
	}
	return out
}

func (w *world) tables(kind string, v, a int) []byte {
	es := []tsx.ES{{Type: 0x1b, PID: v}, {Type: 0x0f, PID: a}}
	var info []byte
	ptr := 0
	switch kind {
	case "gap":
		ptr = 1 + w.r.Intn(100)
	case "info":
		info = []byte{5, 4, 'H', 'D', 'M', 'V'}
		es[0].Desc = []byte{0x28, 4, 0x42, 0x80, 0x1e, 0xbf}
		es[1].Desc = []byte{0x0a, 4, 'e', 'n', 'g', 0}
	case "more":
		es = append([]tsx.ES{{Type: 0x06, PID: 0x1ffa, Desc: []byte{0x0a, 4, 'd', 'e', 'u', 0}}, {Type: 0x81, PID: 0x1ff9}}, es...)
		es = append(es, tsx.ES{Type: 0x15, PID: 0x1ff8})
	case "long":
		info = append([]byte{0x0e, 200}, bytes.Repeat([]byte{0x33}, 200)...)
		es[0].Desc = append([]byte{0x28, 90}, bytes.Repeat([]byte{0x44}, 90)...)
	case "wide": // as much as a section holds
		n := w.r.Intn(256)
		info = append([]byte{0x0e, byte(n)}, bytes.Repeat([]byte{0x33}, n)...)
		for i, k := range w.r.Perm(3) { // one stream has 256 bytes and more
			if k == 0 {
				info = append(info, info...)
			} else if i < 2 {
				es[k-1].Desc = bytes.Repeat(append([]byte{0x28, 126}, w.fill(126)...), 2)
				if w.r.Intn(2) == 0 {
					es[k-1].Desc = append(es[k-1].Desc, 0x0a, 4, 'e', 'n', 'g', 0)
				}
			}
		}
		if n := 700 - len(es[0].Desc) - len(es[1].Desc); len(info) > n {
			info = nil
		}
	case "many":
		for i := 0; i < 1+w.r.Intn(60); i++ {
			es = slices.Insert(es, w.r.Intn(len(es)+1), tsx.ES{Type: []byte{6, 0x86, 0x81, 0x15}[w.r.Intn(4)], PID: 0x1f00 + i, Desc: w.fill(w.r.Intn(8))})
		}
	}
	return w.section(w.pmt, tsx.PMTSection(1, v, info, es...), ptr)
}

// bytes of event e.
func (w *world) bytes(e ev) []byte {
	switch e.Op {
	case "pat":
		progs := [][2]int{{1, w.pmt}}
		if e.Net {
			progs = append([][2]int{{0, 0x10}}, progs...)
		}
		return w.m.Section(0, tsx.PATSection(progs...), e.Ptr)
	case "pmt":
		return w.tables(e.K, w.pid["v"], w.pid["a"])
	case "move":
		w.pid["v"], w.pid["a"] = w.fresh(), w.fresh()
		return w.tables("plain", w.pid["v"], w.pid["a"])
	case "noise":
		switch e.K {
		case "null":
			return w.null()
		case "foreign":
			var p uint64 = 5
			return w.m.All(0x1ff7, tsx.PES(0xe0, &p, nil, w.fill(300), true, 0))
		case "afonly":
			b := append([]byte{0x47, byte(w.pid["v"] >> 8), byte(w.pid["v"]), 0x20 | (w.m.CC[w.pid["v"]]-1)&15, 183, 0x10, 1, 2, 3, 4, 0x7e, 0}, bytes.Repeat([]byte{0xff}, 176)...)
			return b
		case "junk":
			return append(append(w.fill(1+w.r.Intn(180)), w.null()...), w.null()...)
		case "crc":
			s := tsx.PMTSection(1, 0x1ff6, nil, tsx.ES{Type: 0x1b, PID: 0x1ff6}, tsx.ES{Type: 0x0f, PID: 0x1ff5})
			s[len(s)-1] ^= 0x10
			return w.m.Section(w.pmt, s, 0)
		case "future":
			s := tsx.PMTSection(1, 0x1ff6, nil, tsx.ES{Type: 0x1b, PID: 0x1ff6}, tsx.ES{Type: 0x0f, PID: 0x1ff5})
			s = s[:len(s)-4]
			s[5] &^= 1
			c := tsx.CRC(s)
			return w.m.Section(w.pmt, append(s, byte(c>>24), byte(c>>16), byte(c>>8), byte(c)), 0)
		case "pat2": // what is on the PMT's PID need not be a PMT
			s := []byte{0xc0, 0x30, 13, 0, 1, 0xc1, 0, 0, 1, 2, 3, 4}
			c := tsx.CRC(s)
			return w.m.Section(w.pmt, append(s, byte(c>>24), byte(c>>16), byte(c>>8), byte(c)), 0)
		case "af": // adaptation field that is too long, of any stream
			p := []int{w.pid["v"], w.pid["a"], w.pmt, 0, 0x1ff7}[w.r.Intn(5)]
			b := append([]byte{0x47, byte(p >> 8), byte(p), 0x20 | byte(w.r.Intn(2))<<4 | byte(w.r.Intn(16)), byte(184 + w.r.Intn(72))}, w.fill(183)...)
			b[5] &= 0x7f
			return b
		case "ptr": // pointer field beyond the packet
			b := w.m.Section(w.pmt, w.fill(100), 0)
			b[4] = 0xf0 + byte(w.r.Intn(15))
			return b
		}
		panic(e.K)
	case "start":
		w.start(e)
		return w.packet(e.S, e.Flt)
	case "cont":
		return w.packet(e.S, e.Flt)
	case "end":
		return nil
	}
	panic(e.Op)
}

type av struct {
	pts, dts uint64
	key      bool
	data     []byte
}

func trim(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

func off(a, b uint64) int64 { return int64((a-b)<<31) >> 31 }

// match compares what came with what may and must.
func (w *world) match(st int, kind string, got []av, want []item, end bool) {
	i := 0
	for gi, g := range got {
		ok := false
		why := "is none of those expected"
		for ; i < len(want) && !ok; i++ {
			x := want[i]
			u := w.units[x.U]
			if u == nil {
				break
			}
			if kind == "video" {
				ok = bytes.Equal(g.data, u.body)
				key := x.Pic == "key" || x.Pic == "bare" || x.Pic == "newps" || x.Pic == "two" || x.Pic == "zeros"
				if ok && (g.key != key || g.dts != w.time(x.T) || g.pts != w.time(x.T+x.C)) {
					lib.Bad(st, "picture %d (%s): key %v, pts %d, dts %d, expected %d and %d", x.U, x.Pic, g.key, g.pts, g.dts, w.time(x.T+x.C), w.time(x.T))
				}
			} else {
				ok = bytes.Equal(g.data, u.frames[x.F-1])
				if d := off(g.pts, w.time(x.T)); ok && (d > 3 || d < -3) {
					lib.Bad(st, "audio frame %d of PES packet %d has the time %d, expected %d", x.F, x.U, g.pts, w.time(x.T))
				}
			}
			if !ok && !x.Opt {
				why = fmt.Sprintf("is not that of unit %d (%s, frame %d)", x.U, x.Pic, x.F)
				break
			}
		}
		if !ok {
			lib.Bad(st, "%s unit %d that came out %s: %d bytes % x", kind, gi+1, why, len(g.data), trim(g.data))
		}
	}
	for ; end && i < len(want); i++ {
		if !want[i].Opt {
			lib.Bad(st, "%s of unit %d (%s, frame %d) did not come out", kind, want[i].U, want[i].Pic, want[i].F)
		}
	}
}

func (w *world) lib() {
	d := libsrt.NewDemuxer()
	var v, a []av
	d.OnVideo = func(x libsrt.AccessUnit) { v = append(v, av{x.PTS, x.DTS, x.Key, append([]byte{}, x.NAL...)}) }
	d.OnAudio = func(x libsrt.AudioFrame) { a = append(a, av{x.PTS, 0, false, append([]byte{}, x.Data...)}) }
	var pend []byte
	exact := true
	for _, x := range append(append([]item{}, w.s.V...), w.s.A...) {
		exact = exact && !x.Opt
	}
	for i, e := range w.s.Ev {
		pend = append(pend, w.bytes(e)...)
		last := i == len(w.s.Ev)-1
		switch w.s.N % 4 {
		case 0: // packet by packet
			for len(pend) > 0 {
				n := min(188, len(pend))
				d.Feed(pend[:n])
				pend = pend[n:]
			}
			nv, na := e.NV, e.NA
			if last {
				nv, na = w.s.Ev[i-1].NV, w.s.Ev[i-1].NA
			}
			if exact && (len(v) < nv || len(a) < na) {
				lib.Bad(i+1, "%d pictures and %d audio frames have come out, %d and %d are complete", len(v), len(a), nv, na)
			}
		case 1: // seven packets
			for len(pend) >= 1316 || last && len(pend) > 0 {
				n := min(1316, len(pend))
				d.Feed(append([]byte{}, pend[:n]...))
				pend = pend[n:]
			}
		case 2: // any sizes
			for len(pend) >= 600 || last && len(pend) > 0 {
				n := min(1+w.r.Intn(600), len(pend))
				d.Feed(append([]byte{}, pend[:n]...))
				pend = pend[n:]
			}
		default: // all at once, or byte by byte
			if last && w.s.N%8 == 3 {
				d.Feed(pend)
			} else if last {
				for _, b := range pend {
					d.Feed([]byte{b})
				}
			}
		}
	}
	d.Flush()
	w.match(len(w.s.Ev), "video", v, w.s.V, true)
	w.match(len(w.s.Ev), "audio", a, w.s.A, true)
}

// ---- over SRT

var (
	once sync.Once
	srv  *server
)

type tag struct {
	hdr  bool
	ts   uint32
	data []byte
	what string
}

// expect lists the FLV tags of the units that come out.
func (w *world) expect() (v, a []tag) {
	ms := func(t int) uint32 { return uint32((w.base + uint64(t)) / 90) }
	var sps, pps [][]byte
	var last []byte
	for _, x := range w.s.V {
		u := w.units[x.U]
		if u == nil || x.Opt {
			continue
		}
		var s, p [][]byte
		var pic []byte
		for _, n := range u.nals {
			switch n[0] & 31 {
			case 7:
				s = append(s, n)
			case 8:
				p = append(p, n)
			default:
				pic = binary.BigEndian.AppendUint32(pic, uint32(len(n)))
				pic = append(pic, n...)
			}
		}
		if s != nil {
			sps, pps = s, p
		}
		if len(sps) > 0 {
			h := []byte{0x17, 0, 0, 0, 0, 1, sps[0][1], sps[0][2], sps[0][3], 0xff, 0xe0 | byte(len(sps))}
			for _, n := range sps {
				h = append(append(h, 0, byte(len(n))), n...)
			}
			h = append(h, byte(len(pps)))
			for _, n := range pps {
				h = append(append(h, 0, byte(len(n))), n...)
			}
			if !bytes.Equal(h, last) {
				v = append(v, tag{true, 0, h, fmt.Sprintf("header of unit %d", x.U)})
				last = h
			}
		}
		if len(pic) == 0 {
			continue
		}
		first := byte(0x27)
		for _, n := range u.nals {
			if n[0]&31 == 5 {
				first = 0x17
			}
		}
		c := x.C / 90
		v = append(v, tag{false, ms(x.T), append([]byte{first, 1, byte(c >> 16), byte(c >> 8), byte(c)}, pic...), fmt.Sprintf("unit %d (%s)", x.U, x.Pic)})
	}
	rate := -1
	for _, x := range w.s.A {
		u := w.units[x.U]
		if u == nil {
			continue
		}
		f := u.frames[x.F-1]
		if r := int(f[2] >> 2 & 15); r != rate {
			rate = r
			a = append(a, tag{true, 0, []byte{0xaf, 0, 2<<3 | byte(r>>1), byte(r&1)<<7 | 2<<3}, fmt.Sprintf("header of unit %d", x.U)})
		}
		h := 7
		if f[1]&1 == 0 {
			h = 9
		}
		a = append(a, tag{false, ms(x.T), append([]byte{0xaf, 1}, f[h:]...), fmt.Sprintf("unit %d, frame %d", x.U, x.F)})
	}
	return
}

func near(a, b uint32) bool { return int32(a-b) <= 1 && int32(a-b) >= -1 }

func (w *world) srt() {
	lim := lib.D(8 * time.Second)
	name := srv.name
	c, err := srtc.Dial(srv.SRT(), uint32(1000+w.s.N), lim)
	if err != nil {
		lib.Missing(0, "%v", err)
	}
	defer c.C.Close()
	c.Send(w.null())
	c.Fence(lim)
	var f *flvc.Stream
	for end := time.Now().Add(lim); ; time.Sleep(2 * time.Millisecond) {
		f, err = flvc.Get(srv.HTTP(), "/live/"+name+".flv", lim)
		if err == nil && f.Status == 200 {
			break
		}
		if err == nil {
			f.C.Close()
		}
		if time.Now().After(end) {
			lib.Missing(0, "the stream of a session does not appear")
		}
	}
	defer f.C.Close()
	time.Sleep(lib.D(20 * time.Millisecond)) // what comes before a viewer has joined is not for it
	var mu sync.Mutex
	var v, a []flvc.Tag
	var rerr error
	over := make(chan struct{})
	go func() {
		defer close(over)
		r := flvc.NewReader(f.Body)
		for {
			t, err := r.Next()
			mu.Lock()
			if err != nil {
				rerr = err
				mu.Unlock()
				return
			}
			if t.Type == 9 {
				v = append(v, t)
			} else {
				a = append(a, t)
			}
			mu.Unlock()
		}
	}()
	count := func(l []flvc.Tag) (n int) { // without headers
		for _, t := range l {
			if len(t.P) > 1 && t.P[1] != 0 {
				n++
			}
		}
		return
	}
	var pend []byte
	cur := 0
	for i, e := range w.s.Ev {
		pend = append(pend, w.bytes(e)...)
		chunk := 1316
		if w.s.N%2 == 1 {
			chunk = 1 + w.r.Intn(1400)
		}
		if e.Op == "start" && e.S == "v" {
			cur = e.U
		}
		last := i == len(w.s.Ev)-1
		sync := w.s.N%4 < 2 || i%20 == 19 || i > 0 && e.NV > w.s.Ev[i-1].NV || cur > 0 && w.units[cur].sized && len(w.left["v"]) == 0 // viewers more than a group behind skip
		for len(pend) >= chunk || (last || sync) && len(pend) > 0 {
			n := min(chunk, len(pend))
			c.Send(pend[:n])
			pend = pend[n:]
		}
		if sync && !last {
			// a unit of known length may be complete before the next one starts
			early := 0
			for _, x := range w.s.V {
				if u := w.units[x.U]; u != nil && x.U == cur && u.sized && !x.Opt && len(w.left["v"]) == 0 {
					early = 1
				}
			}
			ps, k := 0, 0
			for _, x := range w.s.V {
				if !x.Opt {
					if k++; k <= e.NV+early && x.Pic == "ps" && len(w.units[x.U].nals) == 2 {
						ps++
					}
				}
			}
			soft := time.Now().Add(60 * time.Millisecond)
			for end := time.Now().Add(lim); ; time.Sleep(500 * time.Microsecond) {
				mu.Lock()
				nv, na := count(v), count(a)
				mu.Unlock()
				if nv >= e.NV+early-ps && na >= e.NA || nv >= e.NV-ps && na >= e.NA && time.Now().After(soft) {
					break
				}
				if time.Now().After(end) {
					lib.Missing(i+1, "%d pictures and %d audio frames have come, %d and %d are complete", nv, na, e.NV-ps, e.NA)
				}
			}
		}
	}
	c.Shutdown()
	select {
	case <-over:
	case <-time.After(lim):
		lib.Missing(len(w.s.Ev), "the stream does not end with its session")
	}
	if rerr != io.EOF {
		lib.Bad(len(w.s.Ev), "the viewer's stream ends with %v", rerr)
	}
	ev, ea := w.expect()
	for k, g := range map[string][]flvc.Tag{"video": v, "audio": a} {
		x := ev
		if k == "audio" {
			x = ea
		}
		var h []byte // headers may be repeated when a viewer joins
		g = slices.DeleteFunc(slices.Clone(g), func(t flvc.Tag) bool {
			if len(t.P) < 2 || t.P[1] != 0 {
				return false
			}
			again := bytes.Equal(t.P, h)
			h = t.P
			return again
		})
		for i, t := range g {
			if i >= len(x) {
				lib.Bad(len(w.s.Ev), "%s tag %d is one too many: %d ms, % x", k, i+1, t.TS, trim(t.P))
			}
			if !bytes.Equal(t.P, x[i].data) || !x[i].hdr && !near(t.TS, x[i].ts) {
				lib.Bad(len(w.s.Ev), "%s tag %d is not that of %s: %d ms, %d bytes % x; expected %d ms, %d bytes % x", k, i+1, x[i].what, t.TS, len(t.P), trim(t.P), x[i].ts, len(x[i].data), trim(x[i].data))
			}
		}
		if len(g) < len(x) {
			lib.Missing(len(w.s.Ev), "%s tag %d did not come, that of %s", k, len(g)+1, x[len(g)].what)
		}
	}
}

type server struct {
	*srvx.Srv
	name string
}

func run(raw json.RawMessage) interface{} {
	var s scen
	lib.Dec(raw, &s)
	w := &world{s: s, r: rand.New(rand.NewSource(int64(s.N) * 7919)), m: tsx.New(), pid: map[string]int{}, used: map[int]bool{}, units: map[int]*unit{}, left: map[string][][]byte{}}
	w.base = bases[s.N%len(bases)]
	w.pmt, w.pid["v"], w.pid["a"] = w.fresh(), w.fresh(), w.fresh()
	for _, p := range []int{w.pmt, w.pid["v"], w.pid["a"]} {
		w.m.CC[p] = byte(w.r.Intn(16))
	}
	if s.Mode == "srt" {
		once.Do(func() {
			srv = &server{srvx.Start(srvx.Opt{Apps: []string{"live"}, FLV: true, SRT: []string{"live", "cam"}}), "cam"}
		})
		w.srt()
	} else {
		w.lib()
	}
	return nil
}

func main() { lib.Main(1, run) }
