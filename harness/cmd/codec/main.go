// Command codec feeds decoder configurations and access units to the library's parsers, the HLS segmenter and RTSP players.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/sbraveyoung/GGmpeg/libaac"
	"github.com/sbraveyoung/GGmpeg/libavc"
	"github.com/sbraveyoung/GGmpeg/libflv"
	"github.com/sbraveyoung/GGmpeg/libhls"
	"vh/lib"
	"vh/rtmpc"
	"vh/rtspc"
	"vh/srvx"
	"vh/tsx"
)

type tok struct {
	B  int `json:"b"`
	T  int `json:"t"`
	N  int `json:"n"`
	ID int `json:"id"`
}

type asc struct{ Aot, Sr, Ch int }

type step struct {
	Op    string          `json:"op"`
	Raw   json.RawMessage `json:"bytes"`
	Cut   int             `json:"cut"`
	OK    bool            `json:"ok"`
	Sets  []tok           `json:"sets"`
	NL    int             `json:"nl"`
	Units []tok           `json:"units"`
	Key   bool            `json:"key"`
	Bad   int             `json:"bad"`
	Out   []tok           `json:"out"`
	A     asc             `json:"a"`
	N     int             `json:"n"`
	Adts  []int           `json:"adts"`
}

type scen struct {
	Codec string `json:"codec"`
	Steps []step `json:"steps"`
	Live  bool   `json:"live"`
}

func nal(codec string, t tok) []byte {
	var b []byte
	if codec == "hevc" {
		b = []byte{byte(t.T << 1), 1}
	} else {
		b = []byte{map[bool]byte{true: 0x60, false: 0}[t.T != 6 && t.T != 9 && t.T != 12] | byte(t.T)}
	}
	for i := 0; len(b) < t.N; i++ {
		b = append(b, byte(1+(i*11+t.ID*29+i>>8*3)%255))
	}
	return b[:t.N]
}

func cat(codec string, ts []tok) (b []byte) {
	for _, t := range ts {
		if t.B >= 0 {
			b = append(b, byte(t.B))
		} else {
			b = append(b, nal(codec, t)...)
		}
	}
	return
}

func au(codec string, us []tok, nl, bad int) (b []byte) {
	for _, u := range us {
		p := []byte{byte(u.N >> 24), byte(u.N >> 16), byte(u.N >> 8), byte(u.N)}
		b = append(append(b, p[4-nl:]...), nal(codec, u)...)
	}
	switch bad {
	case 1: // ends too early
		b = b[:len(b)-1]
	case 2: // part of a length too many
		b = append(b, make([]byte, nl)...)
	}
	return
}

func annexb(codec string, us []tok) (b []byte) {
	for _, u := range us {
		b = append(append(b, 0, 0, 0, 1), nal(codec, u)...)
	}
	return
}

func direct(s scen) {
	p := &libavc.Parser{Pps: bytes.NewBuffer(nil)}
	h := &libaac.AACHeader{}
	for i, e := range s.Steps {
		k := i + 1
		switch e.Op {
		case "rec":
			var ts []tok
			lib.Dec(e.Raw, &ts)
			b := cat(s.Codec, ts)
			b = b[:len(b)-e.Cut]
			in := append([]byte(nil), b...)
			before := append([]byte(nil), p.SpecificInfo...)
			err := p.ParseSpecificInfo(b[:len(b):len(b)])
			want := annexb(s.Codec, e.Sets)
			if !e.OK {
				want = before
			}
			if (err == nil) != e.OK {
				lib.Bad(k, "record % x: error %v", b[:min(len(b), 40)], err)
			}
			if !bytes.Equal(p.SpecificInfo, want) {
				lib.Bad(k, "parameter sets of record % x (error %v) are % x, expected % x", b[:min(len(b), 60)], err, p.SpecificInfo[:min(len(p.SpecificInfo), 60)], want[:min(len(want), 60)])
			}
			if !bytes.Equal(in, b) {
				lib.Bad(k, "parsing changes the record")
			}
			for j := range b {
				b[j] = 0xee // not kept
			}
		case "au":
			b := au(s.Codec, e.Units, e.NL, e.Bad)
			var w bytes.Buffer
			err := p.GetAnnexbFrame(b, e.Key, &w)
			want := append([]byte{0, 0, 0, 1, 9, 0xf0}, annexb(s.Codec, e.Out)...)
			if !e.OK {
				want = nil
			}
			if (err == nil) != e.OK || !bytes.Equal(w.Bytes(), want) {
				lib.Bad(k, "access unit % x with %d-byte lengths: error %v, written % x, expected % x", b[:min(len(b), 40)], e.NL, err, w.Bytes()[:min(w.Len(), 60)], want[:min(len(want), 60)])
			}
			if !e.Key {
				w.Reset()
				if p.GetAnnexbH264(b, &w); !bytes.Equal(w.Bytes(), want) {
					lib.Bad(k, "GetAnnexbH264 differs")
				}
			}
		case "asc":
			var v []int
			lib.Dec(e.Raw, &v)
			b := lib.Bytes(v)
			b = b[:len(b)-e.Cut]
			err := h.Parse(b[:len(b):len(b)])
			if (err == nil) != e.OK {
				lib.Bad(k, "configuration % x: error %v", b, err)
			}
			if int(h.ObjectType) != e.A.Aot || int(h.SampleRate) != e.A.Sr || int(h.Channel) != e.A.Ch {
				lib.Bad(k, "configuration % x: %+v, expected %+v", b, *h, e.A)
			}
		case "frame":
			got := h.Adts(make([]byte, e.N))
			want := lib.Bytes(e.Adts)
			mask := []byte{0xff, 0xff, 0xfd, 0xc3, 0xff, 0xe0, 0x03}
			same := len(got) == 7
			for j := 0; same && j < 7; j++ {
				same = got[j]&mask[j] == want[j]&mask[j]
			}
			if !same {
				lib.Bad(k, "ADTS header for %+v and %d bytes: % x, expected % x", *h, e.N, got, want)
			}
		}
	}
}

type reader struct {
	tags []libflv.Tag
}

func (r *reader) Read() (interface{}, bool) {
	if len(r.tags) == 0 {
		return nil, false
	}
	t := r.tags[0]
	r.tags = r.tags[1:]
	return t, true
}

func videoTag(codec byte, typ byte, key bool, ts uint32, p []byte) libflv.Tag {
	f := byte(2)
	if key {
		f = 1
	}
	t, err := libflv.ParseVideoTag(libflv.TagBase{TagType: 9, TimeStamp: ts, DataSize: uint32(len(p) + 5)}, append([]byte{f<<4 | codec, typ, 0, 0, 0}, p...))
	if err != nil {
		panic(err)
	}
	return t
}

// viaHLS has the segmenter write each access unit as a segment of its own.
func viaHLS(s scen) {
	dir := lib.Scratch()
	defer os.RemoveAll(dir)
	cid := byte(7)
	if s.Codec == "hevc" {
		cid = 12
	}
	r := &reader{}
	var want []int
	for i, e := range s.Steps {
		ts := uint32(i) * 3000
		if e.Op == "rec" {
			var t []tok
			lib.Dec(e.Raw, &t)
			b := cat(s.Codec, t)
			r.tags = append(r.tags, videoTag(cid, 0, true, ts, b[:len(b)-e.Cut]))
		} else if e.Bad == 0 {
			r.tags = append(r.tags, videoTag(cid, 1, true, ts, au(s.Codec, e.Units, e.NL, 0)))
			want = append(want, i)
		}
		if len(want) == 5 {
			break
		}
	}
	if len(want) == 0 {
		return
	}
	h := libhls.NewHls().WithStreamID("x").WithDir(dir)
	if err := h.Start(r); err != nil {
		lib.Bad(0, "segmenter: %v", err)
	}
	ents, _ := filepath.Glob(filepath.Join(dir, "x-*.ts"))
	sort.Strings(ents)
	if len(ents) != len(want) {
		lib.Bad(0, "%d segments for %d keyframes 3 s apart", len(ents), len(want))
	}
	for j, i := range want {
		b, _ := os.ReadFile(ents[j])
		st, err := tsx.Demux(b)
		if err != nil || len(st.Units) != 1 {
			lib.Bad(i+1, "segment %d: %v, %d units", j, err, len(st.Units))
		}
		got, err := tsx.NALs(st.Units[0].Payload)
		if err != nil {
			lib.Bad(i+1, "segment %d: %v", j, err)
		}
		if n := got[0]; s.Codec == "hevc" && n[0]>>1 == 35 || s.Codec == "avc" && n[0]&31 == 9 {
			got = got[1:]
		}
		same(i+1, "HLS", s.Codec, got, s.Steps[i].Out)
	}
}

func same(k int, what, codec string, got [][]byte, out []tok) {
	for j, t := range out {
		if j >= len(got) || !bytes.Equal(got[j], nal(codec, t)) {
			x := []byte{}
			if j < len(got) {
				x = got[j]
			}
			lib.Bad(k, "%s: NAL unit %d of %d is % x (%d), expected type %d of %d bytes", what, j+1, len(out), x[:min(len(x), 12)], len(x), t.T, t.N)
		}
	}
	if len(got) != len(out) {
		lib.Bad(k, "%s: %d NAL units, expected %d", what, len(got), len(out))
	}
}

var (
	once sync.Once
	srv  *srvx.Srv
	mu   sync.Mutex
	next int
)

// viaRTSP compares the parameter sets in the description of a stream after every valid record.
func viaRTSP(s scen) {
	lim := lib.D(10 * time.Second)
	once.Do(func() { srv = srvx.Start(srvx.Opt{Apps: []string{"live"}, RTSP: true}) })
	mu.Lock()
	next++
	name := fmt.Sprintf("c%d", next)
	mu.Unlock()
	a, _ := srv.Pipe()
	defer a.Close()
	c, err := rtmpc.Client(a, lim)
	if err == nil {
		if _, err = c.Connect("live", lim); err == nil {
			_, err = c.Publish(name, lim)
		}
	}
	if err != nil {
		lib.Missing(0, "publish: %v", err)
	}
	cid := byte(7)
	if s.Codec == "hevc" {
		cid = 12
	}
	d, err := rtspc.Dial(srv.RTSP(), lim)
	if err != nil {
		lib.Missing(0, "%v", err)
	}
	defer d.C.Close()
	d.Start()
	for i, e := range s.Steps {
		if e.Op != "rec" || !e.OK {
			continue
		}
		var t []tok
		lib.Dec(e.Raw, &t)
		b := cat(s.Codec, t)
		c.Send(rtmpc.Msg{CS: 4, Type: 9, SID: 1, TS: uint32(i), P: append([]byte{0x10 | cid, 0, 0, 0, 0}, b[:len(b)-e.Cut]...)})
		if _, err := c.Fence(lim); err != nil {
			lib.Missing(i+1, "%v", err)
		}
		r, err := d.Do(lim, "DESCRIBE", "rtsp://x/live/"+name, nil, nil)
		if err != nil || r.Code != 200 {
			lib.Bad(i+1, "DESCRIBE of a stream with record % x: %d %v", b[:min(len(b), 40)], r.Code, err)
		}
		var got [][]byte
		for _, key := range []string{"sprop-parameter-sets=", "sprop-vps=", "sprop-sps=", "sprop-pps="} {
			j := strings.Index(string(r.Body), key)
			if j < 0 {
				continue
			}
			v := string(r.Body)[j+len(key):]
			v = v[:strings.IndexAny(v, ";\r\n ")]
			for _, x := range strings.Split(v, ",") {
				y, err := base64.StdEncoding.DecodeString(x)
				if err != nil {
					lib.Bad(i+1, "parameter set %q: %v", x, err)
				}
				got = append(got, y)
			}
		}
		var want []tok
		types := []int{7, 8}
		if s.Codec == "hevc" {
			types = []int{32, 33, 34}
		}
		for _, t := range types {
			for _, x := range e.Sets {
				if x.T == t {
					want = append(want, x)
				}
			}
		}
		same(i+1, "SDP", s.Codec, got, want)
	}
}

func run(raw json.RawMessage) interface{} {
	var s scen
	lib.Dec(raw, &s)
	if s.Codec != "hevc" {
		direct(s)
	}
	if s.Codec == "hevc" || s.Live && s.Codec == "avc" {
		viaHLS(s)
	}
	if s.Live && s.Codec != "aac" {
		viaRTSP(s)
	}
	return nil
}

func main() { lib.Main(8, run) }
