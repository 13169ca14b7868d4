// Command flv compares FLV files byte by byte: of viewers over HTTP and WebSocket, and the library's tags.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"sync"
	"time"

	"github.com/sbraveyoung/GGmpeg/libamf"
	"github.com/sbraveyoung/GGmpeg/libflv"
	"vh/flvc"
	"vh/lib"
	"vh/rtmpc"
	"vh/srvx"
)

type msg struct {
	K    string `json:"k"`
	N    int    `json:"n"`
	TS   [2]int `json:"ts"`
	Ty   byte   `json:"ty"`
	Head []int  `json:"head"`
	Tail []int  `json:"tail"`
	Del  bool   `json:"del"`
}

type scen struct {
	File  []int `json:"file"`
	Msgs  []msg `json:"msgs"`
	Live  bool  `json:"live"`
	First struct {
		Head []int `json:"head"`
		Tail []int `json:"tail"`
	} `json:"first"` // goes to viewers in front of everything
	Late int `json:"late"` // a further viewer comes before message Late
}

// what a payload of each kind starts with
var starts = map[string][]byte{
	"aac": {0xaf, 1}, "aacHdr": {0xaf, 0}, "mp3": {0x2f}, "g711": {0x72}, "opus": {0xdf, 1}, "opusHdr": {0xdf, 0}, "speex": {0xb6},
	"key": {0x17, 1, 0xff, 0xff, 0x80}, "inter": {0x27, 1, 0, 1, 2}, "hdr": {0x17, 0, 0, 0, 0}, "eos": {0x17, 2, 0, 0, 0},
	"hevcHdr": {0x1c, 0, 0, 0, 0}, "hevcKey": {0x1c, 1, 0, 0, 40}, "hevcInter": {0x2c, 1, 0x7f, 0xff, 0xff}, "av1Key": {0x1d, 1, 0, 0, 0},
	"h263key": {0x12}, "h263": {0x22}, "vp6key": {0x14}, "vp6": {0x24},
}

func payload(m msg, seed int) []byte {
	b := make([]byte, 0, m.N)
	if m.Ty == 18 {
		name := map[string]string{"meta": "onMetaData", "data": "onTextData"}[m.K]
		left := m.N - len(rtmpc.Enc(name, rtmpc.Ecma{Count: 1, P: []rtmpc.KV{{K: "x", V: rtmpc.Long("")}}}))
		if left < 0 {
			panic("size of data message")
		}
		s := make([]byte, left)
		for i := range s {
			s[i] = byte(97 + (i+seed)%26)
		}
		return rtmpc.Enc(name, rtmpc.Ecma{Count: 1, P: []rtmpc.KV{{K: "x", V: rtmpc.Long(s)}}})
	}
	b = append(b, starts[m.K]...)
	switch x := byte(m.N*37 + seed*11 + m.TS[0] + m.TS[1]*5); m.K {
	case "aacX":
		b = append(b, 0xa0|x&15, 2+x%254)
	case "opusX":
		b = append(b, 0xd0|x&15, 2+x%254)
	case "anyX":
		if x>>4 == 10 || x>>4 == 13 {
			x ^= 0x10
		}
		b = append(b, x)
	}
	for i := len(b); i < m.N; i++ {
		b = append(b, byte(i*7+seed*13+i>>8*5))
	}
	return b[:m.N]
}

type viewer struct {
	mu   sync.Mutex
	b    []byte
	err  error
	at   int // position judged so far
	name string
	s    *flvc.Stream
}

func (v *viewer) read() {
	p := make([]byte, 1<<16)
	for {
		n, err := v.s.Body.Read(p)
		v.mu.Lock()
		v.b = append(v.b, p[:n]...)
		v.err = err
		v.mu.Unlock()
		if err != nil {
			return
		}
	}
}

func (v *viewer) expect(k int, what string, want []byte, lim time.Duration) {
	for dl := time.Now().Add(lim); ; time.Sleep(100 * time.Microsecond) {
		v.mu.Lock()
		got, err := v.b[v.at:], v.err
		v.mu.Unlock()
		n := len(got)
		if n > len(want) {
			n = len(want)
		}
		if !bytes.Equal(got[:n], want[:n]) {
			i := 0
			for got[i] == want[i] {
				i++
			}
			lo := i - 4
			if lo < 0 {
				lo = 0
			}
			hi := i + 16
			if hi > n {
				hi = n
			}
			lib.Bad(k, "%s viewer, %s: byte %d of %d differs: % x, expected % x", v.name, what, i, len(want), got[lo:hi], want[lo:hi])
		}
		if n == len(want) {
			v.at += n
			return
		}
		if err != nil || time.Now().After(dl) {
			lib.Missing(k, "%s viewer, %s: %d of %d bytes (%v)", v.name, what, n, len(want), err)
		}
	}
}

var (
	once sync.Once
	srv  *srvx.Srv
	mu   sync.Mutex
	next int
)

func tagOf(m msg, p []byte) (libflv.Tag, error) {
	tb := libflv.TagBase{TagType: m.Ty, DataSize: uint32(len(p)), TimeStamp: uint32(m.TS[0])<<16 | uint32(m.TS[1])}
	switch m.Ty {
	case 8:
		return libflv.ParseAudioTag(tb, p)
	case 9:
		return libflv.ParseVideoTag(tb, p)
	}
	return libflv.ParseMetaTag(tb, libamf.AMF0, p)
}

func run(raw json.RawMessage) interface{} {
	var s scen
	lib.Dec(raw, &s)
	lim := lib.D(10 * time.Second)
	var want [][]byte
	var pays [][]byte
	for i, m := range s.Msgs {
		p := payload(m, i)
		if len(p) != m.N {
			panic(fmt.Sprint("payload of ", m.K, len(p), m.N))
		}
		pays = append(pays, p)
		want = append(want, append(append(append([]byte(nil), lib.Bytes(m.Head)...), p...), lib.Bytes(m.Tail)...))
	}
	// the library's tags
	for i, m := range s.Msgs {
		k := i + 1
		t, err := tagOf(m, pays[i])
		if err != nil {
			lib.Bad(k, "parsing a payload of kind %s and %d bytes: %v", m.K, m.N, err)
		}
		if got := libflv.FLVWrite(t); !bytes.Equal(got, want[i]) {
			lib.Bad(k, "FLVWrite of %s, %d bytes, time %v: %d bytes % x..., expected %d bytes % x...", m.K, m.N, m.TS, len(got), got[:min(len(got), 20)], len(want[i]), want[i][:min(len(want[i]), 20)])
		}
		u, err := tagOf(m, t.Marshal())
		if err != nil || !reflect.DeepEqual(t, u) {
			lib.Bad(k, "a tag of kind %s does not read back as itself (%v)", m.K, err)
		}
	}
	if !s.Live {
		return nil
	}
	once.Do(func() { srv = srvx.Start(srvx.Opt{Apps: []string{"live"}, FLV: true}) })
	mu.Lock()
	next++
	name := fmt.Sprintf("s%d", next)
	mu.Unlock()
	a, _ := srv.Pipe()
	defer a.Close()
	c, err := rtmpc.Client(a, lim)
	if err != nil {
		lib.Missing(0, "%v", err)
	}
	if _, err = c.Connect("live", lim); err == nil {
		var code string
		if code, err = c.Publish(name, lim); err == nil && code != "NetStream.Publish.Start" {
			err = fmt.Errorf(code)
		}
	}
	if err != nil {
		lib.Missing(0, "publish: %v", err)
	}
	c.SetSize(1 << 20)
	join := func(k int, ws bool) *viewer {
		v := &viewer{name: "HTTP"}
		get, st := flvc.Get, 200
		if ws {
			get, st, v.name = flvc.Open, 101, "WebSocket"
		}
		x, err := get(srv.HTTP(), "/live/"+name+".flv", lim)
		if err != nil || x.Status != st {
			lib.Missing(k, "%s viewer: %v", v.name, err)
		}
		if !ws && x.Hdr.Get("Content-Type") != "video/x-flv" {
			lib.Bad(k, "content type %q", x.Hdr.Get("Content-Type"))
		}
		v.s = x
		go v.read()
		return v
	}
	vs := []*viewer{join(0, false), join(0, true)}
	var late *viewer
	defer func() {
		for _, v := range append(vs, late) {
			if v != nil {
				v.s.C.Close()
			}
		}
	}()
	for _, v := range vs {
		v.expect(0, "the file header", lib.Bytes(s.File), lim)
	}
	first := []byte{0x2f, 1, 2}
	c.Send(rtmpc.Msg{CS: 4, Type: 8, SID: 1, P: first})
	first = append(append(append([]byte(nil), lib.Bytes(s.First.Head)...), first...), lib.Bytes(s.First.Tail)...)
	for _, v := range vs {
		v.expect(0, "the first tag", first, lim)
	}
	for i, m := range s.Msgs {
		k := i + 1
		if s.Late == k {
			late = join(k, i%2 == 1)
			late.expect(k, "the file header", lib.Bytes(s.File), lim)
			late.at = -1
		}
		c.Send(rtmpc.Msg{CS: 4, Type: m.Ty, SID: 1, TS: uint32(m.TS[0])<<16 | uint32(m.TS[1]), P: pays[i]})
		if !m.Del {
			continue
		}
		for _, v := range vs {
			v.expect(k, fmt.Sprintf("message %d, %s of %d bytes at %v", k, m.K, m.N, m.TS), want[i], lim)
		}
	}
	n := len(s.Msgs) + 1
	c.Cmd("FCUnpublish", nil, name)
	if _, err := c.Fence(lim); err != nil {
		lib.Missing(n, "%v", err)
	}
	for _, v := range vs {
		for dl := time.Now().Add(lim); ; time.Sleep(200 * time.Microsecond) {
			v.mu.Lock()
			extra, err := len(v.b)-v.at, v.err
			v.mu.Unlock()
			if extra > 0 {
				lib.Bad(n, "%s viewer: %d bytes too many", v.name, extra)
			}
			if err == io.EOF {
				break
			}
			if err != nil || time.Now().After(dl) {
				lib.Missing(n, "%s viewer: the file does not end cleanly: %v", v.name, err)
			}
		}
	}
	if late != nil { // whatever it got is a sequence of the tags above
		for dl := time.Now().Add(lim); ; time.Sleep(time.Millisecond) {
			late.mu.Lock()
			err := late.err
			late.mu.Unlock()
			if err != nil {
				break
			}
			if time.Now().After(dl) {
				lib.Missing(n, "the late viewer's file does not end")
			}
		}
		b := late.b[len(s.File):]
	next:
		for len(b) > 0 {
			for _, want := range append(want, first) {
				if bytes.HasPrefix(b, want) {
					b = b[len(want):]
					continue next
				}
			}
			lib.Bad(n, "the late viewer got what is no published tag: % x...", b[:min(len(b), 24)])
		}
	}
	return nil
}

func main() { lib.Main(8, run) }
