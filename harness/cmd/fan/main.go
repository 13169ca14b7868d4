// Driver fan replays histories of spec/Fanout.tla (one publisher, viewers over every protocol) and records what each
// viewer receives; FanTrace.tla judges the recordings.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	"vh/flvc"
	"vh/lib"
	"vh/media"
	"vh/rtmpc"
	"vh/rtspc"
	"vh/srvx"
)

type step struct {
	Op   string `json:"op"`
	K    string `json:"k"`
	ID   int    `json:"id"`
	V    int    `json:"v"`
	Want []int  `json:"want"`
}

type scenario struct {
	Hist  []step   `json:"hist"`
	Proto []string `json:"proto"`
	Base  uint32   `json:"base"` // first timestamp
	Size  int      `json:"size"` // payload size class
	Vid   byte     `json:"vid"`  // video codec (0: AVC), its frames of every type and with composition times
	Aud   byte     `json:"aud"`  // audio codec (0: AAC)
	Free  *free    `json:"free"`
}

type free struct {
	Msgs    int    `json:"msgs"`
	Viewers int    `json:"viewers"`
	Size    int    `json:"size"`
	Gop     int    `json:"gop"`
	Kinds   string `json:"kinds"`
}

type logged struct {
	K  string `json:"k"`
	ID int    `json:"id"`
	t  byte
	p  []byte
	ts uint32
}

type ev struct {
	ID int    `json:"id"`
	H  [3]int `json:"h"`
}

type vtrace struct {
	Proto string   `json:"proto"`
	Lo    int      `json:"lo"`
	Hi    int      `json:"hi"`
	Kinds []string `json:"kinds"`
	Skip  bool     `json:"skip"`
	Fin   bool     `json:"fin"`
	Hdrs  bool     `json:"hdrs"`
	Ev    []ev     `json:"ev"`
	Last  [3]int   `json:"last"`
	Pre   [3]int   `json:"pre"` // the newest headers received before any media
}

type trace struct {
	Log []logged `json:"log"`
	V   []vtrace `json:"v"`
}

type viewer struct {
	mu    sync.Mutex
	cond  *sync.Cond
	r     *room
	n     int
	t     vtrace
	h     [3]int
	bad   string
	ended bool
	err   error
	close func()
	pause func(bool)
	off   bool // never joined
	slow  int64
}

type room struct {
	mu       sync.Mutex
	log      []logged
	vid, aud byte
	srv      *srvx.Srv
	pub      *rtmpc.Conn
	acked    int32
}

// dress gives a message the room's codecs; bare undoes that for media.Parse.
func (r *room) dress(t byte, p []byte, id int) {
	switch {
	case t == 9 && r.vid != 0:
		if p[0]>>4 == 2 {
			p[0] = []byte{0x20, 0x30, 0x50, 0x20}[id%4]
		}
		p[0] = p[0]&0xf0 | r.vid
		if p[1] == 1 {
			copy(p[2:], [][]byte{{0, 0, 0}, {0, 0, 40}, {0xff, 0xff, 0xd8}, {0x7f, 0xff, 0xff}, {0x80, 0, 0}}[id%5])
			if r.vid == 2 || r.vid == 4 { // no packet type: this is data, too
				p[1] = []byte{0, 1, 2, 200}[id%4]
			}
		}
	case t == 8 && r.aud != 0:
		p[0] = r.aud<<4 | byte(id)&15
		if r.aud != 13 {
			p[1] = []byte{0, 1, 2, 200}[id%4]
		}
	}
}

func (r *room) bare(t byte, p []byte) []byte {
	p = append([]byte{}, p...)
	switch {
	case t == 9 && r.vid != 0 && len(p) >= 5:
		ft := byte(0x20)
		if p[0]>>4 == 1 {
			ft = 0x10
		}
		if p[0] = ft | 7; p[1] == 1 || r.vid == 2 || r.vid == 4 {
			copy(p[1:], []byte{1, 0, 0, 0})
		}
	case t == 8 && r.aud != 0 && len(p) > 1:
		p[0] = 0xaf
		if r.aud != 13 {
			p[1] = 1
		}
	}
	return p
}

func lim() time.Duration { return lib.D(5 * time.Second) }

func (r *room) at(id int) (logged, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if id < 1 || id > len(r.log) {
		return logged{}, false
	}
	return r.log[id-1], true
}

func (v *viewer) fail(f string, a ...interface{}) {
	if v.bad == "" {
		v.bad = fmt.Sprintf("%s viewer %d: ", v.t.Proto, v.n) + fmt.Sprintf(f, a...)
	}
}

// note records one received message.
func (v *viewer) note(kind string, id int) {
	if j := bytes.IndexByte([]byte("MVA"), kind[0]); j >= 0 {
		v.h[j] = id
		if len(v.t.Ev) == 0 && id > v.t.Pre[j] {
			v.t.Pre[j] = id
		}
		return
	}
	v.t.Ev = append(v.t.Ev, ev{id, v.h})
}

// msg takes a message of a protocol that carries whole FLV tags.
func (v *viewer) msg(t byte, p []byte, ts uint32) {
	kind, id := media.Parse(t, v.r.bare(t, p))
	v.mu.Lock()
	defer v.mu.Unlock()
	defer v.cond.Broadcast()
	l, ok := v.r.at(id)
	if kind == media.Other || !ok || l.K != kind {
		v.fail("received type %d, %d bytes (% x...), which was not published", t, len(p), p[:min(len(p), 24)])
		return
	}
	if t == 18 {
		if !sameMeta(l.p, p) {
			v.fail("metadata %d changed on the way: % x became % x", id, l.p, p)
		}
	} else if !bytes.Equal(l.p, p) {
		i := 0
		for i < len(p) && i < len(l.p) && p[i] == l.p[i] {
			i++
		}
		v.fail("%s %d changed on the way: %d bytes became %d, first difference at %d", kind, id, len(l.p), len(p), i)
	}
	if ts != l.ts && kind != "M" && kind != "V" && kind != "A" {
		v.fail("%s %d was published with timestamp %d and arrives with %d", kind, id, l.ts, ts)
	}
	v.note(kind, id)
}

func sameMeta(a, b []byte) bool {
	x, e1 := rtmpc.Dec(a)
	y, e2 := rtmpc.Dec(b)
	if e1 != nil || e2 != nil || len(x) == 0 || len(y) == 0 {
		return false
	}
	if x[0] == "@setDataFrame" {
		x = x[1:]
	}
	if y[0] == "@setDataFrame" {
		y = y[1:]
	}
	return reflect.DeepEqual(x, y)
}

func (v *viewer) wait(limit time.Duration, f func() bool) bool {
	dead := time.Now().Add(limit)
	t := time.AfterFunc(limit, func() { v.mu.Lock(); v.cond.Broadcast(); v.mu.Unlock() })
	defer t.Stop()
	v.mu.Lock()
	defer v.mu.Unlock()
	for !f() {
		if v.bad != "" || !time.Now().Before(dead) {
			return false
		}
		v.cond.Wait()
	}
	return true
}

func (v *viewer) last() int {
	if len(v.t.Ev) == 0 {
		return 0
	}
	return v.t.Ev[len(v.t.Ev)-1].ID
}

func (r *room) join(k, n int, proto string, slow time.Duration) *viewer {
	v := &viewer{r: r, n: n, slow: int64(slow)}
	v.cond = sync.NewCond(&v.mu)
	v.t.Proto = proto
	v.t.Kinds = []string{"K", "P", "S", "D", "E"}
	v.t.Hdrs = true
	v.t.Ev = []ev{}
	v.t.Lo = int(atomic.LoadInt32(&r.acked))
	v.t.Hi = v.t.Lo
	v.pause = func(bool) {}
	finish := func(err error) {
		v.mu.Lock()
		v.ended, v.err = true, err
		v.cond.Broadcast()
		v.mu.Unlock()
	}
	switch proto {
	case "http", "ws":
		var st *flvc.Stream
		var err error
		want := 200
		if proto == "ws" {
			st, err = flvc.Open(r.srv.HTTP(), "/live/a.flv", lim())
			want = 101
		} else {
			st, err = flvc.Get(r.srv.HTTP(), "/live/a.flv", lim())
		}
		if err != nil {
			lib.Missing(k, "join over %s: %v", proto, err)
		}
		if st.Status != want {
			lib.Bad(k, "join over %s: status %d", proto, st.Status)
		}
		v.close = func() { st.C.Close() }
		go func() {
			rd := flvc.NewReader(st.Body)
			err := rd.Header()
			for err == nil {
				var t flvc.Tag
				if t, err = rd.Next(); err == nil {
					v.msg(t.Type, t.P, t.TS)
					time.Sleep(time.Duration(atomic.LoadInt64(&v.slow)))
				}
			}
			finish(err)
		}()
	case "rtmp":
		c, _ := r.srv.Pipe()
		x, err := rtmpc.Client(c, lim())
		if err != nil {
			lib.Missing(k, "handshake: %v", err)
		}
		x.Connect("live", lim())
		x.Cmd("play", nil, "a")
		v.close = func() { c.Close() }
		v.pause = x.Pause
		started := make(chan bool, 1)
		go func() {
			for {
				m, err := x.Next(time.Hour)
				if err != nil {
					finish(err)
					return
				}
				switch m.Type {
				case 4:
					if len(m.P) == 6 && m.P[0] == 0 && m.P[1] == 1 { // stream EOF
						finish(io.EOF)
					}
				case 8, 9, 18:
					v.mu.Lock()
					if v.ended {
						v.fail("gets a message of type %d after the end of the stream", m.Type)
					}
					v.mu.Unlock()
					v.msg(m.Type, m.P, m.TS)
					time.Sleep(time.Duration(atomic.LoadInt64(&v.slow)))
				case 20:
					if rtmpc.Code(m) == "NetStream.Play.PublishNotify" {
						started <- true
					}
				}
			}
		}()
		select {
		case <-started:
		case <-time.After(lim()):
			lib.Missing(k, "play is not answered")
		}
	case "rtsp":
		x, err := rtspc.Dial(r.srv.RTSP(), lim())
		if err != nil {
			lib.Missing(k, "RTSP: %v", err)
		}
		v.t.Hdrs = false
		v.close = func() { x.C.Close() }
		dp := &rtspc.Depack{}
		x.Frames = func(f rtspc.Frame) {
			if f.Ch%2 == 1 {
				return
			}
			_, _, _, _, _, p, err := rtspc.RTPHead(f.P)
			v.mu.Lock()
			defer v.mu.Unlock()
			defer v.cond.Broadcast()
			if err != nil {
				v.fail("%v", err)
				return
			}
			if f.Ch == 0 {
				ns, err := dp.H264(p)
				if err != nil {
					v.fail("RTP video: %v", err)
					return
				}
				for _, n := range ns {
					kd, id := media.NAL(n)
					if kd == media.Key || kd == media.Inter {
						l, ok := r.at(id)
						if !ok || l.K != kd || !bytes.Equal(l.p[9:], n) {
							v.fail("NAL unit %s %d of %d bytes was not published", kd, id, len(n))
						}
						v.note(kd, id)
					}
				}
			} else {
				as, err := rtspc.AAC(p)
				if err != nil {
					v.fail("RTP audio: %v", err)
					return
				}
				for _, a := range as {
					if len(a) < 7 {
						v.fail("audio unit of %d bytes was not published", len(a))
						return
					}
					id := media.Get(a[2:])
					l, ok := r.at(id)
					if !ok || l.K != "S" || !bytes.Equal(l.p[2:], a) {
						v.fail("audio unit %d of %d bytes was not published", id, len(a))
					}
					v.note("S", id)
				}
			}
			time.Sleep(time.Duration(atomic.LoadInt64(&v.slow)))
		}
		x.Start()
		u := "rtsp://" + r.srv.RTSP() + "/live/a"
		d, err := x.Do(lim(), "DESCRIBE", u, nil, nil)
		if err != nil {
			lib.Missing(k, "DESCRIBE: %v", err)
		}
		if d.Code == 503 {
			v.off = true
			x.C.Close()
			return v
		}
		if d.Code != 200 {
			lib.Bad(k, "DESCRIBE answered %d", d.Code)
		}
		tracks := []string{"trackID=0"}
		v.t.Kinds = []string{"K", "P"}
		if bytes.Contains(d.Body, []byte("m=audio")) {
			v.t.Kinds = append(v.t.Kinds, "S")
			tracks = append(tracks, "trackID=1")
		}
		for i, t := range tracks {
			s, err := x.Do(lim(), "SETUP", u+"/"+t, []string{fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d", 2*i, 2*i+1)}, nil)
			if err != nil || s.Code != 200 {
				lib.Missing(k, "SETUP %s: %d %v", t, s.Code, err)
			}
		}
		p, err := x.Do(lim(), "PLAY", u, nil, nil)
		if err != nil || p.Code != 200 {
			lib.Missing(k, "PLAY: %d %v", p.Code, err)
		}
	default:
		panic(proto)
	}
	return v
}

func (r *room) has(v *viewer, id int) bool {
	l, _ := r.at(id)
	for _, k := range v.t.Kinds {
		if k == l.K {
			return true
		}
	}
	return false
}

// lastFor is the last message not after id that v's protocol carries and everybody is to get (0: none).
func (r *room) lastFor(v *viewer, id int) int {
	keyed := 0
	r.mu.Lock()
	for i := range r.log {
		if r.log[i].K == "K" {
			keyed = i + 1
			break
		}
	}
	r.mu.Unlock()
	for ; id > 0; id-- {
		if r.has(v, id) {
			l, _ := r.at(id)
			if (l.K == "P" || l.K == "E") && (keyed == 0 || id < keyed) {
				continue
			}
			return id
		}
	}
	return 0
}

func (r *room) publish(kind string, id int, ts uint32, size int) {
	t, p := media.Msg(kind, id)
	if kind == "K" || kind == "P" || kind == "S" {
		if kind == "S" && size > 8000 {
			size = 8000 // an AAC-hbr access unit has a 13-bit size
		}
		pad := make([]byte, size)
		for i := range pad {
			pad[i] = 0x80 | byte(id*7+i)
		}
		p = append(p, pad...)
		if kind != "S" {
			n := len(p) - 9
			p[5], p[6], p[7], p[8] = byte(n>>24), byte(n>>16), byte(n>>8), byte(n)
		}
	}
	r.dress(t, p, id)
	r.mu.Lock()
	r.log = append(r.log, logged{kind, id, t, p, ts})
	r.mu.Unlock()
	cs := map[byte]uint32{8: 4, 9: 6, 18: 5}[t]
	if err := r.pub.Send(rtmpc.Msg{CS: cs, Type: t, SID: 1, TS: ts, P: p}); err != nil {
		lib.Missing(id, "the publisher is disconnected: %v", err)
	}
}

func (r *room) fence(k int) {
	if _, err := r.pub.Fence(lim()); err != nil {
		lib.Missing(k, "publisher: %v", err)
	}
	atomic.StoreInt32(&r.acked, int32(len(r.log)))
}

func newRoom(rtsp bool) *room {
	r := &room{srv: srvx.Start(srvx.Opt{Apps: []string{"live"}, FLV: true, RTSP: rtsp, NoRTMP: true})}
	c, _ := r.srv.Pipe()
	x, err := rtmpc.Client(c, lim())
	if err != nil {
		lib.Missing(0, "handshake: %v", err)
	}
	x.Connect("live", lim())
	if code, err := x.Publish("a", lim()); code != "NetStream.Publish.Start" {
		lib.Missing(0, "publish: %s %v", code, err)
	}
	x.SetSize(4096)
	r.pub = x
	return r
}

var sizes = []int{0, 100, 4000, 9000, 70000}

func replay(s *scenario) interface{} {
	r := newRoom(true)
	r.vid, r.aud = s.Vid, s.Aud
	vs := map[int]*viewer{}
	var all []*viewer
	defer func() {
		for _, v := range all {
			v.close()
		}
		r.pub.C.Close()
	}()
	check := func(k int, v *viewer, want int) {
		if want == 0 {
			return
		}
		id := r.lastFor(v, want)
		if id == 0 {
			return
		}
		if !v.wait(lim(), func() bool { return v.last() == id }) && v.bad == "" {
			v.mu.Lock()
			defer v.mu.Unlock()
			lib.Missing(k, "%s viewer %d does not receive message %d (%v), its last is %d", v.t.Proto, v.n, id, r.log[id-1].K, v.last())
		}
	}
	paused := map[int]bool{}
	for k, st := range s.Hist {
		switch st.Op {
		case "pub":
			r.publish(st.K, st.ID, s.Base+uint32(40*k), sizes[(st.ID*s.Size)%len(sizes)])
			r.fence(k)
		case "join":
			v := r.join(k, st.V, s.Proto[st.V-1], 0)
			if !v.off {
				vs[st.V] = v
				all = append(all, v)
			}
		case "pause":
			if v := vs[st.V]; v != nil {
				v.pause(true) // only over the unbuffered RTMP pipe; elsewhere the viewer is just not waited for
				v.t.Skip = true
				paused[st.V] = true
			}
		case "resume":
			if v := vs[st.V]; v != nil {
				v.pause(false)
				delete(paused, st.V)
			}
		case "leave":
			if v := vs[st.V]; v != nil {
				v.close()
				delete(vs, st.V)
			}
		}
		for n, v := range vs {
			if !paused[n] {
				check(k, v, st.Want[n-1])
			}
			v.mu.Lock()
			bad, ended := v.bad, v.ended
			v.mu.Unlock()
			if bad != "" {
				lib.Bad(k, "%s", bad)
			}
			if ended {
				lib.Bad(k, "the connection of %s viewer %d ended: %v", v.t.Proto, n, v.err)
			}
		}
	}
	for n, v := range vs {
		v.pause(false)
		_ = n
	}
	return r.finish(len(s.Hist), vs, all)
}

// finish ends the publication and returns the recordings.
func (r *room) finish(k int, vs map[int]*viewer, all []*viewer) interface{} {
	r.fence(k)
	for _, v := range all {
		atomic.StoreInt64(&v.slow, 0)
	}
	r.pub.Cmd("deleteStream", nil, 1)
	r.fence(k)
	for _, v := range vs {
		switch v.t.Proto {
		case "http", "ws", "rtmp":
			if !v.wait(lim(), func() bool { return v.ended }) && v.bad == "" {
				lib.Missing(k, "%s viewer %d is not told that the stream has ended", v.t.Proto, v.n)
			}
			if v.ended && v.err != io.EOF && v.bad == "" {
				lib.Bad(k, "the response of %s viewer %d ends with %v", v.t.Proto, v.n, v.err)
			}
		default:
			id := r.lastFor(v, len(r.log))
			if len(v.t.Ev) > 0 || v.t.Skip {
				v.wait(lim(), func() bool { return v.last() == id })
			} else {
				v.wait(20*time.Millisecond, func() bool { return false })
			}
			if v.t.Hdrs {
				v.wait(lib.D(300*time.Millisecond), func() bool { return v.h == r.hdr() })
			}
		}
		v.t.Fin = true
	}
	time.Sleep(10 * time.Millisecond)
	t := trace{Log: append([]logged{}, r.log...), V: []vtrace{}}
	for _, v := range all {
		v.mu.Lock()
		if v.bad != "" {
			defer v.mu.Unlock()
			lib.Bad(k, "%s", v.bad)
		}
		v.t.Last = v.h
		x := v.t
		x.Ev = append([]ev{}, v.t.Ev...)
		v.mu.Unlock()
		t.V = append(t.V, x)
	}
	return t
}

func (r *room) hdr() (h [3]int) {
	for _, l := range r.log {
		if j := bytes.IndexByte([]byte("MVA"), l.K[0]); j >= 0 {
			h[j] = l.ID
		}
	}
	return
}

// race lets publisher and viewers run freely.
func race(f *free) interface{} {
	r := newRoom(true)
	rnd := rand.New(rand.NewSource(*lib.Seed*31 + int64(f.Msgs*f.Viewers+f.Gop)))
	var mu sync.Mutex
	vs := map[int]*viewer{}
	var all []*viewer
	var wg sync.WaitGroup
	defer func() {
		for _, v := range all {
			v.close()
		}
		r.pub.C.Close()
	}()
	stop := make(chan struct{})
	errs := make(chan interface{}, f.Viewers)
	for n := 1; n <= f.Viewers; n++ {
		n := n
		proto := []string{"rtmp", "http", "ws", "rtsp"}[n%4]
		slow := []time.Duration{0, 0, 200 * time.Microsecond, 3 * time.Millisecond}[rnd.Intn(4)]
		delay := time.Duration(rnd.Intn(200)) * time.Millisecond
		leave := rnd.Intn(5) == 0
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs <- p
				}
			}()
			time.Sleep(delay)
			v := r.join(n, n, proto, slow)
			if v.off {
				return
			}
			mu.Lock()
			v.t.Skip = true
			all = append(all, v)
			if !leave {
				vs[n] = v
			}
			mu.Unlock()
			if leave {
				time.Sleep(delay / 2)
				v.close()
			}
		}()
	}
	kinds := "MVAK"
	for i := 1; i <= f.Msgs; i++ {
		k := "P"
		switch {
		case i <= 4:
			k = kinds[i-1 : i]
		case rnd.Intn(f.Gop) == 0:
			k = "K"
		case rnd.Intn(40) == 0:
			k = string("MVAD"[rnd.Intn(4)])
		case rnd.Intn(3) == 0:
			k = "S"
		}
		r.publish(k, i, uint32(i*20), rnd.Intn(f.Size+1))
		if i%16 == 0 {
			r.fence(i)
			time.Sleep(time.Millisecond)
		}
	}
	close(stop)
	wg.Wait()
	select {
	case p := <-errs:
		panic(p)
	default:
	}
	for _, v := range all {
		v.t.Hi = len(r.log)
	}
	return r.finish(f.Msgs, vs, all)
}

func main() {
	lib.Main(6, func(raw json.RawMessage) interface{} {
		var s scenario
		lib.Dec(raw, &s)
		if s.Free != nil {
			return race(s.Free)
		}
		return replay(&s)
	})
}
