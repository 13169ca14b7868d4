// Command ws plays WebSocket viewers: what they are sent, what they are answered, and what is left of them.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"vh/flvc"
	"vh/lib"
	"vh/rtmpc"
	"vh/srvx"
)

type step struct {
	Op   string `json:"op"`
	V    string `json:"v"`
	Code int    `json:"code"`
	N    int    `json:"n"`
	How  string `json:"how"`
}
type scen struct {
	Steps []step `json:"steps"`
	N     int    `json:"num"`
}

var (
	once sync.Once
	srv  *srvx.Srv
	next int
)

func fds() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(d)
}

func poll(lim time.Duration, f func() bool) bool {
	for end := time.Now().Add(lim); ; time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return f()
		}
	}
}

func quiet(lim time.Duration, n int, what string, gor, fd int) {
	if !poll(lim, func() bool { return runtime.NumGoroutine() <= gor && fds() <= fd }) {
		b := make([]byte, 1<<16)
		b = b[:runtime.Stack(b, true)]
		if len(b) > 6000 {
			b = b[:6000]
		}
		lib.Missing(n, "%s: %d goroutines, %d expected; %d descriptors, %d expected\n%s", what, runtime.NumGoroutine(), gor, fds(), fd, b)
	}
}

// payload of message i, of n bytes: MP3 audio that says which it is.
func payload(i, n int) []byte {
	b := make([]byte, n)
	for j := range b {
		b[j] = byte(i*31 + j*7 + j>>8)
	}
	b[0] = 0x2f
	return b
}

// viewer is the client's side of a WebSocket.
type viewer struct {
	c      net.Conn
	br     *bufio.Reader
	mu     sync.Mutex
	data   bytes.Buffer
	pongs  [][]byte
	closed bool   // the close frame has come
	err    error  // how reading ended
	bad    string // what the server must not send
	hold   sync.Mutex
}

func (v *viewer) read() {
	w := flvc.NewWS(v.c, v.br)
	for {
		v.hold.Lock()
		v.hold.Unlock()
		op, p, err := w.Frame()
		v.mu.Lock()
		if err != nil {
			v.err = err
			if errors.Is(err, flvc.ErrWS) {
				v.bad = err.Error()
			}
			v.mu.Unlock()
			return
		}
		if v.closed && v.bad == "" {
			v.bad = fmt.Sprintf("a frame (opcode %d, %d bytes) after the close frame", op, len(p))
		}
		switch op {
		case 2:
			v.data.Write(p)
		case 10:
			v.pongs = append(v.pongs, p)
		case 8:
			v.closed = true
		default:
			v.bad = fmt.Sprintf("opcode %d", op)
		}
		v.mu.Unlock()
	}
}

// tags parses what has arrived.
func (v *viewer) tags(st int) (out []flvc.Tag) {
	v.mu.Lock()
	b := append([]byte{}, v.data.Bytes()...)
	v.mu.Unlock()
	if len(b) == 0 {
		return nil
	}
	r := flvc.NewReader(bytes.NewReader(b))
	for {
		t, err := r.Next()
		if errors.Is(err, flvc.ErrFormat) {
			lib.Bad(st, "%v", err)
		}
		if err != nil {
			return
		}
		out = append(out, t)
	}
}

func (v *viewer) state() (closed bool, err error, bad string, pongs [][]byte) {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.closed, v.err, v.bad, append([][]byte{}, v.pongs...)
}

type world struct {
	lim    time.Duration
	name   string
	pub    *rtmpc.Conn
	sent   [][]byte // media since the viewer's request
	v      *viewer
	pings  [][]byte
	seq    int
	unread bool // the client's last frames may be unread
}

func (w *world) media(n int) {
	p := payload(w.seq, n)
	w.sent = append(w.sent, p)
	w.seq++
	w.pub.Send(rtmpc.Msg{CS: 6, Type: 8, TS: uint32(w.seq * 10), SID: 1, P: p})
}

// request writes an upgrade request and reads the answer.
func (w *world) request(st int, e step) bool {
	c, err := net.DialTimeout("tcp", srv.HTTP(), w.lim)
	if err != nil {
		lib.Missing(st, "%v", err)
	}
	c.SetDeadline(time.Now().Add(w.lim))
	kb := make([]byte, 16)
	rand.Read(kb)
	key := base64.StdEncoding.EncodeToString(kb)
	path, lines := "/live/"+w.name+".flv", []string{"Upgrade: websocket", "Connection: Upgrade", "Sec-WebSocket-Version: 13", "Sec-WebSocket-Key: " + key}
	switch e.V {
	case "case":
		lines = []string{"sec-websocket-key: " + key, "CONNECTION: UPGRADE", "sec-websocket-version: 13", "upgrade: WebSocket"}
	case "list":
		lines[1] = "Connection: keep-alive, Upgrade"
	case "extra":
		lines = append([]string{"Origin: http://elsewhere", "Sec-WebSocket-Extensions: permessage-deflate; client_max_window_bits", "User-Agent: x"}, lines...)
	case "nokey":
		lines = lines[:3]
	case "emptykey":
		lines[3] = "Sec-WebSocket-Key:"
	case "noconn":
		lines = append(lines[:1], lines[2:]...)
	case "nostream":
		path = "/live/none.flv"
	case "noapp":
		path = "/none/" + w.name + ".flv"
	case "short":
		path = "/live.flv"
	}
	fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: h\r\n%s\r\n\r\n", path, strings.Join(lines, "\r\n"))
	br := bufio.NewReaderSize(c, 4096)
	resp, err := http.ReadResponse(br, nil)
	if err != nil {
		c.Close()
		lib.Missing(st, "no answer to the request (%s): %v", e.V, err)
	}
	if resp.StatusCode != e.Code {
		c.Close()
		lib.Bad(st, "a request (%s) is answered %d, expected %d", e.V, resp.StatusCode, e.Code)
	}
	c.SetDeadline(time.Time{})
	if e.Code != 101 {
		c.Close()
		return false
	}
	h := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	if a := resp.Header.Get("Sec-WebSocket-Accept"); a != base64.StdEncoding.EncodeToString(h[:]) {
		c.Close()
		lib.Bad(st, "the accept key for %q is %q", key, a)
	}
	if !strings.EqualFold(resp.Header.Get("Upgrade"), "websocket") || !strings.Contains(strings.ToLower(resp.Header.Get("Connection")), "upgrade") || resp.Header.Get("Sec-WebSocket-Extensions") != "" || resp.Header.Get("Sec-WebSocket-Protocol") != "" {
		c.Close()
		lib.Bad(st, "the answer to the upgrade (%s) has the headers %v", e.V, resp.Header)
	}
	w.v = &viewer{c: c, br: br}
	return true
}

// check compares what has arrived; all: everything must have.
func (w *world) check(st int, all bool) bool {
	_, err, bad, pongs := w.v.state()
	if bad != "" {
		lib.Bad(st, "%s", bad)
	}
	for i, p := range pongs {
		if i >= len(w.pings) || !bytes.Equal(p, w.pings[i]) {
			lib.Bad(st, "pong %d has the payload % x", i+1, trim(p))
		}
	}
	tags := w.v.tags(st)
	for i, t := range tags {
		if i >= len(w.sent) || t.Type != 8 || t.TS != uint32(i+1)*10 || !bytes.Equal(t.P, w.sent[i]) {
			lib.Bad(st, "tag %d is not message %d of the publisher (type %d, time %d, %d bytes: % x)", i+1, i+1, t.Type, t.TS, len(t.P), trim(t.P))
		}
	}
	if all && err != nil {
		lib.Bad(st, "the viewer's connection ended: %v", err)
	}
	return len(pongs) == len(w.pings) && len(tags) == len(w.sent)
}

func trim(b []byte) []byte {
	if len(b) > 16 {
		return b[:16]
	}
	return b
}

func scenario(s scen) {
	lim := lib.D(8 * time.Second)
	next++
	w := &world{lim: lim, name: fmt.Sprintf("w%d", next)}
	gor0, fd0 := runtime.NumGoroutine(), fds()
	pc, gone := srv.Pipe()
	var err error
	w.pub, err = rtmpc.Client(pc, lim)
	if err == nil {
		_, err = w.pub.Connect("live", lim)
	}
	var code string
	if err == nil {
		code, err = w.pub.Publish(w.name, lim)
	}
	if err != nil || code != "NetStream.Publish.Start" {
		pc.Close()
		lib.Missing(0, "publish: %s %v", code, err)
	}
	w.pub.SetSize(65536)
	w.pub.Fence(lim)
	var wg sync.WaitGroup
	defer func() {
		pc.Close()
		if w.v != nil {
			w.v.c.Close()
		}
		wg.Wait()
	}()
	gor, fd := runtime.NumGoroutine(), fds()
	steps := s.Steps
	// what the publisher sends and what the client sends, each in its order, at the same time
	var pubs, clis []step
	last := step{}
	on := false
	for i, e := range steps {
		switch e.Op {
		case "dial":
			if on = w.request(i+1, e); on {
				go w.v.read()
			}
		case "media":
			pubs = append(pubs, e)
		case "end":
			last = e
		default:
			clis = append(clis, e)
		}
	}
	n := len(steps)
	if on {
		wg.Add(2)
		if s.N%3 == 0 {
			w.v.c.(*net.TCPConn).SetReadBuffer(65536)
		}
		go func() {
			defer wg.Done()
			for _, e := range pubs {
				w.media(e.N)
			}
		}()
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(int64(s.N)))
			var out []byte
			for _, e := range clis {
				p := make([]byte, e.N)
				r.Read(p)
				op := map[string]byte{"text": 1, "binary": 2, "ping": 9, "pong": 10}[e.Op]
				if op == 9 {
					w.pings = append(w.pings, p)
				}
				f := flvc.ClientFrame(op, p, true, true)
				if s.N%4 == 1 && len(out)+len(f) < 60000 { // several in a segment
					out = append(out, f...)
					continue
				}
				if s.N%4 == 2 && len(f) < 300 { // in pieces
					for _, b := range f {
						w.v.c.Write([]byte{b})
					}
					continue
				}
				w.v.c.Write(append(out, f...))
				out = nil
			}
			w.v.c.Write(out)
		}()
		wg.Wait()
		if !poll(lim, func() bool { return w.check(n, true) }) {
			_, _, _, pongs := w.v.state()
			lib.Missing(n, "of %d messages and %d pings, %d and %d came back", len(w.sent), len(w.pings), len(w.v.tags(n)), len(pongs))
		}
		if last.How == "" {
			last.How = "pubend"
		}
		w.unread = len(clis) > 0 && clis[len(clis)-1].Op != "ping"
		w.end(n, last.How, s.N, gor, fd)
		quiet(lim, n, "after "+last.How+", of the viewer", gor, fd)
	}
	w.pub.C.Close()
	if !poll(lim, func() bool {
		select {
		case <-gone:
			return true
		default:
			return false
		}
	}) {
		lib.Missing(n, "the publisher's session does not end")
	}
	if w.v != nil {
		w.v.c.Close()
	}
	quiet(lim, n, "all have gone", gor0, fd0)
}

// end ends the viewer in the way how.
func (w *world) end(st int, how string, num, gor, fd int) {
	v, c := w.v, w.v.c.(*net.TCPConn)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	stalls := strings.HasPrefix(how, "stall")
	tail := num%2 == 0 && how != "pubend" && !stalls
	go func() { // the stream goes on
		defer wg.Done()
		for i := 0; tail && i < 400; i++ {
			select {
			case <-stop:
				return
			default:
				w.media(300 + i)
			}
		}
	}()
	frame := func(op byte, p []byte, fin bool) { c.Write(flvc.ClientFrame(op, p, fin, true)) }
	said := true // the server can say goodbye
	if stalls {  // the viewer reads no more, and the server cannot write
		v.hold.Lock()
		c.SetReadBuffer(4096)
		for i := 0; i < 60; i++ {
			w.media(200000)
		}
		w.pub.Fence(w.lim)
		time.Sleep(lib.D(50 * time.Millisecond))
	}
	switch how {
	case "stall":
		frame(8, nil, true)
		said = false
	case "stallfin":
		c.CloseWrite()
		said = false
	case "close":
		frame(8, nil, true)
	case "closecode":
		frame(8, []byte{3, 232}, true)
	case "closereason":
		frame(8, append([]byte{3, 233}, "going away, and a reason to say so at some length"...), true)
	case "fin":
		c.CloseWrite()
	case "reset":
		c.SetLinger(0)
		c.Close()
		said = false
	case "half":
		f := flvc.ClientFrame(9, make([]byte, 100), true, true)
		c.Write(f[:1+num%(len(f)-1)])
		c.CloseWrite()
	case "bigping":
		frame(9, make([]byte, 126+num%100), true)
	case "hugeping":
		frame(9, make([]byte, 65536), true)
		said = false
	case "fragping":
		frame(9, []byte("x"), false)
	case "huge": // 16 MiB announced
		c.Write([]byte{0x82, 0xff, 0, 0, 0, 0, 1, 0, 0, 0, 1, 2, 3, 4})
		if num%3 == 0 {
			c.Write(make([]byte, 1000))
			said = false
		}
	case "pubend":
		w.pub.C.Close()
		said = said && !w.unread
	default:
		panic(how)
	}
	if how != "pubend" && tail {
		time.Sleep(time.Duration(num%5) * time.Millisecond)
	}
	if stalls { // besides: the client's descriptor and its reader
		quiet(w.lim, st, "after "+how+", of a viewer that does not read", gor+1, fd+1)
		v.hold.Unlock()
		time.Sleep(10 * time.Millisecond)
	}
	if how != "reset" && !stalls {
		if !poll(w.lim, func() bool { _, err, _, _ := v.state(); return err != nil }) {
			lib.Missing(st, "after %s the server does not end the connection", how)
		}
	}
	close(stop)
	wg.Wait()
	w.check(st, false)
	closed, err, _, _ := v.state()
	if said && (!closed || !errors.Is(err, io.EOF)) {
		lib.Missing(st, "after %s the connection ends without a close frame: %v", how, err)
	}
	c.Close()
}

func run(raw json.RawMessage) interface{} {
	var s scen
	lib.Dec(raw, &s)
	once.Do(func() {
		debug.SetGCPercent(-1)
		debug.SetMemoryLimit(2 << 30)
		srv = srvx.Start(srvx.Opt{Apps: []string{"live"}, FLV: true})
		time.Sleep(5 * time.Millisecond)
		scenario(scen{N: 1})
	})
	scenario(s)
	return nil
}

func main() { lib.Main(1, run) }
