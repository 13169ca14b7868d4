// Command shake plays the peer in RTMP handshakes.
package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"io"
	"net"
	"sync"
	"time"

	"vh/lib"
	"vh/rtmpc"
	"vh/srvx"
)

type step struct {
	Op      string `json:"op"`
	N       int    `json:"n"`
	Lo      int    `json:"lo"`
	Hi      int    `json:"hi"`
	Session bool   `json:"session"`
	Pong    bool   `json:"pong"`
}

type scen struct {
	Role string `json:"role"`
	Par  struct {
		Ver  int    `json:"ver"`
		Form string `json:"form"`
		Off  []int  `json:"off"`
		VW   []int  `json:"vw"`
		C2   string `json:"c2"`
	} `json:"par"`
	Proof string `json:"proof"`
	At    int    `json:"at"`
	Hist  []step `json:"hist"`
	TCP   bool   `json:"tcp"`
}

// The keys are constants of the protocol: "Genuine Adobe Flash Player 001" / "... Media Server 001" and 32 more bytes.
var tail = []byte{0xF0, 0xEE, 0xC2, 0x4A, 0x80, 0x68, 0xBE, 0xE8, 0x2E, 0x00, 0xD0, 0xD1, 0x02, 0x9E, 0x7E, 0x57,
	0x6E, 0xEC, 0x5D, 0x2D, 0x29, 0x80, 0x6F, 0xAB, 0x93, 0xB8, 0xE6, 0x36, 0xCF, 0xEB, 0x31, 0xAE}
var player, server = "Genuine Adobe Flash Player 001", "Genuine Adobe Flash Media Server 001"

func mac(key, data []byte) []byte {
	h := hmac.New(sha256.New, key)
	h.Write(data)
	return h.Sum(nil)
}

func without(b []byte, at int) []byte { return append(append([]byte(nil), b[:at]...), b[at+32:]...) }

func digestAt(b []byte, base int) int {
	return base + 4 + (int(b[base])+int(b[base+1])+int(b[base+2])+int(b[base+3]))%728
}

var seen = struct {
	sync.Mutex
	m map[string]bool
}{m: map[string]bool{}}

type peer struct {
	mu  sync.Mutex
	in  []byte
	err error
}

func (p *peer) read(c net.Conn) {
	b := make([]byte, 4096)
	for {
		n, err := c.Read(b)
		p.mu.Lock()
		p.in = append(p.in, b[:n]...)
		p.err = err
		p.mu.Unlock()
		if err != nil {
			return
		}
	}
}

func (p *peer) get() ([]byte, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.in[:len(p.in):len(p.in)], p.err
}

func pongs(b []byte) (vals []uint32, names []string) {
	r := rtmpc.NewReader(bytes.NewReader(b))
	for {
		m, err := r.Next()
		if err != nil {
			return
		}
		if m.Type == 4 && len(m.P) == 6 && m.P[0] == 0 && m.P[1] == 7 {
			vals = append(vals, binary.BigEndian.Uint32(m.P[2:]))
		}
		if m.Type == 20 {
			if v, err := rtmpc.Dec(m.P); err == nil && len(v) > 0 {
				if s, ok := v[0].(string); ok {
					names = append(names, s)
				}
			}
		}
	}
}

func run(raw json.RawMessage) interface{} {
	var s scen
	lib.Dec(raw, &s)
	lim := lib.D(8 * time.Second)
	rnd := make([]byte, 3073)
	rand.Read(rnd)
	// what is sent: C0 C1 C2 or S0 S1 S2, and a ping
	out := append([]byte(nil), rnd...)
	out[0] = byte(s.Par.Ver)
	c1 := out[1:1537]
	binary.BigEndian.PutUint16(c1[4:], uint16(s.Par.VW[0]))
	binary.BigEndian.PutUint16(c1[6:], uint16(s.Par.VW[1]))
	base := 8
	if s.Par.Form == "high" || s.Par.Form == "badhigh" {
		base = 772
	}
	for i, v := range s.Par.Off {
		c1[base+i] = byte(v)
	}
	at := digestAt(c1, base)
	var dig []byte
	if s.Par.Form != "simple" {
		if (s.Par.Form == "low" || s.Par.Form == "high") && at != s.At {
			panic("digest position")
		}
		dig = mac([]byte(player), without(c1, at))
		copy(c1[at:], dig)
		if s.Par.Form == "badlow" || s.Par.Form == "badhigh" {
			c1[at+31] ^= 1
		}
	}
	val := binary.BigEndian.Uint32(rnd[1000:])
	out = append(out, rtmpc.Chunks(rtmpc.Msg{CS: 2, Type: 4, P: append([]byte{0, 6}, rnd[1000:1004]...)}, 128)...)
	if len(out) != 3073+18 {
		panic("length")
	}
	switch s.Par.C2 {
	case "zero":
		copy(out[1537:3073], make([]byte, 1536))
	case "echo":
		if s.Role == "client" { // S2
			copy(out[1537:3073], c1)
		}
	}

	var c net.Conn
	var done chan struct{}
	hello := 0
	if s.Role == "client" {
		h := srvx.Host()
		l, err := net.Listen("tcp", h+":1940")
		if err != nil {
			panic(err)
		}
		srvx.Start(srvx.Opt{Apps: []string{"live"}, Pulls: [][3]string{{"rtmp://" + h + ":1940/up/x", "live", "x"}}})
		l.(*net.TCPListener).SetDeadline(time.Now().Add(lim))
		c, err = l.Accept()
		l.Close()
		if err != nil {
			lib.Missing(0, "the server does not connect to its upstream: %v", err)
		}
		hello = 1537
	} else {
		x := rtmpc.NewSrv("live")
		if s.TCP {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic(err)
			}
			done = make(chan struct{})
			go func() {
				d, err := l.Accept()
				l.Close()
				if err == nil {
					x.Serve(d)
				}
				close(done)
			}()
			if c, err = net.Dial("tcp", l.Addr().String()); err != nil {
				panic(err)
			}
		} else {
			c, done = x.Pipe()
		}
	}
	defer c.Close()
	p := &peer{}
	go p.read(c)
	wait := func(k, lo, hi int) []byte {
		for dl := time.Now().Add(lim); ; time.Sleep(200 * time.Microsecond) {
			in, err := p.get()
			if len(in) > hi {
				return in
			}
			if len(in) >= lo {
				return in
			}
			if err != nil || time.Now().After(dl) {
				lib.Missing(k, "%d bytes received, expected %d to %d (%v)", len(in), lo, hi, err)
			}
		}
	}
	wait(0, hello, hello)
	pos := 0
	for k, e := range s.Hist {
		k++
		if e.Op == "close" {
			c.Close()
			break
		}
		if s.Role == "server" && pos+e.N > 1537 && s.Par.C2 == "echo" && s.Par.Ver == 3 {
			in := wait(k, 3073, 3073)
			copy(out[1537:3073], in[1:1537]) // C2 (the digest form's C2 is not checked by servers)
			if s.Proof == "echo" {
				copy(out[1541:], rnd[:4]) // time2 is the client's to choose
			} else {
				d := digestAt(in[1:1537], map[string]int{"low": 8, "high": 772}[s.Par.Form])
				key := mac(append([]byte(player), tail...), in[1+d:1+d+32])
				copy(out[1537:3073], rnd[:1504])
				copy(out[3041:3073], mac(key, out[1537:3041]))
			}
		}
		c.SetWriteDeadline(time.Now().Add(lim))
		_, err := c.Write(out[pos : pos+e.N])
		pos += e.N
		if err != nil && s.Par.Ver == 3 {
			lib.Bad(k, "the connection is closed in the handshake: %v", err)
		}
		if s.Par.Ver != 3 {
			continue
		}
		in := wait(k, e.Lo, e.Hi)
		if !e.Session && len(in) > e.Hi {
			lib.Bad(k, "%d bytes after %d, at most %d are due", len(in), pos, e.Hi)
		}
		if e.Pong {
			for dl := time.Now().Add(lim); ; time.Sleep(200 * time.Microsecond) {
				in, err := p.get()
				v, _ := pongs(in[3073:])
				if len(v) == 1 && v[0] == val {
					break
				}
				if len(v) > 0 || err != nil || time.Now().After(dl) {
					lib.Bad(k, "the ping behind the handshake: answers %v, expected %d (%v)", v, val, err)
				}
			}
		}
	}
	last := s.Hist[len(s.Hist)-1]
	n := len(s.Hist)
	if s.Par.Ver != 3 && last.Op != "close" {
		if s.Role == "server" {
			c.SetWriteDeadline(time.Now().Add(lim))
			c.Write(rtmpc.Chunks(rtmpc.Msg{CS: 3, Type: 20, P: rtmpc.Enc("connect", 1, rtmpc.Obj{{K: "app", V: "live"}})}, 128))
		}
		for dl := time.Now().Add(100 * time.Millisecond); time.Now().Before(dl); time.Sleep(5 * time.Millisecond) {
			in, err := p.get()
			if s.Role == "client" && len(in) > 1537 {
				lib.Bad(n, "the client goes on with a server of version %d", s.Par.Ver)
			}
			if len(in) > 3073 {
				lib.Bad(n, "a session with version %d", s.Par.Ver)
			}
			if err != nil {
				break
			}
		}
		c.Close()
	}
	in, _ := p.get()
	if s.Role == "server" && s.Par.Ver == 3 && len(in) >= 3073 {
		server001 := []byte(server)
		if in[0] != 3 {
			lib.Bad(n, "S0 is %d", in[0])
		}
		s1, s2 := in[1:1537], in[1537:3073]
		seen.Lock()
		again := seen.m[string(s1[1000:1100])]
		seen.m[string(s1[1000:1100])] = true
		seen.Unlock()
		if again {
			lib.Bad(n, "S1 has random data sent before")
		}
		if s.Proof == "echo" {
			if !bytes.Equal(s2[:4], c1[:4]) || !bytes.Equal(s2[8:], c1[8:]) {
				lib.Bad(n, "S2 is no echo of C1")
			}
		} else {
			ok := false
			for _, b := range []int{8, 772} {
				d := digestAt(s1, b)
				ok = ok || bytes.Equal(s1[d:d+32], mac(server001, without(s1, d)))
			}
			if !ok {
				lib.Bad(n, "S1 has no valid digest")
			}
			key := mac(append(append([]byte(nil), server001...), tail...), dig)
			if !bytes.Equal(s2[1504:], mac(key, s2[:1504])) {
				lib.Bad(n, "S2 has no digest for that of C1")
			}
		}
	}
	if s.Role == "client" {
		if in[0] != 3 || !bytes.Equal(in[5:9], make([]byte, 4)) {
			lib.Bad(n, "C0, C1: version %d, zero field % x", in[0], in[5:9])
		}
		if len(in) >= 3073 && (!bytes.Equal(in[1537:1541], out[1:5]) || !bytes.Equal(in[1545:3073], out[9:1537])) {
			lib.Bad(n, "C2 is no echo of S1")
		}
		if last.Pong {
			for dl := time.Now().Add(lim); ; time.Sleep(time.Millisecond) {
				in, err := p.get()
				_, names := pongs(in[3073:])
				if len(names) > 0 && names[0] == "connect" {
					break
				}
				if err != nil || time.Now().After(dl) {
					lib.Missing(n, "no connect command after the handshake: %v (%v)", names, err)
				}
			}
		}
	}
	if last.Pong && s.Role == "server" && s.Par.Ver == 3 {
		c.SetWriteDeadline(time.Now().Add(lim))
		if _, err := c.Write(rtmpc.Chunks(rtmpc.Msg{CS: 3, Type: 20, P: rtmpc.Enc("connect", 1, rtmpc.Obj{{K: "app", V: "live"}})}, 128)); err != nil {
			lib.Bad(n, "connect: %v", err)
		}
		for dl := time.Now().Add(lim); ; time.Sleep(200 * time.Microsecond) {
			in, err := p.get()
			_, names := pongs(in[3073:])
			if len(names) > 0 && names[0] == "_result" {
				break
			}
			if err != nil && err != io.EOF || time.Now().After(dl) {
				lib.Missing(n, "connect is not answered: %v %v", names, err)
			}
		}
	}
	c.Close()
	if done != nil {
		select {
		case <-done:
		case <-time.After(lim):
			lib.Missing(n, "the server's handler does not return when the connection is closed")
		}
	}
	return nil
}

func main() { lib.Main(8, run) }
