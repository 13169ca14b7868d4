// Package rtspc is an RTSP client of our own.
package rtspc

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Resp is a response.
type Resp struct {
	Code   int
	Reason string
	H      map[string]string
	Body   []byte
}

// Frame is an interleaved frame.
type Frame struct {
	Ch byte
	P  []byte
}

// Conn is a connection with a background reader.
type Conn struct {
	C      net.Conn
	mu     sync.Mutex
	cond   *sync.Cond
	resps  []Resp
	Frames func(f Frame) // called by the reader
	Err    error
	cseq   int
}

func Dial(addr string, limit time.Duration) (*Conn, error) {
	c, err := net.DialTimeout("tcp", addr, limit)
	if err != nil {
		return nil, err
	}
	x := New(c)
	return x, nil
}

// New wraps c; call Start.
func New(c net.Conn) *Conn {
	x := &Conn{C: c}
	x.cond = sync.NewCond(&x.mu)
	return x
}

func (x *Conn) Start() {
	go func() {
		br := bufio.NewReader(x.C)
		for {
			err := x.one(br)
			if err != nil {
				x.mu.Lock()
				x.Err = err
				x.cond.Broadcast()
				x.mu.Unlock()
				return
			}
		}
	}()
}

func (x *Conn) one(br *bufio.Reader) error {
	b, err := br.Peek(1)
	if err != nil {
		return err
	}
	if b[0] == '$' {
		h := make([]byte, 4)
		if _, err := io.ReadFull(br, h); err != nil {
			return err
		}
		p := make([]byte, binary.BigEndian.Uint16(h[2:]))
		if _, err := io.ReadFull(br, p); err != nil {
			return err
		}
		if x.Frames != nil {
			x.Frames(Frame{h[1], p})
		}
		return nil
	}
	r, err := ReadResp(br)
	if err != nil {
		return err
	}
	x.mu.Lock()
	x.resps = append(x.resps, r)
	x.cond.Broadcast()
	x.mu.Unlock()
	return nil
}

var ErrFormat = errors.New("malformed RTSP")

func line(br *bufio.Reader) (string, error) {
	l, err := br.ReadString('\n')
	if err != nil {
		return "", err
	}
	if !strings.HasSuffix(l, "\r\n") {
		return "", fmt.Errorf("%w: line %q", ErrFormat, l)
	}
	return l[:len(l)-2], nil
}

// ReadResp reads one response.
func ReadResp(br *bufio.Reader) (r Resp, err error) {
	l, err := line(br)
	if err != nil {
		return r, err
	}
	p := strings.SplitN(l, " ", 3)
	if len(p) < 3 || p[0] != "RTSP/1.0" {
		return r, fmt.Errorf("%w: status line %q", ErrFormat, l)
	}
	if r.Code, err = strconv.Atoi(p[1]); err != nil {
		return r, fmt.Errorf("%w: status line %q", ErrFormat, l)
	}
	r.Reason = p[2]
	r.H = map[string]string{}
	for {
		l, err = line(br)
		if err != nil {
			return r, err
		}
		if l == "" {
			break
		}
		i := strings.Index(l, ":")
		if i < 0 {
			return r, fmt.Errorf("%w: header %q", ErrFormat, l)
		}
		k := strings.ToLower(strings.TrimSpace(l[:i]))
		if _, dup := r.H[k]; dup {
			return r, fmt.Errorf("%w: header %s twice", ErrFormat, k)
		}
		r.H[k] = strings.TrimSpace(l[i+1:])
	}
	if cl := r.H["content-length"]; cl != "" {
		n, err := strconv.Atoi(cl)
		if err != nil || n < 0 {
			return r, fmt.Errorf("%w: content length %q", ErrFormat, cl)
		}
		r.Body = make([]byte, n)
		if _, err := io.ReadFull(br, r.Body); err != nil {
			return r, err
		}
	}
	return r, nil
}

var ErrTimeout = errors.New("timeout")

// Next returns the next response.
func (x *Conn) Next(limit time.Duration) (Resp, error) {
	dead := time.Now().Add(limit)
	t := time.AfterFunc(limit, func() { x.mu.Lock(); x.cond.Broadcast(); x.mu.Unlock() })
	defer t.Stop()
	x.mu.Lock()
	defer x.mu.Unlock()
	for len(x.resps) == 0 && x.Err == nil && time.Now().Before(dead) {
		x.cond.Wait()
	}
	if len(x.resps) > 0 {
		r := x.resps[0]
		x.resps = x.resps[1:]
		return r, nil
	}
	if x.Err != nil {
		return Resp{}, x.Err
	}
	return Resp{}, ErrTimeout
}

// Closed waits for the end of the connection.
func (x *Conn) Closed(limit time.Duration) bool {
	dead := time.Now().Add(limit)
	t := time.AfterFunc(limit, func() { x.mu.Lock(); x.cond.Broadcast(); x.mu.Unlock() })
	defer t.Stop()
	x.mu.Lock()
	defer x.mu.Unlock()
	for x.Err == nil && time.Now().Before(dead) {
		x.cond.Wait()
	}
	return x.Err != nil
}

// Pending reports responses received but not taken.
func (x *Conn) Pending() int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return len(x.resps)
}

// Req builds a request; the next CSeq is returned with it.
func (x *Conn) Req(method, url string, hdr []string, body []byte) ([]byte, string) {
	x.cseq++
	seq := strconv.Itoa(x.cseq)
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s RTSP/1.0\r\nCSeq: %s\r\n", method, url, seq)
	for _, h := range hdr {
		b.WriteString(h + "\r\n")
	}
	if len(body) > 0 {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n")
	b.Write(body)
	return b.Bytes(), seq
}

// Do sends a request and returns its response, whose CSeq must match.
func (x *Conn) Do(limit time.Duration, method, url string, hdr []string, body []byte) (Resp, error) {
	b, seq := x.Req(method, url, hdr, body)
	if _, err := x.C.Write(b); err != nil {
		return Resp{}, err
	}
	r, err := x.Next(limit)
	if err != nil {
		return r, err
	}
	if r.H["cseq"] != seq {
		return r, fmt.Errorf("%w: response to request %s has CSeq %q", ErrFormat, seq, r.H["cseq"])
	}
	return r, nil
}

// RTP builds an RTP packet.
func RTP(pt byte, marker bool, seq uint16, ts, ssrc uint32, payload []byte) []byte {
	b := make([]byte, 12, 12+len(payload))
	b[0] = 0x80
	b[1] = pt
	if marker {
		b[1] |= 0x80
	}
	binary.BigEndian.PutUint16(b[2:], seq)
	binary.BigEndian.PutUint32(b[4:], ts)
	binary.BigEndian.PutUint32(b[8:], ssrc)
	return append(b, payload...)
}

// Inter frames a packet.
func Inter(ch byte, p []byte) []byte {
	return append([]byte{'$', ch, byte(len(p) >> 8), byte(len(p))}, p...)
}
