// Package flvc reads FLV over HTTP and WebSocket, strictly, without the library under test.
package flvc

import (
	"vh/lib"

	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"time"
)

var ErrFormat = errors.New("malformed FLV")

// Tag is one FLV tag.
type Tag struct {
	Type byte
	TS   uint32
	P    []byte
}

// Reader reads tags.
type Reader struct {
	r      io.Reader
	header bool
}

func NewReader(r io.Reader) *Reader { return &Reader{r: r} }

// Header reads the file header and the first previous-tag-size.
func (f *Reader) Header() error {
	b := make([]byte, 13)
	if _, err := io.ReadFull(f.r, b); err != nil {
		return err
	}
	if !bytes.Equal(b[:4], []byte("FLV\x01")) || b[4]&^5 != 0 || b[4] == 0 || !bytes.Equal(b[5:], []byte{0, 0, 0, 9, 0, 0, 0, 0}) {
		return fmt.Errorf("%w: header % x", ErrFormat, b)
	}
	f.header = true
	return nil
}

// Next reads the next tag.
func (f *Reader) Next() (t Tag, err error) {
	if !f.header {
		if err = f.Header(); err != nil {
			return
		}
	}
	h := make([]byte, 11)
	if _, err = io.ReadFull(f.r, h); err != nil {
		return
	}
	if h[0] != 8 && h[0] != 9 && h[0] != 18 {
		return t, fmt.Errorf("%w: tag type %d", ErrFormat, h[0])
	}
	n := int(h[1])<<16 | int(h[2])<<8 | int(h[3])
	t.Type = h[0]
	t.TS = uint32(h[7])<<24 | uint32(h[4])<<16 | uint32(h[5])<<8 | uint32(h[6])
	if h[8] != 0 || h[9] != 0 || h[10] != 0 {
		return t, fmt.Errorf("%w: stream id % x", ErrFormat, h[8:])
	}
	b := make([]byte, n+4)
	if _, err = io.ReadFull(f.r, b); err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return
	}
	if p := binary.BigEndian.Uint32(b[n:]); int(p) != n+11 {
		return t, fmt.Errorf("%w: previous tag size %d after a tag of %d bytes of data", ErrFormat, p, n)
	}
	t.P = b[:n]
	return t, nil
}

// Stream is an open HTTP-FLV or WebSocket-FLV response.
type Stream struct {
	C      net.Conn
	Status int
	Body   io.Reader
	Hdr    http.Header
	WS     *WS
}

// joining lets the server's handler go on from its response to the stream: what is published in between is not for the
// viewer.  A repetition of a scenario that differed takes no chance.
func joining(status int) {
	if status == 200 || status == 101 {
		time.Sleep(3 * time.Millisecond)
		if *lib.Slow {
			time.Sleep(400 * time.Millisecond)
		}
	}
}

// Get opens path over HTTP.
func Get(addr, path string, limit time.Duration) (*Stream, error) {
	c, err := net.DialTimeout("tcp", addr, limit)
	if err != nil {
		return nil, err
	}
	c.SetDeadline(time.Now().Add(limit))
	fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: h\r\n\r\n", path)
	resp, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		c.Close()
		return nil, err
	}
	c.SetDeadline(time.Time{})
	joining(resp.StatusCode)
	return &Stream{C: c, Status: resp.StatusCode, Body: resp.Body, Hdr: resp.Header}, nil
}

// WS is a client WebSocket connection; reading it yields the bytes of the binary frames.
type WS struct {
	c      net.Conn
	br     *bufio.Reader
	left   []byte
	Pongs  chan []byte
	Frames int
	Closed bool
}

// Open upgrades path. extra headers are raw lines.
func Open(addr, path string, limit time.Duration) (*Stream, error) {
	c, err := net.DialTimeout("tcp", addr, limit)
	if err != nil {
		return nil, err
	}
	c.SetDeadline(time.Now().Add(limit))
	kb := make([]byte, 16)
	rand.Read(kb)
	key := base64.StdEncoding.EncodeToString(kb)
	fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: %s\r\n\r\n", path, key)
	br := bufio.NewReader(c)
	resp, err := http.ReadResponse(br, nil)
	if err != nil {
		c.Close()
		return nil, err
	}
	c.SetDeadline(time.Time{})
	s := &Stream{C: c, Status: resp.StatusCode, Hdr: resp.Header}
	if resp.StatusCode == 101 {
		h := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
		if a := resp.Header.Get("Sec-WebSocket-Accept"); a != base64.StdEncoding.EncodeToString(h[:]) {
			return nil, fmt.Errorf("wrong accept key %q for %q", a, key)
		}
		s.WS = NewWS(c, br)
		s.Body = s.WS
		joining(resp.StatusCode)
	}
	return s, nil
}

func NewWS(c net.Conn, br *bufio.Reader) *WS {
	return &WS{c: c, br: br, Pongs: make(chan []byte, 1024)}
}

var ErrWS = errors.New("malformed WebSocket frame")

// Frame reads one frame.
func (w *WS) Frame() (op byte, p []byte, err error) {
	h := make([]byte, 2)
	if _, err = io.ReadFull(w.br, h); err != nil {
		return
	}
	if h[0]&0x80 == 0 || h[0]&0x70 != 0 || h[1]&0x80 != 0 {
		return 0, nil, fmt.Errorf("%w: header % x", ErrWS, h)
	}
	op = h[0] & 15
	n := uint64(h[1] & 0x7f)
	switch n {
	case 126:
		b := make([]byte, 2)
		if _, err = io.ReadFull(w.br, b); err != nil {
			return
		}
		n = uint64(binary.BigEndian.Uint16(b))
		if n < 126 {
			return 0, nil, fmt.Errorf("%w: length %d not minimal", ErrWS, n)
		}
	case 127:
		b := make([]byte, 8)
		if _, err = io.ReadFull(w.br, b); err != nil {
			return
		}
		n = binary.BigEndian.Uint64(b)
		if n < 65536 || n > 1<<40 {
			return 0, nil, fmt.Errorf("%w: length %d", ErrWS, n)
		}
	}
	if op >= 8 && n > 125 {
		return 0, nil, fmt.Errorf("%w: control frame of %d bytes", ErrWS, n)
	}
	p = make([]byte, n)
	_, err = io.ReadFull(w.br, p)
	if err == io.EOF && n > 0 {
		err = io.ErrUnexpectedEOF
	}
	return
}

// Read implements io.Reader over the binary frames.
func (w *WS) Read(b []byte) (int, error) {
	for len(w.left) == 0 {
		op, p, err := w.Frame()
		if err != nil {
			return 0, err
		}
		switch op {
		case 2:
			w.Frames++
			w.left = p
		case 10:
			w.Pongs <- p
		case 8:
			w.Closed = true
			return 0, io.EOF
		default:
			return 0, fmt.Errorf("%w: opcode %d", ErrWS, op)
		}
	}
	n := copy(b, w.left)
	w.left = w.left[n:]
	return n, nil
}

// ClientFrame builds a masked frame.
func ClientFrame(op byte, p []byte, fin, masked bool) []byte {
	b := []byte{op}
	if fin {
		b[0] |= 0x80
	}
	m := byte(0)
	if masked {
		m = 0x80
	}
	switch n := len(p); {
	case n < 126:
		b = append(b, m|byte(n))
	case n < 65536:
		b = append(b, m|126, byte(n>>8), byte(n))
	default:
		b = append(b, m|127)
		var l [8]byte
		binary.BigEndian.PutUint64(l[:], uint64(n))
		b = append(b, l[:]...)
	}
	if !masked {
		return append(b, p...)
	}
	k := []byte{0x12, 0xfe, 0x07, 0x99}
	b = append(b, k...)
	for i, x := range p {
		b = append(b, x^k[i%4])
	}
	return b
}
