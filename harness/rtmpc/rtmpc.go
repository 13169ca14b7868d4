// Package rtmpc is an RTMP peer of our own: it shares no code with the library under test.
package rtmpc

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"time"
)

// Msg is one RTMP message.
type Msg struct {
	CS, SID uint32
	Type    byte
	TS      uint32
	P       []byte
}

func (m Msg) String() string {
	n := len(m.P)
	h := m.P
	if n > 24 {
		h = h[:24]
	}
	return fmt.Sprintf("{type %d ts %d len %d % x}", m.Type, m.TS, n, h)
}

type rstate struct {
	have    bool
	ts      uint32
	delta   uint32
	length  uint32
	typ     byte
	sid     uint32
	ext     bool
	partial []byte
	inMsg   bool
}

// Reader decodes a chunk stream strictly.
type Reader struct {
	R     io.Reader
	Size  uint32
	cs    map[uint32]*rstate
	Bytes uint64
}

func NewReader(r io.Reader) *Reader { return &Reader{R: r, Size: 128, cs: map[uint32]*rstate{}} }

var ErrFormat = errors.New("malformed chunk stream")

func (r *Reader) n(n int) ([]byte, error) {
	b := make([]byte, n)
	_, err := io.ReadFull(r.R, b)
	r.Bytes += uint64(n)
	return b, err
}

// Next returns the next complete message. Set Chunk Size is applied (and also returned).
func (r *Reader) Next() (Msg, error) {
	for {
		b, err := r.n(1)
		if err != nil {
			return Msg{}, err
		}
		f := b[0] >> 6
		cs := uint32(b[0] & 63)
		switch cs {
		case 0:
			x, err := r.n(1)
			if err != nil {
				return Msg{}, noEOF(err)
			}
			cs = uint32(x[0]) + 64
		case 1:
			x, err := r.n(2)
			if err != nil {
				return Msg{}, noEOF(err)
			}
			cs = uint32(x[0]) + uint32(x[1])<<8 + 64
		}
		s := r.cs[cs]
		if s == nil {
			s = &rstate{}
			r.cs[cs] = s
		}
		if f != 0 && !s.have {
			return Msg{}, fmt.Errorf("%w: type %d chunk first on chunk stream %d", ErrFormat, f, cs)
		}
		if f != 3 && s.inMsg {
			return Msg{}, fmt.Errorf("%w: type %d chunk inside a message of chunk stream %d", ErrFormat, f, cs)
		}
		var raw uint32
		switch f {
		case 0, 1, 2:
			k := []int{11, 7, 3}[f]
			h, err := r.n(k)
			if err != nil {
				return Msg{}, noEOF(err)
			}
			raw = uint32(h[0])<<16 | uint32(h[1])<<8 | uint32(h[2])
			if f <= 1 {
				s.length = uint32(h[3])<<16 | uint32(h[4])<<8 | uint32(h[5])
				s.typ = h[6]
			}
			if f == 0 {
				s.sid = binary.LittleEndian.Uint32(h[7:])
			}
			s.ext = raw == 0xFFFFFF
		}
		if s.ext {
			x, err := r.n(4)
			if err != nil {
				return Msg{}, noEOF(err)
			}
			v := binary.BigEndian.Uint32(x)
			if f != 3 {
				raw = v
				if v < 0xFFFFFF {
					return Msg{}, fmt.Errorf("%w: extended timestamp %d would have fitted", ErrFormat, v)
				}
			} else if s.inMsg && v != s.delta && v != s.ts {
				return Msg{}, fmt.Errorf("%w: extended timestamp of continuation is %d, message has %d", ErrFormat, v, s.ts)
			}
		}
		switch f {
		case 0:
			s.ts, s.delta = raw, raw
		case 1, 2:
			s.delta = raw
			s.ts += raw
		case 3:
			if !s.inMsg {
				s.ts += s.delta
			}
		}
		s.have = true
		if !s.inMsg {
			s.partial = nil
			s.inMsg = true
		}
		k := s.length - uint32(len(s.partial))
		if k > r.Size {
			k = r.Size
		}
		p, err := r.n(int(k))
		if err != nil {
			return Msg{}, noEOF(err)
		}
		s.partial = append(s.partial, p...)
		if uint32(len(s.partial)) < s.length {
			continue
		}
		s.inMsg = false
		m := Msg{CS: cs, SID: s.sid, Type: s.typ, TS: s.ts, P: s.partial}
		s.partial = nil
		if m.Type == 1 {
			if len(m.P) != 4 {
				return m, fmt.Errorf("%w: set chunk size of %d bytes", ErrFormat, len(m.P))
			}
			v := binary.BigEndian.Uint32(m.P)
			if v == 0 || v > 0x7fffffff {
				return m, fmt.Errorf("%w: chunk size %d", ErrFormat, v)
			}
			r.Size = v
		}
		return m, nil
	}
}

func noEOF(err error) error {
	if err == io.EOF {
		return io.ErrUnexpectedEOF
	}
	return err
}

// CSHeader encodes a basic header.
func CSHeader(f int, cs uint32) []byte {
	switch {
	case cs < 64:
		return []byte{byte(f<<6) | byte(cs)}
	case cs < 320:
		return []byte{byte(f << 6), byte(cs - 64)}
	default:
		return []byte{byte(f<<6) | 1, byte(cs - 64), byte((cs - 64) >> 8)}
	}
}

// Chunks encodes a message as type 0 and type 3 chunks.
func Chunks(m Msg, size int) []byte {
	b := CSHeader(0, m.CS)
	ext := m.TS >= 0xFFFFFF
	t := m.TS
	if ext {
		t = 0xFFFFFF
	}
	b = append(b, byte(t>>16), byte(t>>8), byte(t), byte(len(m.P)>>16), byte(len(m.P)>>8), byte(len(m.P)), m.Type,
		byte(m.SID), byte(m.SID>>8), byte(m.SID>>16), byte(m.SID>>24))
	if ext {
		b = append(b, be32(m.TS)...)
	}
	p := m.P
	for {
		k := len(p)
		if k > size {
			k = size
		}
		b = append(b, p[:k]...)
		p = p[k:]
		if len(p) == 0 {
			return b
		}
		b = append(b, CSHeader(3, m.CS)...)
		if ext {
			b = append(b, be32(m.TS)...)
		}
	}
}

// Conn is an RTMP client connection with a background reader.
type Conn struct {
	C      net.Conn
	Size   int // our chunk size
	Gap    func(b []byte) [][]byte // how writes are cut; nil: whole
	mu     sync.Mutex
	cond   *sync.Cond
	in     []Msg
	pos    int
	err    error
	paused bool
	S1     []byte
	txn    int
	wmu    sync.Mutex
	Rd     *Reader
}

// Client shakes hands on c (simple handshake) and starts reading.
func Client(c net.Conn, limit time.Duration) (*Conn, error) {
	x := &Conn{C: c, Size: 128}
	x.cond = sync.NewCond(&x.mu)
	c.SetDeadline(time.Now().Add(limit))
	c1 := make([]byte, 1537)
	c1[0] = 3
	rand.Read(c1[9:])
	werr := make(chan error, 1)
	go func() { _, err := c.Write(c1); werr <- err }()
	s := make([]byte, 1+1536+1536)
	if _, err := io.ReadFull(c, s); err != nil {
		return nil, fmt.Errorf("handshake: %w", err)
	}
	if err := <-werr; err != nil {
		return nil, err
	}
	x.S1 = s[1:1537]
	if _, err := c.Write(s[1:1537]); err != nil {
		return nil, err
	}
	c.SetDeadline(time.Time{})
	x.Start()
	return x, nil
}

// Raw wraps an already shaken connection.
func Raw(c net.Conn) *Conn {
	x := &Conn{C: c, Size: 128}
	x.cond = sync.NewCond(&x.mu)
	return x
}

// Start launches the reader.
func (x *Conn) Start() {
	x.Rd = NewReader(x.C)
	go func() {
		rd := x.Rd
		for {
			x.mu.Lock()
			for x.paused {
				x.cond.Wait()
			}
			x.mu.Unlock()
			m, err := rd.Next()
			x.mu.Lock()
			if err != nil {
				x.err = err
				x.cond.Broadcast()
				x.mu.Unlock()
				return
			}
			x.in = append(x.in, m)
			x.cond.Broadcast()
			x.mu.Unlock()
		}
	}()
}

// Pause stops (at most one further message is read) or resumes reading.
func (x *Conn) Pause(p bool) {
	x.mu.Lock()
	x.paused = p
	x.cond.Broadcast()
	x.mu.Unlock()
}

// Write sends raw bytes, cut by Gap.
func (x *Conn) Write(b []byte) error {
	x.wmu.Lock()
	defer x.wmu.Unlock()
	x.C.SetWriteDeadline(time.Now().Add(20 * time.Second))
	if x.Gap == nil {
		_, err := x.C.Write(b)
		return err
	}
	for _, p := range x.Gap(b) {
		if len(p) == 0 {
			continue
		}
		if _, err := x.C.Write(p); err != nil {
			return err
		}
	}
	return nil
}

// Send sends a message with type 0/3 chunks.
func (x *Conn) Send(m Msg) error { return x.Write(Chunks(m, x.Size)) }

// Cmd sends a command on chunk stream 3 and returns its transaction id.
func (x *Conn) Cmd(name string, args ...interface{}) (int, error) {
	x.txn++
	return x.txn, x.CmdTxn(name, x.txn, args...)
}

func (x *Conn) CmdTxn(name string, txn int, args ...interface{}) error {
	return x.Send(Msg{CS: 3, Type: 20, P: Enc(append([]interface{}{name, txn}, args...)...)})
}

// SetSize announces a chunk size and uses it.
func (x *Conn) SetSize(n int) error {
	err := x.Send(Msg{CS: 2, Type: 1, P: be32(uint32(n))})
	x.Size = n
	return err
}

// Next returns the next unread message, or an error (io.EOF after close, ErrTimeout).
var ErrTimeout = errors.New("timeout")

func (x *Conn) Next(limit time.Duration) (Msg, error) {
	dead := time.Now().Add(limit)
	t := time.AfterFunc(limit, func() { x.mu.Lock(); x.cond.Broadcast(); x.mu.Unlock() })
	defer t.Stop()
	x.mu.Lock()
	defer x.mu.Unlock()
	for x.pos >= len(x.in) && x.err == nil && time.Now().Before(dead) {
		x.cond.Wait()
	}
	if x.pos < len(x.in) {
		m := x.in[x.pos]
		x.pos++
		return m, nil
	}
	if x.err != nil {
		return Msg{}, x.err
	}
	return Msg{}, ErrTimeout
}

// All returns everything received so far that Next has not returned, and the reader's error.
func (x *Conn) All() ([]Msg, error) {
	x.mu.Lock()
	defer x.mu.Unlock()
	m := append([]Msg(nil), x.in[x.pos:]...)
	x.pos = len(x.in)
	return m, x.err
}

// Closed waits for the end of the connection.
func (x *Conn) Closed(limit time.Duration) bool {
	dead := time.Now().Add(limit)
	t := time.AfterFunc(limit, func() { x.mu.Lock(); x.cond.Broadcast(); x.mu.Unlock() })
	defer t.Stop()
	x.mu.Lock()
	defer x.mu.Unlock()
	for x.err == nil && time.Now().Before(dead) {
		x.cond.Wait()
	}
	return x.err != nil
}

// Fence sends a releaseStream and collects everything up to its _result.
func (x *Conn) Fence(limit time.Duration) ([]Msg, error) {
	x.txn++
	id := 900000 + x.txn
	if err := x.CmdTxn("releaseStream", id, nil, "fence"); err != nil {
		ms, e := x.All()
		if e != nil {
			return ms, e
		}
		return ms, err
	}
	var out []Msg
	dead := time.Now().Add(limit)
	for {
		m, err := x.Next(time.Until(dead))
		if err != nil {
			return out, err
		}
		if m.Type == 20 {
			if v, e := Dec(m.P); e == nil && len(v) >= 2 && v[0] == "_result" && v[1] == float64(id) {
				return out, nil
			}
		}
		out = append(out, m)
	}
}

// Connect sends connect for app and waits for its _result; all messages up to it are returned.
func (x *Conn) Connect(app string, limit time.Duration) ([]Msg, error) {
	id, err := x.Cmd("connect", Obj{{"app", app}, {"type", "nonprivate"}, {"flashVer", "FMLE/3.0"}, {"tcUrl", "rtmp://h/" + app}})
	if err != nil {
		return nil, err
	}
	return x.Until("_result", id, limit)
}

// Until collects messages up to the command reply name with transaction id.
func (x *Conn) Until(name string, id int, limit time.Duration) ([]Msg, error) {
	var out []Msg
	dead := time.Now().Add(limit)
	for {
		m, err := x.Next(time.Until(dead))
		if err != nil {
			return out, err
		}
		out = append(out, m)
		if m.Type == 20 {
			if v, e := Dec(m.P); e == nil && len(v) >= 2 && v[0] == name && v[1] == float64(id) {
				return out, nil
			}
		}
	}
}

// Code returns the status code of a command message ("" if none).
func Code(m Msg) string {
	v, err := Dec(m.P)
	if err != nil {
		return ""
	}
	for _, a := range v {
		if o, ok := a.(map[string]interface{}); ok {
			if c, ok := o["code"].(string); ok {
				return c
			}
		}
	}
	return ""
}

// Publish publishes name and returns the status code.
func (x *Conn) Publish(name string, limit time.Duration) (string, error) {
	id, err := x.Cmd("publish", nil, name, "live")
	if err != nil {
		return "", err
	}
	ms, err := x.Until("onStatus", id, limit)
	if err != nil {
		return "", err
	}
	return Code(ms[len(ms)-1]), nil
}
