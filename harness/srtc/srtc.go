// Package srtc is an SRT caller of our own.
package srtc

import (
	"encoding/binary"
	"errors"
	"net"
	"sync"
	"time"
)

// Caller is a connected SRT caller.
type Caller struct {
	burst int
	C     *net.UDPConn
	peer  uint32
	seq   uint32
	mu    sync.Mutex
	shut  bool
	echo  int
	sent  int
	stop  chan struct{}
	cond  *sync.Cond
}

func ctrl(t uint16, info, dst uint32, body []byte) []byte {
	b := make([]byte, 16+len(body))
	binary.BigEndian.PutUint32(b[0:], 0x80000000|uint32(t)<<16)
	binary.BigEndian.PutUint32(b[4:], info)
	binary.BigEndian.PutUint32(b[8:], 777)
	binary.BigEndian.PutUint32(b[12:], dst)
	copy(b[16:], body)
	return b
}

func hs(ver uint32, isn uint32, typ int32, sid, cookie uint32) []byte {
	b := make([]byte, 48)
	binary.BigEndian.PutUint32(b[0:], ver)
	binary.BigEndian.PutUint16(b[6:], 2)
	binary.BigEndian.PutUint32(b[8:], isn)
	binary.BigEndian.PutUint32(b[12:], 1500)
	binary.BigEndian.PutUint32(b[16:], 8192)
	binary.BigEndian.PutUint32(b[20:], uint32(typ))
	binary.BigEndian.PutUint32(b[24:], sid)
	binary.BigEndian.PutUint32(b[28:], cookie)
	b[32] = 127
	return b
}

// Dial performs the handshake.
func Dial(addr string, sid uint32, limit time.Duration) (*Caller, error) {
	a, err := net.ResolveUDPAddr("udp", addr)
	if err != nil {
		return nil, err
	}
	c, err := net.DialUDP("udp", nil, a)
	if err != nil {
		return nil, err
	}
	x := &Caller{C: c, seq: 1000}
	x.cond = sync.NewCond(&x.mu)
	dead := time.Now().Add(limit)
	ask := func(b []byte) ([]byte, error) {
		buf := make([]byte, 2000)
		for time.Now().Before(dead) {
			c.Write(b)
			c.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
			n, err := c.Read(buf)
			if err == nil && n >= 64 && binary.BigEndian.Uint32(buf)>>16 == 0x8000 {
				return buf[:n], nil
			}
			if err != nil {
				time.Sleep(10 * time.Millisecond) // connection refused: not listening yet
			}
		}
		return nil, errors.New("srt: no handshake reply")
	}
	r, err := ask(ctrl(0, 0, 0, hs(4, 0, 1, sid, 0)))
	if err != nil {
		return nil, err
	}
	ck := binary.BigEndian.Uint32(r[16+28:])
	r, err = ask(ctrl(0, 0, 0, hs(5, x.seq, -1, sid, ck)))
	if err != nil {
		return nil, err
	}
	x.peer = binary.BigEndian.Uint32(r[16+24:])
	c.SetReadDeadline(time.Time{})
	go func() {
		buf := make([]byte, 2000)
		for {
			n, err := c.Read(buf)
			if err != nil {
				return
			}
			if n < 16 {
				continue
			}
			x.mu.Lock()
			switch binary.BigEndian.Uint32(buf) >> 16 {
			case 0x8005:
				x.shut = true
			case 0x8001:
				x.echo++
			}
			x.cond.Broadcast()
			x.mu.Unlock()
		}
	}()
	return x, nil
}

// Send sends data, up to 1316 bytes a packet, and never more than the listener's socket can hold.
func (x *Caller) Send(b []byte) {
	for len(b) > 0 {
		if x.burst++; x.burst%24 == 0 {
			x.Fence(5 * time.Second)
		}
		n := 1316
		if n > len(b) {
			n = len(b)
		}
		p := make([]byte, 16, 16+n)
		binary.BigEndian.PutUint32(p[0:], x.seq)
		binary.BigEndian.PutUint32(p[4:], 0xc0000001)
		binary.BigEndian.PutUint32(p[12:], x.peer)
		x.seq = (x.seq + 1) & 0x7fffffff
		x.C.Write(append(p, b[:n]...))
		b = b[n:]
	}
}

// Shutdown ends the session; it is repeated since nothing acknowledges it.
func (x *Caller) Shutdown() { x.C.Write(ctrl(5, 0, x.peer, nil)) }

func (x *Caller) keepalive() int {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.sent++
	x.C.Write(ctrl(1, 0, x.peer, nil))
	return x.sent
}

// KeepAlive keeps the session from idling out.
func (x *Caller) KeepAlive(every time.Duration) {
	x.stop = make(chan struct{})
	go func() {
		for {
			select {
			case <-x.stop:
				return
			case <-time.After(every):
				x.keepalive()
			}
		}
	}()
}

func (x *Caller) StopKeepAlive() {
	if x.stop != nil {
		close(x.stop)
		x.stop = nil
	}
}

// Fence returns once the listener has processed what was sent: a keepalive comes back while the session lives, a
// shutdown has come when it was refused.
func (x *Caller) Fence(limit time.Duration) (alive bool, err error) {
	want := x.keepalive()
	dead := time.Now().Add(limit)
	t := time.AfterFunc(limit, func() { x.mu.Lock(); x.cond.Broadcast(); x.mu.Unlock() })
	defer t.Stop()
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.shut {
			return false, nil
		}
		if x.echo >= want {
			return true, nil
		}
		if time.Now().After(dead) {
			return false, errors.New("srt: no answer")
		}
		x.cond.Wait()
	}
}

// Ctrl and HS build single packets.
func Ctrl(t uint16, info, dst uint32, body []byte) []byte { return ctrl(t, info, dst, body) }
func HS(ver uint32, isn uint32, typ int32, sid, cookie uint32) []byte {
	return hs(ver, isn, typ, sid, cookie)
}

// Peer is the listener's socket id.
func (x *Caller) Peer() uint32 { return x.peer }
