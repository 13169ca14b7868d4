package rtspc

import (
	"encoding/binary"
	"fmt"
)

// Depack reassembles the H.264 NAL units (RFC 6184: single, STAP-A, FU-A) of one track; it rejects malformed payloads.
type Depack struct {
	fu  []byte
	Seq int // last sequence number, -1 none
}

// RTPHead parses a header without extensions.
func RTPHead(p []byte) (marker bool, pt byte, seq uint16, ts, ssrc uint32, payload []byte, err error) {
	if len(p) < 12 || p[0] != 0x80 {
		return false, 0, 0, 0, 0, nil, fmt.Errorf("malformed RTP packet % x", p[:min(len(p), 16)])
	}
	return p[1]&0x80 != 0, p[1] & 0x7f, binary.BigEndian.Uint16(p[2:]), binary.BigEndian.Uint32(p[4:]), binary.BigEndian.Uint32(p[8:]), p[12:], nil
}

// H264 returns the NAL units completed by a payload.
func (d *Depack) H264(p []byte) ([][]byte, error) {
	if len(p) < 1 {
		return nil, fmt.Errorf("empty payload")
	}
	t := p[0] & 31
	if d.fu != nil && t != 28 {
		return nil, fmt.Errorf("NAL type %d inside a fragmented one", t)
	}
	switch {
	case t >= 1 && t <= 23:
		return [][]byte{append([]byte(nil), p...)}, nil
	case t == 24:
		var out [][]byte
		for q := p[1:]; len(q) > 0; {
			if len(q) < 2 {
				return nil, fmt.Errorf("truncated STAP-A")
			}
			n := int(binary.BigEndian.Uint16(q))
			if n == 0 || n > len(q)-2 {
				return nil, fmt.Errorf("STAP-A unit of %d bytes", n)
			}
			out = append(out, append([]byte(nil), q[2:2+n]...))
			q = q[2+n:]
		}
		return out, nil
	case t == 28:
		if len(p) < 3 {
			return nil, fmt.Errorf("FU-A of %d bytes", len(p))
		}
		s, e := p[1]&0x80 != 0, p[1]&0x40 != 0
		if s && e || p[1]&0x20 != 0 {
			return nil, fmt.Errorf("FU header %x", p[1])
		}
		if s {
			if d.fu != nil {
				return nil, fmt.Errorf("FU-A start inside a fragmented unit")
			}
			d.fu = []byte{p[0]&0xe0 | p[1]&31}
		} else if d.fu == nil {
			return nil, fmt.Errorf("FU-A without start")
		} else if d.fu[0] != p[0]&0xe0|p[1]&31 {
			return nil, fmt.Errorf("FU-A of another unit")
		}
		d.fu = append(d.fu, p[2:]...)
		if e {
			n := d.fu
			d.fu = nil
			return [][]byte{n}, nil
		}
		return nil, nil
	}
	return nil, fmt.Errorf("NAL type %d", t)
}

// AAC returns the access units of an AAC-hbr payload (RFC 3640, 13/3 bit AU headers).
func AAC(p []byte) ([][]byte, error) {
	if len(p) < 2 {
		return nil, fmt.Errorf("short AU header section")
	}
	bits := int(binary.BigEndian.Uint16(p))
	if bits == 0 || bits%16 != 0 || len(p) < 2+bits/8 {
		return nil, fmt.Errorf("AU headers of %d bits", bits)
	}
	data := p[2+bits/8:]
	var out [][]byte
	for i := 0; i < bits/16; i++ {
		h := binary.BigEndian.Uint16(p[2+2*i:])
		n := int(h >> 3)
		if n > len(data) {
			return nil, fmt.Errorf("AU of %d bytes, %d left", n, len(data))
		}
		out = append(out, append([]byte(nil), data[:n]...))
		data = data[n:]
	}
	if len(data) != 0 {
		return nil, fmt.Errorf("%d bytes behind the last AU", len(data))
	}
	return out, nil
}
