package tsx

import "fmt"

// Unit is one PES packet taken out of a transport stream.
type Unit struct {
	PID      int
	SID      byte
	PTS, DTS uint64 // DTS = PTS when only that is given
	HasDTS   bool
	Payload  []byte
	RAI      bool
	PCR      int64 // -1: none in its first packet
	Packet   int   // of its first packet
	First    []byte
}

// Stream is a demultiplexed piece of transport stream.
type Stream struct {
	Tables []Table // in order of appearance
	Units  []Unit
	CC     map[int]byte // last counter of each PID
}

// Table is a PAT or PMT.
type Table struct {
	Packet, PID, ID int
	Version         int
	Programs        map[int]int // PAT
	PCR             int         // PMT
	Streams         map[int]int // PMT: PID -> stream type
}

func stampAt(b []byte, mark byte) (uint64, error) {
	if b[0]>>4 != mark || b[0]&1 != 1 || b[2]&1 != 1 || b[4]&1 != 1 {
		return 0, fmt.Errorf("timestamp with wrong marker bits % x", b[:5])
	}
	return uint64(b[0]>>1&7)<<30 | uint64(b[1])<<22 | uint64(b[2]>>1)<<15 | uint64(b[3])<<7 | uint64(b[4]>>1), nil
}

func table(pid int, s []byte) (t Table, err error) {
	t.PID = pid
	if len(s) < 12 {
		return t, fmt.Errorf("section of %d bytes", len(s))
	}
	n := int(s[1]&0x0f)<<8 | int(s[2])
	if n+3 > len(s) || n < 9 {
		return t, fmt.Errorf("section length %d", n)
	}
	if s[1]&0x80 == 0 || s[1]&0x40 != 0 {
		return t, fmt.Errorf("section flags %02x", s[1])
	}
	if CRC(s[:n+3]) != 0 {
		return t, fmt.Errorf("wrong CRC of table %d", s[0])
	}
	for _, x := range s[n+3:] {
		if x != 0xff {
			return t, fmt.Errorf("%02x after a section", x)
		}
	}
	t.ID = int(s[0])
	t.Version = int(s[5] >> 1 & 0x1f)
	if s[5]&1 != 1 || s[6] != 0 || s[7] != 0 {
		return t, fmt.Errorf("table %d is not the current only section", s[0])
	}
	body := s[8 : n+3-4]
	switch t.ID {
	case 0:
		t.Programs = map[int]int{}
		if len(body)%4 != 0 {
			return t, fmt.Errorf("PAT of %d bytes", len(body))
		}
		for ; len(body) > 0; body = body[4:] {
			t.Programs[int(body[0])<<8|int(body[1])] = int(body[2]&0x1f)<<8 | int(body[3])
		}
	case 2:
		t.Streams = map[int]int{}
		if len(body) < 4 {
			return t, fmt.Errorf("PMT of %d bytes", len(body))
		}
		t.PCR = int(body[0]&0x1f)<<8 | int(body[1])
		k := int(body[2]&0x0f)<<8 | int(body[3])
		if 4+k > len(body) {
			return t, fmt.Errorf("PMT program info of %d bytes", k)
		}
		for body = body[4+k:]; len(body) > 0; {
			if len(body) < 5 {
				return t, fmt.Errorf("PMT entry cut off")
			}
			k := int(body[3]&0x0f)<<8 | int(body[4])
			if 5+k > len(body) {
				return t, fmt.Errorf("PMT entry cut off")
			}
			t.Streams[int(body[1]&0x1f)<<8|int(body[2])] = int(body[0])
			body = body[5+k:]
		}
	default:
		return t, fmt.Errorf("table %d", t.ID)
	}
	return t, nil
}

func finish(u *Unit, b []byte) error {
	if len(b) < 9 || b[0] != 0 || b[1] != 0 || b[2] != 1 {
		return fmt.Errorf("packet %d: no PES start", u.Packet)
	}
	u.SID = b[3]
	n := int(b[4])<<8 | int(b[5])
	if b[6]>>6 != 2 {
		return fmt.Errorf("packet %d: PES marker %02x", u.Packet, b[6])
	}
	if n == 0 && u.SID&0xf0 != 0xe0 {
		return fmt.Errorf("packet %d: PES length 0 for stream %02x", u.Packet, u.SID)
	}
	if n != 0 && n+6 != len(b) {
		return fmt.Errorf("packet %d: PES length %d for %d bytes", u.Packet, n, len(b)-6)
	}
	h := int(b[8])
	if 9+h > len(b) {
		return fmt.Errorf("packet %d: PES header length %d", u.Packet, h)
	}
	var err error
	switch b[7] >> 6 {
	case 2:
		if h < 5 {
			return fmt.Errorf("packet %d: PES header length %d with PTS", u.Packet, h)
		}
		u.PTS, err = stampAt(b[9:], 2)
		u.DTS = u.PTS
	case 3:
		if h < 10 {
			return fmt.Errorf("packet %d: PES header length %d with PTS and DTS", u.Packet, h)
		}
		if u.PTS, err = stampAt(b[9:], 3); err == nil {
			u.DTS, err = stampAt(b[14:], 1)
		}
		u.HasDTS = true
	default:
		return fmt.Errorf("packet %d: PES without timestamps (%02x)", u.Packet, b[7])
	}
	if err != nil {
		return fmt.Errorf("packet %d: %v", u.Packet, err)
	}
	for _, x := range b[9+map[bool]int{false: 5, true: 10}[u.HasDTS] : 9+h] {
		if x != 0xff {
			return fmt.Errorf("packet %d: PES header stuffing %02x", u.Packet, x)
		}
	}
	u.Payload = b[9+h:]
	return nil
}

// Demux takes transport stream apart, complaining about anything that is not as ISO 13818-1 has it.
func Demux(b []byte) (s *Stream, err error) {
	s = &Stream{CC: map[int]byte{}}
	if len(b)%188 != 0 {
		return s, fmt.Errorf("%d bytes are not whole packets", len(b))
	}
	type open struct {
		u *Unit
		b []byte
	}
	cur := map[int]*open{}
	order := []*open{}
	pmts := map[int]bool{}
	for k := 0; k*188 < len(b); k++ {
		p := b[k*188 : k*188+188]
		if p[0] != 0x47 {
			return s, fmt.Errorf("packet %d: sync byte %02x", k, p[0])
		}
		if p[1]&0x80 != 0 || p[3]&0xc0 != 0 {
			return s, fmt.Errorf("packet %d: error or scrambling flags", k)
		}
		pid := int(p[1]&0x1f)<<8 | int(p[2])
		pusi := p[1]&0x40 != 0
		afc := p[3] >> 4 & 3
		cc := p[3] & 15
		if afc == 0 {
			return s, fmt.Errorf("packet %d: reserved adaptation field control", k)
		}
		rest := p[4:]
		rai, pcr := false, int64(-1)
		if afc&2 != 0 {
			n := int(rest[0])
			if afc == 3 && n > 182 || afc == 2 && n != 183 {
				return s, fmt.Errorf("packet %d: adaptation field length %d", k, n)
			}
			f := rest[1 : 1+n]
			rest = rest[1+n:]
			if n > 0 {
				flags := f[0]
				if flags&0x0f != 0 {
					return s, fmt.Errorf("packet %d: adaptation field flags %02x", k, flags)
				}
				rai = flags&0x40 != 0
				f = f[1:]
				if flags&0x10 != 0 {
					if len(f) < 6 {
						return s, fmt.Errorf("packet %d: no room for the PCR", k)
					}
					if f[4]&0x7e != 0x7e {
						return s, fmt.Errorf("packet %d: PCR reserved bits", k)
					}
					pcr = int64(f[0])<<25 | int64(f[1])<<17 | int64(f[2])<<9 | int64(f[3])<<1 | int64(f[4]>>7)
					if ext := int(f[4]&1)<<8 | int(f[5]); ext > 299 {
						return s, fmt.Errorf("packet %d: PCR extension %d", k, ext)
					}
					f = f[6:]
				}
				for _, x := range f {
					if x != 0xff {
						return s, fmt.Errorf("packet %d: adaptation field stuffing %02x", k, x)
					}
				}
			}
		}
		if afc&1 == 0 {
			continue
		}
		if last, ok := s.CC[pid]; ok && cc != (last+1)&15 {
			return s, fmt.Errorf("packet %d: continuity counter %d of PID %d after %d", k, cc, pid, last)
		}
		s.CC[pid] = cc
		if len(rest) == 0 {
			return s, fmt.Errorf("packet %d: no payload", k)
		}
		if pid == 0 || pmts[pid] {
			if !pusi {
				return s, fmt.Errorf("packet %d: table without unit start", k)
			}
			if 1+int(rest[0]) > len(rest) {
				return s, fmt.Errorf("packet %d: pointer field %d", k, rest[0])
			}
			t, e := table(pid, rest[1+int(rest[0]):])
			if e != nil {
				return s, fmt.Errorf("packet %d: %v", k, e)
			}
			if (pid == 0) != (t.ID == 0) {
				return s, fmt.Errorf("packet %d: table %d on PID %d", k, t.ID, pid)
			}
			t.Packet = k
			for _, x := range t.Programs {
				pmts[x] = true
			}
			s.Tables = append(s.Tables, t)
			continue
		}
		o := cur[pid]
		if pusi {
			o = &open{u: &Unit{PID: pid, RAI: rai, PCR: pcr, Packet: k, First: p}}
			cur[pid] = o
			order = append(order, o)
		} else if o == nil {
			return s, fmt.Errorf("packet %d: PID %d starts without unit start", k, pid)
		}
		o.b = append(o.b, rest...)
	}
	for _, o := range order {
		if err = finish(o.u, o.b); err != nil {
			return s, err
		}
		s.Units = append(s.Units, *o.u)
	}
	return s, nil
}

// NALs splits an Annex B byte stream; zero bytes before start codes belong to those.
func NALs(b []byte) (out [][]byte, err error) {
	at := func(i int) int { // length of a start code at i
		if i+3 <= len(b) && b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 {
			return 3
		}
		if i+4 <= len(b) && b[i] == 0 && b[i+1] == 0 && b[i+2] == 0 && b[i+3] == 1 {
			return 4
		}
		return 0
	}
	i := 0
	for i < len(b) {
		n := at(i)
		if n == 0 {
			return out, fmt.Errorf("no start code at %d", i)
		}
		i += n
		j := i
		for j < len(b) && at(j) == 0 {
			j++
		}
		if j == i {
			return out, fmt.Errorf("empty NAL unit at %d", i)
		}
		out = append(out, b[i:j])
		i = j
	}
	return out, nil
}

// Frame is an AAC access unit with what its ADTS header says.
type Frame struct {
	Profile, Rate, Chan int
	Data                []byte
}

// ADTS splits a sequence of ADTS frames.
func ADTS(b []byte) (out []Frame, err error) {
	for len(b) > 0 {
		if len(b) < 7 || b[0] != 0xff || b[1]&0xf6 != 0xf0 {
			return out, fmt.Errorf("no ADTS header: % x", b[:min(8, len(b))])
		}
		n := int(b[3]&3)<<11 | int(b[4])<<3 | int(b[5]>>5)
		h := 7
		if b[1]&1 == 0 {
			h = 9
		}
		if n < h || n > len(b) {
			return out, fmt.Errorf("ADTS frame length %d of %d", n, len(b))
		}
		if b[6]&3 != 0 {
			return out, fmt.Errorf("several blocks in an ADTS frame")
		}
		out = append(out, Frame{int(b[2]>>6) + 1, int(b[2] >> 2 & 15), int(b[2]&1)<<2 | int(b[3]>>6), b[h:n]})
		b = b[n:]
	}
	return out, nil
}
