// Package tsx writes MPEG-TS without the library under test.
package tsx

// CRC is the MPEG-2 CRC-32.
func CRC(b []byte) uint32 {
	c := uint32(0xffffffff)
	for _, x := range b {
		c ^= uint32(x) << 24
		for i := 0; i < 8; i++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
	}
	return c
}

func crc(b []byte) []byte {
	c := CRC(b)
	return append(b, byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
}

// Mux keeps the continuity counters.
type Mux struct{ CC map[int]byte }

func New() *Mux { return &Mux{CC: map[int]byte{}} }

func (m *Mux) head(pid int, pusi bool, afc byte) []byte {
	b := []byte{0x47, byte(pid>>8) & 0x1f, byte(pid), afc<<4 | m.CC[pid]&15}
	if pusi {
		b[1] |= 0x40
	}
	if afc&1 != 0 {
		m.CC[pid]++
	}
	return b
}

// Section puts a PSI section in one packet; pointer is the length of the pointer field's gap.
func (m *Mux) Section(pid int, s []byte, pointer int) []byte {
	b := m.head(pid, true, 1)
	b = append(b, byte(pointer))
	for i := 0; i < pointer; i++ {
		b = append(b, 0xff)
	}
	b = append(b, s...)
	for len(b) < 188 {
		b = append(b, 0xff)
	}
	return b
}

// PATSection lists programs (number, pid).
func PATSection(progs ...[2]int) []byte {
	n := 5 + 4*len(progs) + 4
	b := []byte{0, 0xb0 | byte(n>>8), byte(n), 0, 1, 0xc1, 0, 0}
	for _, p := range progs {
		b = append(b, byte(p[0]>>8), byte(p[0]), 0xe0|byte(p[1]>>8), byte(p[1]))
	}
	return crc(b)
}

// ES is one entry of a program map.
type ES struct {
	Type byte
	PID  int
	Desc []byte
}

func PMTSection(prog, pcr int, info []byte, es ...ES) []byte {
	b := []byte{byte(prog >> 8), byte(prog), 0xc1, 0, 0, 0xe0 | byte(pcr>>8), byte(pcr), 0xf0 | byte(len(info)>>8), byte(len(info))}
	b = append(b, info...)
	for _, e := range es {
		b = append(b, e.Type, 0xe0|byte(e.PID>>8), byte(e.PID), 0xf0|byte(len(e.Desc)>>8), byte(len(e.Desc)))
		b = append(b, e.Desc...)
	}
	n := len(b) + 4
	return crc(append([]byte{2, 0xb0 | byte(n>>8), byte(n)}, b...))
}

func stamp(mark byte, t uint64) []byte {
	return []byte{mark<<4 | byte(t>>29)&0x0e | 1, byte(t >> 22), byte(t>>14) | 1, byte(t >> 7), byte(t<<1) | 1}
}

// PES builds a PES packet; dts nil: PTS only; pts nil: none. sized: packet length given.
func PES(sid byte, pts, dts *uint64, payload []byte, sized bool, stuff int) []byte {
	var h []byte
	flag := byte(0)
	if pts != nil {
		flag = 0x80
		mark := byte(2)
		if dts != nil {
			flag, mark = 0xc0, 3
		}
		h = stamp(mark, *pts)
		if dts != nil {
			h = append(h, stamp(1, *dts)...)
		}
	}
	for i := 0; i < stuff; i++ {
		h = append(h, 0xff)
	}
	n := 0
	if sized {
		n = 3 + len(h) + len(payload)
		if n > 0xffff {
			n = 0
		}
	}
	b := []byte{0, 0, 1, sid, byte(n >> 8), byte(n), 0x80, flag, byte(len(h))}
	b = append(b, h...)
	return append(b, payload...)
}

// Packet carries the first bytes of p that fit when the payload is limited to at most max bytes (0: 184); it returns
// the packet and what is left. Unused room becomes adaptation field.
func (m *Mux) Packet(pid int, pusi bool, p []byte, max int, af []byte) ([]byte, []byte) {
	room := 184
	if af != nil {
		room = 183 - len(af)
	}
	if max > 0 && max < room {
		room = max
	}
	n := len(p)
	if n > room {
		n = room
	}
	if af == nil && n == 184 {
		return append(m.head(pid, pusi, 1), p[:n]...), p[n:]
	}
	b := m.head(pid, pusi, 3)
	l := 183 - n
	b = append(b, byte(l))
	a := append([]byte(nil), af...)
	if l > 0 && len(a) == 0 {
		a = []byte{0}
	}
	for len(a) < l {
		a = append(a, 0xff)
	}
	b = append(b, a...)
	return append(b, p[:n]...), p[n:]
}

// All packetises a PES packet.
func (m *Mux) All(pid int, pes []byte) []byte {
	var out []byte
	first := true
	for first || len(pes) > 0 {
		var b []byte
		b, pes = m.Packet(pid, first, pes, 0, nil)
		out = append(out, b...)
		first = false
	}
	return out
}
