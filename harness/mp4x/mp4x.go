// Package mp4x reads fragmented MP4 as the DASH driver needs it.
package mp4x

import (
	"encoding/binary"
	"fmt"
)

// Box is one box.
type Box struct {
	Type string
	Body []byte
	Off  int // of the header
}

// Boxes splits b, which begins at offset off of the file.
func Boxes(b []byte, off int) (out []Box, err error) {
	for p := 0; p < len(b); {
		if len(b)-p < 8 {
			return out, fmt.Errorf("%d bytes left over", len(b)-p)
		}
		n := int(binary.BigEndian.Uint32(b[p:]))
		if n < 8 || n > len(b)-p {
			return out, fmt.Errorf("box %q of %d bytes, %d there", b[p+4:p+8], n, len(b)-p)
		}
		out = append(out, Box{string(b[p+4 : p+8]), b[p+8 : p+n], off + p})
		p += n
	}
	return
}

// Find returns the box at path below boxes.
func Find(bs []Box, path ...string) (Box, error) {
	for _, b := range bs {
		if b.Type == path[0] {
			if len(path) == 1 {
				return b, nil
			}
			skip := 0
			switch b.Type {
			case "stsd":
				skip = 8
			case "avc1", "hev1", "hvc1":
				skip = 78
			}
			if skip > len(b.Body) {
				return b, fmt.Errorf("short %s", b.Type)
			}
			sub, err := Boxes(b.Body[skip:], b.Off+8+skip)
			if err != nil {
				return b, err
			}
			return Find(sub, path[1:]...)
		}
	}
	return Box{}, fmt.Errorf("no %s", path[0])
}

// Track is what an init segment says.
type Track struct {
	W, H, TS, ID int
	Entry        string
	Record       []byte
}

// Init reads an init segment.
func Init(b []byte) (t Track, err error) {
	bs, err := Boxes(b, 0)
	if err != nil {
		return
	}
	k, err := Find(bs, "moov", "trak", "tkhd")
	if err != nil {
		return
	}
	m, err := Find(bs, "moov", "trak", "mdia", "mdhd")
	if err != nil {
		return
	}
	p, q := 12, 12
	if k.Body[0] == 1 {
		p = 20
	}
	if m.Body[0] == 1 {
		q = 20
	}
	if len(k.Body) < 84 || len(m.Body) < q+4 {
		return t, fmt.Errorf("short header")
	}
	t.ID = int(binary.BigEndian.Uint32(k.Body[p:]))
	t.W = int(binary.BigEndian.Uint32(k.Body[len(k.Body)-8:]) >> 16)
	t.H = int(binary.BigEndian.Uint32(k.Body[len(k.Body)-4:]) >> 16)
	t.TS = int(binary.BigEndian.Uint32(m.Body[q:]))
	for _, x := range [][2]string{{"avc1", "avcC"}, {"avc3", "avcC"}, {"hev1", "hvcC"}, {"hvc1", "hvcC"}} {
		if c, e := Find(bs, "moov", "trak", "mdia", "minf", "stbl", "stsd", x[0], x[1]); e == nil {
			t.Entry, t.Record = x[1], c.Body
			return
		}
	}
	return t, fmt.Errorf("no codec configuration")
}

// Sample is one sample.
type Sample struct {
	Dur, CTS uint32
	Key      bool
	Data     []byte
}

// Segment is one fragment.
type Segment struct {
	Seq, ID uint32
	Base    uint64
	Samples []Sample
}

// Media reads a media segment of one fragment with one run.
func Media(b []byte) (s Segment, err error) {
	bs, err := Boxes(b, 0)
	if err != nil {
		return
	}
	var moof, mdat Box
	for _, x := range bs {
		switch x.Type {
		case "moof":
			moof = x
		case "mdat":
			mdat = x
		}
	}
	if moof.Type == "" || mdat.Type == "" || len(bs) > 3 {
		return s, fmt.Errorf("boxes of a media segment")
	}
	in := []Box{moof}
	hd, e1 := Find(in, "moof", "mfhd")
	tf, e2 := Find(in, "moof", "traf", "tfhd")
	td, e3 := Find(in, "moof", "traf", "tfdt")
	tr, e4 := Find(in, "moof", "traf", "trun")
	for _, e := range []error{e1, e2, e3, e4} {
		if e != nil {
			return s, e
		}
	}
	be := binary.BigEndian
	s.Seq = be.Uint32(hd.Body[4:])
	s.ID = be.Uint32(tf.Body[4:])
	if td.Body[0] == 1 {
		s.Base = be.Uint64(td.Body[4:])
	} else {
		s.Base = uint64(be.Uint32(td.Body[4:]))
	}
	fl := be.Uint32(tr.Body) & 0xffffff
	if fl&^0x205 != 0xd00 && fl != 0xf01 {
		return s, fmt.Errorf("run with flags %x", fl)
	}
	n := int(be.Uint32(tr.Body[4:]))
	if fl != 0xf01 || len(tr.Body) != 12+16*n {
		return s, fmt.Errorf("run of %d bytes for %d samples, flags %x", len(tr.Body), n, fl)
	}
	at := moof.Off + int(int32(be.Uint32(tr.Body[8:])))
	for i := 0; i < n; i++ {
		r := tr.Body[12+16*i:]
		l := int(be.Uint32(r[4:]))
		if at < mdat.Off+8 || l < 0 || at+l > mdat.Off+8+len(mdat.Body) {
			return s, fmt.Errorf("sample %d lies outside the media data", i)
		}
		s.Samples = append(s.Samples, Sample{be.Uint32(r), be.Uint32(r[12:]), be.Uint32(r[8:])>>16&1 == 0, b[at : at+l]})
		at += l
	}
	if at != mdat.Off+8+len(mdat.Body) {
		return s, fmt.Errorf("media data of %d bytes left over", mdat.Off+8+len(mdat.Body)-at)
	}
	return
}
