// Command ts has the MPEG-TS multiplexer write frames and tables and hands on the bytes.
package main

import (
	"bytes"
	"encoding/json"

	"github.com/SmartBrave/Athena/easyio"
	"github.com/sbraveyoung/GGmpeg/libmpeg"
	"vh/lib"
)

type stream struct {
	P int `json:"p"`
	Y int `json:"y"`
}

type ev struct {
	K       string   `json:"k"`
	N       int      `json:"n"`
	D       []int    `json:"d"`
	C       int      `json:"c"`
	Key     bool     `json:"key"`
	Ver     int      `json:"ver"`
	ID      int      `json:"id"`
	PCR     int      `json:"pcr"`
	Progs   []stream `json:"progs"`
	Streams []stream `json:"streams"`
}

type obj = map[string]interface{}

func pay(k, n int) []byte {
	b := make([]byte, n)
	for i := 1; i <= n; i++ {
		b[i-1] = byte(i*7 + k*13 + i/256*5)
	}
	return b
}

func run(raw json.RawMessage) interface{} {
	var s struct {
		Hist []ev `json:"hist"`
		CC   int  `json:"cc"`
	}
	lib.Dec(raw, &s)
	var js struct {
		Hist []json.RawMessage `json:"hist"`
	}
	lib.Dec(raw, &js)
	cc := map[uint16]uint8{}
	if s.CC > 0 {
		cc = map[uint16]uint8{0: uint8(s.CC), 0x1001: uint8(s.CC), 0x100: uint8(s.CC), 0x101: 15}
	}
	var buf bytes.Buffer
	w := easyio.NewEasyWriter(&buf)
	out := []obj{}
	// as the segmenter does, one PES per track is used again and again
	tracks := map[string]*libmpeg.PES{
		"V": {StreamID: 0xe0, StreamType: 0x1b, PacketStartCodePrefix: 1},
		"A": {StreamID: 0xc0, StreamType: 0x0f, PacketStartCodePrefix: 1}}
	for i, e := range s.Hist {
		buf.Reset()
		switch e.K {
		case "PAT":
			p := libmpeg.NewPAT()
			p.SectionSyntaxIndicator, p.CurrentNextIndicator = 1, 1
			p.VersionNumber, p.TransportStreamID = uint8(e.Ver), uint16(e.ID)
			p.SectionLength = uint16(9 + 4*len(e.Progs))
			for _, x := range e.Progs {
				p.PMTs[uint16(x.P)] = libmpeg.NewPMT(uint16(x.Y))
			}
			if fin, err := libmpeg.NewTs(libmpeg.PAT_PID, cc, true).Mux(p, false, 0, w); err != nil || !fin {
				lib.Bad(i, "PAT: finished %v, %v", fin, err)
			}
		case "PMT":
			p := libmpeg.NewPMT(uint16(e.ID))
			p.TableID, p.SectionSyntaxIndicator, p.CurrentNextIndicator = 2, 1, 1
			p.VersionNumber, p.PCR_PID = uint8(e.Ver), uint16(e.PCR)
			p.SectionLength = uint16(13 + 5*len(e.Streams))
			for _, x := range e.Streams {
				p.Streams[uint16(x.P)] = &libmpeg.PES{StreamType: uint8(x.Y)}
			}
			if fin, err := libmpeg.NewTs(libmpeg.PMT_PID, cc, true).Mux(p, false, 0, w); err != nil || !fin {
				lib.Bad(i, "PMT: finished %v, %v", fin, err)
			}
		default:
			p := tracks[e.K]
			pid := uint16(libmpeg.AUDIO_PID)
			if e.K == "V" {
				pid = libmpeg.VIDEO_PID
			}
			p.DTS = uint64(e.D[0])<<16 | uint64(e.D[1])
			p.PTS = (p.DTS + uint64(int64(e.C))) & (1<<33 - 1)
			if e.C%2 == 0 { // times that are not reduced to 33 bits
				p.DTS += 1 << 33
				p.PTS = p.DTS + uint64(int64(e.C))
			}
			p.Index, p.HeaderIndex = 0, 0
			p.PTS_DTSFlag, p.PESHeaderDataLength = 2, 5
			if e.C != 0 {
				p.PTS_DTSFlag = 3
			}
			p.Data = pay(i+1, e.N)
			for first := true; ; first = false {
				fin, err := libmpeg.NewTs(pid, cc, first).Mux(p, e.Key && first, p.DTS, w)
				if err != nil {
					lib.Bad(i, "frame of %d bytes: %v", e.N, err)
				}
				if fin {
					break
				}
				if buf.Len() > 10*188+2*e.N {
					lib.Bad(i, "frame of %d bytes does not end", e.N)
				}
			}
		}
		b := make([]int, buf.Len())
		for j, x := range buf.Bytes() {
			b[j] = int(x)
		}
		out = append(out, obj{"e": js.Hist[i], "b": b})
	}
	return out
}

func main() { lib.Main(8, run) }
