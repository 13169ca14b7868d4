// Command mp4 has the library build init and media segments and hands on the bytes.
package main

import (
	"encoding/json"

	"github.com/sbraveyoung/GGmpeg/libmp4"
	"vh/lib"
)

type sample struct {
	N   int   `json:"n"`
	D   []int `json:"d"`
	C   []int `json:"c"`
	Key bool  `json:"key"`
}

type ev struct {
	K    string   `json:"k"`
	ID   int      `json:"id"`
	Seq  []int    `json:"seq"`
	Base []int    `json:"base"`
	S    []sample `json:"s"`
	TS   []int    `json:"ts"`
	W    int      `json:"w"`
	H    int      `json:"h"`
	N    int      `json:"n"`
	M    int      `json:"m"`
}

func pay(k, n int) []byte {
	b := make([]byte, n)
	for i := 1; i <= n; i++ {
		b[i-1] = byte(i*7 + k*13 + i/256*5)
	}
	return b
}

func words(w []int) (x uint64) {
	for _, v := range w {
		x = x<<16 | uint64(v)
	}
	return
}

func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

func run(raw json.RawMessage) interface{} {
	var e ev
	lib.Dec(raw, &e)
	var b, cfg []byte
	switch e.K {
	case "seg":
		p := libmp4.MediaSegmentParams{TrackID: uint32(e.ID), SequenceNumber: uint32(words(e.Seq)), BaseDecodeTime: words(e.Base)}
		for i, s := range e.S {
			p.Samples = append(p.Samples, libmp4.Sample{Duration: uint32(words(s.D)), Size: uint32(s.N), IsKey: s.Key,
				CompositionTimeOffset: int32(uint32(words(s.C))), Data: pay(i+1, s.N)})
		}
		b = libmp4.BuildMediaSegment(p)
	case "hevc":
		cfg = pay(3, e.N)
		b = libmp4.BuildHEVCInitSegment(libmp4.HEVCInitParams{TrackID: uint32(e.ID), Timescale: uint32(words(e.TS)), Width: uint16(e.W), Height: uint16(e.H), HVCCRecord: append([]byte(nil), cfg...)})
	default:
		p := libmp4.InitSegmentParams{TrackID: uint32(e.ID), Timescale: uint32(words(e.TS)), Width: uint16(e.W), Height: uint16(e.H), SPS: pay(1, e.N), PPS: pay(2, e.M)}
		cfg = append([]byte{1, p.SPS[1], p.SPS[2], p.SPS[3], 0xff, 0xe1, byte(e.N >> 8), byte(e.N)}, p.SPS...)
		cfg = append(append(cfg, 1, byte(e.M>>8), byte(e.M)), p.PPS...)
		if e.K == "rec" {
			cfg = pay(5, e.N+e.M)
			p.AVCCRecord = append([]byte(nil), cfg...)
		}
		b = libmp4.BuildInitSegment(p)
	}
	return map[string]interface{}{"e": raw, "b": ints(b), "cfg": ints(cfg)}
}

func main() { lib.Main(8, run) }
