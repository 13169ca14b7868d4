package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math/rand"
	"strings"

	"vh/flvc"
	"vh/media"
	"vh/rtmpc"
	"vh/rtspc"
	"vh/srtc"
	"vh/tsx"
)

func rnd(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}
func pick(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

// flip changes up to three bits.
func flip(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for i := 0; len(b) > 0 && i <= r.Intn(3); i++ {
		b[r.Intn(len(b))] ^= 1 << r.Intn(8)
	}
	return b
}

// cut drops the end, or a piece of the middle.
func cut(r *rand.Rand, b []byte) []byte {
	if len(b) == 0 {
		return b
	}
	i := r.Intn(len(b))
	if r.Intn(2) == 0 {
		return b[:i:i]
	}
	j := i + r.Intn(min(len(b)-i, 8)+1)
	return append(b[:i:i], b[j:]...)
}

// mutate damages a well-formed unit.
func mutate(r *rand.Rand, b []byte) []byte {
	switch r.Intn(6) {
	case 0:
		return cut(r, b)
	case 1:
		return flip(r, b)
	case 2:
		return append(b[:len(b):len(b)], rnd(r, r.Intn(20))...)
	case 3:
		if len(b) > 0 {
			b = append([]byte(nil), b...)
			b[r.Intn(len(b))] = []byte{0, 0xff, 0x7f, 0x80, 1}[r.Intn(5)]
		}
		return b
	case 4:
		if len(b) > 2 {
			b = append([]byte(nil), b...)
			i := r.Intn(len(b) - 1)
			binary.BigEndian.PutUint16(b[i:], []uint16{0, 0xffff, 0x7fff, 0x8000, 1}[r.Intn(5)])
		}
		return b
	}
	return b[:min(len(b), r.Intn(6))]
}

// ---- AMF ----

func val(r *rand.Rand, d int) interface{} {
	n := 8
	if d > 2 {
		n = 5
	}
	switch r.Intn(n) {
	case 0:
		return nil
	case 1:
		return []float64{0, 1, -1, 1e300, 2, 4294967296, 0.5}[r.Intn(7)]
	case 2:
		return pick(r, "", "live", "bystander", "x/y", strings.Repeat("q", 300), "\x00", "../../x", "NetStream")
	case 3:
		return r.Intn(2) == 0
	case 4:
		return []float64{1, 3, 5}[r.Intn(3)]
	}
	var o rtmpc.Obj
	for i := 0; i < r.Intn(4); i++ {
		o = append(o, rtmpc.KV{K: pick(r, "app", "tcUrl", "videocodecid", "width", "", "fourCcList"), V: val(r, d+1)})
	}
	switch r.Intn(3) {
	case 0:
		return rtmpc.Ecma{Count: uint32(r.Intn(5)), P: o}
	case 1:
		return rtmpc.Arr{val(r, d+1)}
	}
	return o
}

func amfJunk(r *rand.Rand) []byte {
	head := [][]byte{nil, rtmpc.Enc("connect", 1), rtmpc.Enc("publish", 5, nil), rtmpc.Enc("onMetaData"), rtmpc.Enc("@setDataFrame", "onMetaData")}[r.Intn(5)]
	var b []byte
	switch r.Intn(6) {
	case 0: // a large count
		b = []byte{[]byte{8, 10}[r.Intn(2)], 0xff, 0xff, 0xff, 0xff, 0}
	case 1: // a long string
		b = append([]byte{12, 0xff, 0xff, 0xff, byte(r.Intn(256))}, rnd(r, 20)...)
	case 2:
		b = append([]byte{2, 0xff, 0xff}, rnd(r, 20)...)
	case 3: // references
		b = []byte{7, byte(r.Intn(2)), byte(r.Intn(256)), 7, 0xff, 0xff}
	case 4:
		b = append([]byte{byte(r.Intn(20))}, rnd(r, r.Intn(40))...)
	case 5:
		for i := 0; i < 10; i++ {
			b = append(b, byte(r.Intn(18)))
			b = append(b, rnd(r, r.Intn(9))...)
		}
	}
	return append(head[:len(head):len(head)], b...)
}

func deep(r *rand.Rand) []byte {
	n := []int{10, 60, 200, 5000, 100000, 1500000}[r.Intn(6)]
	unit := [][]byte{{3, 0, 1, 'a'}, {10, 0, 0, 0, 1}, {8, 0, 0, 0, 1, 0, 1, 'a'}, {16, 0, 1, 'c', 0, 1, 'a'}}[r.Intn(4)]
	return append(rtmpc.Enc(pick(r, "connect", "onMetaData"), 1), bytes.Repeat(unit, n)...)
}

var names = []string{"connect", "createStream", "publish", "play", "play2", "deleteStream", "closeStream", "releaseStream",
	"FCPublish", "FCUnpublish", "seek", "pause", "receiveAudio", "receiveVideo", "_result", "_error", "onStatus", "@setDataFrame",
	"onMetaData", "onFCPublish", "getStreamLength", "checkBandwidth", "_checkbw", "call", "", "close", "onBWDone"}

// ---- media ----

func nals(r *rand.Rand) []byte {
	var b []byte
	for i := 0; i <= r.Intn(4); i++ {
		var n []byte
		switch r.Intn(6) {
		case 0:
			n = []byte{[]byte{0x65, 0x41, 6, 9, 0x67, 0x68, 0, 0x7c, 0x18}[r.Intn(9)]}
		case 1:
			n = media.IDR(r.Intn(1000))
		case 2:
			n = rnd(r, r.Intn(5000))
		case 3:
			n = media.SPS(5)[:r.Intn(9)]
		case 4:
			n = nil
		case 5:
			n = append([]byte{0x65}, make([]byte, r.Intn(2000))...)
		}
		l := uint32(len(n))
		switch r.Intn(5) {
		case 0:
			l = []uint32{0, 0xffffffff, 0x7fffffff, 0x80000000, l + 1, l - 1, l + 4, 0xfffffffc}[r.Intn(8)]
		}
		b = append(b, byte(l>>24), byte(l>>16), byte(l>>8), byte(l))
		b = append(b, n...)
	}
	return b[:len(b)-r.Intn(min(4, len(b)))]
}

func video(r *rand.Rand) []byte {
	switch r.Intn(7) {
	case 0:
		return rnd(r, r.Intn(8))
	case 1:
		return append([]byte{byte(r.Intn(256)), byte(r.Intn(4)), 0, 0, 0}, rnd(r, r.Intn(40))...)
	case 2:
		return append([]byte{0x17, byte(r.Intn(4)), 0xff, 0xff, 0xff}, nals(r)...)
	case 3: // enhanced
		b := append([]byte{0x80 | byte(r.Intn(128))}, []byte(pick(r, "avc1", "hvc1", "av01", "vp09", "xxxx", ""))...)
		return append(b, rnd(r, r.Intn(40))...)
	case 4: // HEVC
		return append([]byte{[]byte{0x1c, 0x2c}[r.Intn(2)], byte(r.Intn(3)), 0, 0, 0}, rnd(r, r.Intn(60))...)
	case 5:
		b := append([]byte{0x90 | byte(r.Intn(6)), 'h', 'v', 'c', '1'}, hvcc(r)...)
		return b
	}
	_, p := media.Msg([]string{media.VHdr, media.Key, media.Inter}[r.Intn(3)], r.Intn(1000))
	return mutate(r, p)
}

func hvcc(r *rand.Rand) []byte {
	b := append([]byte{1}, rnd(r, 21)...)
	n := r.Intn(5)
	b = append(b, byte(n))
	for i := 0; i < n; i++ {
		b = append(b, byte(32+r.Intn(4)), byte(r.Intn(2)), byte(r.Intn(4)))
		p := rnd(r, r.Intn(40))
		b = append(b, byte(len(p)>>8), byte(len(p)))
		b = append(b, p...)
	}
	return mutate(r, b)
}

var hevcSets = [][]byte{
	{0x40, 1, 0x0c, 1, 0xff, 0xff, 1, 0x60, 0, 0, 3, 0, 0x90, 0, 0, 3, 0, 0, 3, 0, 0x5d, 0x95, 0x98, 9},
	{0x42, 1, 1, 1, 0x60, 0, 0, 3, 0, 0x90, 0, 0, 3, 0, 0, 3, 0, 0x5d, 0xa0, 2, 0x80, 0x80, 0x2d, 0x16, 0x59, 0x59, 0xa4, 0x93, 0x2b, 0x80, 0x40, 0, 0, 3, 0, 0x40, 0, 0, 7, 0x82},
	{0x44, 1, 0xc1, 0x72, 0xb4, 0x62, 0x40}}

// hevcConf is an HEVC configuration, sometimes with damaged parameter sets.
func hevcConf(r *rand.Rand) []byte {
	b := []byte{1, 1, 0x60, 0, 0, 0, 0x90, 0, 0, 0, 0, 0, 0x5d, 0xf0, 0, 0xfc, 0xfd, 0xf8, 0xf8, 0, 0, 0x0f, 3}
	if r.Intn(4) == 0 {
		b[21] = byte(r.Intn(256))
	}
	for i, n := range hevcSets {
		if r.Intn(3) == 0 {
			n = mutate(r, n)
		}
		b = append(b, 0xa0+byte(i), 0, 1, byte(len(n)>>8), byte(len(n)))
		b = append(b, n...)
	}
	if r.Intn(6) == 0 {
		b = mutate(r, b)
	}
	if r.Intn(2) == 0 {
		return append([]byte{0x1c, 0, 0, 0, 0}, b...)
	}
	return append([]byte{0x90, 'h', 'v', 'c', '1'}, b...)
}

func hevcPic(r *rand.Rand) []byte {
	var b []byte
	for i := 0; i <= r.Intn(3); i++ {
		n := append([]byte{[]byte{0x26, 0x28, 2, 0x40, 0x4e, 0x62, 0x60, 0xff}[r.Intn(8)], 1}, rnd(r, []int{0, 1, 10, 1400, 4000}[r.Intn(5)])...)
		n = n[:len(n)-r.Intn(min(3, len(n)))]
		l := len(n)
		if r.Intn(5) == 0 {
			l += r.Intn(9) - 4
		}
		b = append(b, byte(l>>24), byte(l>>16), byte(l>>8), byte(l))
		b = append(b, n...)
	}
	switch r.Intn(3) {
	case 0:
		return append([]byte{[]byte{0x1c, 0x2c}[r.Intn(2)], 1, 0, 0, byte(r.Intn(256))}, b...)
	case 1:
		return append([]byte{[]byte{0x93, 0xa3}[r.Intn(2)], 'h', 'v', 'c', '1'}, b...)
	}
	return append([]byte{[]byte{0x91, 0xa1}[r.Intn(2)], 'h', 'v', 'c', '1', 0, 0, byte(r.Intn(256))}, b...)
}

func vhdr(r *rand.Rand) []byte {
	if r.Intn(4) == 0 {
		return append([]byte{0x1c, 0, 0, 0, 0}, hvcc(r)...)
	}
	sps := media.SPS(r.Intn(1000))
	if r.Intn(2) == 0 {
		sps = append([]byte{0x67}, rnd(r, 3+r.Intn(30))...)
	}
	if r.Intn(4) == 0 { // exp-Golomb codes without end
		sps = append([]byte{0x67, byte(66 + r.Intn(60)), 0, 30}, make([]byte, r.Intn(20))...)
	}
	d := media.DCR(sps, media.PPS(3))
	if r.Intn(3) == 0 {
		d[4] = byte(r.Intn(256)) // length size
	}
	if r.Intn(3) == 0 {
		d[5] = byte(r.Intn(256)) // number of parameter sets
	}
	if r.Intn(2) == 0 {
		d = mutate(r, d)
	}
	return append([]byte{0x17, 0, 0, 0, 0}, d...)
}

func ahdr(r *rand.Rand) []byte {
	return append([]byte{0xaf, 0}, [][]byte{nil, {0x12}, {0x12, 0x10}, {0xff, 0xff, 0xff, 0xff, 0xff}, {0x2b, 0x92, 8, 0}, {0, 0}, {0x17, 0x80}, {0x17, 0xff}, rnd(r, r.Intn(9)), {0x13, 0x90, 0x56, 0xe5}, {0xf8, 0xe8, 0x50, 0}}[r.Intn(11)]...)
}

func audio(r *rand.Rand) []byte {
	switch r.Intn(5) {
	case 0:
		return rnd(r, 2+r.Intn(6))
	case 1:
		return append([]byte{0xaf, 1}, rnd(r, r.Intn(3)*4000)...)
	case 2:
		return append([]byte{byte(r.Intn(256))}, rnd(r, 1+r.Intn(40))...)
	case 3:
		return []byte{0xaf, 1}
	}
	return []byte{byte(0x90 | r.Intn(16)), 'm', 'p', '4', 'a', 1}
}

// timestamp picks times that jump.
func timestamp(r *rand.Rand) uint32 {
	return []uint32{0, 1, 40, 0xfffffe, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff, r.Uint32(), uint32(r.Intn(100000))}[r.Intn(11)]
}

func chunk(f int, cs, ts, n uint32, typ byte, sid uint32) []byte {
	b := rtmpc.CSHeader(f, cs)
	if f < 3 {
		b = append(b, byte(ts>>16), byte(ts>>8), byte(ts))
	}
	if f < 2 {
		b = append(b, byte(n>>16), byte(n>>8), byte(n), typ)
	}
	if f == 0 {
		b = append(b, byte(sid), byte(sid>>8), byte(sid>>16), byte(sid>>24))
	}
	return b
}

// rtmpBytes makes the bytes of one attack; the sender's chunk size is at least 128.
func rtmpBytes(r *rand.Rand, kind, by string, size int) []byte {
	msg := func(typ byte, p []byte) []byte {
		return rtmpc.Chunks(rtmpc.Msg{CS: uint32(3 + r.Intn(5)), SID: []uint32{0, 1, 1, 1, 2, 0xffffffff}[r.Intn(6)], Type: typ, TS: timestamp(r), P: p}, size)
	}
	var b []byte
	switch kind {
	case "junk":
		return rnd(r, 1+r.Intn(5000))
	case "zeros":
		return make([]byte, 1+r.Intn(9000))
	case "ones":
		return bytes.Repeat([]byte{0xff}, 1+r.Intn(9000))
	case "firstfmt":
		for i := 0; i < 3; i++ {
			b = append(b, chunk(1+r.Intn(3), []uint32{3, 9, 63, 64, 319, 320, 65599}[r.Intn(7)], r.Uint32(), uint32(r.Intn(300)), byte(r.Intn(25)), 1)...)
			b = append(b, rnd(r, r.Intn(300))...)
		}
		return b
	case "type":
		for i := 0; i < 4; i++ {
			b = append(b, msg(byte(r.Intn(256)), rnd(r, r.Intn(60)))...)
		}
		for t := 0; t < 25; t++ {
			if t != 1 {
				b = append(b, msg(byte(t), rnd(r, r.Intn(3)))...)
			}
		}
		return b
	case "ctl":
		for i := 0; i < 4; i++ {
			b = append(b, msg(byte(1+r.Intn(6)), rnd(r, r.Intn(12)))...)
		}
		return b
	case "size":
		v := []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x1000000, 65536, 127}[r.Intn(8)]
		b = rtmpc.Chunks(rtmpc.Msg{CS: 2, Type: 1, P: binary.BigEndian.AppendUint32(nil, v)}, size)
		s := size
		if v > 0 && v < 0x1000001 && r.Intn(2) == 0 {
			s = int(v)
		}
		for i := 0; i < 3; i++ {
			_, p := media.Msg(media.Key, 5)
			b = append(b, rtmpc.Chunks(rtmpc.Msg{CS: 4, Type: 9, SID: 1, P: append(p, rnd(r, 300)...)}, s)...)
		}
		return b
	case "abort":
		cs := uint32(4 + r.Intn(3))
		b = append(chunk(0, cs, 5, 1000, 9, 1), rnd(r, size)...)
		b = append(b, rtmpc.Chunks(rtmpc.Msg{CS: 2, Type: 2, P: binary.BigEndian.AppendUint32(nil, []uint32{cs, 2, 0, 0xffffffff, 77}[r.Intn(5)])}, size)...)
		b = append(b, chunk(r.Intn(4), cs, 5, 1000, 9, 1)...)
		return append(b, rnd(r, size)...)
	case "huge":
		b = chunk(0, 4, 0, 0xffffff, []byte{9, 8, 18, 20, 22, 1}[r.Intn(6)], 1)
		for i := 0; i < r.Intn(50); i++ {
			b = append(b, rnd(r, size)...)
			b = append(b, 0xc4)
		}
		return b
	case "many":
		for i := 0; i < 400; i++ {
			b = append(b, chunk(0, uint32(3+r.Intn(65597)), 0, 0xffffff, 9, 1)...)
			b = append(b, rnd(r, size)...)
		}
		return b
	case "switch":
		b = append(chunk(0, 4, 0, 1000, 9, 1), rnd(r, size)...)
		for i := 0; i < 4; i++ {
			n := []uint32{0, 1, 3, 129, 900, 2000, 0xffffff}[r.Intn(7)]
			b = append(b, chunk(r.Intn(4), 4, r.Uint32()&0xffffff, n, []byte{9, 8, 20, 22, 1}[r.Intn(5)], 1)...)
			b = append(b, rnd(r, r.Intn(size+1))...)
		}
		return b
	case "ext":
		for i := 0; i < 6; i++ {
			_, p := media.Msg([]string{media.Key, media.Inter, media.Audio}[r.Intn(3)], 5)
			t := byte(9)
			if p[0] == 0xaf {
				t = 8
			}
			b = append(b, chunk(r.Intn(3), 4, []uint32{0xffffff, 0, 40}[r.Intn(3)], uint32(len(p)), t, 1)...)
			b = append(b, p[:r.Intn(len(p)+1)]...)
		}
		return b
	case "amf":
		for i := 0; i < 3; i++ {
			b = append(b, msg([]byte{20, 17, 18, 15, 16, 19}[r.Intn(6)], amfJunk(r))...)
		}
		return b
	case "deep":
		return msg([]byte{20, 18, 17}[r.Intn(3)], deep(r))
	case "cmd":
		for i := 0; i < 4; i++ {
			a := []interface{}{pick(r, names...)}
			if r.Intn(5) > 0 {
				a = append(a, float64(r.Intn(9)))
			}
			for j := 0; j < r.Intn(5); j++ {
				a = append(a, val(r, 0))
			}
			b = append(b, msg(20, rtmpc.Enc(a...))...)
		}
		return b
	case "few":
		a := []interface{}{pick(r, names...), float64(3), nil, "x", "live", 3.0}
		return msg(20, rtmpc.Enc(a[:r.Intn(7)]...))
	case "video":
		for i := 0; i < 6; i++ {
			b = append(b, msg(9, video(r))...)
		}
		return b
	case "vhdr":
		for i := 0; i < 3; i++ {
			b = append(b, msg(9, vhdr(r))...)
			_, p := media.Msg(media.Key, 5)
			b = append(b, msg(9, p)...)
			b = append(b, msg(9, append([]byte{0x17, 1, 0, 0, 0}, nals(r)...))...)
		}
		return b
	case "nals":
		_, h := media.Msg(media.VHdr, 9)
		b = msg(9, h)
		for i := 0; i < 8; i++ {
			b = append(b, msg(9, append([]byte{[]byte{0x17, 0x27}[r.Intn(2)], 1, 0, 0, byte(r.Intn(256))}, nals(r)...))...)
		}
		return b
	case "audio":
		for i := 0; i < 6; i++ {
			b = append(b, msg(8, audio(r))...)
		}
		return b
	case "ahdr":
		for i := 0; i < 4; i++ {
			b = append(b, msg(8, ahdr(r))...)
			_, p := media.Msg(media.Audio, 5)
			b = append(b, msg(8, p)...)
			_, p = media.Msg(media.Key, 5)
			b = append(b, msg(9, p)...)
		}
		return b
	case "agg":
		var p []byte
		for i := 0; i < 3; i++ {
			_, m := media.Msg([]string{media.Key, media.Audio}[r.Intn(2)], 5)
			n := len(m)
			if r.Intn(3) == 0 {
				n = []int{0, 0xffffff, n + 1, n - 1, n + 11}[r.Intn(5)]
			}
			p = append(p, byte([]int{8, 9, 18, 22, 0, 20, 1}[r.Intn(7)]), byte(n>>16), byte(n>>8), byte(n), byte(r.Intn(256)), 0, 0, byte(r.Intn(256)), 0, 0, 0)
			p = append(p, m...)
			p = append(p, 0, 0, 0, byte(len(m)+11))
		}
		if r.Intn(2) == 0 {
			p = p[:r.Intn(len(p)+1)]
		}
		return append(msg(22, p), msg(22, rnd(r, r.Intn(30)))...)
	case "hevc":
		b = msg(9, hevcConf(r))
		for i := 0; i < 6; i++ {
			b = append(b, msg(9, hevcPic(r))...)
			if r.Intn(4) == 0 {
				b = append(b, msg(9, hevcConf(r))...)
			}
		}
		return b
	case "opus":
		b = msg(8, append([]byte{0xdf, 0}, []byte("OpusHead\x01\x02\x38\x01\x80\xbb\x00\x00\x00\x00\x00")[:r.Intn(20)]...))
		for i := 0; i < 4; i++ {
			b = append(b, msg(8, append([]byte{0xdf, byte(r.Intn(3))}, rnd(r, []int{0, 1, 40, 1500, 70000}[r.Intn(5)])...))...)
			_, p := media.Msg(media.Key, 5)
			b = append(b, msg(9, p)...)
		}
		return b
	case "data":
		for i := 0; i < 4; i++ {
			b = append(b, msg([]byte{15, 18}[r.Intn(2)], rtmpc.Enc(pick(r, "@setDataFrame", "onMetaData", "onTextData", ""), val(r, 0), val(r, 0)))...)
			b = append(b, msg([]byte{15, 18}[r.Intn(2)], rnd(r, r.Intn(9)))...)
		}
		return b
	case "media": // well-formed, with times that jump
		for _, k := range []string{media.Meta, media.VHdr, media.AHdr} {
			t, p := media.Msg(k, 1+r.Intn(50))
			b = append(b, msg(t, p)...)
		}
		for i := 0; i < 12; i++ {
			t, p := media.Msg([]string{media.Key, media.Inter, media.Audio, media.Data, media.EOS}[r.Intn(5)], r.Intn(500))
			if p[0]>>4 <= 2 && len(p) > 4 {
				copy(p[2:5], rnd(r, 3)) // composition time
			}
			b = append(b, msg(t, p)...)
		}
		return b
	case "flip", "cut":
		b = rtmpc.Chunks(rtmpc.Msg{CS: 3, Type: 20, P: rtmpc.Enc("createStream", 2, nil)}, size)
		b = append(b, rtmpc.Chunks(rtmpc.Msg{CS: 3, Type: 20, P: rtmpc.Enc("publish", 3, nil, "never", "live")}, size)...)
		b = append(b, rtmpBytes(r, "media", by, size)...)
		if kind == "cut" {
			return cut(r, b)
		}
		return flip(r, b)
	case "steal":
		b = msg(20, rtmpc.Enc("publish", 7, nil, by, "live"))
		for _, c := range []string{"FCUnpublish", "releaseStream", "closeStream", "deleteStream"} {
			var a interface{} = by
			if c == "deleteStream" || c == "closeStream" {
				a = float64(r.Intn(3))
			}
			b = append(b, msg(20, rtmpc.Enc(c, 8, nil, a))...)
		}
		_, p := media.Msg(media.Key, 99999)
		return append(b, msg(9, p)...)
	}
	panic("attack " + kind)
}

// ---- RTSP ----

// au frames RFC 3640 access units badly.
func aacRTP(r *rand.Rand) []byte {
	n := r.Intn(4)
	b := []byte{byte(r.Intn(2)), byte(16 * n)}
	if r.Intn(3) == 0 {
		b = rnd(r, 2)
	}
	for i := 0; i < n; i++ {
		v := uint16(r.Intn(60)) << 3
		if r.Intn(3) == 0 {
			v = 0xffff
		}
		b = append(b, byte(v>>8), byte(v))
	}
	return append(b, rnd(r, r.Intn(100))...)
}

func rtpPacket(r *rand.Rand, kind string, seq *uint16) []byte {
	*seq += []uint16{1, 1, 1, 1, 2, 0, 0xffff, 300, uint16(r.Intn(65536))}[r.Intn(9)]
	ts := []uint32{0, 3000, 0xffffffff, r.Uint32()}[r.Intn(4)]
	var p []byte
	switch kind {
	case "fua":
		p = append([]byte{byte(0x1c | r.Intn(8)<<5), []byte{0x85, 0x45, 5, 0xc5, 0, 0x80, 0x40, 0xe5, 0x9c}[r.Intn(9)]}, rnd(r, r.Intn(30))...)
		p = p[:len(p)-r.Intn(min(3, len(p)))]
		if r.Intn(6) == 0 {
			p = append([]byte{byte(28 + r.Intn(4))}, rnd(r, r.Intn(4))...)
		}
	case "stapa":
		p = []byte{byte(24 + r.Intn(4))}
		for i := 0; i < r.Intn(4); i++ {
			n := r.Intn(20)
			d := rnd(r, n)
			if r.Intn(3) == 0 {
				n = []int{0, 0xffff, n + 1, 1}[r.Intn(4)]
			}
			p = append(p, byte(n>>8), byte(n))
			p = append(p, d...)
		}
	case "aac":
		p = aacRTP(r)
	default:
		p = rnd(r, r.Intn(60))
		if r.Intn(3) == 0 {
			p = [][]byte{media.IDR(3), media.SPS(3)[:1+r.Intn(4)], media.PPS(2), {0x67}, {0x68}, {0x65}, {}}[r.Intn(7)]
		}
	}
	b := rtspc.RTP(byte([]int{96, 97, 0, 127}[r.Intn(4)*r.Intn(2)]), r.Intn(2) == 0, *seq, ts, 7, p)
	if kind == "rtp" || r.Intn(8) == 0 {
		switch r.Intn(7) {
		case 0:
			b[0] |= byte(r.Intn(16)) // contributing sources
		case 1:
			b[0] |= 0x10 // extension
			if r.Intn(2) == 0 && len(b) >= 16 {
				copy(b[12:], []byte{0xbe, 0xde, 0, byte(r.Intn(4))})
			}
		case 2:
			b[0] |= 0x20 // padding
			b[len(b)-1] = byte(r.Intn(256))
		case 3:
			b = b[:r.Intn(len(b))]
		case 4:
			b[0] = byte(r.Intn(256))
		case 5:
			b = rnd(r, r.Intn(30))
		case 6:
			b = append(b, rnd(r, 4000)...)
		}
	}
	return b
}

func rtcp(r *rand.Rand) []byte {
	b := append([]byte{byte(0x80 | r.Intn(32)), byte(200 + r.Intn(6)), 0, byte(r.Intn(10))}, rnd(r, r.Intn(40))...)
	return mutate(r, b)
}

func avSDP() []byte {
	return append(media.SDP(7), []byte("m=audio 0 RTP/AVP 97\r\na=rtpmap:97 MPEG4-GENERIC/44100/2\r\n"+
		"a=fmtp:97 streamtype=5;profile-level-id=1;mode=AAC-hbr;sizelength=13;indexlength=3;indexdeltalength=3;config=1210\r\na=control:trackID=1\r\n")...)
}

func badSDP(r *rand.Rand) []byte {
	s := string(avSDP())
	set := func(k, v string) {
		i := strings.Index(s, k)
		if i < 0 {
			return
		}
		j := i + len(k)
		e := j + strings.IndexAny(s[j:], ";,\r ")
		s = s[:j] + v + s[e:]
	}
	for i := 0; i <= r.Intn(3); i++ {
		switch r.Intn(12) {
		case 0:
			set("sprop-parameter-sets=", pick(r, "", "!", "AA==", ",", "Zw==", base64.StdEncoding.EncodeToString(rnd(r, r.Intn(20))), base64.StdEncoding.EncodeToString([]byte{0x67, 66, 0})))
		case 1:
			set("config=", pick(r, "", "1", "zz", "12", "FFFFFFFFFF", "0000", fmt.Sprintf("%x", rnd(r, r.Intn(8)))))
		case 2:
			set("sizelength=", pick(r, "", "0", "-1", "999999999", "64", "x", "1"))
		case 3:
			set("indexlength=", pick(r, "", "0", "-3", "4294967296", "x", "16"))
		case 4:
			set("rtpmap:96 ", pick(r, "", "H265/90000", "H264/0", "H264/-1", "H264", "H264/99999999999", "x/1"))
		case 5:
			set("rtpmap:97 ", pick(r, "", "MPEG4-GENERIC/0/2", "MPEG4-GENERIC/44100/0", "PCMA/8000", "MPEG4-GENERIC/-1", "opus/48000/2", "MPEG4-GENERIC"))
		case 6:
			set("a=control:", pick(r, "", "*", "rtsp://x/y", "trackID=1", strings.Repeat("c", 3000)))
		case 7:
			s = string(cut(r, []byte(s)))
		case 8:
			s = string(flip(r, []byte(s)))
		case 9:
			s = strings.Replace(s, "m=video 0 RTP/AVP 96", "m=video "+pick(r, "", "0", "0 RTP/AVP", "0 RTP/AVP x", "0 RTP/AVP 97", "-1 RTP/AVP 96"), 1)
		case 10:
			s = strings.Repeat(s, 1+r.Intn(20))
		case 11:
			s = strings.ReplaceAll(s, "\r\n", pick(r, "\n", "\r", "\r\n\r\n", ""))
		}
	}
	return []byte(s)
}

func rtspBytes(r *rand.Rand, kind, by, url string, ch byte, seq *uint16) []byte {
	x := rtspc.New(nil)
	req := func(m, u string, body []byte, h ...string) []byte { b, _ := x.Req(m, u, h, body); return b }
	ms := []string{"OPTIONS", "DESCRIBE", "ANNOUNCE", "SETUP", "PLAY", "RECORD", "TEARDOWN", "GET_PARAMETER", "PAUSE", "REDIRECT", "SET_PARAMETER"}
	urls := []string{"*", "", "/", "rtsp://", "rtsp://h", "rtsp://h/", "rtsp://h//", "rtsp://h/live", "rtsp://h/live/", "rtsp://h/nope/x", "rtsp://h:x/live/q",
		"rtsp://h/live/../../x", "rtsp://[::1/live/q", "rtsp://h/live/%zz", "rtsp://h/live/%00", "http://h/live/q", "rtsp://h/live/q/r/s/trackID=0", url + "/trackID=9", url + "/trackID=-1",
		url + "/trackID=99999999999999999999", url + "/trackID=", url + "?x=y", url + "/streamid=0", "rtsp://h/live/" + strings.Repeat("u", 5000)}
	var b []byte
	switch kind {
	case "junk":
		return rnd(r, 1+r.Intn(5000))
	case "empty":
		return []byte(pick(r, "\r\n", "\r\n\r\n", "\n\n\n\n", " \r\n\r\n", "\x00", ":\r\n\r\n", "RTSP/1.0 200 OK\r\n\r\n", "OPTIONS\r\n\r\n", "OPTIONS * RTSP/1.0\r\n:\r\n\r\n", "OPTIONS * RTSP/1.0\r\nCSeq\r\n\r\n", "OPTIONS * RTSP/2.0\r\nCSeq: 1\r\n\r\n"))
	case "long":
		return append([]byte(pick(r, "OPTIONS ", "", "OPTIONS * RTSP/1.0\r\nX: ", "OPTIONS * RTSP/1.0\r\n")), bytes.Repeat([]byte("a"), 1000+r.Intn(3000000))...)
	case "headers":
		b = []byte("OPTIONS * RTSP/1.0\r\n")
		for i := 0; i < 1+r.Intn(30000); i++ {
			b = append(b, fmt.Sprintf("X%d: y\r\n", i)...)
		}
		return b
	case "clen":
		cl := pick(r, "-1", "99999999999999999999", "1048577", "4294967296", "x", "", "1048576", "9223372036854775807", "-9223372036854775808", "1e3", "0x10", "2147483648")
		return []byte(pick(r, "ANNOUNCE ", "OPTIONS ", "SETUP ") + url + "x RTSP/1.0\r\nCSeq: 1\r\nContent-Type: application/sdp\r\nContent-Length: " + cl + "\r\n\r\nabc")
	case "method":
		for i := 0; i < 4; i++ {
			m := pick(r, ms...)
			if r.Intn(3) == 0 {
				m = pick(r, "", "x", "describe", "GET", strings.Repeat("M", 3000), "\xff\xfe", "DESCRIBE\t")
			}
			b = append(b, req(m, url, nil, "Session: "+pick(r, "", "0", "x;timeout=", strings.Repeat("9", 400)))...)
		}
		return b
	case "url":
		for i := 0; i < 5; i++ {
			b = append(b, req(pick(r, ms...), pick(r, urls...), nil, "Transport: RTP/AVP/TCP;unicast;interleaved=0-1")...)
		}
		return b
	case "transport":
		for i := 0; i < 5; i++ {
			t := pick(r, "", ";", "RTP", "RTP/AVP", "RTP/AVP;unicast", "RTP/AVP;unicast;client_port=", "RTP/AVP;unicast;client_port=x-y", "RTP/AVP;unicast;client_port=0-0", "RTP/AVP;unicast;client_port=-1--2",
				"RTP/AVP;unicast;client_port=70000-70001", "RTP/AVP;unicast;client_port=5000", "RTP/AVP/TCP;interleaved=", "RTP/AVP/TCP;interleaved=x", "RTP/AVP/TCP;interleaved=256-257", "RTP/AVP/TCP;interleaved=-1-0",
				"RTP/AVP/TCP;interleaved=255-0", "RTP/AVP/TCP;unicast;interleaved=0-0", "RTP/AVP;multicast", "RTP/AVP/TCP;unicast;interleaved=0", "RAW/RAW/UDP", "RTP/AVP;unicast;client_port=1-65535;mode=\"RECORD\"", strings.Repeat("RTP/AVP;", 400),
				"RTP/AVP/TCP;unicast;interleaved=4294967296-4294967297", "RTP/AVP;unicast;client_port=5000-5001-5002", "RTP/AVP;unicast;client_port=4294967297-4294967298;mode=record")
			b = append(b, req("SETUP", url+pick(r, "/trackID=0", "/trackID=1", ""), nil, "Transport: "+t)...)
		}
		return append(b, req(pick(r, "PLAY", "RECORD"), url, nil)...)
	case "session":
		for i := 0; i < 4; i++ {
			b = append(b, req(pick(r, "PLAY", "RECORD", "TEARDOWN", "PAUSE", "GET_PARAMETER"), pick(r, url, "rtsp://h/live/"+by), nil, "Session: "+pick(r, "", "x", "1", "00000000;timeout=-1", "\x00"), "Range: "+pick(r, "npt=0-", "npt=-", "npt=x-y", "clock=", "npt=1e99-", ""))...)
		}
		return b
	case "inter":
		for i := 0; i < 10; i++ {
			f := rtspc.Inter(byte(r.Intn(256)), rnd(r, r.Intn(60)))
			if r.Intn(4) == 0 {
				f = f[:r.Intn(len(f))]
			}
			b = append(b, f...)
		}
		return b
	case "rtp", "fua", "stapa", "aac":
		for i := 0; i < 30; i++ {
			k := kind
			if r.Intn(4) == 0 {
				k = "rtp"
			}
			b = append(b, rtspc.Inter(ch+2*byte(r.Intn(2)*r.Intn(2)), rtpPacket(r, k, seq))...)
		}
		return b
	case "rtcp":
		for i := 0; i < 10; i++ {
			b = append(b, rtspc.Inter(ch+1, rtcp(r))...)
		}
		return b
	case "sdp":
		n := fmt.Sprintf("%ssdp%s", url, letters(r.Intn(1e6)))
		b = req("ANNOUNCE", n, badSDP(r), "Content-Type: application/sdp")
		for t := 0; t < 2; t++ {
			b = append(b, req("SETUP", fmt.Sprintf("%s/trackID=%d", n, t), nil, fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d;mode=record", 2*t, 2*t+1))...)
		}
		b = append(b, req("RECORD", n, nil)...)
		for i := 0; i < 20; i++ {
			b = append(b, rtspc.Inter(byte(2*r.Intn(2)), rtpPacket(r, pick(r, "rtp", "fua", "stapa", "aac"), seq))...)
		}
		return b
	case "flip", "cut":
		b = req("OPTIONS", url, nil)
		b = append(b, req("ANNOUNCE", url+"flip", avSDP(), "Content-Type: application/sdp")...)
		b = append(b, req("SETUP", url+"flip/trackID=0", nil, "Transport: RTP/AVP/TCP;unicast;interleaved=0-1;mode=record")...)
		b = append(b, req("RECORD", url+"flip", nil)...)
		b = append(b, rtspc.Inter(0, rtspc.RTP(96, true, 1, 0, 7, media.IDR(3)))...)
		if kind == "cut" {
			return cut(r, b)
		}
		return flip(r, b)
	case "steal":
		u := "rtsp://h/live/" + by
		b = req("ANNOUNCE", u, media.SDP(3), "Content-Type: application/sdp")
		b = append(b, req("SETUP", u+"/trackID=0", nil, "Transport: RTP/AVP/TCP;unicast;interleaved=0-1;mode=record")...)
		b = append(b, req("RECORD", u, nil)...)
		b = append(b, rtspc.Inter(0, rtspc.RTP(96, true, 1, 0, 7, media.IDR(99999)))...)
		return append(b, req("TEARDOWN", u, nil)...)
	}
	panic("attack " + kind)
}

// ---- HTTP ----

func httpBytes(r *rand.Rand, kind, by string) []byte {
	get := func(m, p string, h ...string) string {
		return m + " " + p + " HTTP/1.1\r\nHost: h\r\n" + strings.Join(append(h, ""), "\r\n") + "\r\n"
	}
	ws := []string{"Upgrade: websocket", "Connection: Upgrade", "Sec-WebSocket-Version: 13", "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ=="}
	path := "/live/" + by + ".flv"
	switch kind {
	case "junk":
		return rnd(r, 1+r.Intn(5000))
	case "cut":
		return cut(r, []byte(get("GET", path, ws...)))
	case "path":
		s := ""
		for i := 0; i < 4; i++ {
			s += get("GET", pick(r, "/", "*", "//", "/live", "/live/", "/live/.flv", "/live/x", "/x/y.flv", "/live/x/y.flv", "/live/"+by, "/live/"+by+".flv/", "/%2e%2e/%2e%2e/etc/passwd", "/live/%00.flv", "/live/..%2f..%2fx.flv",
				"/"+strings.Repeat("p", 5000), "/live/nobody/index.m3u8", "/live/"+by+"/../../x", "/live/"+by+"/index.m3u8?_HLS_msn=99999999999999999999", "/live/"+by+"/index.m3u8?_HLS_msn=-1&_HLS_part=-7", "/live/"+by+"/index.m3u8?_HLS_msn=x",
				"/live/"+by+"/nothing.ts", "/live/"+by+"/index.mpd", "/live/"+by+"/%2e%2e%2f"+by+".ts", "/live/.ts", "/live//index.m3u8"))
		}
		return []byte(s)
	case "header":
		return []byte(get("GET", path, "X: "+strings.Repeat("h", []int{10, 60000, 2000000}[r.Intn(3)]), pick(r, "Content-Length: -1", "Transfer-Encoding: chunked", "Host: a", "Range: bytes=-", "Expect: 100-continue", "Content-Length: 99999999")))
	case "pipeline":
		return []byte(strings.Repeat(get("GET", "/live/nobody.flv"), 1+r.Intn(200)))
	case "method":
		return []byte(get(pick(r, "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "CONNECT", "X", "get", "PRI"), path, "Content-Length: 5") + "hello")
	case "upgrade":
		h := append([]string(nil), ws...)
		i := r.Intn(len(h))
		k := h[i][:strings.Index(h[i], ":")]
		h[i] = pick(r, "X: y", k+":", k+": "+strings.Repeat("k", 4000), k+": \x01", k+": 8")
		return []byte(get(pick(r, "GET", "POST"), pick(r, path, "/live/nobody.flv", "/live/"), h...))
	case "wsjunk":
		return append([]byte(get("GET", path, ws...)), rnd(r, 300)...)
	case "frame":
		var b []byte
		if r.Intn(2) == 0 {
			b = []byte(get("GET", path, ws...))
		}
		for i := 0; i < 3; i++ {
			f := flvc.ClientFrame(byte(r.Intn(16)), rnd(r, r.Intn(200)), r.Intn(2) == 0, r.Intn(4) > 0)
			switch r.Intn(5) {
			case 0:
				f = append([]byte{0x82, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, rnd(r, 30)...)
			case 1:
				f = append([]byte{0x82, 0xff, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, rnd(r, 30)...)
			case 2:
				f = append([]byte{0x89, 0xff, 0, 0, 0, 0, 0x10, 0, 0, 0}, rnd(r, 30)...)
			case 3:
				f[0] |= byte(r.Intn(8)) << 4
			}
			b = append(b, f...)
		}
		return b
	}
	panic("attack " + kind)
}

// ---- SRT: datagrams ----

func transport(r *rand.Rand, kind string) []byte {
	m := tsx.New()
	b := m.Section(0, tsx.PATSection([2]int{1, 0x100}), 0)
	b = append(b, m.Section(0x100, tsx.PMTSection(1, 0x101, nil, tsx.ES{Type: 27, PID: 0x101}, tsx.ES{Type: 15, PID: 0x102}), 0)...)
	if kind == "ts" && r.Intn(2) == 0 { // damaged tables
		i := r.Intn(2) * 188
		j := i + 4 + r.Intn(30)
		b[j] = []byte{0, 0xff, byte(r.Intn(256))}[r.Intn(3)]
		if r.Intn(2) == 0 { // with a matching CRC
			n := int(b[i+6]&0x0f)<<8 | int(b[i+7])
			if n >= 4 && i+8+n-4+4 <= i+188 {
				c := tsx.CRC(b[i+5 : i+8+n-4])
				binary.BigEndian.PutUint32(b[i+8+n-4:], c)
			}
		}
	}
	pts := r.Uint64() & (1<<33 - 1)
	for i := 0; i < 4; i++ {
		var p []byte
		sc := [][]byte{{0, 0, 1}, {0, 0, 0, 1}}[r.Intn(2)]
		for j := 0; j < 4; j++ {
			p = append(p, sc...)
			p = append(p, [][]byte{media.SPS(3), media.SPS(2)[:1+r.Intn(5)], media.PPS(3), media.IDR(5), rnd(r, r.Intn(400)), {}, {0x67}, {0x68}, {9, 0xf0}}[r.Intn(9)]...)
		}
		var dts *uint64
		if d := pts - 3600; r.Intn(2) == 0 {
			dts = &d
		}
		pes := tsx.PES(0xe0, &pts, dts, p, r.Intn(2) == 0, r.Intn(4))
		if kind == "pes" && r.Intn(2) == 0 {
			pes = mutate(r, pes)
		}
		b = append(b, m.All(0x101, pes)...)
		a := []byte{0xff, []byte{0xf1, 0xf9, 0xf0}[r.Intn(3)], byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), 0xfc}
		a = append(a, rnd(r, r.Intn(300))...)
		pes = tsx.PES(0xc0, &pts, nil, a, r.Intn(2) == 0, 0)
		if kind == "pes" && r.Intn(2) == 0 {
			pes = mutate(r, pes)
		}
		b = append(b, m.All(0x102, pes)...)
		pts += 3600
	}
	if kind == "ts" {
		for i := 0; i < r.Intn(6); i++ { // packet headers and adaptation fields
			k := r.Intn(len(b)/188)*188 + r.Intn(8)
			b[k] = byte(r.Intn(256))
		}
		for i := 0; i < r.Intn(4); i++ { // adaptation fields about as long as a packet
			k := r.Intn(len(b)/188) * 188
			b[k], b[k+3], b[k+4] = 0x47, b[k+3]|0x20, byte(180+r.Intn(8))
		}
		if r.Intn(4) == 0 {
			b = cut(r, b)
		}
	}
	return b
}

func srtPackets(r *rand.Rand, kind string, peer uint32, seq *uint32) [][]byte {
	var out [][]byte
	data := func(p []byte) []byte {
		b := make([]byte, 16, 16+len(p))
		binary.BigEndian.PutUint32(b, *seq)
		binary.BigEndian.PutUint32(b[4:], 0xc0000001)
		binary.BigEndian.PutUint32(b[12:], peer)
		*seq = (*seq + 1) & 0x7fffffff
		return append(b, p...)
	}
	for i := 0; i < 8; i++ {
		switch kind {
		case "junk":
			out = append(out, rnd(r, r.Intn(1500)))
		case "short":
			out = append(out, [][]byte{{}, {0x80}, {0x80, 0, 0, 0}, rnd(r, r.Intn(17)), srtc.Ctrl(uint16(r.Intn(9)), 0, peer, nil)[:r.Intn(17)]}[r.Intn(5)])
		case "hs":
			h := srtc.HS(uint32(4+r.Intn(2)), r.Uint32(), []int32{1, -1, 0, -2, 1000, int32(r.Uint32())}[r.Intn(6)], r.Uint32(), r.Uint32())
			if r.Intn(2) == 0 { // extensions
				h = append(h, 0, byte(1+r.Intn(6)), 0, byte(r.Intn(10)))
				h = append(h, rnd(r, r.Intn(40))...)
				h[7] = byte(r.Intn(8))
			}
			out = append(out, srtc.Ctrl(0, 0, []uint32{0, peer}[r.Intn(2)], mutate(r, h)))
		case "ctl":
			t := uint16([]int{1, 2, 3, 4, 6, 7, 8, 0x7fff, 0x7ffe}[r.Intn(9)])
			out = append(out, srtc.Ctrl(t, r.Uint32(), peer, rnd(r, r.Intn(8)*4+r.Intn(2))))
		case "data":
			p := data(rnd(r, r.Intn(1400)))
			if r.Intn(2) == 0 {
				copy(p[:8], rnd(r, 8))
				p[0] &= 0x7f
			}
			out = append(out, p)
		case "seq":
			*seq = []uint32{*seq, *seq + 5, *seq - 1, 0, 0x7fffffff, r.Uint32() & 0x7fffffff}[r.Intn(6)] & 0x7fffffff
			out = append(out, data(bytes.Repeat([]byte{0x47, 0x1f, 0xff, 0x10}, 47)))
		case "ts", "pes":
			b := transport(r, kind)
			for len(b) > 0 {
				n := min(1316, len(b))
				if r.Intn(5) == 0 {
					n = 1 + r.Intn(n)
				}
				out = append(out, data(b[:n]))
				b = b[n:]
			}
			if i > 2 {
				return out
			}
		case "steal": // other sessions' ids
			p := srtc.Ctrl(5, 0, []uint32{0, 1, 2, peer - 1, peer + 1, r.Uint32()}[r.Intn(6)], nil)
			out = append(out, p, srtc.Ctrl(0, 0, 0, srtc.HS(5, 1, -1, 4242, r.Uint32())))
		}
	}
	return out
}
