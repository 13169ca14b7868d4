// Package media makes and recognises media messages that carry an identity.
package media

import (
	"bytes"
	"encoding/base64"

	"vh/rtmpc"
)

// Kinds of message.
const (
	Meta  = "M"
	VHdr  = "V"
	AHdr  = "A"
	Key   = "K"
	Inter = "P"
	Audio = "S"
	Data  = "D" // timed data
	EOS   = "E" // end of sequence
	Other = "?"
)

// Put encodes an id in five bytes without zeros.
func Put(id int) []byte {
	b := make([]byte, 5)
	for i := range b {
		b[i] = 0x80 | byte(id>>(7*i))&0x7f
	}
	return b
}

// Get decodes Put.
func Get(b []byte) int {
	id := 0
	for i := 0; i < 5 && i < len(b); i++ {
		id |= int(b[i]&0x7f) << (7 * i)
	}
	return id
}

func SPS(id int) []byte { return append([]byte{0x67, 0x42, 0x80, 0x1e}, Put(id)...) }
func PPS(id int) []byte { return append([]byte{0x68, 0xce}, Put(id)...) }
func IDR(id int) []byte { return append([]byte{0x65, 0x88}, Put(id)...) }
func Pic(id int) []byte { return append([]byte{0x41, 0x9a}, Put(id)...) }

func avcc(nal []byte) []byte {
	n := len(nal)
	return append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, nal...)
}

// DCR is an AVC decoder configuration record.
func DCR(sps, pps []byte) []byte {
	b := []byte{1, sps[1], sps[2], sps[3], 0xff, 0xe1, byte(len(sps) >> 8), byte(len(sps))}
	b = append(b, sps...)
	b = append(b, 1, byte(len(pps)>>8), byte(len(pps)))
	return append(b, pps...)
}

// Msg returns the RTMP message type and payload of one message.
func Msg(kind string, id int) (byte, []byte) {
	switch kind {
	case Meta:
		return 18, rtmpc.Enc("@setDataFrame", "onMetaData", rtmpc.Ecma{Count: 1, P: []rtmpc.KV{{K: "mark", V: float64(id)}}})
	case VHdr:
		return 9, append([]byte{0x17, 0, 0, 0, 0}, DCR(SPS(id), PPS(id))...)
	case AHdr:
		return 8, append([]byte{0xaf, 0, 0x12, 0x10}, Put(id)...)
	case Key:
		return 9, append([]byte{0x17, 1, 0, 0, 0}, avcc(IDR(id))...)
	case Inter:
		return 9, append([]byte{0x27, 1, 0, 0, 0}, avcc(Pic(id))...)
	case Audio:
		return 8, append([]byte{0xaf, 1, 0x21, 0x10}, Put(id)...)
	}
	switch kind {
	case Data:
		return 18, rtmpc.Enc("onTextData", rtmpc.Obj{{K: "mark", V: float64(id)}})
	case EOS:
		return 9, append([]byte{0x17, 2, 0, 0, 0}, Put(id)...)
	}
	panic("media kind " + kind)
}

// Parse recognises a message.
func Parse(typ byte, p []byte) (kind string, id int) {
	switch typ {
	case 18:
		v, err := rtmpc.Dec(p)
		if err != nil {
			return Other, 0
		}
		kind = Data
		for _, x := range v {
			if x == "onMetaData" {
				kind = Meta
			}
			if m, ok := x.(map[string]interface{}); ok {
				if f, ok := m["mark"].(float64); ok {
					return kind, int(f)
				}
			}
		}
	case 9:
		if len(p) < 10 {
			return Other, 0
		}
		if p[1] == 0 {
			// sps starts at 5+8
			if len(p) >= 13+9 && p[13] == 0x67 {
				id := Get(p[17:])
				if bytes.Equal(p[5:], DCR(SPS(id), PPS(id))) {
					return VHdr, id
				}
			}
			return Other, 0
		}
		if p[1] == 2 && p[0] == 0x17 {
			return EOS, Get(p[5:])
		}
		k, id := NAL(p[9:])
		if k == Key && p[0] != 0x17 || k == Inter && p[0] != 0x27 {
			return Other, 0
		}
		return k, id
	case 8:
		if len(p) >= 9 && p[0] == 0xaf && p[1] == 0 {
			return AHdr, Get(p[4:])
		}
		if len(p) >= 9 && p[0] == 0xaf && p[1] == 1 {
			return Audio, Get(p[4:])
		}
	}
	return Other, 0
}

// NAL recognises one NAL unit.
func NAL(n []byte) (kind string, id int) {
	if len(n) < 7 {
		return Other, 0
	}
	switch n[0] {
	case 0x65:
		return Key, Get(n[2:])
	case 0x41:
		return Inter, Get(n[2:])
	case 0x67:
		return VHdr, Get(n[4:])
	case 0x68:
		return "pps", Get(n[2:])
	}
	return Other, 0
}

// SDP describes a video-only publication with these parameter sets.
func SDP(id int) []byte {
	s := "v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=x\r\nc=IN IP4 0.0.0.0\r\nt=0 0\r\n" +
		"m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\n" +
		"a=fmtp:96 packetization-mode=1;sprop-parameter-sets=" +
		base64.StdEncoding.EncodeToString(SPS(id)) + "," + base64.StdEncoding.EncodeToString(PPS(id)) +
		";profile-level-id=42801E\r\na=control:trackID=0\r\n"
	return []byte(s)
}
