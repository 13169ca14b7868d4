package rtmpc

import (
	"encoding/binary"
	"errors"
	"math"
)

// An AMF0 codec of our own, the oracle for the library's.

// KV is one property; Obj an ordered object; Ecma an ECMA array; Arr a strict array; Date milliseconds.
type KV struct {
	K string
	V interface{}
}
type Obj []KV
type Ecma struct {
	Count uint32
	P     []KV
}
type Arr []interface{}
type Date float64
type DateZ struct {
	MS float64
	Z  uint16
}
type Undef struct{}
type Long string

func str16(s string) []byte {
	b := []byte{byte(len(s) >> 8), byte(len(s))}
	return append(b, s...)
}

// Enc encodes AMF0 values.
func Enc(vals ...interface{}) []byte {
	var b []byte
	for _, v := range vals {
		switch x := v.(type) {
		case nil:
			b = append(b, 5)
		case Undef:
			b = append(b, 6)
		case int:
			b = append(b, num(float64(x))...)
		case uint32:
			b = append(b, num(float64(x))...)
		case float64:
			b = append(b, num(x)...)
		case bool:
			if x {
				b = append(b, 1, 1)
			} else {
				b = append(b, 1, 0)
			}
		case string:
			if len(x) > 0xffff {
				b = append(b, Enc(Long(x))...)
			} else {
				b = append(b, 2)
				b = append(b, str16(x)...)
			}
		case Long:
			b = append(b, 12)
			b = append(b, be32(uint32(len(x)))...)
			b = append(b, x...)
		case Obj:
			b = append(b, 3)
			b = append(b, props(x)...)
		case Ecma:
			b = append(b, 8)
			b = append(b, be32(x.Count)...)
			b = append(b, props(x.P)...)
		case Arr:
			b = append(b, 10)
			b = append(b, be32(uint32(len(x)))...)
			b = append(b, Enc(x...)...)
		case Date:
			b = append(b, 11)
			b = append(b, num(float64(x))[1:]...)
			b = append(b, 0, 0)
		case DateZ:
			b = append(b, 11)
			b = append(b, num(x.MS)[1:]...)
			b = append(b, byte(x.Z>>8), byte(x.Z))
		default:
			panic("amf enc")
		}
	}
	return b
}

func props(p []KV) []byte {
	var b []byte
	for _, kv := range p {
		b = append(b, str16(kv.K)...)
		b = append(b, Enc(kv.V)...)
	}
	return append(b, 0, 0, 9)
}

func be32(v uint32) []byte {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], v)
	return b[:]
}

func num(f float64) []byte {
	b := make([]byte, 9)
	binary.BigEndian.PutUint64(b[1:], math.Float64bits(f))
	return b
}

var errShort = errors.New("amf: truncated")

// Dec decodes a whole AMF0 sequence; objects and ECMA arrays become map[string]interface{}.
func Dec(b []byte) (out []interface{}, err error) {
	for len(b) > 0 {
		var v interface{}
		v, b, err = dec1(b)
		if err != nil {
			return out, err
		}
		out = append(out, v)
	}
	return out, nil
}

func need(b []byte, n int) error {
	if len(b) < n {
		return errShort
	}
	return nil
}

func dec1(b []byte) (interface{}, []byte, error) {
	if err := need(b, 1); err != nil {
		return nil, b, err
	}
	m := b[0]
	b = b[1:]
	switch m {
	case 0:
		if err := need(b, 8); err != nil {
			return nil, b, err
		}
		return math.Float64frombits(binary.BigEndian.Uint64(b)), b[8:], nil
	case 1:
		if err := need(b, 1); err != nil {
			return nil, b, err
		}
		return b[0] != 0, b[1:], nil
	case 2:
		s, r, err := decStr(b)
		return s, r, err
	case 3:
		return decObj(b)
	case 5:
		return nil, b, nil
	case 6:
		return Undef{}, b, nil
	case 8:
		if err := need(b, 4); err != nil {
			return nil, b, err
		}
		return decObj(b[4:])
	case 10:
		if err := need(b, 4); err != nil {
			return nil, b, err
		}
		n := binary.BigEndian.Uint32(b)
		b = b[4:]
		var a []interface{}
		for i := uint32(0); i < n; i++ {
			v, r, err := dec1(b)
			if err != nil {
				return nil, r, err
			}
			a = append(a, v)
			b = r
		}
		return a, b, nil
	case 11:
		if err := need(b, 10); err != nil {
			return nil, b, err
		}
		return Date(math.Float64frombits(binary.BigEndian.Uint64(b))), b[10:], nil
	case 12:
		if err := need(b, 4); err != nil {
			return nil, b, err
		}
		n := int(binary.BigEndian.Uint32(b))
		b = b[4:]
		if err := need(b, n); err != nil {
			return nil, b, err
		}
		return string(b[:n]), b[n:], nil
	}
	return nil, b, errors.New("amf: bad marker")
}

func decStr(b []byte) (string, []byte, error) {
	if err := need(b, 2); err != nil {
		return "", b, err
	}
	n := int(b[0])<<8 | int(b[1])
	b = b[2:]
	if err := need(b, n); err != nil {
		return "", b, err
	}
	return string(b[:n]), b[n:], nil
}

func decObj(b []byte) (interface{}, []byte, error) {
	m := map[string]interface{}{}
	for {
		k, r, err := decStr(b)
		if err != nil {
			return nil, b, err
		}
		b = r
		if k == "" && len(b) > 0 && b[0] == 9 {
			return m, b[1:], nil
		}
		v, r2, err := dec1(b)
		if err != nil {
			return nil, b, err
		}
		m[k] = v
		b = r2
	}
}
