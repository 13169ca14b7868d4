// Command amf compares the library's AMF0 codec with the specification's values and bytes.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"strings"
	"testing/iotest"
	"time"

	"github.com/SmartBrave/Athena/easyio"
	"github.com/sbraveyoung/GGmpeg/libamf"
	"vh/lib"
	"vh/rtmpc"
)

type val struct {
	T string `json:"t"`
	W []int  `json:"w"`
	B bool   `json:"b"`
	N int    `json:"n"`
	C int    `json:"c"`
	P []struct {
		K val `json:"k"`
		V val `json:"v"`
	} `json:"p"`
	E []val `json:"e"`
	H int   `json:"h"`
	Z int   `json:"z"`
}

type scen struct {
	Vals []val `json:"vals"`
	B    []int `json:"b"`
	Ends []int `json:"ends"`
	Seed int   `json:"seed"`
	Enc  bool  `json:"enc"`
	All  bool  `json:"all"` // of every Go type
}

func chars(v val) string {
	b := make([]byte, v.N)
	for i := range b {
		if v.C == 200 {
			b[i] = byte(128 + (i+1)%2*66)
		} else {
			b[i] = byte(97 + (v.C+i+1)%26)
		}
	}
	return string(b)
}

func f64(w []int) float64 {
	return math.Float64frombits(uint64(w[0])<<48 | uint64(w[1])<<32 | uint64(w[2])<<16 | uint64(w[3]))
}

// ours is the value for our own codec.
func ours(v val) interface{} {
	kv := func() (p []rtmpc.KV) {
		for _, x := range v.P {
			p = append(p, rtmpc.KV{K: chars(x.K), V: ours(x.V)})
		}
		return
	}
	switch v.T {
	case "num":
		return f64(v.W)
	case "bool":
		return v.B
	case "str":
		return chars(v)
	case "long":
		return rtmpc.Long(chars(v))
	case "null":
		return nil
	case "undef":
		return rtmpc.Undef{}
	case "obj":
		return rtmpc.Obj(kv())
	case "ecma":
		return rtmpc.Ecma{Count: uint32(v.H), P: kv()}
	case "arr":
		a := rtmpc.Arr{}
		for _, x := range v.E {
			a = append(a, ours(x))
		}
		return a
	case "date":
		return rtmpc.DateZ{MS: f64(v.W), Z: uint16(v.Z)}
	}
	panic(v.T)
}

// text is a canonical text of a value's meaning, from any codec.
func text(v interface{}) string {
	switch x := v.(type) {
	case nil, rtmpc.Undef:
		return "null"
	case bool:
		return fmt.Sprint(x)
	case string:
		return fmt.Sprintf("%d:%q", len(x), x)
	case rtmpc.Long:
		return text(string(x))
	case float64:
		return fmt.Sprintf("#%016x", math.Float64bits(x))
	case rtmpc.Date:
		return fmt.Sprintf("date %d", int64(x))
	case rtmpc.DateZ:
		return text(rtmpc.Date(x.MS))
	case time.Time:
		return fmt.Sprintf("date %d", x.UnixNano()/1e6)
	case rtmpc.Obj:
		return pairs(x)
	case rtmpc.Ecma:
		return pairs(x.P)
	case map[string]interface{}:
		var p []rtmpc.KV
		for k, v := range x {
			p = append(p, rtmpc.KV{K: k, V: v})
		}
		return pairs(p)
	case rtmpc.Arr:
		return text([]interface{}(x))
	case []interface{}:
		var s []string
		for _, y := range x {
			s = append(s, text(y))
		}
		return "[" + strings.Join(s, ",") + "]"
	}
	return fmt.Sprintf("?%T", v)
}

func pairs(p []rtmpc.KV) string {
	var s []string
	for _, x := range p {
		s = append(s, text(x.K)+"="+text(x.V))
	}
	sort.Strings(s)
	return "{" + strings.Join(s, ",") + "}"
}

func texts(v []interface{}) (s []string) {
	for _, x := range v {
		s = append(s, text(x))
	}
	return
}

// theirs is the value as a user of the encoder gives it; k varies the Go type.
func theirs(v val, k int) interface{} {
	switch v.T {
	case "num":
		f := f64(v.W)
		ts := []interface{}{f} // of every type that has the value
		if f == math.Trunc(f) && !(f == 0 && math.Signbit(f)) {
			for _, x := range []interface{}{0, int8(0), int16(0), int32(0), int64(0)} {
				t := reflect.TypeOf(x)
				if m := math.Ldexp(1, t.Bits()-1); f >= -m && f < m {
					ts = append(ts, reflect.ValueOf(int64(f)).Convert(t).Interface())
				}
			}
			for _, x := range []interface{}{uint(0), uint8(0), uint16(0), uint32(0), uint64(0)} {
				t := reflect.TypeOf(x)
				if f >= 0 && f < math.Ldexp(1, t.Bits()) {
					u := uint64(0)
					if f >= 1<<63 {
						u = uint64(f-1<<63) + 1<<63
					} else {
						u = uint64(f)
					}
					ts = append(ts, reflect.ValueOf(u).Convert(t).Interface())
				}
			}
		}
		if float64(float32(f)) == f {
			ts = append(ts, float32(f))
		}
		return ts[k%len(ts)]
	case "obj":
		m := map[string]interface{}{}
		for i, x := range v.P {
			m[chars(x.K)] = theirs(x.V, k+i)
		}
		return m
	case "bool", "str", "null":
		return ours(v)
	}
	panic(v.T)
}

func single(v val) bool {
	for _, x := range v.P {
		if !single(x.V) {
			return false
		}
	}
	return len(v.P) < 2
}

func decode(r io.Reader) (v []interface{}, err error) {
	type res struct {
		v []interface{}
		e error
	}
	c := make(chan res, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				c <- res{nil, fmt.Errorf("PANIC %v", r)}
			}
		}()
		v, e := libamf.AMF0.Decode(easyio.NewEasyReader(r))
		c <- res{v, e}
	}()
	select {
	case x := <-c:
		return x.v, x.e
	case <-time.After(lib.D(10 * time.Second)):
		lib.Missing(1, "Decode does not return")
	}
	return
}

func same(a, b []string) bool {
	return strings.Join(a, "\n") == strings.Join(b, "\n") && len(a) == len(b)
}

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func run(raw json.RawMessage) interface{} {
	var s scen
	lib.Dec(raw, &s)
	var in []interface{}
	for _, v := range s.Vals {
		in = append(in, ours(v))
	}
	want := texts(in)
	b := rtmpc.Enc(in...)
	if len(s.B) > 0 && !bytes.Equal(b, lib.Bytes(s.B)) || len(b) != s.Ends[len(s.Ends)-1] {
		panic("the harness's encoder and the specification differ")
	}
	if o, err := rtmpc.Dec(b); err != nil || !same(texts(o), want) {
		panic(fmt.Sprint("the harness's decoder and the specification differ: ", err, texts(o), want))
	}
	// decoding, however the bytes arrive
	for k, r := range []io.Reader{bytes.NewReader(b), iotest.OneByteReader(bytes.NewReader(b)), iotest.DataErrReader(bytes.NewReader(b)), iotest.HalfReader(bytes.NewReader(b))} {
		if len(b) > 3000 && k > 0 {
			continue
		}
		v, err := decode(r)
		if err != nil || !same(texts(v), want) {
			lib.Bad(1, "decoding %s by reader %d gives %s (%v)", cut(fmt.Sprint(want)), k, cut(fmt.Sprint(texts(v))), err)
		}
	}
	// every prefix
	ends := map[int]int{0: 0}
	for i, e := range s.Ends {
		ends[e] = i + 1
	}
	for n := 0; n < len(b); n++ {
		if len(b) > 600 && n > 40 && n < len(b)-40 && (n*2654435761+s.Seed)%(len(b)/100) != 0 {
			if _, ok := ends[n]; !ok {
				continue
			}
		}
		v, err := decode(bytes.NewReader(b[:n]))
		m, whole := ends[n]
		if whole && (err != nil || !same(texts(v), want[:m])) {
			lib.Bad(2, "the first %d of %d bytes, %d values: %s (%v)", n, len(b), m, cut(fmt.Sprint(texts(v))), err)
		}
		if !whole && err == nil {
			lib.Bad(2, "the first %d of %d bytes, which end within a value, decode without error to %s; the values are %s", n, len(b), cut(fmt.Sprint(texts(v))), cut(fmt.Sprint(want)))
		}
		if !whole && len(b) < 600 {
			e := errors.New("broken")
			if _, err := decode(io.MultiReader(bytes.NewReader(b[:n]), iotest.ErrReader(e))); err == nil {
				lib.Bad(2, "a read error after %d of %d bytes is not reported", n, len(b))
			}
		}
	}
	if !s.Enc {
		return nil
	}
	// encoding
	for k := 0; s.All && k < 13; k++ {
		var buf bytes.Buffer
		x := theirs(s.Vals[0], k)
		if err := libamf.AMF0.Encode(easyio.NewEasyWriter(&buf), x); err != nil || single(s.Vals[0]) && !bytes.Equal(buf.Bytes(), b) {
			lib.Bad(3, "encoding %s given as %T: % x, % x is right (%v)", cut(want[0]), x, buf.Bytes()[:min(buf.Len(), 40)], b[:min(len(b), 40)], err)
		}
	}
	var buf bytes.Buffer
	at := 0
	for i, v := range s.Vals {
		x := theirs(v, s.Seed+i)
		if err := libamf.AMF0.Encode(easyio.NewEasyWriter(&buf), x); err != nil {
			lib.Bad(3, "encoding %s: %v", cut(want[i]), err)
		}
		if buf.Len() != s.Ends[i] {
			lib.Bad(3, "encoding %s takes %d bytes, %d are right", cut(want[i]), buf.Len()-at, s.Ends[i]-at)
		}
		if single(v) && !bytes.Equal(buf.Bytes()[at:], b[at:s.Ends[i]]) {
			lib.Bad(3, "encoding %s gives % x, % x is right", cut(want[i]), buf.Bytes()[at:], b[at:s.Ends[i]])
		}
		at = s.Ends[i]
	}
	if o, err := rtmpc.Dec(buf.Bytes()); err != nil || !same(texts(o), want) {
		lib.Bad(3, "encoding %s gives bytes that decode to %s (%v)", cut(fmt.Sprint(want)), cut(fmt.Sprint(texts(o))), err)
	}
	if v, err := decode(bytes.NewReader(buf.Bytes())); err != nil || !same(texts(v), want) {
		lib.Bad(4, "encoding and decoding %s gives %s (%v)", cut(fmt.Sprint(want)), cut(fmt.Sprint(texts(v))), err)
	}
	return nil
}

func main() { lib.Main(8, run) }
